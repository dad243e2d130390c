"""Runtime monitors for pyclibrary (see /verif/DESIGN.md)."""
