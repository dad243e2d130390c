"""The known findings: listed in KNOWN_FINDINGS.txt, probed at every run."""

import os
import re
import subprocess
import sys

from .core import VERIF

PATH = os.path.join(VERIF, "KNOWN_FINDINGS.txt")


def entries():
    """[(property, key, what)] of the findings which are still open."""
    res = []
    with open(PATH) as f:
        for line in f:
            m = re.match(r"known: property=(\w+) key=([\w-]+) (.*)", line)
            if m:
                res.append(m.groups())
    return res


def report(prop):
    """The line to print for each listed finding which still shows."""
    for p, key, what in entries():
        if p == prop:
            r = subprocess.run(
                [sys.executable, "-m", "vf", "--probe", key],
                cwd=VERIF,
                stdout=subprocess.PIPE,
                stderr=subprocess.DEVNULL,
                timeout=300,
            )
            if r.returncode == 1:
                yield "KNOWN-FINDING: property=%s %s" % (p, what)


def probe(key):
    """1 if the defect still shows, 0 otherwise."""
    from . import probes

    return 1 if getattr(probes, key.replace("-", "_"))() else 0
