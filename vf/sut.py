"""The public API of the code under test, imported from the working tree."""

from .core import import_sut

pyclibrary = import_sut()

from pyclibrary import CLibrary, CParser, auto_init, build_array, cast_to  # noqa: E402
from pyclibrary.c_parser import Enum, Struct, Type, Union  # noqa: E402
from pyclibrary.errors import DefinitionError  # noqa: E402

KINDS = [
    "types",
    "variables",
    "fnmacros",
    "macros",
    "structs",
    "unions",
    "enums",
    "functions",
    "values",
]


def quals_of(t):
    """Qualifiers of a type, an unqualified level being always ()."""
    return tuple(tuple(q) if q else () for q in t.type_quals)


def freeze(obj):
    """A comparable deep snapshot of anything found in the definitions.

    Keeps apart what == does not (True/1, qualifiers of the types, list/tuple,
    Struct/Union).
    """
    if isinstance(obj, Type):
        return (
            "Type",
            tuple(freeze(x) for x in obj),
            quals_of(obj),
        )
    if isinstance(obj, Struct):
        return ("Struct", freeze(dict(obj)))
    if isinstance(obj, Union):
        return ("Union", freeze(dict(obj)))
    if isinstance(obj, dict):
        return (
            "dict",
            tuple(sorted(((freeze(k), freeze(v)) for k, v in obj.items()), key=repr)),
        )
    if isinstance(obj, list):
        return ("list", tuple(freeze(x) for x in obj))
    if isinstance(obj, tuple):
        return ("tuple", tuple(freeze(x) for x in obj))
    if isinstance(obj, float) and obj != obj:
        return ("nan",)
    return (type(obj).__name__, obj)


def snap(parser):
    """Everything a parser found."""
    return freeze({k: parser.defs[k] for k in KINDS})


def snap_files(parser):
    """Everything a parser found, by file (empty groups do not count)."""
    return {
        f: {k: freeze(d[k]) for k in d if d[k]}
        for f, d in parser.file_defs.items()
        if any(d.values())
    }


def diff(a, b, where=""):
    """Names and kinds on which two definition sets differ."""
    res = []
    for k in KINDS:
        x, y = a.get(k, {}), b.get(k, {})
        for n in sorted({*x, *y}, key=str):
            if n not in x:
                res.append("%s %r only in the second: %r" % (k, n, y[n]))
            elif n not in y:
                res.append("%s %r only in the first: %r" % (k, n, x[n]))
            elif freeze(x[n]) != freeze(y[n]):
                res.append("%s %r: %r / %r" % (k, n, x[n], y[n]))
    return res


_auto = False


def ready():
    """Initialise the parser once per process with the default settings."""
    global _auto
    if not _auto:
        CParser()
        _auto = True
