"""C23: names resolve to the same object whatever the way they are asked."""

import ctypes as ct

from ..core import gcc_lib
from ..sut import CLibrary, CParser, ready

RULE = (
    "A case is a library whose header gives to names of a small pool, with and without "
    "one of 0 to 3 prefixes, random meanings in the separate name spaces of C (function, "
    "type, enumerator; structure, union or enumeration; macro), so that the same name, "
    "or the same name less a prefix, exists in several kinds. A random history asks for "
    "names, full, without prefix or unknown, as attributes or by kind. Oracle: a model "
    "of the documented resolution tells which definition is meant; what is obtained is "
    "that definition (by value, size, fields or by calling it) and always the same "
    "object for the same definition; unknown names are refused, each time. Distinct: by "
    "header, prefixes and history."
)
CASES = {"quick": 300, "thorough": 5000}
REQUIRE = {"resolved": 12000, "refused": 3000, "without prefix": 2500, "hidden kinds": 1500,
           "same object again": 8000, "aliases of aliases": 60}
ASSUMPTIONS = [
    "names of the attributes of the wrapper itself are not used",
    "a name which is a typedef of something else is not asked as a structure, union or "
    "enumeration",
]

ORDER = ["values", "functions", "types", "structs", "unions", "enums"]
BASES = ["x", "get", "Size", "count_1", "a", "open", "T"]
PREFIXES = ["p_", "Lib", "_q", "x", "p_p_", "get", "P"]
BASIC = [("char", ct.c_char), ("short", ct.c_short), ("int", ct.c_int),
         ("double", ct.c_double), ("unsigned char", ct.c_ubyte),
         ("long", ct.c_long), ("float", ct.c_float)]


class Model:
    def __init__(self):
        #: kind -> full name -> how to recognise the definition
        self.defs = {k: {} for k in ORDER}
        self.alias = {}  # (kind, typedef name) -> tag
        self.types = {}  # typedefs of other things
        self.lines, self.src, self.end = [], [], []
        self.n = 0

    def number(self):
        self.n += 1
        return self.n


def build(ctx, prefixes):
    rng = ctx.rng
    m = Model()
    names = set()
    for b in rng.sample(BASES, rng.randint(2, 5)):
        forms = [b] + [p + b for p in prefixes] + [p + q + b for p in prefixes
                                                   for q in prefixes]
        names.update(rng.sample(forms, min(len(forms), rng.randint(1, 4))))
    for name in sorted(names):
        tag = rng.choice(["", "", "struct", "union", "enum"])
        kind = rng.choice(["", "function", "function", "type", "enumerator", "typedef"])
        k = m.number()
        if tag in ("struct", "union"):
            m.lines.append("%s %s { char first; char m_%d[%d]; };" % (tag, name, k, k))
            m.defs[tag + "s"][name] = "m_%d" % k
        elif tag == "enum":
            m.lines.append("enum %s { e_%d = %d };" % (name, k, k))
            m.defs["enums"][name] = {"e_%d" % k: k}
            m.defs["values"]["e_%d" % k] = k
        if kind == "function":
            m.lines.append("int %s(void);" % name)
            if rng.random() < 0.9:
                m.src.append("int %s(void) { return %d; }" % (name, 1000 + k))
                m.defs["functions"][name] = 1000 + k
            else:
                m.defs["functions"][name] = None  # not in the library
        elif kind == "type":
            t, c = rng.choice(BASIC)
            m.lines.append("typedef %s %s[%d];" % (t, name, k + 1))
            m.defs["types"][name] = (c, k + 1)
            m.types[name] = True
        elif kind == "typedef" and tag in ("struct", "union"):
            # The usual typedef struct x x
            m.lines.append("typedef %s %s %s;" % (tag, name, name))
            m.defs["types"][name] = "m_%d" % k
            m.alias[tag + "s", name] = name
        elif kind == "typedef":
            # Another name of an unnamed structure or enumeration
            what = rng.choice(["struct", "union", "enum"])
            if tag:
                continue
            # Possibly through others
            chain = ["al_%d_%d" % (k, i) for i in range(rng.choice([0, 0, 1, 2]))] + [name]
            if what == "enum":
                m.lines.append("typedef enum { u_%d = %d } %s;" % (k, k, chain[0]))
                m.defs["values"]["u_%d" % k] = k
            else:
                m.lines.append("typedef %s { int first; char m_%d[%d]; } %s;"
                               % (what, k, k, chain[0]))
            m.lines += ["typedef %s %s;" % x for x in zip(chain, chain[1:])]
            for n in chain:
                if n != name:
                    ctx.saw("aliases of aliases")
                m.defs["types"][n] = (ct.c_int, None) if what == "enum" else "m_%d" % k
                m.alias[what + "s", n] = {"u_%d" % k: k} if what == "enum" else "m_%d" % k
        elif kind == "enumerator":
            m.lines.append("enum { %s = %d };" % (name, 2000 + k))
            m.defs["values"][name] = 2000 + k
        if kind not in ("enumerator",) and rng.random() < 0.25:
            # Defined after all the rest, which it does not change
            v = rng.choice([3000 + k, 0, -k, 0.5, "text%d" % k])
            m.end.append("#define %s %s" % (name, '"%s"' % v if isinstance(v, str) else v))
            m.defs["values"][name] = v
        elif rng.random() < 0.05:
            # No value: not found there
            m.end.append("#define %s" % name)
            m.defs["values"].setdefault(name, None)
    return m


def recognise(ctx, lib, obj, kind, want):
    """The object is the one of the definition."""
    if kind == "values" or kind == "enums":
        ctx.eq(obj, want, "the value")
        ctx.true(type(obj) is type(want), "the type of the value", got=obj)
    elif kind == "functions":
        ctx.eq(obj()(), want, "what the function gives")
    elif isinstance(want, str):
        base = {"structs": (ct.Structure,), "unions": (ct.Union,),
                "types": (ct.Structure, ct.Union)}[kind]
        ctx.true(isinstance(obj, type) and issubclass(obj, base), "not a %s" % kind,
                 got=obj)
        ctx.true(any(f[0] == want for f in obj._fields_), "another structure",
                 got=obj._fields_, expected=want)
    else:
        c, n = want
        if n is None:
            ctx.true(obj is c, "another type", got=obj, expected=want)
        else:
            ctx.true(isinstance(obj, type) and issubclass(obj, ct.Array)
                     and obj._type_ is c and obj._length_ == n, "another type",
                     got=obj, expected=want)


def forms(name, prefixes):
    return [name] + [p + name for p in prefixes]


def by_kind(m, prefixes, kind, name):
    """Full name and recognition of what (kind, name) means; None if nothing."""
    for n in forms(name, prefixes):
        if n in m.defs[kind]:
            return n, m.defs[kind][n]
        if (kind, n) in m.alias:
            return "typedef " + n, m.alias[kind, n]
        if kind in ("structs", "unions", "enums") and n in m.defs["types"]:
            return "?", None
    return None


def by_attr(m, prefixes, name):
    for kind in ORDER:
        for n in forms(name, prefixes):
            if n in m.defs[kind]:
                if m.defs[kind][n] is None and kind == "values":
                    break
                return kind, n, m.defs[kind][n]
    return None


def case(ctx):
    ready()
    rng = ctx.rng
    prefixes = rng.sample(PREFIXES, rng.choice([0, 1, 1, 2, 3]))
    m = build(ctx, prefixes)
    path = ctx.write("n.h", "\n".join(m.lines + m.end) + "\n")
    so = gcc_lib(ctx, "\n".join(m.src) + "\n", "names")
    given = prefixes
    if not prefixes:
        given = rng.choice([None, []])
    elif len(prefixes) == 1 and rng.random() < 0.5:
        given = prefixes[0]
    kept = list(given) if isinstance(given, list) else given
    lib = CLibrary(so, CParser(path), prefix=given)
    known = sorted({n for k in ORDER for n in m.defs[k]})
    pool = list(known)
    for n in known:
        for p in prefixes:
            if n.startswith(p) and len(n) > len(p):
                pool += [n[len(p):]] * 2
        pool.append(n + "_")
    pool += BASES + ["nope", "p_", "X"]
    pool = [n for n in pool if n.isidentifier()]
    seen = {}
    trace = []
    for _ in range(160):
        name = rng.choice(pool)
        if rng.random() < 0.45:
            trace.append(name)
            found = by_attr(m, prefixes, name)
            if found is None or (found[0] == "functions" and found[2] is None):
                ctx.raises(Exception, getattr, lib, name)
                ctx.saw("refused")
                continue
            kind, full, want = found
            obj = getattr(lib, name)
            if sum(n in m.defs[k] for k in ORDER for n in forms(name, prefixes)) > 1:
                ctx.saw("hidden kinds")
        else:
            kind = rng.choice(ORDER)
            trace.append((kind, name))
            found = by_kind(m, prefixes, kind, name)
            if found is not None and found[1] is None and kind != "functions":
                continue
            if found is None or found[1] is None:
                ctx.raises(Exception, lib, kind, name)
                ctx.saw("refused")
                continue
            full, want = found
            obj = lib(kind, name)
        ctx.saw("resolved")
        ctx.kind("kinds resolved", kind)
        if name != full:
            ctx.saw("without prefix")
        recognise(ctx, lib, obj, kind, want)
        if full.startswith("typedef "):
            continue
        key = kind, full
        if key in seen:
            ctx.saw("same object again")
            ctx.true(obj is seen[key], "another object for the same definition",
                     definition=key, asked=name, got=obj, before=seen[key])
        seen[key] = obj
    # The same class by typedef and by tag
    for (kind, n), tag in m.alias.items():
        if kind != "enums" and n in m.defs[kind]:
            ctx.true(lib("types", n) is lib(kind, tag), "another class by typedef",
                     name=n)
    for k in rng.choices(["nokind", "variables", "macro", "", "Functions"], k=3):
        ctx.raises(Exception, lib, k, rng.choice(known or ["x"]))
        ctx.saw("refused")
    for k in ORDER:
        ctx.true(lib[k] is lib[k] and set(m.defs[k]) <= set(lib[k]),
                 "lib[%r] are not the definitions" % k)
    ctx.eq(given, kept, "the prefixes given by the caller")
    ctx.case_key("\n".join(m.lines + m.end), prefixes, trace)
