"""C06: declarations are understood like C does."""

from .. import cgen
from ..cgen import Arr, Base, Fn, Names, Ptr, Ref, TypeGen, declare, declarator, shape, spec
from ..sut import CParser, freeze, ready

RULE = (
    "A case is a header of random declarations (variables, typedefs, prototypes and "
    "function definitions, one or several declarators each) whose types are random "
    "trees of pointers, arrays, functions and parentheses, written out as C; the "
    "definition reported for each name is compared with the tree. Variables are also "
    "initialised with what has no constant value (calls, addresses, casts of pointers, "
    "sizeof, ...): the type is the same and there is no value; a size which cannot be "
    "computed is reported as unknown. Functions "
    "of C++ (references, default values) are also declared. Non-trivial: at "
    "least one declarator with two derivations. Distinct: by the header text."
)
CASES = {"quick": 1000, "thorough": 4000}
REQUIRE = {"declared names": 500, "functions": 50, "typedefs": 50, "variables": 50,
           "initialised without constant": 100, "unknown sizes": 50,
           "references": 200, "default values": 100}
ASSUMPTIONS = ["the type tree model of vf/cgen.py (checked against gcc by C18-C20)"]


#: Initial values which are no constants, {} being a type.
INIT = [
    "{f}(2)", "{f}()", "{f}(2, {f}({x}))", "{x}[2]", "{x}[{x} + 1][3]", "{x}++", "{x}--", "++{x}",
    "--{x}", "sizeof {x}", "sizeof({t})", "sizeof ({t}) * 2", "&{x}", "&{x}[3]", "*{x}", "-{x}",
    "~{x}", "!{x}", "({t}){x}", "({t})&{x}", "({t} *){x}", "({t} const *)&{x}", "{x}.{y}", "{x}->{y}",
    "{x}->{y}[2].{x}", "{x} ? {y} : 3", "{x} && {y}", "{x} == 2", "{x} != {y}", "{x} << 2", "2 + {x}",
    "{f}({x}) + {f}(3)", "{f}(\"a;b\")", "{f}('a')", "-{f}(-1)", "({x})", "{x} = 3",
    "{x} | {y} & 3", "{{ {f}(2), {x} }}", "{{ 1, {x} }}", "{{ &{x}, &{y} }}", "{{ sizeof({t}), 1 }}",
    "{{ ({t}){x}, -{x} }}", "sizeof(struct {x} *)", "(struct {x} *){y}", "(unsigned long)&{x}",
]  # fmt: skip


DEFAULTS = ["3", "0x10", '"x, y)"', "1.5", "NULL", "'a'", "nothing", "0"]


def cpp(ctx, t):
    """Make a function one of C++: references, default values."""
    rng = ctx.rng

    def void(x):
        return isinstance(x, Base) and x.spec == "void"

    if rng.random() < 0.4 and not void(t.ret):
        ctx.saw("references")
        t.ret = Ref(t.ret)
    for i, (n, p) in enumerate(t.params or ()):
        if rng.random() < 0.5 and not isinstance(p, Ref):
            ctx.saw("references")
            t.params[i] = (n, Ref(p))
        if rng.random() < 0.4:
            ctx.saw("default values")
            t.defaults[i] = rng.choice(DEFAULTS)
    for _, p in t.params or ():
        if isinstance(p, Ptr) and isinstance(p.to, Fn) and rng.random() < 0.5:
            cpp(ctx, p.to)


def wrap(rng, t, name):
    """The declarator, with some redundant parentheses."""
    d = declarator(t, name)
    if isinstance(t, Base) or rng.random() > 0.15:
        return d
    return d if isinstance(t, Fn) else "(%s)" % d


def case(ctx):
    ready()
    rng = ctx.rng
    names = Names(rng, dollar=rng.choice([0.0, 0.0, 0.2]))
    lines, want, deep, as_is = [], [], 0, set()
    sizes = []
    for _ in range(rng.randrange(3)):
        n = names.new("N_")
        v = rng.randint(1, 40)
        form = rng.choice(["#define %s %d", "enum { %s = %d };", "enum { %s = %d };"])
        lines.append(form % (n, v))
        sizes += [(n, v), ("%s + 1" % n, v + 1), ("(%s*2)" % n, v * 2)]
    sizes += [("2 * 3", 6), ("(1 << 4)", 16), ("0x10", 16), ("'a'" * 0 or "8-1", 7)]
    if rng.random() < 0.5:
        sizes += [("sizeof(int)", cgen.UNKNOWN), ("%s_" % names.new(), cgen.UNKNOWN),
                  ("2*sizeof(struct u_ *)", cgen.UNKNOWN), ("%s(3)" % names.new(), cgen.UNKNOWN)]
    bases = list(cgen.FUND)
    tags = []
    for k in ("struct", "union", "enum"):
        if rng.random() < 0.5:
            tag = names.new("tag_")
            body = "int m;" if k != "enum" else "%s" % names.new("E_")
            lines.append("%s %s { %s };" % (k, tag, body))
            tags.append("%s %s" % (k, tag))
    bases += tags * 4
    gen = TypeGen(rng, bases, sizes)
    for _ in range(rng.randint(4, 10)):
        r = rng.random()
        ctx.saw("declarations")
        if r < 0.3:
            # Prototype or definition of a function.
            t = gen.function(rng.randint(0, 3))
            if rng.random() < 0.25:
                cpp(ctx, t)
            n = names.new()
            text = declare(t, n)
            text = rng.choice(["", "", "extern ", "static ", "inline "]) + text
            if rng.random() < 0.25:
                text += " " + rng.choice(
                    ["{}", "{ return 0; }", "{ int i = 0; if (i) { i++; } }",
                     "{ char *s = \"a\"; }", "{ return '}'; }", "{ puts(\"{ {\"); }",
                     "{ if (x) { y = '{'; } else { z(\"}\"); } }", "{ f(\"\\\"}\", '\\''); }"]
                )
            else:
                text += ";"
            lines.append(text)
            want.append(("functions", n, cgen.expected_function(t), t))
            continue
        k = "typedef" if r < 0.65 else "variable"
        b = gen.base()
        group = []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            # Several declarators share their base type.
            t = gen.object(rng.randint(0, 4))
            if rng.random() < 0.1:
                t = Arr(t, None)
            if rng.random() < 0.2:
                t = Ptr(gen.function(rng.randint(0, 2)))
                if rng.random() < 0.4:
                    t = Arr(t, rng.randint(1, 9))
            if cgen.base_of(t).spec == "void" or group:
                t = rebase(t, b)
            else:
                b = cgen.base_of(t)
            n = names.new()
            group.append((n, t))
        text = "%s %s;" % (
            spec(group[0][1]),
            ", ".join(wrap(rng, t, n) for n, t in group),
        )
        if k == "typedef":
            lines.append("typedef " + text)
            for n, t in group:
                want.append(("types", n, cgen.expected(t), t))
                if rng.random() < 0.5:
                    gen.bases.append(n)
        else:
            if len(group) == 1 and rng.random() < 0.4:
                # A value which is no constant
                ctx.saw("initialised without constant")
                x = rng.choice([names.new(), *[w[1] for w in want if w[0] == "variables"]])
                init = rng.choice(INIT)
                ctx.kind("initialisers", init)
                ty = rng.choice([*cgen.FUND, "T_", *tags])
                text = "%s = %s;" % (
                    text[:-1], init.format(x=x, y=names.new(), f=names.new(), t=ty)
                )
                as_is.add(len(lines))
            lines.append(rng.choice(["", "", "extern ", "static "]) + text)
            for n, t in group:
                want.append(("variables", n, (None, cgen.expected(t)), t))
    if rng.random() < 0.3:
        lines = [
            # The operators of several characters must stay whole
            l if l.startswith("#") or i in as_is else cgen.relayout(rng, l, comments=False)
            for i, l in enumerate(lines)
        ]
    text = "\n".join(lines) + "\n"
    path = ctx.write("h.h", text)
    p = CParser(path)
    for kind, n, exp, t in want:
        ctx.saw("declared names")
        ctx.saw({"types": "typedefs"}.get(kind, kind))
        ctx.kind("type shapes", shape(t))
        if unknown(t):
            ctx.saw("unknown sizes")
        if len(shape(t)) > 2:
            deep += 1
        ctx.true(n in p.defs[kind], "%s %s is missing" % (kind, n), expected=exp)
        ctx.eq(freeze(p.defs[kind][n]), freeze(exp), "%s %s" % (kind, n),
               shown=p.defs[kind][n], want=exp)
        for other in ("functions", "variables", "types"):
            if other != kind:
                ctx.true(n not in p.defs[other], "%s is also in %s" % (n, other))
    # Nothing else was found.
    for kind in ("functions", "variables"):
        ctx.eq(
            sorted(p.defs[kind]), sorted(n for k, n, _, _ in want if k == kind), kind
        )
    if deep:
        ctx.case_key(text)


def rebase(t, b):
    if isinstance(t, Base):
        return b
    if isinstance(t, Ptr):
        return Ptr(rebase(t.to, b), t.quals)
    if isinstance(t, Arr):
        return Arr(rebase(t.of, b), t.n, t.text)
    return Fn(rebase(t.ret, b), t.params)


def unknown(t):
    """Is there an unknown size in the type?"""
    if isinstance(t, Arr):
        return t.n is cgen.UNKNOWN or unknown(t.of)
    return isinstance(t, Ptr) and unknown(t.to)
