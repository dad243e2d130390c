"""C07: qualifiers are kept at their level, the other words are left out."""

from .. import cgen
from ..cgen import Arr, Base, Fn, Names, Ptr, TypeGen, declarator, spec
from ..sut import CParser, Type, freeze, ready

RULE = (
    "A case is a header of random declarations (variables, typedefs, prototypes, "
    "function definitions, members) with qualifiers before and after the base type and "
    "after each '*', in parameters and results, storage classes, compiler words "
    "(__name, __name(...)) and calling conventions. The reported type must have each "
    "qualifier at its own level and in the order written, and be the one of the same "
    "declaration without storage class and compiler words. Distinct: by the text."
)
CASES = {"quick": 700, "thorough": 6000}
REQUIRE = {"qualifiers": 1500, "storage classes": 300, "compiler words": 300,
           "calling conventions": 200}
ASSUMPTIONS = ["the type tree model of vf/cgen.py"]

EXT = ["__extension__", "__attribute__((packed))", "__unaligned", "__declspec(dllexport)",
       "__attribute__((aligned(8), x(\"a\")))", "__in", "__w64", "__export"]
CONV = ["__cdecl", "__stdcall"]


class Gen(TypeGen):
    """Adds compiler words to the qualifiers, and calling conventions."""

    def __init__(self, ctx, *args, **kwargs):
        self.ctx = ctx
        super().__init__(*args, **kwargs)

    def mix(self, q, before=False):
        q = list(q)
        rng = self.rng
        if rng.random() < 0.05:
            q.insert(rng.randint(0, len(q)), rng.choice(["near", "far"]))
        self.ctx.saw("qualifiers", len(q))
        if rng.random() < 0.08:
            self.ctx.saw("compiler words")
            # '__name (' would read as a word with arguments
            w = rng.choice(EXT if before else [w for w in EXT if "(" in w])
            q.insert(rng.randint(0, len(q)), w)
        return tuple(q)

    def base(self, void=False):
        b = super().base(void)
        return Base(b.spec, self.mix(b.pre, True), self.mix(b.post) if self.post else ())

    def pointer(self, depth):
        p = super().pointer(depth)
        p.quals = self.mix(p.quals)
        if isinstance(p.to, Fn) and self.rng.random() < 0.3:
            self.ctx.saw("calling conventions")
            p.conv = self.rng.choice(CONV)
        return p


STORAGE = ["", "", "extern ", "static ", "inline ", "static inline ", "extern inline ",
           'extern "C" ']


def storage(ctx, kinds=STORAGE):
    s = ctx.rng.choice(kinds)
    if s:
        ctx.saw("storage classes")
    ctx.kind("storage classes", s)
    return s


def case(ctx):
    ready()
    rng = ctx.rng
    names = Names(rng)
    gen = Gen(ctx, rng, list(cgen.FUND), quals=rng.choice([0.3, 0.8]))
    lines, want = [], []
    for tag in ("struct", "union", "enum"):
        if rng.random() < 0.4:
            n = names.new("t_")
            body = names.new("E_") if tag == "enum" else "int m;"
            lines.append("%s %s { %s };" % (tag, n, body))
            gen.bases += ["%s %s" % (tag, n)] * 5
    if rng.random() < 0.2:
        lines.append('extern "C" {')
    for _ in range(rng.randint(4, 9)):
        n = names.new()
        r = rng.random()
        gen.post = True
        if r < 0.4:
            t = gen.function(rng.randint(0, 2))
            exp = cgen.expected_function(t)
            d = declarator(t, n)
            if rng.random() < 0.3 and isinstance(t.ret, Base):
                ctx.saw("calling conventions")
                conv = rng.choice(CONV)
                d = "%s %s" % (conv, d)
                e = exp[0]
                exp = Type(Type(*e, conv, type_quals=(*e.type_quals, ())), exp[1])
            text = "%s%s %s" % (storage(ctx), spec(t), d)
            text += " { return 0; }" if rng.random() < 0.2 else ";"
            lines.append(text)
            want.append(("functions", n, exp))
        elif r < 0.55:
            # Several declarators: the qualifiers before the type are for all.
            gen.post = False
            b = gen.base()
            group = []
            for _ in range(rng.randint(2, 3)):
                m = names.new()
                t = b
                for _ in range(rng.randint(0, 2)):
                    if rng.random() < 0.6:
                        t = Ptr(t, gen.mix(cgen.rand_quals(rng, 0.6, True)))
                    else:
                        t = Arr(t, rng.randint(1, 9))
                group.append((m, t))
            td = rng.random() < 0.5
            text = "typedef " if td else storage(ctx, ["", "extern ", "static "])
            lines.append(
                "%s%s %s;" % (text, spec(b), ", ".join(declarator(t, m) for m, t in group))
            )
            for m, t in group:
                e = cgen.expected(t)
                want.append(("types", m, e) if td else ("variables", m, (None, e)))
        elif r < 0.7:
            own = Names(rng)
            ms = []
            for _ in range(rng.randint(1, 4)):
                t = gen.object(2) if rng.random() < 0.8 else gen.pointer(2)
                ms.append((own.new(), t))
            kw = rng.choice(["struct", "union"])
            lines.append(
                "%s %s { %s };"
                % (kw, n, " ".join("%s %s;" % (spec(t), declarator(t, m)) for m, t in ms))
            )
            want.append((kw + "s", n, [(m, cgen.expected(t), None) for m, t in ms]))
        else:
            t = gen.object(rng.randint(0, 3)) if rng.random() < 0.7 else gen.pointer(3)
            td = r < 0.85
            text = "typedef " if td else storage(ctx, ["", "extern ", "static ",
                                                      'extern "C" '])
            lines.append("%s%s %s;" % (text, spec(t), declarator(t, n)))
            e = cgen.expected(t)
            want.append(("types", n, e) if td else ("variables", n, (None, e)))
            if td and rng.random() < 0.5 and not isinstance(t, Arr):
                gen.bases += [n] * 3
    if 'extern "C" {' in lines:
        lines.append("}")
    text = "\n".join(lines) + "\n"
    p = CParser(ctx.write("h.h", text))
    for kind, n, exp in want:
        ctx.true(n in p.defs[kind], "%s %s is missing" % (kind, n), expected=exp)
        got = p.defs[kind][n]
        if kind in ("structs", "unions"):
            got = list(got["members"])
        ctx.eq(freeze(got), freeze(exp), "%s %s" % (kind, n), shown=got, want=exp)
    for kind in ("functions", "variables"):
        ctx.eq(sorted(p.defs[kind]), sorted(n for k, n, _ in want if k == kind), kind)
    ctx.case_key(text)
