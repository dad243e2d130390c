"""C11: a type name resolves to the fundamental type it stands for."""

from .. import cgen
from ..cgen import Arr, Base, Fn, Names, Ptr, TypeGen, declare
from ..sut import CParser, DefinitionError, Type, freeze, quals_of, ready, snap

RULE = (
    "A case is a set of typedefs forming random chains and graphs (pointers, arrays, "
    "function pointers and qualifiers at each step, structures, unions, enums and "
    "fundamental types at the roots, definitions given before or after their use, in "
    "several files or as options), queried through names and through random types "
    "derived from them. The result must be the expansion of the model; loops and unknown "
    "names must be refused; asking must change nothing, resolving a result again must "
    "give itself. Non-trivial: a chain of at least two typedefs. Distinct: by the text."
)
CASES = {"quick": 700, "thorough": 7000}
REQUIRE = {"queries": 10000, "loops refused": 200, "unknown refused": 200,
           "defined anew": 250}
ASSUMPTIONS = [
    "the type tree model of vf/cgen.py",
    "qualifiers of a name standing for an array are not compared",
]


class Model:
    def __init__(self):
        self.types = {}

    def expand(self, t, top=True):
        """(type tree without typedef names, length of the chain)"""
        if isinstance(t, Base):
            if t.spec not in self.types:
                words = t.spec.split()
                if "char" not in words:
                    words = [w for w in words if w != "signed"]
                if not t.spec.startswith(("struct ", "union ", "enum ")):
                    return Base(" ".join(words) or "int", t.pre, t.post), 0
                return t, 0
            r, n = self.expand(self.types[t.spec])
            q = t.pre + t.post
            if q:
                r = qualified(r, q)
            return r, n + 1
        if isinstance(t, Ptr):
            r, n = self.expand(t.to)
            return Ptr(r, t.quals), n
        if isinstance(t, Arr):
            r, n = self.expand(t.of)
            return Arr(r, t.n, t.text), n
        r, n = self.expand(t.ret)
        return Fn(r, t.params), n

    def loose(self, t):
        """Does it involve a qualified array?"""
        b = cgen.base_of(t)
        if b.spec in self.types:
            r, _ = self.expand(self.types[b.spec])
            if (b.pre or b.post) and not isinstance(r, (Base, Ptr)):
                return True
            return self.loose(self.types[b.spec])
        return False


def qualified(t, q):
    if isinstance(t, Base):
        return Base(t.spec, t.pre, t.post + q)
    if isinstance(t, Ptr):
        return Ptr(t.to, t.quals + q)
    return t


def case(ctx):
    ready()
    rng = ctx.rng
    names = Names(rng)
    m = Model()
    gen = TypeGen(rng, list(cgen.FUND), quals=rng.choice([0, 0.3]))
    lines = []
    for kw in ("struct", "union", "enum"):
        n = names.new("t_")
        lines.append("%s %s { %s };" % (kw, n, names.new("E_") if kw == "enum" else "int a;"))
        gen.bases += ["%s %s" % (kw, n)] * 3
    decls, late = [], []
    for i in range(rng.randint(3, 14)):
        n = names.new()
        t = gen.object(rng.choice([0, 1, 2])) if rng.random() < 0.8 else gen.pointer(2)
        if rng.random() < 0.1:
            t = Arr(t, None)
        m.types[n] = t
        decls.append("typedef %s;" % declare(t, n))
        gen.bases += [n] * (6 + i)
    if rng.random() < 0.3:
        # The order of the definitions does not matter.
        rng.shuffle(decls)
        ctx.saw("shuffled")
    # Loops
    k = rng.randint(1, 4)
    loop = [names.new("lp_") for _ in range(k)]
    for a, b in zip(loop, loop[1:] + loop[:1]):
        t = rng.choice([Base(b), Ptr(Base(b)), Arr(Base(b), 2)])
        decls.insert(rng.randint(0, len(decls)), "typedef %s;" % declare(t, a))
    tail, unknown = names.new("tl_"), names.new("no_")
    decls.append("typedef %s *%s;" % (rng.choice(loop), tail))
    un = names.new("un_")
    decls.append("typedef %s %s;" % (unknown, un))
    text = "\n".join(lines + decls) + "\n"
    kwargs = {}
    files = []
    if rng.random() < 0.3:
        # Some of them given as options
        cut = rng.sample(sorted(m.types), min(2, len(m.types)))
        kwargs["types"] = {}
        for n in cut:
            decl = "typedef %s;" % declare(m.types[n], n)
            text = text.replace(decl + "\n", "", 1)
            kwargs["types"][n] = cgen.expected(m.types[n])
        ctx.saw("given as options")
    if rng.random() < 0.3:
        ls = text.split("\n")
        c = rng.randint(0, len(ls))
        files = [ctx.write("a.h", "\n".join(ls[:c]) + "\n"), ctx.write("b.h", "\n".join(ls[c:]))]
        rng.shuffle(files)
    else:
        files = [ctx.write("a.h", text)]
    p = CParser(files, **kwargs)
    before = snap(p)
    longest = 0
    for _ in range(rng.randint(10, 25)):
        ctx.saw("queries")
        n = rng.choice(sorted(m.types))
        t = Base(n)
        if rng.random() < 0.6:
            t = gen.object(rng.randint(0, 3))
        want, depth = m.expand(t)
        longest = max(longest, depth)
        ctx.kind("chain lengths", depth)
        exp = cgen.expected(want)
        q = cgen.expected(t)
        how = rng.randrange(3)
        if how == 0:
            got = p.eval_type(q)
        elif how == 1:
            got = q.eval(p.defs["types"])
        else:
            # A plain sequence
            q = Type(*q)
            got = p.eval_type(rng.choice([list, tuple])(q))
            plain, _ = m.expand(strip(t))
            exp = cgen.expected(plain)
        ctx.true(isinstance(got, Type), "the result is not a Type")
        ctx.eq(freeze(tuple(got)), freeze(tuple(exp)), "resolution of %s" % (q,))
        if not m.loose(t):
            ctx.eq(quals_of(got), quals_of(exp), "qualifiers of %r" % (q,), type=exp)
        ctx.eq(len(got.type_quals), len(got), "number of qualifier levels")
        ctx.eq(freeze(p.eval_type(got)), freeze(got), "resolving twice")
        ctx.true(got.is_fund_type(), "the result is not fundamental", got=got)
    ctx.eq(snap(p), before, "the definitions after the queries")
    for n in loop + [tail]:
        for t in (Type(n), Type(n, "*"), [n]):
            ctx.raises(DefinitionError, p.eval_type, t)
            ctx.saw("loops refused")
    for n in (unknown, un):
        ctx.raises(DefinitionError, p.eval_type, Type(n, "*"))
        ctx.saw("unknown refused")
    # Failures leave nothing behind either.
    ctx.eq(snap(p), before, "the definitions after the refused queries")
    n = rng.choice(sorted(m.types))
    ctx.eq(freeze(tuple(p.eval_type([n]))), freeze(tuple(cgen.expected(m.expand(Base(n))[0]))),
           "resolution after a refused one")
    if rng.random() < 0.6:
        # Some are defined anew, the others follow. (Processing again gives back what
        # the files say, so that each case uses only one of the two ways.)
        by_file = rng.random() < 0.5 and not kwargs
        for k in range(rng.randint(1, 2)):
            ctx.saw("defined anew")
            n = rng.choice(sorted(m.types))
            t = TypeGen(rng, list(cgen.FUND)).pointer(1)
            m.types[n] = t
            if by_file:
                p.load_file(ctx.write("c%d.h" % k, "typedef %s;\n" % declare(t, n)))
                p.process_all()
            else:
                p.add_def("types", n, cgen.expected(t))
            for n in m.types:
                got, exp = p.eval_type([n]), cgen.expected(m.expand(Base(n))[0])
                ctx.eq(freeze(tuple(got)), freeze(tuple(exp)), "resolution after a new definition")
    if longest >= 2:
        ctx.case_key(text)


def strip(t):
    """Without its own qualifiers (the ones of the typedefs remain)."""
    if isinstance(t, Base):
        return Base(t.spec)
    if isinstance(t, Ptr):
        return Ptr(strip(t.to))
    if isinstance(t, Arr):
        return Arr(strip(t.of), t.n, t.text)
    return Fn(strip(t.ret), t.params)
