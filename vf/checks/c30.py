"""C30: descriptions compare, print, copy and convert faithfully."""

import copy
import keyword
import pickle
import subprocess
import sys

from ..cgen import FUND, Names, Ptr, TypeGen, expected, expected_function
from ..core import REPO
from ..sut import CParser, Enum, Struct, Type, Union, freeze, ready

RULE = (
    "A case makes random descriptions (base types, pointers, references, arrays, "
    "functions and pointers to them with described parameters and defaults, calling "
    "conventions, qualifiers at every level, structures, unions and enumerations), "
    "directly from a plain model, from declarations, and by parsing them. Oracle: two "
    "descriptions, one being rebuilt or changed at one random place, nested ones too "
    "(base, order or kind of derivation, size, qualifier added, removed or moved, name, "
    "type or default of a parameter, packing), are equal exactly when their models are; "
    "random chains of pickling (all protocols), copying, deep copying and evaluating the "
    "printed form, some through a fresh interpreter, give an equal description of the "
    "same class, printed the same; deep copies share nothing which can be modified; the "
    "function form holds the result and its qualifiers, and gives the description back; "
    "nothing modifies the description. Distinct: by the descriptions."
)
CASES = {"quick": 400, "thorough": 8000}
REQUIRE = {"descriptions": 10000, "equal pairs": 10000, "different pairs": 15000,
           "round trips": 20000, "function forms": 1200, "qualifiers compared": 3000,
           "parsed descriptions": 1200, "sent to another interpreter": 400,
           "structures": 1000, "enumerations": 600}
ASSUMPTIONS = [
    "descriptions of the shapes the parser makes, qualifiers being tuples",
    "enumerators are not named like the keywords of Python, when printed",
]

QUALS = ["const", "volatile", "restrict", "__far", "near"]
SPACE = {"Type": Type, "Struct": Struct, "Union": Union, "Enum": Enum}


# --- models: ("T", base, [declarators], [qualifiers of each level]) where base is a
# text or a model, and a declarator is a text, ("A", n) or ("F", [(name, model, default)])


class Maker:
    def __init__(self, rng):
        self.rng = rng
        self.names = ["a", "b", "c", "x", "_p", "value", "n", "self", "cls", "args",
                      "type_quals", "members", "pack"]

    def quals(self, p=0.25):
        rng = self.rng
        if rng.random() > p:
            return ()
        return tuple(rng.sample(QUALS, rng.choice([1, 1, 2])))

    def base(self):
        rng = self.rng
        r = rng.random()
        if r < 0.6:
            return rng.choice([*FUND, "void"])
        n = rng.choice(["s", "t1", "anon_struct0", "X"])
        if r < 0.8:
            return rng.choice(["struct ", "union ", "enum "]) + n
        return rng.choice(["my_t", "T", "u", "handle"])

    def declarator(self, depth):
        rng = self.rng
        r = rng.random()
        if r < 0.4:
            return "*"
        if r < 0.7:
            return ("A", rng.choice([-1, 0, 1, 2, 3, 10, 256]))
        if r < 0.75:
            return rng.choice(["&", "__cdecl", "__stdcall"])
        ps = []
        for _ in range(rng.choice([0, 1, 1, 2, 3]) if depth > 0 else 0):
            ps.append((
                rng.choice([None, *self.names]), self.type(depth - 1),
                rng.choice([None, None, None, 0, 1, -3, 2.5, "x", True, ""])))
        return ("F", tuple(ps))

    def type(self, depth=2):
        rng = self.rng
        ds = tuple(self.declarator(depth) for _ in range(rng.choice([0, 1, 1, 2, 3, 4])))
        if depth > 0 and rng.random() < 0.2:
            ds = (*ds, ("F", tuple((n, t, None) for n, t in (
                (rng.choice(self.names), self.type(depth - 1)) for _ in range(2)))))
        qs = tuple(self.quals() for _ in range(len(ds) + 1))
        if rng.random() < 0.3:
            qs = ((),) * len(qs)
        return ("T", self.base(), ds, qs)

    def comp(self, depth=1):
        rng = self.rng
        ms = []
        for _ in range(rng.choice([0, 1, 2, 3, 5])):
            ms.append((rng.choice([None, *self.names]), self.type(depth),
                       rng.choice([None, None, 1, 3, 17])))
        return (rng.choice(["S", "U"]), tuple(ms), rng.choice([None, None, None, 0, 1, 2, 4, 8]))

    def enum(self):
        rng = self.rng
        ns = rng.sample([*self.names, "A", "B", "FLAG_1", "_X"], rng.choice([0, 1, 2, 5]))
        return ("E", tuple((n, rng.choice([0, 1, -1, 7, 2**40])) for n in ns))


def build(m):
    """The description of a model."""
    if m[0] == "T":
        base = build(m[1]) if isinstance(m[1], tuple) else m[1]
        ds = [d if isinstance(d, str) else [d[1]] if d[0] == "A" else
              tuple((n, build(t), v) for n, t, v in d[1]) for d in m[2]]
        if any(m[3]):
            return Type(base, *ds, type_quals=tuple(m[3]))
        return Type(base, *ds)
    if m[0] == "E":
        return Enum(**dict(m[1]))
    cls = Struct if m[0] == "S" else Union
    ms = [(n, build(t), b) for n, t, b in m[1]]
    return cls(*ms, pack=m[2]) if m[2] is not None else cls(*ms)


def key(m):
    """Models are equal when their keys are (True and 1 are the same default)."""
    if m[0] == "E":
        return ("E", tuple(sorted(m[1])))
    if m[0] in "SU":
        return (m[0], tuple((n, key(t), b) for n, t, b in m[1]), m[2])
    return ("T", key(m[1]) if isinstance(m[1], tuple) else m[1],
            tuple(("F", tuple((n, key(t), v) for n, t, v in d[1]))
                  if isinstance(d, tuple) and d[0] == "F" else d for d in m[2]),
            tuple(tuple(q) for q in m[3]))


def replace(seq, i, *new):
    return (*seq[:i], *new, *seq[i + 1:])


class Changer:
    """Change a model at one place."""

    def __init__(self, ctx, maker):
        self.ctx, self.rng, self.maker = ctx, ctx.rng, maker

    def change(self, m):
        rng = self.rng
        if m[0] == "E":
            items = list(m[1])
            r = rng.random()
            if items and r < 0.4:
                i = rng.randrange(len(items))
                items[i] = (items[i][0], items[i][1] + rng.choice([1, -1, 100]))
            elif items and r < 0.7:
                items.pop(rng.randrange(len(items)))
            else:
                items.append(("new", 0))
            rng.shuffle(items)
            return ("E", tuple(items))
        if m[0] in "SU":
            r = rng.random()
            if r < 0.2:
                return (m[0], m[1], rng.choice([None, 1, 2, 4, 8]))
            if not m[1] or r < 0.3:
                return (m[0], (*m[1], ("more", self.maker.type(0), None)), m[2])
            i = rng.randrange(len(m[1]))
            if r < 0.4:
                return (m[0], replace(m[1], i), m[2])
            if r < 0.5:
                ms = list(m[1])
                rng.shuffle(ms)
                return (m[0], tuple(ms), m[2])
            return (m[0], replace(m[1], i, self.member(m[1][i])), m[2])
        _, base, ds, qs = m
        if isinstance(base, tuple):
            return ("T", self.change(base), ds, qs)
        nested = [i for i, d in enumerate(ds) if isinstance(d, tuple) and d[0] == "F"
                  and d[1]]
        if nested and rng.random() < 0.4:
            i = rng.choice(nested)
            ps = ds[i][1]
            j = rng.randrange(len(ps))
            if rng.random() < 0.15:
                ps = replace(ps, j)
            else:
                ps = replace(ps, j, self.member(ps[j]))
            return ("T", base, replace(ds, i, ("F", ps)), qs)
        r = rng.random()
        if r < 0.45:
            # Qualifiers
            self.ctx.saw("qualifiers compared")
            i = rng.randrange(len(qs))
            if qs[i] and rng.random() < 0.3:
                # elsewhere
                j = rng.randrange(len(qs))
                moved = qs[i]
                qs = replace(qs, i, ())
                return ("T", base, ds, replace(qs, j, qs[j] + moved))
            if qs[i] and rng.random() < 0.5:
                return ("T", base, ds, replace(qs, i, qs[i][1:]))
            return ("T", base, ds, replace(qs, i, (*qs[i], rng.choice(QUALS))))
        if r < 0.55:
            return ("T", self.maker.base(), ds, qs)
        if not ds or r < 0.7:
            i = rng.randrange(len(ds) + 1)
            return ("T", base, (*ds[:i], self.maker.declarator(0), *ds[i:]),
                    (*qs[: i + 1], (), *qs[i + 1:]))
        i = rng.randrange(len(ds))
        if r < 0.8:
            return ("T", base, replace(ds, i), replace(qs, i + 1))
        if r < 0.9 and len(ds) > 1:
            j = rng.randrange(len(ds))
            a, b = ds[i], ds[j]
            return ("T", base, replace(replace(ds, i, b), j, a), qs)
        if isinstance(ds[i], tuple) and ds[i][0] == "A":
            return ("T", base, replace(ds, i, ("A", ds[i][1] + 1)), qs)
        return ("T", base, replace(ds, i, self.maker.declarator(0)), qs)

    def member(self, p):
        rng = self.rng
        r = rng.random()
        if r < 0.2:
            return (rng.choice([None, "other", "a"]), p[1], p[2])
        if r < 0.3:
            return (p[0], p[1], rng.choice([None, 0, 1, 5]))
        return (p[0], self.change(p[1]), p[2])


# --- round trips


def via_pickle(proto):
    return lambda o: pickle.loads(pickle.dumps(o, proto))


WAYS = {"pickle %d" % p: via_pickle(p) for p in range(pickle.HIGHEST_PROTOCOL + 1)}
WAYS.update({
    "copy": copy.copy, "deepcopy": copy.deepcopy,
    "eval": lambda o: eval(repr(o), dict(SPACE)),
})


def spoil(obj):
    """Modify everything which can be in a description."""
    if isinstance(obj, list):
        for o in obj:
            spoil(o)
        obj.append("spoiled")
    elif isinstance(obj, dict):
        for o in obj.values():
            spoil(o)
        obj["spoiled"] = 1
    elif isinstance(obj, tuple):
        for o in obj:
            spoil(o)


def printable(obj):
    if isinstance(obj, Enum):
        return not any(keyword.iskeyword(k) for k in obj)
    return True


def round_trips(ctx, obj, model=None):
    rng = ctx.rng
    before, text = freeze(obj), repr(obj)
    for _ in range(2):
        chain = [rng.choice(list(WAYS)) for _ in range(rng.choice([1, 1, 2, 3]))]
        if not printable(obj):
            chain = [c for c in chain if c != "eval"]
        got = obj
        for c in chain:
            got = WAYS[c](got)
        same(ctx, got, obj, " then ".join(chain), text)
        ctx.saw("round trips")
    deep = rng.choice([copy.deepcopy, *(v for k, v in WAYS.items() if k[0] == "p")])(obj)
    spoil(deep)
    ctx.eq(freeze(obj), before, "a description whose deep copy is modified", text=text)


def same(ctx, got, obj, how, text):
    ctx.true(type(got) is type(obj), "%s gives another class" % how, got=got, text=text)
    ctx.true(got == obj and obj == got and not got != obj and not obj != got,
             "%s gives a different description" % how, got=got, text=text)
    ctx.eq(freeze(got), freeze(obj), "what %s gives" % how, text=text)
    ctx.eq(repr(got), text, "what %s gives, printed" % how)


def compare(ctx, a, b, equal):
    """== and != must tell whether the models are equal."""
    ctx.saw("equal pairs" if equal else "different pairs")
    res = (a == b, b == a, not (a != b), not (b != a))
    ctx.eq(res, (equal,) * 4, "comparison of two descriptions (==, ==, not !=, not !=)",
           a=a, b=b)


def function_form(ctx, obj, m):
    """m is the model of a type."""
    before = freeze(obj)
    got = obj.add_compatibility_hack()
    if m[2] and isinstance(m[2][-1], tuple) and m[2][-1][0] == "F":
        ctx.saw("function forms")
        form = ("T", ("T", m[1], m[2][:-1], m[3][:-1]), m[2][-1:], ((), m[3][-1]))
        ctx.eq(freeze(got), freeze(build(form)), "the function form", obj=obj)
        ctx.true(type(got[0]) is Type and len(got) == 2, "not a function form", got=got)
        compare(ctx, got, build(form), True)
        round_trips(ctx, got)
        kept = freeze(got)
        back = got.remove_compatibility_hack()
        ctx.eq(freeze(got), kept, "a function form once converted back")
    else:
        ctx.saw("not functions")
        compare(ctx, got, obj, True)
        back = got.remove_compatibility_hack()
    ctx.eq(freeze(back), before, "description once the function form is removed")
    compare(ctx, back, obj, True)
    ctx.eq(freeze(obj), before, "a description whose function form is asked for")


def accessors(ctx, obj, m):
    if m[0] == "T":
        ds = build(("T", "x", m[2], m[3]))
        ctx.eq(obj.type_spec, m[1], "type_spec")
        ctx.eq(obj.declarators, tuple(ds)[1:], "declarators")
        ctx.eq(tuple(obj), (m[1], *tuple(ds)[1:]), "the description as a tuple")
        # As the tuples of the first version
        ctx.true(obj == tuple(obj) and tuple(obj) == obj, "not equal to the tuple")
        ctx.true(obj != (*tuple(obj), "*") and not obj == (*tuple(obj), "*"),
                 "equal to another tuple")
        words = m[1].split()
        fund = words[0] in ("struct", "union", "enum") or m[1] in (*FUND, "void")
        ctx.eq(obj.is_fund_type(), fund, "is_fund_type", obj=obj)
    elif m[0] in "SU":
        ctx.eq([n for n, _, _ in obj.members], [n for n, _, _ in m[1]], "members")
        ctx.eq(freeze(obj.members), freeze([(n, build(t), b) for n, t, b in m[1]]),
               "members")
        ctx.eq(obj.pack, m[2], "pack")
        ctx.eq(dict(obj), {"members": obj.members, "pack": m[2]}, "the structure as a dict")
    else:
        ctx.eq(dict(obj), dict(m[1]), "the enumeration as a dict")


def parsed(ctx):
    """Descriptions made by the parser: [(description, model)]."""
    rng = ctx.rng
    gen = TypeGen(rng, FUND, quals=0.3, abstract=0.4, fn=0.3)
    names, lines, want = Names(rng), [], {}
    from ..cgen import declare

    for _ in range(rng.randint(3, 8)):
        n = names.new()
        r = rng.random()
        if r < 0.4:
            t = gen.function(2)
            lines.append("%s;" % declare(t, n))
            want[n] = ("functions", expected_function(t))
        elif r < 0.7:
            t = Ptr(gen.function(2)) if rng.random() < 0.4 else gen.object(3)
            lines.append("typedef %s;" % declare(t, n))
            want[n] = ("types", expected(t))
        else:
            ms, body = [], ""
            own = Names(rng)
            for _ in range(rng.randint(1, 4)):
                t, mn = gen.object(2), own.new()
                ms.append((mn, expected(t), None))
                body += "%s; " % declare(t, mn)
            kw, cls = rng.choice([("struct", Struct), ("union", Union)])
            lines.append("%s %s { %s};" % (kw, n, body))
            want[n] = (kw + "s", cls(*ms))
    p = CParser(ctx.write("p.h", "\n".join(lines) + "\n"))
    res = []
    for n, (k, w) in want.items():
        res.append((p.defs[k][n], w))
    defs = pickle.loads(pickle.dumps(p.defs, rng.randint(0, pickle.HIGHEST_PROTOCOL)))
    ctx.eq(freeze(defs), freeze(p.defs), "definitions pickled at once")
    return res


OTHER = """
import sys, pickle
sys.path.insert(0, sys.argv[1])
from pyclibrary.c_parser import Type, Struct, Union, Enum
objs, proto = pickle.load(sys.stdin.buffer)
printed = [repr(o) for o in objs]
sys.stdout.buffer.write(pickle.dumps((objs, printed, [eval(p) for p in printed]), proto))
"""


def elsewhere(ctx, objs):
    """Send descriptions to an interpreter where nothing is parsed."""
    protos = [ctx.rng.randint(0, pickle.HIGHEST_PROTOCOL) for _ in range(2)]
    r = subprocess.run([sys.executable, "-c", OTHER, REPO], capture_output=True,
                       input=pickle.dumps((objs, protos[0]), protos[1]), timeout=100)
    if r.returncode:
        ctx.fail("descriptions cannot be sent to another interpreter",
                 err=r.stderr.decode("utf-8", "replace")[-2000:])
    got, printed, evaled = pickle.loads(r.stdout)
    ctx.eq(printed, [repr(o) for o in objs], "descriptions printed elsewhere")
    for g, e, o in zip(got, evaled, objs):
        same(ctx, g, o, "going elsewhere", repr(o))
        same(ctx, e, o, "being evaluated elsewhere", repr(o))
        ctx.saw("sent to another interpreter")


def case(ctx):
    ready()
    rng = ctx.rng
    maker = Maker(rng)
    changer = Changer(ctx, maker)
    models = [maker.type(rng.choice([0, 1, 2, 3])) for _ in range(30)]
    models += [maker.comp() for _ in range(6)] + [maker.enum() for _ in range(4)]
    ctx.saw("structures", 6)
    ctx.saw("enumerations", 4)
    objs = []
    for m in models:
        ctx.saw("descriptions")
        obj = build(m)
        objs.append(obj)
        before = freeze(obj)
        accessors(ctx, obj, m)
        compare(ctx, obj, build(m), True)
        for _ in range(2):
            c = changer.change(m)
            compare(ctx, obj, build(c), key(c) == key(m))
        round_trips(ctx, obj)
        if m[0] == "T":
            function_form(ctx, obj, m)
        ctx.eq(freeze(obj), before, "a description which is only used")
    for _ in range(30):
        i, j = rng.randrange(len(objs)), rng.randrange(len(objs))
        if models[i][0] == models[j][0]:
            compare(ctx, objs[i], objs[j], key(models[i]) == key(models[j]))
    for obj, want in parsed(ctx):
        ctx.saw("parsed descriptions")
        compare(ctx, obj, want, True)
        ctx.eq(freeze(obj), freeze(want), "description of a declaration")
        round_trips(ctx, obj)
        if isinstance(obj, Type):
            back = obj.remove_compatibility_hack()
            ctx.eq(freeze(back.add_compatibility_hack()), freeze(obj),
                   "the function form removed then added")
    if ctx.index % 12 == 0:
        elsewhere(ctx, objs)
    ctx.case_key([key(m) for m in models])
    ctx.sample = {"descriptions": [repr(o) for o in objs[::7]]}
    for o in objs[:10]:
        ctx.kind("shape", len(repr(o)) // 20)
