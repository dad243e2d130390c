"""C18: structures have the memory layout of the compiler."""

import ctypes as ct

from .. import bgen
from ..bgen import ref
from ..cgen import C_PRELUDE, Arr, Base, Fn, Names, Ptr, declare, spec, declarator
from ..core import gcc_lib
from ..sut import CLibrary, CParser, ready

RULE = (
    "A case is a header of random structures and unions (all fundamental types, "
    "pointers, arrays of up to 3 dimensions, function pointers, enums, typedefs, nested "
    "structures and unions by value, named or anonymous, self references, bit fields, "
    "flexible arrays) under random #pragma pack, compiled by gcc into a library which "
    "knows sizeof, alignment, the offset and size of each member and the bits of each "
    "bit field. Oracle: the class bound for each structure has the same, and random "
    "values written in each member by Python are read by C and the other way round. "
    "Bit-field sequences which ctypes itself lays out differently from gcc are left "
    "out. Non-trivial: at least two members. Distinct: by the text."
)
CASES = {"quick": 400, "thorough": 5000}
REQUIRE = {"structures": 1500, "members": 5000, "packed": 200, "bit fields": 300,
           "values exchanged": 4000, "anonymous": 100, "flexible": 30}
ASSUMPTIONS = [
    "gcc and ctypes of this machine",
    "a sequence of bit fields which a hand-written ctypes class lays out differently "
    "from gcc cannot be expressed with ctypes",
]


class Rec:
    """A structure or union, its C text and its reference class."""

    def __init__(self, kw, tag, name):
        #: name is the C name of the type
        self.kw, self.tag, self.name = kw, tag, name
        self.members = []  # (name or None, tree or Rec, bits or None)
        self.pack = None
        self.cls = None
        self.plain = True  # not a matter of bit fields
        self.flexible = False

    def make(self, env):
        base = ct.Structure if self.kw == "struct" else ct.Union
        fields, anon = [], []
        body = {}
        for i, (n, t, bits) in enumerate(self.members):
            c = t.cls if isinstance(t, Rec) else ref(t, env)
            if n is None:
                # (ctypes gives the names inside to the one outside)
                n = "unnamed_%d_%d" % (id(self), i)
                if bits is None:
                    anon.append(n)
            fields.append((n, c) if bits is None else (n, c, bits))
        if self.pack:
            body["_pack_"] = self.pack
        body["_anonymous_"] = anon
        body["_fields_"] = fields
        self.cls = type(self.name.replace(" ", "_"), (base,), body)

    def paths(self, prefix=""):
        """[(path, tree, bits)] of all that can be named, nested ones included."""
        for n, t, bits in self.members:
            if n is None and not isinstance(t, Rec):
                continue
            if isinstance(t, Rec):
                p = prefix if n is None else prefix + n + "."
                if n is not None:
                    yield prefix + n, t, None
                yield from t.paths(p)
            else:
                yield prefix + n, t, bits


class Gen:
    def __init__(self, ctx):
        self.ctx, self.rng = ctx, ctx.rng
        self.names = Names(ctx.rng)
        self.env = {}
        self.lines, self.recs = [], []
        self.pack = None
        self.packs = []
        self.records = []  # named ones, usable by value

    def scalar(self):
        r = self.rng.random()
        if self.env and r < 0.2:
            return Base(self.rng.choice(sorted(self.env)))
        return Base(self.rng.choice(bgen.ALL))

    def tree(self, depth=2):
        rng = self.rng
        r = rng.random()
        if depth == 0 or r < 0.5:
            return self.scalar()
        if r < 0.7:
            return Arr(self.tree(depth - 1), rng.randint(1, 5))
        if r < 0.76:
            return Ptr(Fn(rng.choice([Base("void"), self.small()]),
                          [(None, self.small()) for _ in range(rng.randint(0, 3))]))
        if r < 0.8:
            return Ptr(Base("void"))
        return Ptr(self.tree(depth - 1))

    def small(self):
        return Base(self.rng.choice(bgen.NUMERIC))

    def body(self, rec, depth, own):
        """Fills the members, returns the text."""
        rng, ctx = self.rng, self.ctx
        out = []
        for _ in range(rng.choice([1, 2, 3, 4, 5, 8])):
            r = rng.random()
            if r < 0.13:
                b = rng.choice(["int", "unsigned int", "unsigned", "int", "uint8_t",
                                "unsigned short", "long long", "uint64_t", "int"])
                size = 8 * ct.sizeof(bgen.SCALARS[b])
                ds = []
                for _ in range(rng.choice([1, 1, 2, 3, 6])):
                    w = rng.randint(1, min(size, rng.choice([3, 9, size])))
                    n = own.new()
                    if rng.random() < 0.08:
                        n = None
                    rec.members.append((n, Base(b), w))
                    ds.append("%s : %d" % (n or "", w))
                    ctx.saw("bit fields")
                rec.plain = False
                out.append("%s %s;" % (b, ", ".join(ds)))
            elif r < 0.25 and depth:
                sub = Rec(rng.choice(["struct", "union"]), None, "inner")
                anonymous = rng.random() < 0.5
                text = self.body(sub, depth - 1, own if anonymous else Names(rng))
                if not rng.randrange(4):
                    sub.tag = self.names.new("in_")
                sub.pack = self.pack
                n = None if anonymous and not sub.tag else own.new()
                rec.members.append((n, sub, None))
                rec.plain = rec.plain and sub.plain
                if n is None:
                    ctx.saw("anonymous")
                out.append("%s %s { %s } %s;" % (sub.kw, sub.tag or "", text, n or ""))
            elif r < 0.35 and self.records:
                sub = rng.choice(self.records)
                n = own.new()
                if rng.random() < 0.3:
                    k = rng.randint(1, 3)
                    rec.members.append((n, Arr(Base(sub.name), k), None))
                    out.append("%s %s[%d];" % (sub.name, n, k))
                    rec.plain = rec.plain and sub.plain
                else:
                    rec.members.append((n, sub, None))
                    out.append("%s %s;" % (sub.name, n))
                    rec.plain = rec.plain and sub.plain
            elif r < 0.42:
                b = self.scalar()
                ds = []
                for _ in range(2):
                    n = own.new()
                    t = rng.choice([b, Ptr(b), Arr(b, 3)])
                    rec.members.append((n, t, None))
                    ds.append(declarator(t, n))
                out.append("%s %s;" % (spec(b), ", ".join(ds)))
            else:
                n = own.new()
                t = self.tree()
                rec.members.append((n, t, None))
                q = rng.choice(["", "", "", "const ", "volatile "])
                out.append("%s%s;" % (q, declare(t, n)))
        return " ".join(out)

    def close(self, rec):
        """Build the reference classes, innermost first."""
        for n, t, bits in rec.members:
            if isinstance(t, Rec) and t.cls is None:
                self.close(t)
        rec.make(self.all_env())

    def all_env(self):
        env = dict(self.env)
        for r in self.records:
            env[r.name] = r.cls
        return env

    def directive(self):
        rng = self.rng
        r = rng.random()
        if r < 0.4:
            n = rng.choice([1, 2, 4, 8, 16])
            self.packs.append(self.pack)
            self.pack = n
            self.lines.append("#pragma pack(push, %d)" % n)
        elif self.packs:
            self.pack = self.packs.pop()
            self.lines.append("#pragma pack(pop)")

    def structure(self):
        rng = self.rng
        kw = rng.choice(["struct", "struct", "struct", "union"])
        tag = self.names.new(kw[:2] + "_")
        form = rng.choice(["tag", "tag", "both", "typedef"])
        td = self.names.new("T_") if form != "tag" else None
        rec = Rec(kw, tag if form != "typedef" else None,
                  td if form == "typedef" else "%s %s" % (kw, tag))
        rec.td = td
        rec.pack = self.pack
        text = self.body(rec, 2, Names(rng))
        if form != "typedef" and rng.random() < 0.2:
            text += " %s *self_;" % rec.name
            # Only the size of the pointer matters.
            rec.members.append(("self_", Ptr(Base("void")), None))
        if kw == "struct" and any(n for n, _, _ in rec.members) and rng.random() < 0.1:
            t = self.scalar()
            rec.members.append(("flex_", Arr(t, 0, ""), None))
            text += " %s;" % declare(Arr(t, None), "flex_")
            rec.flexible = True
            self.ctx.saw("flexible")
        self.close(rec)
        if form == "tag":
            self.lines.append("%s { %s };" % (rec.name, text))
        elif form == "both":
            self.lines.append("typedef %s { %s } %s;" % (rec.name, text, td))
        else:
            self.lines.append("typedef %s { %s } %s;" % (kw, text, td))
        self.recs.append(rec)
        if not rec.flexible and ct.sizeof(rec.cls) < 4000:
            self.records.append(rec)
        if rec.pack:
            self.ctx.saw("packed")

    def typedef(self):
        rng = self.rng
        n = self.names.new("T_")
        r = rng.random()
        if r < 0.3:
            e = self.names.new("E_")
            self.lines.append("typedef enum { %s, %sb } %s;" % (e, e, n))
            self.env[n] = ct.c_int
            return
        t = self.tree(1)
        self.lines.append("typedef %s;" % declare(t, n))
        # A pointer to a typedef of char is a char pointer, of an array is not.
        if isinstance(t, Base) and t.spec in ("char", "wchar_t"):
            return
        self.env[n] = ref(t, self.all_env())


def leaf(t, env):
    """The ctypes scalar and the dimensions of a member, if it has values."""
    dims = []
    while isinstance(t, Arr):
        dims.append(t.n)
        t = t.of
    if not isinstance(t, Base) or t.spec in env or t.spec == "void":
        return None, None
    if t.spec.startswith(("struct ", "union ")) or t.spec not in bgen.SCALARS:
        return None, None
    c = bgen.SCALARS[t.spec]
    # ctypes gives the text of an array of characters
    if c is ct.c_longdouble or (dims and c in (ct.c_char, ct.c_wchar)):
        return None, None
    return c, dims


def case(ctx):
    ready()
    rng = ctx.rng
    g = Gen(ctx)
    for _ in range(rng.randint(4, 10)):
        r = rng.random()
        if r < 0.2:
            g.directive()
        elif r < 0.35:
            g.typedef()
        else:
            g.structure()
    text = "\n".join(g.lines) + "\n"
    path = ctx.write("h.h", text)

    # The compiler's view, in order
    src = [C_PRELUDE, '#include "h.h"', "#include <string.h>"]
    nums, plan = [], []
    k = 0
    for rec in g.recs:
        cname = rec.name
        nums += ["sizeof(%s)" % cname, "_Alignof(%s)" % cname]
        for p, t, bits in rec.paths():
            if bits is not None:
                src.append("void ones_%d(%s *p) { memset(p, 0, sizeof *p); p->%s = -1; }"
                           % (k, cname, p))
                src.append("void rd_%d(%s *p, long long *o) { *o = p->%s; }" % (k, cname, p))
                src.append("void wr_%d(%s *p, long long *o) { p->%s = *o; }" % (k, cname, p))
                plan.append((rec, p, t, bits, k))
                k += 1
                continue
            nums.append("__builtin_offsetof(%s, %s)" % (cname, p))
            nums.append("0" if isinstance(t, Arr) and not t.n else
                        "sizeof(((%s *)0)->%s)" % (cname, p))
            plan.append((rec, p, t, None, k))
            if not isinstance(t, Rec):
                c, dims = leaf(t, g.env)
                if c is not None and 0 not in dims:
                    sub = "".join("[%d]" % (d - 1) for d in dims)
                    b = t
                    while isinstance(b, Arr):
                        b = b.of
                    src.append("void rd_%d(%s *p, %s *o) { *o = p->%s%s; }"
                               % (k, cname, b.spec, p, sub))
                    src.append("void wr_%d(%s *p, %s *o) { memcpy((void *)&p->%s%s, o, sizeof *o); }"
                               % (k, cname, b.spec, p, sub))
            k += 1
    src.append("long numbers[] = { %s };" % ", ".join(nums or ["0"]))
    so = gcc_lib(ctx, "\n".join(src) + "\n", "lay", ["-I" + ctx.dir])
    raw = ct.CDLL(so)
    numbers = iter((ct.c_long * len(nums)).in_dll(raw, "numbers"))

    lib = CLibrary(so, CParser(path))
    order = list(g.recs)
    rng.shuffle(order)
    classes = {}
    for rec in order:
        # Whatever name is used
        ways = []
        if rec.tag:
            ways.append((rec.kw + "s", rec.tag))
        if rec.td:
            ways += [(rec.kw + "s", rec.td), ("types", rec.td)]
        way = rng.choice(ways)
        classes[rec] = lib(*way)
    for rec in g.recs:
        ctx.saw("structures")
        size, align = next(numbers), next(numbers)
        cls = classes[rec]
        mine = [(p, t, b, kk) for r, p, t, b, kk in plan if r is rec]
        # Does ctypes agree with the compiler at all?
        facts = []
        for p, t, b, kk in mine:
            facts.append(None if b is not None else (next(numbers), next(numbers)))
        express = rec.plain or expressible(rec, size, align, mine, facts, raw)
        if not express:
            ctx.saw("not expressible with ctypes")
            continue
        ctx.eq(ct.sizeof(cls), size, "size of %s" % rec.name, pack=rec.pack)
        if not rec.pack:
            # ctypes ignores the packing in the alignment of nested classes
            ctx.eq(ct.alignment(cls), align, "alignment of %s" % rec.name)
        for (p, t, b, kk), f in zip(mine, facts):
            ctx.saw("members")
            if b is None:
                off, siz = walk(cls, p)
                ctx.eq((off, siz), f, "offset and size of %s.%s" % (rec.name, p))
            else:
                check_bits(ctx, raw, cls, rec, p, t, b, kk)
                continue
            if isinstance(t, Rec):
                continue
            c, dims = leaf(t, g.env)
            if c is None or 0 in dims:
                continue
            exchange(ctx, lib, raw, cls, rec, p, c, dims, kk)
    ctx.kind("shape", "/".join(sorted({"%s%s" % (r.kw[0], len(r.members)) for r in g.recs})))
    if any(len(r.members) > 1 for r in g.recs):
        ctx.case_key(text)


def expressible(rec, size, align, mine, facts, raw):
    cls = rec.cls
    if ct.sizeof(cls) != size or (not rec.pack and ct.alignment(cls) != align):
        return False
    for (p, t, b, kk), f in zip(mine, facts):
        if b is None:
            if walk(cls, p) != f:
                return False
        else:
            if not inside(cls, p, t):
                return False
            obj, want = cls(), cls()
            getattr(raw, "ones_%d" % kk)(ct.byref(want))
            put(obj, p, [], -1)
            if bgen.bytes_of(obj) != bgen.bytes_of(want):
                return False
    return True


def inside(cls, p, t):
    """Is the storage of a bit field inside the structure (not always, in ctypes)."""
    off = walk(cls, p)[0]
    return 0 <= off <= ct.sizeof(cls) - ct.sizeof(bgen.SCALARS[t.spec])


def walk(cls, path):
    off = 0
    for n in path.split("."):
        f = getattr(cls, n)
        off += f.offset
        size = f.size
        cls = member_type(cls, n)
    return off, size


def member_type(cls, name):
    """The type of a member, maybe of an anonymous one."""
    for f in cls._fields_:
        if f[0] == name:
            return f[1]
    for a in getattr(cls, "_anonymous_", ()):
        c = member_type(dict((f[0], f[1]) for f in cls._fields_)[a], name)
        if c is not None:
            return c
    return None


def holder(obj, path):
    *first, last = path.split(".")
    for n in first:
        obj = getattr(obj, n)
    return obj, last


def put(obj, path, dims, v):
    obj, last = holder(obj, path)
    if not dims:
        setattr(obj, last, v)
        return
    obj = getattr(obj, last)
    for d in dims[:-1]:
        obj = obj[d - 1]
    obj[dims[-1] - 1] = v


def get(obj, path, dims):
    obj, last = holder(obj, path)
    v = getattr(obj, last)
    for i, d in enumerate(dims):
        v = v[d - 1]
    return v


def exchange(ctx, lib, raw, cls, rec, p, c, dims, kk):
    obj = cls()
    v = bgen.value(ctx.rng, c)
    if c is ct.c_bool:
        v = bool(v)
    put(obj, p, dims, v)
    out = c()
    getattr(raw, "rd_%d" % kk)(ct.byref(obj), ct.byref(out))
    ctx.true(bgen.same(out.value, v), "C does not read what Python wrote in %s.%s" % (rec.name, p),
             wrote=v, read=out.value)
    v = bgen.value(ctx.rng, c)
    obj = cls()
    getattr(raw, "wr_%d" % kk)(ct.byref(obj), ct.byref(c(v)))
    got = get(obj, p, dims)
    ctx.true(bgen.same(got, v), "Python does not read what C wrote in %s.%s" % (rec.name, p),
             wrote=v, read=got)
    ctx.saw("values exchanged", 2)


def check_bits(ctx, raw, cls, rec, p, t, b, kk):
    ctx.true(inside(cls, p, t), "bit field %s.%s is outside of the structure" % (rec.name, p))
    want, obj = cls(), cls()
    getattr(raw, "ones_%d" % kk)(ct.byref(want))
    put(obj, p, [], -1)
    ctx.eq(bgen.bytes_of(obj), bgen.bytes_of(want), "bits of %s.%s" % (rec.name, p))
    lo, hi = bgen.limits(bgen.SCALARS[t.spec])
    lo, hi = (-(1 << (b - 1)), (1 << (b - 1)) - 1) if lo < 0 else (0, (1 << b) - 1)
    v = ctx.rng.choice([lo, hi, ctx.rng.randint(lo, hi)])
    obj = cls()
    put(obj, p, [], v)
    out = ct.c_longlong()
    getattr(raw, "rd_%d" % kk)(ct.byref(obj), ct.byref(out))
    ctx.eq(out.value, ct.c_longlong(v).value, "what C reads in bit field %s.%s" % (rec.name, p))
    obj = cls()
    getattr(raw, "wr_%d" % kk)(ct.byref(obj), ct.byref(ct.c_longlong(v)))
    ctx.eq(get(obj, p, []), v, "what Python reads in bit field %s.%s" % (rec.name, p))
    ctx.saw("values exchanged", 2)
