"""C20: omitted pointers become fresh outputs, and no call touches other memory."""

import ctypes as ct
import gc
import os

from .. import bgen
from ..core import Infra, gcc_lib, run_tool
from ..fgen import PREFIX, FuncGen
from ..sut import CLibrary, CParser, ready

RULE = (
    "A case is a library compiled with AddressSanitizer, loaded in a Python whose "
    "objects are malloc blocks, with random functions writing through pointers to "
    "scalars, structures, pointers, strings, void and handles (pointers to structures "
    "which are never defined) (also behind typedefs, with "
    "qualifiers). A random history of calls leaves out, gives, or passes None for each "
    "of them, by position or name, keeps some results, drops others and collects "
    "garbage. Oracle: C saw zeroed storage for the omitted ones, NULL for None and the "
    "caller's object otherwise; what C wrote is found by index, by name, in the list of "
    "automatic values (in order) and by unpacking, also later, after other calls and "
    "after the result is gone; and AddressSanitizer reports nothing (it would end the "
    "process). Distinct: by header and history."
)
CASES = {"quick": 160, "thorough": 2500}
REQUIRE = {"calls": 2000, "omitted": 2500, "NULL": 300, "given": 1000,
           "values read back": 5000, "values read later": 1000}
ASSUMPTIONS = [
    "objects of at most 16 bytes live inside a Python object: an access which stays in "
    "it is not noticed",
    "opaque structures and sized arrays are not left out",
]


def libasan():
    return run_tool(["gcc", "-print-file-name=libasan.so"]).stdout.decode().strip()


def worker_env():
    lib = os.path.realpath(libasan())
    if not os.path.isfile(lib):
        raise Infra("no libasan")
    return {
        "LD_PRELOAD": lib,
        "PYTHONMALLOC": "malloc",
        "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:handle_segv=1",
    }


class Out:
    """A pointer parameter, and what C writes through it."""

    def __init__(self, f, i, kind, name, text, ctype, rec=None):
        self.k, self.i, self.kind, self.name = f, i, kind, name
        self.text, self.ctype, self.rec = text, ctype, rec

    @property
    def id(self):
        return "%d_%d" % (self.k, self.i)

    def globals(self):
        t = {"ptr": self.text, "sptr": self.text, "pp": self.text}.get(self.kind)
        if t:
            t = t.replace("const ", "").replace("volatile ", "")
            return "%s OUT_%s;" % (t, self.id)
        return {
            "cpp": "char OUT_{0}[64];",
            "wpp": "wchar_t OUT_{0}[64];",
            "vpp": "void *OUT_{0};",
            "void": "void *OUT_{0};",
            "hpp": "void *OUT_{0};",
        }[self.kind].format(self.id)

    def declare(self, n):
        if self.kind in ("ptr", "sptr"):
            return "%s *%s" % (self.text, n)
        return {
            "pp": self.text + " **%s", "cpp": "char **%s", "wpp": "wchar_t **%s",
            "vpp": "void **%s", "void": "void *%s", "tptr": "%s",
            "hpp": self.text + " *%s",
        }[self.kind] % n

    def body(self, n):
        """Records the address and what was there, then writes."""
        rec = "put(&{0}, 8); if ({0}) put((void *){0}, SIZE); else zero(SIZE); "
        size = "sizeof *{0}" if self.kind != "void" else "8"
        if self.kind in ("ptr", "sptr"):
            wr = "memcpy((void *){0}, &OUT_{1}, sizeof *{0});"
        elif self.kind in ("pp",):
            wr = "*{0} = &OUT_{1};"
        elif self.kind in ("cpp", "wpp", "vpp", "hpp"):
            wr = "*{0} = OUT_{1};"
        else:
            wr = "memcpy({0}, &OUT_{1}, 8);"
        return (rec.replace("SIZE", size) + "if ({0}) " + wr).format(n, self.id)

    def size(self):
        if self.kind == "sptr":
            return ct.sizeof(self.cls)
        return ct.sizeof(self.ctype) if self.kind == "ptr" else 8

    def prepare(self, rng, raw):
        """Decide what C will write; returns what must be read."""
        name = "OUT_" + self.id
        if self.kind in ("ptr", "pp"):
            v = bgen.value(rng, self.ctype)
            self.ctype.in_dll(raw, name).value = v
            return v
        if self.kind == "sptr":
            return self.rec.fill(rng, self.cls.in_dll(raw, name))
        if self.kind == "cpp":
            v = rng.choice([b"", b"text", b"\xe9\xff", b"y" * 40])
            (ct.c_char * 64).in_dll(raw, name).value = v
            return v
        if self.kind == "wpp":
            v = rng.choice(["", "text", "\xe9\u20ac\U0001f600"])
            (ct.c_wchar * 64).in_dll(raw, name).value = v
            return v
        v = rng.choice([None, 0x1234, 2**64 - 1])
        ct.c_void_p.in_dll(raw, name).value = v
        return v

    def same(self, got, want):
        if self.kind == "sptr":
            return self.rec.read(got) == want
        if self.kind == "pp":
            return bgen.same(got[0], want)
        if self.kind == "hpp":
            return ct.cast(got, ct.c_void_p).value == want
        return bgen.same(got, want)


class Function:
    def __init__(self, k, name):
        self.k, self.name, self.params = k, name, []


class Gen:
    def __init__(self, ctx):
        self.ctx, self.rng = ctx, ctx.rng
        self.g = FuncGen(ctx)
        self.g.prepare()
        self.funcs, self.lines, self.src = [], [], []

    def function(self):
        rng = self.rng
        f = Function(len(self.funcs), self.g.names.new("f_"))
        own = set()
        decl, args, body, glob = [], [], ["CALLS[%d]++; at = 0;" % f.k], []
        for i in range(rng.choice([1, 2, 2, 3, 4, 6, 10, 14])):
            n = "p%d_%s" % (i, rng.choice(["x", "out", "len", "size", "handle"]))
            own.add(n)
            q = rng.choice(["", "", "", "const ", "volatile "])
            r = rng.random()
            if r < 0.25:
                b, c = self.g.scalar()
                p = ("scalar", n, c)
                decl.append("%s %s" % (b, n))
                args.append("%s a%d_" % (b, i))
                body.append("put(&a%d_, sizeof a%d_);" % (i, i))
                f.params.append(p)
                continue
            b, c = self.g.scalar()
            while c in (ct.c_char, ct.c_wchar):
                b, c = self.g.scalar()
            kind = rng.choice(["ptr", "ptr", "ptr", "sptr", "sptr", "pp", "cpp", "wpp",
                               "vpp", "void", "hpp"])
            rec = None
            if kind == "hpp":
                kind = "hpp" if self.g.opaques else "vpp"
            if kind == "hpp":
                # A handle which C creates
                rec = rng.choice(self.g.opaques)
                b, q = rng.choice(rec[3]), ""
            if kind == "sptr":
                rec = rng.choice(self.g.recs)
                b = rec.name
            p = Out(f.k, i, kind, n, q + b, c, rec)
            d = p.declare(n)
            if kind in ("ptr", "sptr", "pp", "cpp") and rng.random() < 0.3:
                # The same through a typedef
                td = self.g.names.new("P_")
                self.g.lines.append("typedef %s;" % p.declare(td))
                d = "%s %s" % (td, n)
            decl.append(d)
            args.append(p.declare("a%d_" % i))
            glob.append(p.globals())
            body.append(p.body("a%d_" % i))
            f.params.append(p)
        self.funcs.append(f)
        self.g.lines.append("int %s(%s);" % (f.name, ", ".join(decl)))
        self.src += glob
        self.src.append("int %s(%s)\n{ %s return %d; }"
                        % (f.name, ", ".join(args), " ".join(body), 100 + f.k))


def case(ctx):
    ready()
    rng = ctx.rng
    gen = Gen(ctx)
    for _ in range(rng.randint(3, 6)):
        gen.function()
    path = ctx.write("h.h", gen.g.header())
    so = gcc_lib(ctx, "\n".join([PREFIX, '#include "h.h"', *gen.src]) + "\n", "asan",
                 ["-I" + ctx.dir, "-fsanitize=address", "-g"])
    raw = ct.CDLL(so)
    calls = (ct.c_long * 64).in_dll(raw, "CALLS")
    log = (ct.c_ubyte * 8192).in_dll(raw, "LOG")
    lib = CLibrary(so, CParser(path))
    for f in gen.funcs:
        for p in f.params:
            if isinstance(p, Out) and p.kind == "sptr":
                n = p.rec.name
                p.cls = lib("structs", n[7:]) if n.startswith("struct ") else lib("types", n)
    kept = []  # (what, out, wanted value): to be read again later
    trace = []
    for _ in range(16):
        one_call(ctx, gen, lib, raw, calls, log, kept, trace)
        if rng.random() < 0.2:
            gc.collect()
        if kept and rng.random() < 0.5:
            what, how, p, want = kept.pop(rng.randrange(len(kept)))
            read_later(ctx, what, how, p, want)
    gc.collect()
    for what, how, p, want in kept:
        read_later(ctx, what, how, p, want)
    ctx.case_key(gen.g.header(), trace)


def read_later(ctx, what, how, p, want):
    got = what if how is None else what[how]
    ctx.true(p.same(got, want), "an automatic value changed after the call",
             parameter=p.name, kind=p.kind, got=got, expected=want)
    ctx.saw("values read later")


def one_call(ctx, gen, lib, raw, calls, log, kept, trace):
    rng = ctx.rng
    f = rng.choice(gen.funcs)
    plan, at = [], 0
    positional, named = [], {}
    by_name = False
    for i, p in enumerate(f.params):
        if not isinstance(p, Out):
            v = bgen.value(rng, p[2])
            plan.append((p, "value", v, at, None))
            at += ct.sizeof(p[2])
            how, give = "value", v
        else:
            how = rng.choice(["omit", "omit", "omit", "null", "give"])
            obj = None
            want = p.prepare(rng, raw)
            give = None
            if how == "give":
                if p.kind == "sptr":
                    obj = p.cls()
                elif p.kind == "ptr":
                    obj = p.ctype()
                elif p.kind == "pp":
                    obj = ct.POINTER(p.ctype)()
                elif p.kind == "cpp":
                    obj = ct.c_char_p()
                elif p.kind == "wpp":
                    obj = ct.c_wchar_p()
                elif p.kind == "hpp":
                    obj = ct.POINTER(lib(*p.rec[:2]))()
                else:
                    obj = ct.c_void_p()
                give = rng.choice([ct.byref, ct.pointer])(obj)
            ctx.saw({"omit": "omitted", "null": "NULL", "give": "given"}[how])
            ctx.kind("kinds", "%s %s" % (p.kind, how))
            plan.append((p, how, want, at, obj))
            at += 8 + p.size()
        if how == "omit" or by_name or rng.random() < 0.15:
            by_name = True
        if how == "omit":
            continue
        n = p.name if isinstance(p, Out) else p[1]
        if by_name:
            named[n] = give
        else:
            positional.append(give)
    items = list(named.items())
    rng.shuffle(items)
    before = list(calls)
    res = getattr(lib, f.name)(*positional, **dict(items))
    ctx.saw("calls")
    before[f.k] += 1
    ctx.eq(list(calls), before, "the calls received")
    ctx.eq(res(), 100 + f.k, "the value returned")
    trace.append((f.name, [x[1] for x in plan]))
    data = bytes(log[:at])
    autos, addresses = [], set()
    for i, (p, how, want, off, obj) in enumerate(plan):
        if how == "value":
            c = p[2]
            ctx.eq(data[off : off + ct.sizeof(c)], bytes(c(want)), "the value of %s" % p[1])
            ctx.true(bgen.same(res[i], want) and bgen.same(res[p[1]], want),
                     "the result does not give back the argument %s" % p[1])
            continue
        a = int.from_bytes(data[off : off + 8], "little")
        found = data[off + 8 : off + 8 + p.size()]
        if how == "null":
            ctx.eq(a, 0, "the address C received for None", parameter=p.name, kind=p.kind)
            continue
        ctx.true(a != 0, "C received NULL for %s" % p.name, how=how, kind=p.kind)
        ctx.true(a not in addresses, "two parameters share their storage")
        addresses.add(a)
        if how == "give":
            ctx.eq(a, ct.addressof(obj), "the address of the object given for %s" % p.name)
            got = obj.value if p.kind not in ("sptr", "pp", "hpp") else obj
            ctx.true(p.same(got, want), "what C wrote is not in the object given",
                     got=got, expected=want)
            continue
        ctx.eq(found, bytes(p.size()), "the content of the storage C receives",
               parameter=p.name, kind=p.kind)
        autos.append((i, p, want))
        for how2 in (i, p.name):
            got = res[how2]
            ctx.true(p.same(got, want), "result[%r] is not what C wrote" % how2,
                     kind=p.kind, got=got, expected=want)
            ctx.saw("values read back")
    got = res.auto()
    ctx.eq(len(got), len(autos), "the number of automatic values")
    for (i, p, want), g in zip(autos, got):
        ctx.true(p.same(g, want), "an automatic value is not what C wrote, or not in order",
                 parameter=p.name, got=g, expected=want)
        ctx.saw("values read back")
    ret, args = res
    args = list(args)
    ctx.eq(ret, 100 + f.k, "the first value of the unpacked result")
    ctx.eq(len(args), len(f.params), "the number of unpacked arguments")
    for i, p, want in autos:
        ctx.true(p.same(args[i], want), "an unpacked argument is not what C wrote",
                 parameter=p.name, got=args[i], expected=want)
        r = rng.random()
        if p.kind in ("pp", "cpp", "wpp"):
            # They point to variables of the library, which change.
            continue
        if r < 0.4:
            kept.append((res, rng.choice([i, p.name]), p, want))
        elif p.kind == "sptr" and r < 0.8:
            # Only the value is kept, not the result.
            kept.append((args[i], None, p, want))
