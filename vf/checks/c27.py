"""C27: function pointers call back with the right values."""

import ctypes as ct
import gc
import threading

from .. import bgen
from ..core import gcc_lib
from ..fgen import PREFIX, FuncGen
from ..sut import CLibrary, CParser, build_array, ready

RULE = (
    "A case is a header of function-pointer types (typedefs, parameters, members, arrays, "
    "pointers to them, returned ones, taking others) over all scalars, enumerations, "
    "strings, pointers, arrays, structures by value and pointer, handles, and a compiled library "
    "calling what it is given with values chosen by the case. Python functions wrapped "
    "with the types the library gives are passed, stored in structures and arrays, kept "
    "by C and called later, called in other threads, called from within another one, and "
    "C functions are returned and called from Python or passed back. Oracle: number of "
    "calls, each argument value (and what pointers point to, NULL included, with the "
    "address C has), what C received as result, what C reads after the callback wrote "
    "through a pointer, and what a C function recorded. Distinct: by header and values."
)
CASES = {"quick": 150, "thorough": 2500}
REQUIRE = {"called back": 12000, "arguments": 40000, "results": 5000, "stored": 500,
           "in tables": 400, "kept by C": 150, "other threads": 5000, "nested": 300,
           "C functions called": 600, "passed back": 150, "NULL given": 150,
           "written by Python": 4000, "handles": 500}
ASSUMPTIONS = ["ctypes callbacks return scalars, void and void * only"]

KINDS = ["scalar", "scalar", "scalar", "ptr", "arr", "open", "string", "wstring", "void",
         "struct", "sptr", "arr2", "handle"]
N = 4


class Sig:
    """A function-pointer type CB_k: parameters and result."""

    def __init__(self, gen, k):
        rng, g = gen.rng, gen.g
        self.k = k
        self.params = []
        for j in range(rng.choice([0, 1, 1, 2, 2, 3, 4, 6, 9])):
            kind = rng.choice(KINDS)
            if kind == "arr2":
                p = g.param("p%d" % j, ["ptr"])
                p.kind, p.dims = "arr2", (rng.randint(1, 3), rng.randint(1, 3))
            else:
                p = g.param("p%d" % j, [kind])
            while p.ctype is ct.c_longdouble:
                p = g.param("p%d" % j, ["scalar"])
            p.size = p.dims[0] * p.dims[1] if p.kind == "arr2" else p.count
            self.params.append(p)
        self.ret = None
        if rng.random() < 0.8:
            self.ret = g.param("", ["scalar", "scalar", "scalar", "void"])
            while self.ret.ctype is ct.c_longdouble:
                self.ret = g.param("", ["scalar"])
            self.ret.quals = ""
        self.named = rng.random() < 0.6
        # The convention is the usual one
        self.ptr = rng.choice(["(*%s)", "(*%s)", "(__cdecl *%s)"])
        self.td = g.names.new("CB_")
        self.holder = g.names.new("st_")

    def declare(self, name, names=None):
        """The type around a declarator."""
        names = names or [p.name if self.named else "" for p in self.params]
        ps = ", ".join(decl(p, n) for p, n in zip(self.params, names)) or "void"
        d = "%s(%s)" % (name, ps)
        return "void " + d if self.ret is None else self.ret.declare("%s") % d

    def lines(self, rng):
        k, td = self.k, self.td
        direct = self.declare(self.ptr)
        return [
            "typedef %s;" % (direct % td),
            "void call_%d(%s f, int n);" % (k, td),
            "void direct_%d(%s, int n);" % (k, direct % rng.choice(["f", ""])),
            "struct %s { char pad; %s; long mid; %s more[2]; %s; char end; };"
            % (self.holder, direct % "f", td, direct % "g[2]"),
            "void hold_%d(struct %s *h, int which, int n);" % (k, self.holder),
            "void table_%d(%s *t, int which, int n);" % (k, td),
            "void store_%d(%s);" % (k, direct % "f"),
            "void fire_%d(int n);" % k,
            "void threads_%d(%s f, int n);" % (k, td),
            "%s get_%d(void);" % (td, k),
            self.declare("(*get2_%d(void))" % k) + ";",
            "void outer_%d(void (*f)(%s, int n));" % (k, direct % "g"),
        ]

    def source(self):
        k, td = self.k, self.td
        out = []
        args = []
        for j, p in enumerate(self.params):
            v = "IN_%d_%d" % (k, j)
            null = "NUL_%d_%d[i %% 4] ? 0 : " % (k, j)
            out.append("int NUL_%d_%d[4];" % (k, j))
            if p.kind in ("string", "wstring"):
                out.append("%s %s[4][32];" % ("char" if p.kind == "string" else "wchar_t", v))
                args.append(null + "%s[i %% 4]" % v)
            elif p.kind in ("void", "handle"):
                out.append("void *%s[4];" % v)
                args.append("%s[i %% 4]" % v)
            elif p.kind == "scalar":
                out.append("%s %s[4];" % (p.base, v))
                args.append("%s[i %% 4]" % v)
            elif p.kind in ("struct", "sptr"):
                out.append("%s %s[4];" % (p.rec.name, v))
                args.append("%s[i %% 4]" % v if p.kind == "struct"
                            else null + "&%s[i %% 4]" % v)
            else:
                out.append("%s %s[4][%d];" % (p.base, v, p.size))
                args.append(null + "(void *)%s[i %% 4]" % v)
        call = "f(%s);" % ", ".join(args)
        if self.ret is not None:
            out.append(self.ret.declare("RES_%d[4];" % k))
            out.append(self.ret.declare("RET_%d;" % k))
            call = "RES_%d[i %% 4] = " % k + call
        loop = "{ SEEN = (void *)f; if (f) for (int i = 0; i < n; i++) %s }" % call
        direct = self.declare(self.ptr)
        names = ["a%d_" % j for j in range(len(self.params))]
        rec = " ".join(log(p, n) for p, n in zip(self.params, names))
        out += [
            "void call_%d(%s f, int n) %s" % (k, td, loop),
            "void direct_%d(%s, int n) { call_%d(f, n); }" % (k, direct % "f", k),
            "void hold_%d(struct %s *h, int w, int n) { call_%d(w == 0 ? h->f : w < 3 ? "
            "h->more[w - 1] : h->g[w - 3], n); }" % (k, self.holder, k),
            "void table_%d(%s *t, int w, int n) { call_%d(t[w], n); }" % (k, td, k),
            "static %s KEPT_%d; void store_%d(%s) { KEPT_%d = f; }"
            % (td, k, k, direct % "f", k),
            "void fire_%d(int n) { call_%d(KEPT_%d, n); }" % (k, k, k),
            "static int TN_%d; static void *run_%d(void *f) { call_%d((%s)f, TN_%d); "
            "return 0; }" % (k, k, k, td, k),
            "void threads_%d(%s f, int n) { pthread_t t[3]; TN_%d = n; for (int i = 0; i < 3; "
            "i++) pthread_create(&t[i], 0, run_%d, (void *)f); for (int i = 0; i < 3; i++) "
            "pthread_join(t[i], 0); }" % (k, td, k, k),
            "%s { CALLS[%d]++; at = 0; %s %s }" % (
                self.declare("native_%d" % k, names), k, rec,
                "return RET_%d;" % k if self.ret else ""),
            "%s get_%d(void) { return native_%d; }" % (td, k, k),
            self.declare("(*get2_%d(void))" % k) + " { return native_%d; }" % k,
            "void outer_%d(void (*f)(%s, int n)) { f(native_%d, %d); }"
            % (k, direct % "g", k, 100 + k),
        ]
        return out


def decl(p, name):
    if p.kind == "arr2":
        return "%s %s %s[%d][%d]" % (p.quals, p.base, name, *p.dims)
    return p.declare(name)


def log(p, n):
    if p.kind == "arr2":
        return ("put(&{0}, 8); if ({0}) put((void *){0}, {1} * sizeof **{0}); "
                "else zero({1} * sizeof **{0});").format(n, p.size)
    return p.log(n)


class Gen:
    def __init__(self, ctx):
        self.ctx, self.rng = ctx, ctx.rng
        self.g = FuncGen(ctx)
        self.g.prepare()
        self.sigs = [Sig(self, k) for k in range(self.rng.randint(2, 4))]


def case(ctx):
    ready()
    rng = ctx.rng
    gen = Gen(ctx)
    lines = list(gen.g.lines)
    for s in gen.sigs:
        lines += s.lines(rng)
    header = "\n".join(lines + gen.g.tail) + "\n"
    path = ctx.write("h.h", header)
    src = [PREFIX, "#include <pthread.h>", '#include "h.h"', "void *SEEN;"]
    for s in gen.sigs:
        src += s.source()
    so = gcc_lib(ctx, "\n".join(src) + "\n", "cb", ["-I" + ctx.dir])
    w = World(ctx, gen, CLibrary(so, CParser(path), lock_calls=rng.random() < 0.3), so)
    steps = [w.direct, w.direct, w.held, w.table, w.kept, w.threads, w.nested, w.native,
             w.native, w.back, w.null]
    for _ in range(24):
        s = rng.choice(gen.sigs)
        step = rng.choice(steps)
        ctx.kind("steps", step.__name__)
        step(s)
        if rng.random() < 0.1:
            gc.collect()
    for s, f in list(w.stored.items()):
        w.run(s, f, lambda n: getattr(w.lib, "fire_%d" % s.k)(n))
    ctx.case_key(header, w.trace)


class Callback:
    """A Python function which records and checks what C gives it."""

    def __init__(self, world, s, write=True):
        self.w, self.s, self.write = world, s, write
        self.plan = None
        self.lock = threading.Lock()
        self.counts, self.errors = {}, []
        self.inner = None

    def prepare(self):
        """Choose the values of the next calls."""
        self.plan = [self.w.inputs(self.s, i) for i in range(N)]
        self.rets = [self.w.result(self.s) for _ in range(N)]
        self.counts, self.errors = {}, []

    def __call__(self, *args):
        me = threading.get_ident()
        with self.lock:
            i = self.counts.get(me, 0)
            self.counts[me] = i + 1
        try:
            if i >= N and self.write:
                # What C gives has been modified already
                self.w.shape(self.s, args)
            else:
                self.w.check(self.s, args, self.plan[i % N])
            if self.write and i < N:
                self.w.modify(self.s, args, self.plan[i])
            if self.inner is not None:
                self.inner()
        except BaseException as e:
            self.errors.append(e)
        return self.rets[i % N]


class World:
    def __init__(self, ctx, gen, lib, so):
        self.ctx, self.rng, self.gen, self.lib = ctx, ctx.rng, gen, lib
        self.raw = ct.CDLL(so)
        self.calls = (ct.c_long * 64).in_dll(self.raw, "CALLS")
        self.log = (ct.c_ubyte * 8192).in_dll(self.raw, "LOG")
        self.stored, self.trace = {}, []
        for r in gen.g.recs:
            n = r.name
            r.cls = lib("structs", n[7:]) if n.startswith("struct ") else lib("types", n)

    def given(self, s, j, typ):
        return (typ * N).in_dll(self.raw, "IN_%d_%d" % (s.k, j))

    # --- values

    def inputs(self, s, i):
        """Set what C gives at its i-th call; returns what must be received."""
        rng, out = self.rng, []
        for j, p in enumerate(s.params):
            null = p.kind not in ("scalar", "struct", "void", "handle") and rng.random() < 0.15
            (ct.c_int * N).in_dll(self.raw, "NUL_%d_%d" % (s.k, j))[i] = null
            if p.kind == "scalar":
                v = bgen.value(rng, p.ctype)
                self.given(s, j, p.ctype)[i] = v
            elif p.kind in ("struct", "sptr"):
                v = p.rec.fill(rng, self.given(s, j, p.rec.cls)[i])
            elif p.kind == "string":
                v = rng.choice([b"", b"a", b"some text", b"\xe9\xff \x01"])
                self.given(s, j, ct.c_char * 32)[i].value = v
            elif p.kind == "wstring":
                v = rng.choice(["", "a", "some text", "\xe9\u20ac\U0001f600"])
                self.given(s, j, ct.c_wchar * 32)[i].value = v
            elif p.kind in ("void", "handle"):
                v = rng.choice([None, 1, 2**64 - 1, 0x7ffe1000])
                self.given(s, j, ct.c_void_p)[i] = v
            else:
                v = [bgen.value(rng, p.ctype) for _ in range(p.size)]
                a = self.given(s, j, p.ctype * p.size)[i]
                for x, y in enumerate(v):
                    a[x] = y
            out.append(None if null else v)
        return out

    def result(self, s):
        if s.ret is None:
            return None
        if s.ret.kind == "void":
            return self.rng.choice([None, 1, 2**64 - 1])
        return bgen.value(self.rng, s.ret.ctype)

    # --- what a callback receives

    def shape(self, s, args):
        self.ctx.eq(len(args), len(s.params), "the number of arguments received")

    def check(self, s, args, plan):
        ctx = self.ctx
        self.shape(s, args)
        for j, (p, got, want) in enumerate(zip(s.params, args, plan)):
            ctx.saw("arguments")
            what = "the argument %d (%s) received by Python" % (j, decl(p, p.name).strip())
            if p.kind in ("scalar", "string", "wstring", "void"):
                ctx.true(bgen.same(got, want) and type(got) is type(want), what + " differs",
                         got=got, expected=want)
            elif p.kind == "handle":
                cls = ct.POINTER(self.lib(*p.rec[:2]))
                ctx.true(isinstance(got, cls), what + " has another type", got=got)
                ctx.eq(ct.cast(got, ct.c_void_p).value, want, what)
                ctx.saw("handles")
            elif p.kind == "struct":
                ctx.true(isinstance(got, p.rec.cls), what + " has another type")
                ctx.eq(p.rec.read(got), want, what)
            elif want is None:
                ctx.true(not got, what + " is not NULL", got=got)
            elif p.kind == "sptr":
                ctx.eq(p.rec.read(got[0]), want, what)
            else:
                ctx.true(all(map(bgen.same, values(p, got), want)), what + " differs",
                         got=values(p, got), expected=want)

    def modify(self, s, args, plan):
        """Write through the pointers."""
        for p, got, want in zip(s.params, args, plan):
            if want is None or p.quals == "const":
                continue
            if p.kind == "sptr":
                want.update(p.rec.fill(self.rng, got[0]))
            elif p.kind in ("ptr", "arr", "open"):
                i = self.rng.randrange(p.size)
                got[i] = want[i] = bgen.value(self.rng, p.ctype)
            else:
                continue
            self.ctx.saw("written by Python")

    def after(self, s, cb):
        """What C has after n calls."""
        ctx = self.ctx
        if cb.errors:
            raise cb.errors[0]
        for i in range(N):
            if s.ret is not None and any(c > i for c in cb.counts.values()):
                ctx.saw("results")
                c = ct.c_void_p if s.ret.kind == "void" else s.ret.ctype
                got = (c * N).in_dll(self.raw, "RES_%d" % s.k)[i]
                ctx.true(bgen.same(got, cb.rets[i]), "the result received by C differs",
                         got=got, expected=cb.rets[i], type=s.ret.declare(""))
            for j, p in enumerate(s.params):
                want = cb.plan[i][j]
                if want is None:
                    continue
                if p.kind == "sptr":
                    ctx.eq(p.rec.read(self.given(s, j, p.rec.cls)[i]), want,
                           "what Python wrote")
                elif p.kind in ("ptr", "arr", "open"):
                    got = list(self.given(s, j, p.ctype * p.size)[i])
                    ctx.true(all(map(bgen.same, got, want)), "what Python wrote differs",
                             got=got, expected=want)

    def run(self, s, cb, call, n=None):
        """Let C call it n times."""
        cb.prepare()
        if n is None:
            n = self.rng.choice([0, 1, 2, 3, 4, 4, 30])
        call(n)
        total = sum(cb.counts.values())
        self.ctx.eq(total, n, "the number of calls")
        self.ctx.saw("called back", total)
        self.after(s, cb)
        self.trace.append((s.k, n, repr(cb.plan), repr(cb.rets)))

    def wrapped(self, s, cb):
        """Wrapped with one of the types of the library."""
        rng, lib = self.rng, self.lib
        types = [
            lambda: getattr(lib, s.td), lambda: lib("types", s.td),
            lambda: getattr(lib, "call_%d" % s.k).arg_c_type("f"),
            lambda: getattr(lib, "store_%d" % s.k).arg_c_type(0),
            lambda: getattr(lib, "call_%d" % s.k).arg_types[0],
            lambda: type(lib("structs", s.holder)().more[1]),
        ]
        return rng.choice(types)()(cb)

    # --- steps

    def direct(self, s):
        cb = Callback(self, s)
        name = self.rng.choice(["call_%d", "direct_%d"]) % s.k
        typ = getattr(self.lib, name).arg_types[0]
        f = typ(cb) if self.rng.random() < 0.5 else None
        if f is None or not isinstance(f, typ):
            f = typ(cb)
        for _ in range(self.rng.randint(1, 3)):
            self.run(s, cb, lambda n: getattr(self.lib, name)(f, n))

    def held(self, s):
        """Stored in a structure, which is enough to keep it."""
        h = self.lib("structs", s.holder)()
        which = self.rng.sample(range(5), self.rng.randint(1, 5))
        cbs = {w: Callback(self, s) for w in which}
        for w, cb in cbs.items():
            if w == 0:
                h.f = type(h.f)(cb)
            elif w < 3:
                h.more[w - 1] = type(h.more[0])(cb)
            else:
                h.g[w - 3] = type(h.g[0])(cb)
            self.ctx.saw("stored")
        gc.collect(0)
        for w in self.rng.sample(which, len(which)):
            self.run(s, cbs[w], lambda n: getattr(self.lib, "hold_%d" % s.k)(h, w, n))

    def table(self, s):
        cbs = [Callback(self, s) for _ in range(3)]
        typ = getattr(self.lib, s.td)
        if self.rng.random() < 0.5:
            t = build_array(self.lib, s.td, 3, [typ(c) for c in cbs])
        else:
            t = build_array(self.lib, typ, 3)
            for i, c in enumerate(cbs):
                t[i] = typ(c)
        for w in self.rng.choices(range(3), k=3):
            self.ctx.saw("in tables")
            self.run(s, cbs[w], lambda n: getattr(self.lib, "table_%d" % s.k)(t, w, n))

    def kept(self, s):
        """Kept by C, called at any time later (the case ends with one)."""
        cb = self.stored.get(s)
        if cb is None or self.rng.random() < 0.5:
            cb = Callback(self, s)
            cb.f = self.wrapped(s, cb) if self.rng.random() < 0.3 else \
                getattr(self.lib, "store_%d" % s.k).arg_types[0](cb)
            getattr(self.lib, "store_%d" % s.k)(cb.f)
            self.stored[s] = cb
        self.ctx.saw("kept by C")
        self.run(s, cb, lambda n: getattr(self.lib, "fire_%d" % s.k)(n))

    def threads(self, s):
        cb = Callback(self, s, write=False)
        f = self.wrapped(s, cb)
        cb.prepare()
        n = self.rng.choice([4, 8, 20])
        getattr(self.lib, "threads_%d" % s.k)(f, n)
        self.ctx.eq(sum(cb.counts.values()), 3 * n, "the number of calls by threads")
        self.ctx.saw("other threads", 3 * n)
        self.after(s, cb)

    def nested(self, s):
        """A callback which calls a C function which calls another one."""
        cb, deep = Callback(self, s), None
        other = self.rng.choice([x for x in self.gen.sigs if x is not s] or [s])
        f = self.wrapped(s, cb)
        if other is not s:
            deep = Callback(self, other)
            g = self.wrapped(other, deep)

            def inner():
                self.ctx.saw("nested")
                self.run(other, deep, lambda n: getattr(self.lib, "call_%d" % other.k)(g, n),
                         self.rng.randint(1, 4))

            cb.inner = inner
        self.run(s, cb, lambda n: getattr(self.lib, "call_%d" % s.k)(f, n),
                 self.rng.randint(1, 4))

    def null(self, s):
        """No function at all."""
        cb = Callback(self, s)
        cb.prepare()
        name = self.rng.choice(["call_%d", "direct_%d"]) % s.k
        seen = ct.c_void_p.in_dll(self.raw, "SEEN")
        seen.value = 1
        f = getattr(self.lib, name)
        if self.rng.random() < 0.5:
            f(None, 3)
        else:
            f(f.arg_types[0](), 3)
        self.ctx.saw("NULL given")
        self.ctx.eq(seen.value, None, "the function pointer seen by C")

    def back(self, s):
        """A C function given back to C."""
        name = self.rng.choice(["get_%d", "get2_%d"]) % s.k
        f = getattr(self.lib, name)()()
        # Same types, made at different places
        g = ct.cast(f, getattr(self.lib, "call_%d" % s.k).arg_types[0])
        Callback(self, s).prepare()
        if s.ret is not None:
            v = self.result(s)
            c = ct.c_void_p if s.ret.kind == "void" else s.ret.ctype
            c.in_dll(self.raw, "RET_%d" % s.k).value = v
        before = self.calls[s.k]
        getattr(self.lib, "call_%d" % s.k)(g, 3)
        self.ctx.saw("passed back")
        self.ctx.eq(self.calls[s.k], before + 3, "the number of calls of the C function")
        if s.ret is not None:
            got = list((c * N).in_dll(self.raw, "RES_%d" % s.k))[:3]
            self.ctx.true(all(bgen.same(x, v) for x in got), "the result differs",
                          got=got, expected=v)

    def native(self, s):
        """A function pointer returned (or given) by C, called from Python."""
        rng, ctx = self.rng, self.ctx
        r = rng.random()
        if r < 0.7:
            name = rng.choice(["get_%d", "get2_%d"]) % s.k
            f = getattr(self.lib, name)()()
            for _ in range(rng.randint(1, 4)):
                self.call_native(s, f)
            return
        outer = getattr(self.lib, "outer_%d" % s.k)
        errors, count = [], [0]

        def given(g, n):
            count[0] += 1
            try:
                ctx.eq(n, 100 + s.k, "the number given with the function")
                self.call_native(s, g)
            except BaseException as e:
                errors.append(e)

        outer(outer.arg_types[0](given))
        if errors:
            raise errors[0]
        ctx.eq(count[0], 1, "the number of calls")

    def call_native(self, s, f):
        rng, ctx = self.rng, self.ctx
        args, data, keep = [], [], []
        for p in s.params:
            null = p.kind not in ("scalar", "struct", "void", "handle") and rng.random() < 0.2
            if p.kind == "scalar":
                v = bgen.value(rng, p.ctype)
                args.append(rng.choice([v, p.ctype(v)]))
                data.append(bytes(p.ctype(v)))
            elif p.kind == "struct":
                v = p.rec.cls()
                data.append(p.rec.data(p.rec.fill(rng, v)))
                args.append(v)
            elif p.kind == "void":
                v = rng.choice([None, 0x1000, 2**64 - 1])
                args.append(v)
                data.append((v or 0).to_bytes(8, "little"))
            elif p.kind == "handle":
                v = rng.choice([None, 0x1000, 2**64 - 1])
                args.append(v and ct.cast(v, ct.POINTER(self.lib(*p.rec[:2]))))
                data.append((v or 0).to_bytes(8, "little"))
            elif p.kind == "string":
                v = None if null else rng.choice([b"", b"text", b"\xff\xe9"])
                args.append(v)
                data.append((-1 if null else len(v)).to_bytes(8, "little", signed=True)
                            + (v or b""))
            elif p.kind == "wstring":
                v = None if null else rng.choice(["", "text", "\xe9\U0001f600"])
                args.append(v)
                data.append((-1 if null else len(v)).to_bytes(8, "little", signed=True)
                            + (v or "").encode("utf-32-le"))
            elif p.kind == "sptr":
                o = p.rec.cls()
                d = p.rec.data(p.rec.fill(rng, o))
                keep.append(o)
                self.pointer(args, data, o, d, null)
            elif p.kind == "arr2":
                o = (p.ctype * p.dims[1] * p.dims[0])()
                vs = [bgen.value(rng, p.ctype) for _ in range(p.size)]
                for i, v in enumerate(vs):
                    o[i // p.dims[1]][i % p.dims[1]] = v
                keep.append(o)
                self.pointer(args, data, o, b"".join(bytes(p.ctype(v)) for v in vs), null,
                             array=True)
            else:
                vs = [bgen.value(rng, p.ctype) for _ in range(p.size)]
                o = (p.ctype * p.size)(*vs)
                keep.append(o)
                self.pointer(args, data, o, b"".join(bytes(p.ctype(v)) for v in vs), null,
                             array=True)
        want_ret = self.result(s)
        if s.ret is not None:
            c = ct.c_void_p if s.ret.kind == "void" else s.ret.ctype
            c.in_dll(self.raw, "RET_%d" % s.k).value = want_ret
        before = self.calls[s.k]
        got = f(*args)
        ctx.saw("C functions called")
        ctx.eq(self.calls[s.k], before + 1, "the number of calls of the C function")
        data = b"".join(data)
        ctx.eq(bytes(self.log[:len(data)]), data, "the arguments received by C",
               signature=s.declare("f"), arguments=args)
        ctx.true(bgen.same(got, want_ret), "the result of the C function differs", got=got,
                 expected=want_ret)
        self.trace.append((s.k, data, repr(got)))

    def pointer(self, args, data, obj, content, null, array=False):
        if null:
            args.append(None)
            data.append(bytes(8 + len(content)))
            return
        args.append(obj if array else self.rng.choice([ct.byref, ct.pointer])(obj))
        data.append(ct.addressof(obj).to_bytes(8, "little") + content)


def values(p, got):
    if p.kind != "arr2":
        return [got[i] for i in range(p.size)]
    return [got[i][j] for i in range(p.dims[0]) for j in range(p.dims[1])]
