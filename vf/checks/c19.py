"""C19: scalars, strings, pointers and structures pass to and from C unchanged."""

import ctypes as ct

from .. import bgen
from ..fgen import FuncGen, Watch
from ..sut import CLibrary, CParser, build_array, ready

RULE = (
    "A case is a compiled library of random functions (0 to 9 parameters of any "
    "spelling of the fundamental types, typedefs, enums, pointers, arrays, strings, "
    "wide strings, structures by value and by pointer, "
    "pointers to structures and unions defined later or never; any such result) called through "
    "the wrapper with random values, many at the limits of their types, given as "
    "Python values or ctypes objects, by position or by name. Oracle: the bytes C "
    "recorded for each argument are those of the value given, the right function was "
    "called exactly once, and the call gives back the value C returned. Distinct: by "
    "header and values."
)
CASES = {"quick": 300, "thorough": 4000}
REQUIRE = {"calls": 4000, "arguments": 8000, "results": 3000, "structures": 800,
           "strings": 300, "handles": 300}
ASSUMPTIONS = ["gcc and ctypes of this machine"]

KINDS = (["scalar"] * 6 + ["ptr", "ptr", "arr", "open", "string", "wstring", "void",
                           "struct", "sptr", "handle"])
RETS = ["scalar"] * 6 + ["handle", "string", "struct", "struct", "void", "ptr", "sptr"]
TEXTS = [b"", b"a", b"hello world", b"\xff\x80", b"x" * 50, b"with \"quotes\" \n"]
WTEXTS = ["", "a", "h\xe9llo", "\u20ac\U0001f600", "z" * 20]


def argument(ctx, lib, p):
    """(what is given, bytes recorded, what keeps it alive)"""
    rng = ctx.rng
    ctx.saw("arguments")
    if p.kind == "scalar":
        ctx.kind("types passed", p.base)
        v = bgen.value(rng, p.ctype)
        give = v
        r = rng.random()
        if r < 0.2:
            give = p.ctype(v)
        elif p.ctype in (ct.c_float, ct.c_double) and r < 0.4:
            v = give = rng.randint(-1000, 1000)
        data = bytes(p.ctype(v))
        return give, data[:10] if p.ctype is ct.c_longdouble else data, v
    if p.kind in ("ptr", "arr", "open"):
        vals = [bgen.value(rng, p.ctype) for _ in range(p.count)]
        data = b"".join(bytes(p.ctype(v)) for v in vals)
        r = rng.random()
        if p.kind != "arr" and r < 0.15:
            return None, bytes(8) + bytes(len(data)), None
        if p.kind == "arr" or r < 0.5:
            obj = build_array(lib, p.ctype, p.count, vals)
            give = obj
        elif r < 0.7 or p.count > 1:
            obj = (p.ctype * p.count)(*vals)
            give = ct.cast(obj, ct.POINTER(p.ctype))
        else:
            obj = p.ctype(vals[0])
            give = rng.choice([ct.byref, ct.pointer])(obj)
        return give, bytes(ct.c_void_p(ct.addressof(obj))) + data, obj
    if p.kind in ("string", "wstring"):
        ctx.saw("strings")
        if rng.random() < 0.15:
            return None, bytes(ct.c_long(-1)), None
        if p.kind == "string":
            v = rng.choice(TEXTS)
            data = v
        else:
            v = rng.choice(WTEXTS)
            data = v.encode("utf-32-le")
        give = v
        if rng.random() < 0.2:
            give = (ct.c_char_p if p.kind == "string" else ct.c_wchar_p)(v)
        return give, bytes(ct.c_long(len(v))) + data, give
    if p.kind == "void":
        r = rng.random()
        if r < 0.3:
            return None, bytes(8), None
        if r < 0.6:
            a = rng.choice([0x1234, 2**64 - 1, 1 << 40])
            return a, bytes(ct.c_void_p(a)), None
        obj = (ct.c_int * 3)(1, 2, 3)
        return obj, bytes(ct.c_void_p(ct.addressof(obj))), obj
    if p.kind == "handle":
        ctx.saw("handles")
        cls = ct.POINTER(lib(*p.rec[:2]))
        a = rng.choice([None, 0x1234, 2**64 - 1, 1 << 40])
        give = None if a is None and rng.random() < 0.5 else ct.cast(a, cls)
        return give, bytes(ct.c_void_p(a)), None
    ctx.saw("structures")
    cls = struct_class(lib, p.rec)
    obj = cls()
    vals = p.rec.fill(rng, obj)
    if p.kind == "struct":
        return obj, p.rec.data(vals), obj
    if rng.random() < 0.15:
        return None, bytes(8) + bytes(len(p.rec.data(vals))), None
    give = rng.choice([ct.byref, ct.pointer])(obj)
    return give, bytes(ct.c_void_p(ct.addressof(obj))) + p.rec.data(vals), obj


def struct_class(lib, rec):
    if rec.name.startswith("struct "):
        return lib("structs", rec.name[7:])
    return lib("types", rec.name)


def result(ctx, lib, w, f):
    """Choose what C will return; gives the function checking what is got."""
    rng, p = ctx.rng, f.ret
    if p is None:
        return lambda got: got is None, None, None
    ctx.saw("results")
    if p.kind == "scalar":
        ctx.kind("types returned", p.base)
        v = bgen.value(rng, p.ctype)
        w.ret(f, p.ctype).value = v
        return lambda got: bgen.same(got, v) and type(got) is type(v), v, None
    if p.kind == "string":
        v = rng.choice([*TEXTS, None])
        keep = ct.create_string_buffer(v or b"")
        w.ret(f, ct.c_void_p).value = None if v is None else ct.addressof(keep)
        return lambda got: got == v, v, keep
    if p.kind == "void":
        v = rng.choice([None, 0x7FFF1234, 2**64 - 1])
        w.ret(f, ct.c_void_p).value = v
        return lambda got: got == v, v, None
    if p.kind == "handle":
        v = rng.choice([None, 0x7FFF1234, 2**64 - 1])
        w.ret(f, ct.c_void_p).value = v

        def check(got):
            # It can be given to the functions which want one
            cls = ct.POINTER(lib(*p.rec[:2]))
            return isinstance(got, cls) and ct.cast(got, ct.c_void_p).value == v

        return check, v, None
    if p.kind == "ptr":
        vals = [bgen.value(rng, p.ctype) for _ in range(p.count)]
        obj = (p.ctype * p.count)(*vals)
        if rng.random() < 0.2:
            w.ret(f, ct.c_void_p).value = None
            return lambda got: not got, "NULL", None
        w.ret(f, ct.c_void_p).value = ct.addressof(obj)
        return (lambda got: all(bgen.same(got[i], v) for i, v in enumerate(vals)),
                vals, obj)
    ctx.saw("structures")
    obj = struct_class(lib, p.rec)()
    vals = p.rec.fill(rng, obj)
    if p.kind == "struct":
        ret = w.ret(f, type(obj))
        ct.memmove(ct.addressof(ret), ct.addressof(obj), ct.sizeof(obj))

        def check(got):
            return isinstance(got, type(obj)) and p.rec.read(got) == vals

    else:
        w.ret(f, ct.c_void_p).value = ct.addressof(obj)

        def check(got):
            return p.rec.read(got.contents) == vals

    return check, vals, obj


def case(ctx):
    ready()
    rng = ctx.rng
    g = FuncGen(ctx)
    g.prepare()
    for _ in range(rng.randint(4, 9)):
        g.function(KINDS, RETS)
    path, so = g.build()
    lib = CLibrary(so, CParser(path))
    w = Watch(so)
    trace = []
    for _ in range(18):
        f = rng.choice(g.funcs)
        args = [argument(ctx, lib, p) for p in f.params]
        good, ret, keep = result(ctx, lib, w, f)
        n = len(args)
        if rng.random() < 0.3:
            n = rng.randint(0, len(args))
        names = list(range(n, len(args)))
        rng.shuffle(names)
        before = w.counts()
        fn = getattr(lib, f.name)
        res = fn(*[a[0] for a in args[:n]],
                 **{f.params[i].name: args[i][0] for i in names})
        ctx.saw("calls")
        before[f.k] += 1
        ctx.eq(w.counts(), before, "the calls received by the library")
        data = b"".join(a[1] for a in args)
        got = w.read(len(data))
        if got != data:
            at = 0
            for p, a in zip(f.params, args):
                ctx.eq(got[at : at + len(a[1])], a[1],
                       "the bytes of argument %s (%s) received by C" % (p.name, p.declare()),
                       function=f.prototype(), given=a[0])
                at += len(a[1])
        ctx.saw("comparisons")
        val = res()
        ctx.true(good(val), "the value returned by C is not the one given",
                 function=f.prototype(), got=val, expected=ret)
        trace.append((f.name, data))
    ctx.case_key(g.header(), trace)
