"""C26: arrays have the requested shape and content, casts the requested type and address."""

import array
import ctypes as ct
import gc
import itertools
import math

from .. import bgen
from ..core import gcc_lib
from ..fgen import PREFIX, FuncGen
from ..sut import CLibrary, CParser, build_array, cast_to, ready
from .c20 import worker_env  # noqa: F401

RULE = (
    "A case is a header of scalar, enumeration, structure, array and pointer types with "
    "their typedefs, and a library compiled with AddressSanitizer whose functions record "
    "or overwrite the elements they are given, in a Python whose objects are malloc "
    "blocks. Arrays of 1 to 4 dimensions are built for types given by name or class, "
    "from nothing, lists, tuples, generators, ranges, buffers, other arrays, nested "
    "tuples, too few values. Oracle: the type is the reference ctypes type, the memory "
    "is, byte for byte, the values in C order then zeroes, elements are found by their "
    "indices, two arrays share nothing, C sees and modifies that memory, and more values "
    "than elements, bad sizes and unknown types are refused. Arrays, pointers, "
    "references, addresses, NULL and pointers returned by C are cast to pointer types "
    "given by name or class: the type is the requested one, the address is the same, "
    "writes through one are read through the other and by C, also after the source was "
    "dropped. Distinct: by header, shapes and values."
)
CASES = {"quick": 100, "thorough": 2200}
REQUIRE = {"arrays": 2800, "from nothing": 600, "several dimensions": 1000,
           "too few values": 300, "seen by C": 2000, "written by C": 1000,
           "refused": 600, "casts": 2000, "casts seen by C": 1000, "source dropped": 400}
ASSUMPTIONS = ["a class given as the type is a ctypes class"]


class Elem:
    """A type of the header: name, C declaration of n, reference class, values."""

    def __init__(self, name, cls, kind, rec=None, inner=None):
        self.name, self.cls, self.kind, self.rec = name, cls, kind, rec
        self.inner = inner

    def value(self, rng, keep):
        """(value to give, bytes it must be in memory)"""
        if self.kind == "scalar":
            v = bgen.value(rng, self.cls)
            return v, bytes(self.cls(v))
        if self.kind == "row":
            n = self.cls._length_
            vs = [self.inner.value(rng, keep) for _ in range(rng.choice([n, n, n - 1]))]
            data = b"".join(d for _, d in vs)
            return tuple(v for v, _ in vs), data.ljust(ct.sizeof(self.cls), b"\0")
        if self.kind == "rec":
            obj, ref = self.made(), self.cls()
            vals = self.rec.fill(rng, ref)
            for m, v in vals.items():
                if isinstance(v, list):
                    getattr(obj, m)[:] = v
                else:
                    setattr(obj, m, v)
            data = bgen.bytes_of(ref)
            if rng.random() < 0.5:
                return obj, data
            return tuple(tuple(v) if isinstance(v, list) else v
                         for v in vals.values()), data
        if self.kind == "str":
            v = rng.choice([None, b"", b"some text", b"\xff" * 30])
            p = ct.c_char_p(v)
            keep.append(p)
            return v, None if v is not None else bytes(8)
        if self.kind == "void":
            v = rng.choice([None, 0, 1, 2**64 - 1, 0x7fff0000])
            return v, (v or 0).to_bytes(8, "little")
        # A pointer to something of the case
        if rng.random() < 0.2:
            return self.ptr(), bytes(8)
        obj = self.inner()
        keep.append(obj)
        return ct.pointer(obj), ct.addressof(obj).to_bytes(8, "little")


def mirror(rec):
    class ref(ct.Structure):
        _fields_ = [(m, c if n is None else c * n) for m, c, n in rec.members]

    return ref


class Gen:
    def __init__(self, ctx):
        self.ctx, self.rng = ctx, ctx.rng
        self.g = FuncGen(ctx, late=False)
        self.g.prepare()
        self.elems, self.src, self.shapes = [], [], {}

    def make(self):
        rng, g = self.rng, self.g
        scalars = []
        for n in rng.sample(bgen.ALL, 5):
            if bgen.SCALARS[n] is not ct.c_longdouble:
                scalars.append(Elem(n, bgen.SCALARS[n], "scalar"))
        scalars += [Elem(n, c, "scalar") for n, c in g.types]
        self.elems += scalars
        for r in g.recs:
            self.elems.append(Elem(r.name, mirror(r), "rec", r))
        for _ in range(2):
            e = rng.choice([x for x in scalars if x.cls not in (ct.c_char, ct.c_wchar)]
                           or [Elem("int", ct.c_int, "scalar")])
            n, k = g.names.new("R_"), rng.randint(1, 3)
            g.lines.append("typedef %s %s[%d];" % (e.name, n, k))
            row = Elem(n, e.cls * k, "row", inner=e)
            self.elems.append(row)
            if rng.random() < 0.5:
                n, k = g.names.new("R_"), rng.randint(1, 3)
                g.lines.append("typedef %s %s[%d];" % (row.name, n, k))
                self.elems.append(Elem(n, row.cls * k, "row", inner=row))
        self.pointers = []  # elements which are pointers
        for e in rng.sample(scalars, 2) + rng.sample(self.elems, 2):
            if e.cls in (ct.c_char, ct.c_wchar):
                continue
            n = g.names.new("P_")
            if e.kind == "row":
                continue
            g.lines.append("typedef %s%s *%s;" % (rng.choice(["", "", "const "]), e.name, n))
            p = Elem(n, ct.POINTER(e.cls), "ptr")
            p.to = e
            self.pointers.append(p)
        for t, kind, c in (("char", "str", ct.c_char_p), ("void", "void", ct.c_void_p)):
            n = g.names.new("P_")
            g.lines.append("typedef %s *%s;" % (t, n))
            p = Elem(n, c, kind)
            p.to = None
            self.pointers.append(p)
        self.elems += self.pointers
        for k, e in enumerate(self.elems):
            e.k = k
            g.lines += ["void take_%d(%s *p, unsigned long n);" % (k, e.name),
                        "void fill_%d(%s *p, unsigned long n);" % (k, e.name),
                        "%s *give_%d(void);" % (e.name, k)]
            self.src += [
                "void take_%d(%s *p, unsigned long n) { at = 0; put(&p, 8); "
                "if (p) put((void *)p, n * sizeof *p); }" % (k, e.name),
                "void fill_%d(%s *p, unsigned long n) { memcpy((void *)p, DATA, "
                "n * sizeof *p); }" % (k, e.name),
                "%s *give_%d(void) { return (void *)DATA; }" % (e.name, k)]
            dims = [rng.randint(1, 4) for _ in range(rng.randint(1, 3))]
            sub = "".join("[%d]" % d for d in dims)
            form = rng.choice(["{0} (*p){1}", "{0} p[]{1}"]).format(e.name, sub)
            g.lines.append("void shape_%d(%s, unsigned long n);" % (k, form))
            self.src.append("void shape_%d(%s, unsigned long n) { at = 0; put(&p, 8); "
                            "put((void *)p, n * sizeof *p); }" % (k, form))
            e.dims = dims
        g.lines += ["void take_any(void *p, unsigned long n);",
                    "void fill_any(void *p, unsigned long n);"]
        self.src += ["void take_any(void *p, unsigned long n) "
                     "{ at = 0; put(&p, 8); if (p) put(p, n); }",
                     "void fill_any(void *p, unsigned long n) { memcpy(p, DATA, n); }"]


def case(ctx):
    ready()
    rng = ctx.rng
    gen = Gen(ctx)
    gen.make()
    header = gen.g.header()
    path = ctx.write("h.h", header)
    src = [PREFIX, '#include "h.h"', "unsigned char DATA[8192];", *gen.src]
    so = gcc_lib(ctx, "\n".join(src) + "\n", "arr",
                 ["-I" + ctx.dir, "-fsanitize=address", "-g"])
    raw = ct.CDLL(so)
    log = (ct.c_ubyte * 8192).in_dll(raw, "LOG")
    data = (ct.c_ubyte * 8192).in_dll(raw, "DATA")
    lib = CLibrary(so, CParser(path))
    for e in gen.elems:
        if e.kind == "rec":
            e.made = lib("types", e.name) if " " not in e.name else \
                lib("structs", e.name[7:])
            ctx.true(bgen.equivalent(e.made, e.cls), "the structure differs")
    for p in gen.pointers:
        if p.kind == "ptr":
            p.ptr = lib("types", p.name)
            p.inner = p.ptr._type_
    env = dict(lib=lib, raw=raw, log=log, data=data)
    trace = []
    for _ in range(40):
        one_array(ctx, gen, env, trace)
    for _ in range(10):
        refusals(ctx, gen, env)
    for _ in range(30):
        one_cast(ctx, gen, env, trace)
    ctx.case_key(header, trace)


def type_of(rng, lib, e):
    """The type of an element, by name or class."""
    if rng.random() < 0.5:
        return e.name
    if e.kind == "rec":
        return e.made
    if " " not in e.name and e.name in lib["types"]:
        return lib("types", e.name)
    return e.name if e.kind == "ptr" else e.cls


def one_array(ctx, gen, env, trace):
    rng, lib = ctx.rng, env["lib"]
    e = rng.choice(gen.elems)
    form = rng.random()
    if form < 0.5:
        dims = (rng.choice([0, 1, 2, 3, 5, 17]),)
    elif form < 0.75:
        dims = (rng.randint(1, 3), *e.dims)
    else:
        dims = tuple(rng.randint(1, 4) for _ in range(rng.randint(2, 4)))
    while math.prod(dims) * ct.sizeof(e.cls) > 3000:
        dims = (dims[0] // 2, *dims[1:]) if dims[0] > 1 else dims[1:]
    if not dims:
        dims = (1,)
    size = dims[0] if len(dims) == 1 and rng.random() < 0.7 else dims
    keep = []
    vals, want = content(ctx, e, dims, env, keep)
    typ = type_of(rng, lib, e)
    before = list(vals) if isinstance(vals, list) else None
    if vals is None and rng.random() < 0.5:
        arr = build_array(lib, typ, size)
    else:
        arr = build_array(lib, typ, size, vals)
    ctx.saw("arrays")
    ctx.kind("arrays of", "%s %d %s" % (e.kind, len(dims), type(vals).__name__))
    if before is not None:
        ctx.true(len(before) == len(vals) and all(a is b for a, b in zip(before, vals)),
                 "the list of values was modified")
    ref = e.cls
    for d in reversed(dims):
        ref = ref * d
    ctx.true(bgen.equivalent(type(arr), ref), "the array has another type",
             got=type(arr), expected=ref, type=typ, size=size)
    ctx.eq(len(arr), dims[0], "the length")
    ctx.eq(ct.sizeof(arr), ct.sizeof(ref), "the size")
    check_bytes(ctx, bgen.bytes_of(arr), want, ct.sizeof(e.cls), e, dims, vals)
    if len(dims) > 1:
        ctx.saw("several dimensions")
    indexed(ctx, e, arr, dims, want)
    other = build_array(lib, typ, size)
    if ct.sizeof(ref):
        ctx.true(ct.addressof(other) != ct.addressof(arr), "two arrays are the same memory")
        ct.memset(ct.addressof(other), 0xA5, ct.sizeof(ref))
        check_bytes(ctx, bgen.bytes_of(arr), want, ct.sizeof(e.cls), e, dims, vals)
        by_c(ctx, e, arr, dims, want, env)
    trace.append((e.name, dims, want))


def content(ctx, e, dims, env, keep):
    """(values to give, bytes of each element)"""
    rng = ctx.rng
    total, size = math.prod(dims), ct.sizeof(e.cls)
    zero = bytes(size)
    if rng.random() < 0.2 or not total:
        ctx.saw("from nothing")
        return rng.choice([None, None, [], ()]), [zero] * total
    want = []

    def level(ds, outer=False):
        n, rest = ds[0], ds[1:]
        k = n if rng.random() < 0.8 else rng.randint(0, n)
        if k < n:
            ctx.saw("too few values")
        out = []
        for _ in range(k):
            if rest:
                out.append(level(rest))
            else:
                v, d = e.value(rng, keep)
                out.append(v)
                want.append(d)
        want.extend([zero] * ((n - k) * math.prod(rest)))
        return tuple(out)

    vals = level(dims, True)
    r = rng.random()
    if r < 0.4:
        return list(vals), want
    if r < 0.5:
        return (v for v in vals), want
    if r < 0.6:
        return iter(vals), want
    if r < 0.7 and len(dims) == 1 and e.kind == "scalar" and vals:
        if e.cls._type_ in "bBhHiIlLqQ":
            if rng.random() < 0.5:
                lo, hi = bgen.limits(e.cls)
                start = rng.randint(max(lo, -100), 100)
                res = range(start, start + min(dims[0], hi - start))
                return res, [bytes(e.cls(v)) for v in res] + [zero] * (dims[0] - len(res))
            return array.array(e.cls._type_, vals), want
        return (e.cls * len(vals))(*vals), want
    if r < 0.75 and e.kind == "scalar" and len(dims) == 1:
        return Odd(vals), want
    return vals, want


class Odd:
    """An iterable which has no truth value, as the arrays of numpy."""

    def __init__(self, vals):
        self.vals = vals

    def __iter__(self):
        return iter(self.vals)

    def __bool__(self):
        raise ValueError("ambiguous")


def check_bytes(ctx, got, want, size, e, dims, vals):
    for i, w in enumerate(want):
        if w is None:
            continue  # the address of a string
        g = got[i * size:(i + 1) * size]
        if g != w:
            ctx.fail("the element %d of the array differs" % i, got=g, expected=w,
                     type=e.name, size=dims, values=vals)
    ctx.saw("elements", len(want))
    ctx.saw("comparisons")


def indexed(ctx, e, arr, dims, want):
    """The elements are found by their indices, in C order."""
    rng = ctx.rng
    everything = list(itertools.product(*(range(d) for d in dims)))
    for i in rng.sample(range(len(everything)), min(6, len(everything))):
        x = arr
        for j in everything[i]:
            x = x[j]
        if want[i] is None:
            ctx.true(isinstance(x, bytes), "an element is not the string", got=x)
        elif e.kind == "scalar":
            ctx.true(bgen.same(x, e.cls.from_buffer_copy(want[i]).value),
                     "an element differs", got=x, index=everything[i])
        elif e.kind in ("rec", "row", "ptr"):
            ctx.eq(bgen.bytes_of(x), want[i], "an element")
        else:
            ctx.eq(x or 0, int.from_bytes(want[i], "little"), "an element")


def by_c(ctx, e, arr, dims, want, env):
    rng, lib = ctx.rng, env["lib"]
    text = e.cls in (ct.c_char, ct.c_wchar)
    if len(dims) == 1 and not text and rng.random() < 0.7:
        how, n = e.k, dims[0]
    elif tuple(dims[1:]) == tuple(e.dims) and rng.random() < 0.8:
        how, n = "shape", dims[0]
    else:
        how, n = "any", ct.sizeof(arr)
    ctx.kind("given to C", how if how in ("shape", "any") else "pointer")
    f = getattr(lib, "shape_%d" % e.k if how == "shape" else "take_%s" % how)
    given = arr if rng.random() < 0.8 else ct.byref(arr) if how == "any" else arr
    f(given, n)
    ctx.saw("seen by C")
    size = ct.sizeof(arr)
    ctx.eq(int.from_bytes(bytes(env["log"][:8]), "little"), ct.addressof(arr),
           "the address seen by C")
    ctx.eq(bytes(env["log"][8:8 + size]), bgen.bytes_of(arr), "the elements seen by C")
    if how == "shape" or e.kind in ("str",):
        return
    new = rng.randbytes(size)
    if e.cls is ct.c_wchar or e.kind != "scalar":
        new = bytes(size)
    ct.memmove(env["data"], new, size)
    getattr(lib, "fill_%s" % how)(arr, n)
    ctx.saw("written by C")
    ctx.eq(bgen.bytes_of(arr), new, "the elements written by C")


def refusals(ctx, gen, env):
    rng, lib = ctx.rng, env["lib"]
    e = rng.choice([x for x in gen.elems if x.kind in ("scalar", "rec")])
    typ = type_of(rng, lib, e)
    n = rng.randint(0, 5)
    r = rng.random()
    v = e.value(rng, [])[0]
    if r < 0.3:
        args = (typ, n, [v] * (n + rng.randint(1, 3)))
    elif r < 0.4:
        args = (typ, (n, 2), [(v, v, v)] * max(n, 1))
    elif r < 0.55:
        args = (rng.choice(["missing_type", "int blah", "R_ R_"]), n)
    elif r < 0.65:
        args = ("void", n)
    elif r < 0.8:
        args = (typ, rng.choice([-1, (2, -1), (-3, 2), 2.5, (1, 2.0), "2", None, [2]]))
    elif e.kind == "rec" or e.cls._type_ not in "cu?":
        bad = "text" if e.kind == "rec" or e.cls._type_ != "u" else 3
        args = (typ, max(n, 1), [bad])
    else:
        args = (typ, -2, None)
    ctx.kind("refusals", type(args[1]).__name__ + str(len(args)))
    ctx.saw("refused")
    ctx.raises(Exception, build_array, lib, *args)


def one_cast(ctx, gen, env, trace):
    rng, lib = ctx.rng, env["lib"]
    # The target
    tname = None
    if rng.random() < 0.6:
        p = rng.choice(gen.pointers)
        typ = rng.choice([p.name, lib("types", p.name)])
        ref, tname = p.cls, p.name
    else:
        e = rng.choice(gen.elems)
        ref = typ = ct.POINTER(type_class(lib, e))
        tname = e.name + " *"
    # The source
    size = rng.choice([64, 128, 200])
    keep = src = obj = None
    r = rng.random()
    if r < 0.35:
        e = rng.choice([x for x in gen.elems if x.kind in ("scalar", "rec", "row")
                        and x.cls not in (ct.c_char, ct.c_wchar)])
        n = -(-size // ct.sizeof(e.cls))
        src = build_array(lib, e.name, n)
        addr, how = ct.addressof(src), "array"
    elif r < 0.5:
        obj = build_array(lib, "int", size // 4)
        addr, how = ct.addressof(obj), "pointer"
        src = ct.pointer(obj)
    elif r < 0.6:
        keep = obj = build_array(lib, "double", size // 8)
        addr, how = ct.addressof(obj), "byref"
        src = ct.byref(obj)
    elif r < 0.7:
        keep = obj = build_array(lib, "unsigned char", size)
        addr, how = ct.addressof(obj), "address"
        src = rng.choice([int, ct.c_void_p])(addr)
    elif r < 0.8:
        src, addr, how = rng.choice([None, ct.c_void_p(), 0]), 0, "null"
    elif r < 0.9:
        e = rng.choice([x for x in gen.elems if x.cls not in (ct.c_char, ct.c_wchar)])
        src = getattr(lib, "give_%d" % e.k)()()
        addr, how = ct.addressof(env["data"]), "returned"
    else:
        obj = build_array(lib, "int", size // 4)
        addr, how = ct.addressof(obj), "cast"
        src = cast_to(lib, obj, ct.c_void_p)
        obj = None
    got = cast_to(lib, src, typ)
    ctx.saw("casts")
    ctx.kind("casts", "%s to %s" % (how, getattr(ref, "__name__", "")[:3]))
    ctx.true(bgen.equivalent(type(got), ref), "the cast object has another type",
             got=type(got), expected=ref, type=typ)
    if isinstance(typ, type):
        ctx.true(type(got) is typ, "the cast object has another type", got=type(got))
    trace.append((how, tname))
    ctx.eq(address(got), addr, "the address of the cast object", source=how)
    if not addr:
        lib.take_any(got, 0)
        ctx.eq(bytes(env["log"][:8]), bytes(8), "the address seen by C")
        return
    pattern = rng.randbytes(size)
    ct.memmove(addr, pattern, size)
    ctx.eq(ct.string_at(got, size), pattern, "what is read through the cast object")
    pattern = rng.randbytes(size)
    ct.memmove(got, pattern, size)
    ctx.eq(ct.string_at(addr, size), pattern, "what is written through the cast object")
    if how in ("array", "pointer", "cast"):
        # The cast object is enough to keep the memory
        src = obj = keep = None
        gc.collect()
        junk = [bytearray(b"J" * size) for _ in range(20)]
        ctx.saw("source dropped")
        ctx.eq(ct.string_at(got, size), pattern, "the memory after the source is dropped")
        del junk
    seen(ctx, gen, env, got, addr, pattern)
    del keep


def type_class(lib, e):
    if e.kind == "rec":
        return e.made
    return lib("types", e.name) if " " not in e.name and e.name in lib["types"] else e.cls


def address(p):
    return ct.cast(p, ct.c_void_p).value or 0


def seen(ctx, gen, env, got, addr, pattern):
    """C reads the memory through the cast object."""
    rng, lib = ctx.rng, env["lib"]
    typed = [x for x in gen.elems if x.kind != "row" and type(got) is ct.POINTER(
        type_class(lib, x)) and ct.sizeof(x.cls)]
    typed = [x for x in typed if x.cls not in (ct.c_char, ct.c_wchar)]
    if typed and rng.random() < 0.7:
        e = rng.choice(typed)
        n = len(pattern) // ct.sizeof(e.cls)
        getattr(lib, "take_%d" % e.k)(got, n)
        size = n * ct.sizeof(e.cls)
    else:
        size = len(pattern)
        lib.take_any(got, size)
    ctx.saw("casts seen by C")
    ctx.eq(int.from_bytes(bytes(env["log"][:8]), "little"), addr,
           "the address of the cast object seen by C")
    ctx.eq(bytes(env["log"][8:8 + size]), pattern[:size], "the memory seen by C")
