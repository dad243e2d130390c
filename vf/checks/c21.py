"""C21: arguments reach the parameters they are meant for, or nothing is called."""

import ctypes as ct

from ..fgen import FuncGen, Watch
from ..sut import CLibrary, CParser, freeze, ready
from .c19 import argument, struct_class

RULE = (
    "A case is a compiled library of random functions, many with several parameters of "
    "the same type, named by Python keywords, by the words of the wrapper's own code, or "
    "unnamed. Each is called right (every split of the arguments between positions and "
    "names, in any order) and wrong (a missing scalar, string, structure or array; an "
    "unknown name; None for what is not a pointer; a value of another kind), wrong calls "
    "being mixed with right ones. Some headers have references, and default values for "
    "the last parameters, like C++; when these are left out either the call is refused or C "
    "receives the default values. Oracle: the bytes C recorded for each parameter are "
    "those of the argument meant for it; a wrong call raises an exception, no function "
    "of the library is entered, and the arguments and later calls are not affected. "
    "Distinct: by header and calls."
)
CASES = {"quick": 240, "thorough": 4000}
REQUIRE = {"right calls": 2500, "wrong calls": 2500, "missing": 300, "unknown name": 500,
           "NULL not possible": 300, "wrong kind": 800, "right after wrong": 800,
           "results by name": 5000,
           "types of arguments": 5000, "results replaced": 1500, "with default values": 400, "references": 300,
           "default values left out": 100}
ASSUMPTIONS = [
    "an argument given twice (by position and name) and arguments beyond the last "
    "parameter are not tried",
    "any exception is accepted as a refusal",
]

WORDS = (
    "lambda from in def is not pass None True False self cls args kwargs lib func name "
    "sig arg_list typ key n vals print len class import global yield with try except "
    "raise del and or assert nonlocal async await obj arg val i k index missing res"
).split()
KINDS = ["scalar"] * 7 + ["ptr", "ptr", "arr", "string", "wstring", "struct", "sptr"]
SAME = ["scalar"]


class Thing:
    pass


def wrong(ctx, lib, g, p):
    """A value which is not of the kind of the parameter."""
    rng = ctx.rng
    objs = [Thing(), [1], {"a": 1}, (1, 2), len]
    if p.kind == "scalar":
        k = p.ctype._type_
        if k == "?":
            return None
        if k == "c":
            vals = [b"ab", b"", "ab", 1.5]
        elif k == "u":
            vals = ["ab", "", b"a", 1, 1.5]
        elif k in "fdg":
            vals = ["1.5", b"1", 1j]
        else:
            vals = [1.5, "1", b"1", 1e300, ct.c_double(1.0), ct.c_char_p(b"x")]
    elif p.kind in ("ptr", "arr", "sptr"):
        other = rng.choice([c for c in (ct.c_int, ct.c_double, ct.c_short)
                            if p.kind == "sptr" or c is not p.ctype])
        vals = [5, 1.5, "text", ct.byref(other()), ct.pointer(other()), other(3),
                (other * p.count)(), b"bytes"]
        if p.kind == "arr":
            vals = [5, 1.5, "text", (other * p.count)(), b"bytes"]
        if p.kind == "sptr":
            vals += strangers(lib, g, p, pointer=True)
    elif p.kind == "string":
        vals = ["text", 5, 1.5, ct.c_wchar_p("x"), ct.c_double(1)]
    elif p.kind == "wstring":
        vals = [b"text", 5, 1.5, ct.c_char_p(b"x"), ct.c_double(1)]
    else:
        vals = [5, "text", b"x", 1.5, ct.c_int(3)] + strangers(lib, g, p, pointer=False)
    return rng.choice(vals + objs[: rng.randint(1, 5)])


def strangers(lib, g, p, pointer):
    """Other structures."""
    cls = struct_class(lib, p.rec)
    others = [c for c in (struct_class(lib, r) for r in g.recs) if c is not cls]
    res = []
    for c in others * 3:
        res.append(ct.byref(c()) if pointer else c())
        if pointer:
            res.append(ct.pointer(c()))
    return res


def split(ctx, f, given):
    """given: {index: value}; -> (positional, named)"""
    rng = ctx.rng
    n = 0
    while n in given:
        n += 1
    if not f.unnamed:
        n = rng.choice([n, 0, rng.randint(0, n)])
    pos = [given[i] for i in range(n)]
    names = [i for i in given if i >= n]
    rng.shuffle(names)
    return pos, {f.params[i].name: given[i] for i in names}


def refused(ctx, w, fn, pos, named, why, f):
    before, log = w.counts(), w.read(600)
    ctx.saw("wrong calls")
    ctx.saw(why)
    ctx.saw("comparisons")
    try:
        fn(*pos, **named)
    except Exception as e:
        ctx.kind("refusals", "%s: %s" % (why, type(e).__name__))
    else:
        ctx.fail("a wrong call is accepted (%s)" % why, function=f.prototype(),
                 positional=pos, named=named)
    ctx.eq(w.counts(), before, "the calls received by the library (refused: %s)" % why,
           function=f.prototype(), positional=pos, named=named)
    ctx.eq(w.read(600), log, "the record of the library (refused: %s)" % why)


def received(ctx, w, f, datas, pos, named):
    at = 0
    got = w.read(sum(map(len, datas)))
    for p, data in zip(f.params, datas):
        ctx.eq(got[at : at + len(data)], data, "what C received for %s" % p.declare(),
               function=f.prototype(cpp=True), positional=pos, named=named)
        at += len(data)
    return got


def left_out(ctx, w, f, fn, args):
    """Leave out parameters which have a default value: either the call is refused or
    the function receives these values."""
    rng = ctx.rng
    n = len(f.params)
    cand = [i for i in range(n - f.defaults, n) if f.params[i].kind == "scalar"]
    if not cand:
        return ()
    out = set(rng.sample(cand, rng.randint(1, len(cand))))
    given = {i: a[0] for i, a in enumerate(args) if i not in out}
    if f.unnamed:
        given = {i: v for i, v in given.items() if i < min(out)}
        out = set(range(n)) - set(given)
    pos, named = split(ctx, f, given)
    before, log = w.counts(), w.read(600)
    ctx.saw("default values left out")
    try:
        fn(*pos, **named)
    except Exception:
        ctx.eq(w.counts(), before, "the calls received by the library (refused)",
               function=f.prototype(cpp=True), positional=pos, named=named)
        ctx.eq(w.read(600), log, "the record of the library (refused)")
        return len(pos), sorted(named)
    before[f.k] += 1
    ctx.eq(w.counts(), before, "the calls received by the library")
    datas = [a[1] for a in args]
    for i in out:
        p = f.params[i]
        if p.kind == "scalar":
            data = bytes(p.ctype(b"\7" if p.ctype is ct.c_char else
                                 "\7" if p.ctype is ct.c_wchar else 7))
            datas[i] = data[:10] if p.ctype is ct.c_longdouble else data
        elif p.kind in ("string", "wstring"):
            datas[i] = bytes(ct.c_long(-1))
        else:
            datas[i] = bytes(len(datas[i]))
    received(ctx, w, f, datas, pos, named)
    return len(pos), sorted(named)


def unknown(rng, f):
    names = [p.name for p in f.params]
    if names and not f.unnamed:
        n = rng.choice(names)
        cands = [n + "_", n.upper(), "_" + n, n[:-1], n + " ", "x" + n]
    else:
        cands = ["x", "arg0", "None", "0", "a"]
    cands += ["restype", "arg_1", "zzz", "0", ""]
    if f.unnamed:
        cands += names
        names = []
    cands = [c for c in cands if c not in names]
    return rng.choice(cands)


def result(ctx, lib, f, fn, res):
    """The names and positions are the ones of the parameters everywhere."""
    rng = ctx.rng
    for i, p in enumerate(f.params):
        ctx.saw("types of arguments")
        typ = fn.arg_c_type(i)
        if p.kind == "scalar":
            ctx.true(typ is p.ctype, "the type of an argument is not the one of its "
                     "parameter", parameter=p.declare(), got=typ)
        elif p.kind in ("ptr", "arr", "sptr"):
            want = struct_class(lib, p.rec) if p.kind == "sptr" else p.ctype
            ctx.true(typ._type_ is want, "the type of an argument does not point to the "
                     "one of its parameter", parameter=p.declare(), got=typ)
        if f.unnamed:
            continue
        ctx.true(fn.arg_c_type(p.name) is typ, "the type differs by name", name=p.name)
        ctx.saw("results by name")
        a, b = res[p.name], res[i]
        ctx.true(a is b or freeze(a) == freeze(b) or a != a,
                 "the argument of this name is not given back", name=p.name,
                 got=a, want=b, function=f.prototype())
        ctx.eq(res.find_arg(p.name), i, "position of the argument of this name")
    if f.params and not f.unnamed:
        # What is kept of an argument can be replaced
        i = rng.randrange(len(f.params))
        before = [res[j] for j in range(len(f.params))]
        key = rng.choice([i, f.params[i].name])
        res[key] = ct.c_int(77) if i not in res.guessed else ct.pointer(ct.c_int(77))
        ctx.saw("results replaced")
        ctx.eq([res[i], res[f.params[i].name]], [77, 77], "a result replaced", key=key)
        for j in range(len(f.params)):
            a, b = res[j], before[j]
            ctx.true(j == i or a is b or freeze(a) == freeze(b) or a != a,
                     "another result is replaced", key=key, got=j)
    if f.params:
        for bad in (1.5, None, b"x", (0,)):
            try:
                res[bad] = 5
            except Exception:
                pass
            else:
                ctx.fail("a result is replaced by a wrong key", key=bad)


def case(ctx):
    ready()
    rng = ctx.rng
    g = FuncGen(ctx)
    g.prepare()
    for _ in range(rng.randint(4, 8)):
        kinds = KINDS
        if rng.random() < 0.35:
            # All of the same type
            kinds, keep = SAME, g.scalars
            g.scalars = [rng.choice(keep)]
            types, g.types = g.types, []
            g.function(kinds, ["scalar"], rng.randint(2, 8), WORDS)
            g.scalars, g.types = keep, types
        else:
            g.function(kinds, ["scalar", "struct"], None, WORDS,
                       unnamed=rng.random() < 0.15)
    path, so = g.build()
    if rng.random() < 0.5:
        # A library in C++, whose parameters have default values
        for f in g.funcs:
            for p in f.params:
                p.ref = p.kind in ("ptr", "sptr") and rng.random() < 0.4
            n = 0
            while n < len(f.params) and not (f.params[-1 - n].ref or
                                             f.params[-1 - n].kind in ("struct", "arr")):
                n += 1
            f.defaults = rng.choice([n, rng.randint(0, n)])
        path = ctx.write("cpp.h", g.cpp_header())
    lib = CLibrary(so, CParser(path))
    w = Watch(so)
    trace = []
    bad = False
    for _ in range(36):
        f = rng.choice(g.funcs)
        fn = getattr(lib, f.name) if rng.random() < 0.5 else lib("functions", f.name)
        args = [argument(ctx, lib, p) for p in f.params]
        given = {i: a[0] for i, a in enumerate(args)}
        if rng.random() < 0.5:
            pos, named = split(ctx, f, given)
            before = w.counts()
            res = fn(*pos, **named)
            before[f.k] += 1
            ctx.saw("right calls")
            ctx.kind("splits", "%d positional, %d named" % (len(pos), len(named)))
            if bad:
                ctx.saw("right after wrong")
            bad = False
            ctx.eq(w.counts(), before, "the calls received by the library",
                   function=f.prototype())
            if f.defaults:
                ctx.saw("with default values")
            ctx.saw("references", sum(p.ref for p in f.params))
            got = received(ctx, w, f, [a[1] for a in args], pos, named)
            result(ctx, lib, f, fn, res)
            trace.append((f.name, len(pos), sorted(named), got))
            continue
        what = rng.choice(["missing", "unknown name", "NULL not possible", "wrong kind",
                           "wrong kind"])
        if what == "missing":
            # What cannot be made up: anything but a pointer
            cand = [i for i, p in enumerate(f.params)
                    if p.kind in ("scalar", "string", "wstring", "struct", "arr")]
            if f.defaults and rng.random() < 0.7:
                trace.append((f.name, *left_out(ctx, w, f, fn, args)))
                bad = True
                continue
            cand = [i for i in cand if i < len(f.params) - f.defaults]
            if not cand:
                continue
            for i in rng.sample(cand, rng.choice([1, 1, min(2, len(cand))])):
                del given[i]
            if f.unnamed:
                n = min(i for i in range(len(f.params)) if i not in given)
                given = {i: v for i, v in given.items() if i < n}
            pos, named = split(ctx, f, given)
        elif what == "unknown name":
            pos, named = split(ctx, f, given)
            items = [*named.items(), (unknown(rng, f), rng.choice([1, None, "x", b"y"]))]
            rng.shuffle(items)
            named = dict(items)
        elif what == "NULL not possible":
            cand = [i for i, p in enumerate(f.params) if p.kind in ("scalar", "struct")]
            if not cand:
                continue
            given[rng.choice(cand)] = None
            pos, named = split(ctx, f, given)
        else:
            if not f.params:
                continue
            i = rng.randrange(len(f.params))
            v = wrong(ctx, lib, g, f.params[i])
            if v is None:
                continue
            ctx.kind("wrong kinds", "%s for %s" % (type(v).__name__, f.params[i].kind))
            given[i] = v
            pos, named = split(ctx, f, given)
        refused(ctx, w, fn, pos, named, what, f)
        bad = True
        trace.append((f.name, what, len(pos), sorted(named)))
    ctx.case_key(g.header(), trace)
