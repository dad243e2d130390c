"""C25: binding is deterministic and never changes the definitions."""

import ctypes as ct
import os
import random
import shutil
import sys
import threading

from .. import bgen
from ..bgen import equivalent
from ..cgen import Arr, Base, Fn, Ptr, declare
from ..core import gcc_lib
from ..sut import CLibrary, CParser, build_array, cast_to, freeze, ready, snap, snap_files
from .c18 import C_PRELUDE, Gen
from .c22 import Delays

RULE = (
    "A case is a header of structures and unions (nested, packed, with bit fields, "
    "mutually recursive, declared after their use, opaque, typedefs of them), typedefs, "
    "enumerations, values and functions over them, parsed once and given to several "
    "copies of a compiled library. Each wrapper is asked everything in its own random "
    "order, by attribute or kind, some things several times, in between calls, arrays, "
    "casts and wrong names; one of them by several threads with injected delays. Oracle: "
    "what the wrappers give is equivalent (structure of the types, layouts, field "
    "names, signatures, values, or refusal), the same object each time, and the frozen "
    "snapshot of the definitions is the same at the end. A wrapper which parses the "
    "headers itself, with the options given to it, holds what a parser with these options "
    "does. Distinct: by header and orders."
)
CASES = {"quick": 160, "thorough": 2500}
REQUIRE = {"objects compared": 8000, "asked again": 8000, "asked by threads": 6000,
           "snapshots": 400, "calls": 1500, "recursive": 150, "sizes": 1500, "opaque": 60,
           "parsed by the wrapper": 100}
ASSUMPTIONS = ["classes are compared by fields, offsets, sizes and types of the fields"]


class Full(Gen):
    """A header with also functions, recursion, opaque and forward declarations."""

    def __init__(self, ctx):
        super().__init__(ctx)
        self.queries, self.src = [], []
        self.functions, self.layouts = [], []

    def recursion(self):
        rng = self.rng
        a, b, t = (self.names.new("st_") for _ in range(3))
        self.ctx.saw("recursive")
        form = rng.choice([
            ["struct %s;" % b, "struct %s { struct %s *to; int x; };" % (a, b),
             "struct %s { struct %s *back; struct %s *me; char y; };" % (b, a, b)],
            ["typedef struct %s %s;" % (a, t), "typedef struct %s *%s_p;" % (b, t),
             "struct %s { %s *next; %s_p *other; short s; };" % (a, t, t),
             "struct %s { %s in; struct %s *up; };" % (b, t, b)],
            ["typedef struct %s { int n; struct %s *next; struct { struct %s **p; } in; } "
             "%s;" % (a, a, a, t), "union %s { %s v; %s *p; union %s *u; };" % (b, t, t, b)],
            ["struct %s { int (*cb)(struct %s *s, struct %s *o); struct %s *n[3]; };"
             % (a, a, b, a), "struct %s { struct %s v[2]; };" % (b, a)],
            ["struct %s { int k; char c; };" % b, "struct %s { struct %s (*rows)[3]; void "
             "(*cb)(struct %s v[], struct %s (*w)[2]); };" % (a, b, b, b)],
            # Names which mean several things
            ["typedef struct %s { int x; char y[3]; } *%s;" % (a, a),
             "typedef struct %s { struct %s in; %s p; } %s[2];" % (b, a, a, b),
             "typedef long %s_p;" % t],
            ["struct %s { char c[5]; };" % a, "typedef struct %s *%s, **%s_p;" % (a, a, t),
             "struct %s { %s m; struct %s n; };" % (b, a, a), "typedef int %s;" % b],
        ])
        self.lines += form
        kinds = ["struct", "union" if any("union %s {" % b in x for x in self.lines)
                 else "struct"]
        for kw, n in zip(kinds, (a, b)):
            self.layouts.append((kw, n))
        for n in (a, b):
            # Also the name of a type?
            if any(x.endswith((" *%s;" % n, " %s[2];" % n, "typedef int %s;" % n))
                   or x.startswith("typedef") and " *%s, " % n in x for x in form):
                self.ctx.saw("names of several kinds")
                self.queries.append(("types", n))
        for kw in ("structs", "unions"):
            for n in (a, b):
                self.queries.append((kw, n))
        self.queries += [("types", t), ("types", t + "_p"), ("structs", t)]
        self.pointees = getattr(self, "pointees", []) + ["struct " + a]

    def opaque(self):
        n, t = self.names.new("op_"), self.names.new("T_")
        self.ctx.saw("opaque")
        self.lines.append("typedef struct %s *%s;" % (n, t))
        self.pointees = getattr(self, "pointees", []) + ["struct " + n]
        self.queries += [("types", t), ("structs", n)]
        self.env[t] = ct.c_void_p  # only its name is used

    def function(self):
        rng = self.rng
        n = self.names.new("f_")

        def some():
            r = rng.random()
            p = getattr(self, "pointees", None)
            if p and r < 0.25:
                return Ptr(Base(rng.choice(p)))
            if self.records and r < 0.45:
                return Ptr(Base(rng.choice(self.records).name))
            t = self.tree(2)
            return t

        ret = some()
        made = self.env.get(ret.spec) if isinstance(ret, Base) else None
        if isinstance(ret, Arr) or isinstance(made, type) and issubclass(made, ct.Array):
            ret = Base("void")
        f = Fn(ret, [(self.names.new("p_"), some()) for _ in range(rng.randint(0, 4))])
        self.lines.append(declare(f, n) + ";")
        self.src.append("void %s(void) { COUNT++; }" % n)
        self.functions.append(n)
        self.queries.append(("functions", n))

    def enum(self):
        n = self.names.new("en_")
        self.lines.append("enum %s { %s_a = 5, %s_b };" % (n, n, n))
        self.lines.append("#define %s_m 7" % n)
        self.queries += [("enums", n), ("values", n + "_a"), ("values", n + "_m")]

    def all_queries(self):
        for rec in self.recs:
            kind = rec.kw + "s"
            if rec.tag:
                self.queries.append((kind, rec.tag))
            if rec.td:
                self.queries += [("types", rec.td), (kind, rec.td)]
        self.queries += [("types", n) for n in self.env]
        self.queries.append(("functions", "missing_function"))
        self.queries.append(("structs", "missing_struct"))


def ask(lib, q, rng):
    """('ok', object) or ('no', '')"""
    kind, n = q
    try:
        if rng.random() < 0.4 and kind in ("functions", "values", "types"):
            return "ok", getattr(lib, n)
        return "ok", lib(kind, n)
    except Exception:
        return "no", ""


def same(a, b, names=True):
    """Two objects obtained for the same thing."""
    if isinstance(a, type) and isinstance(b, type):
        return equivalent(a, b) and field_names(a) == field_names(b)
    if hasattr(a, "arg_types") and hasattr(b, "arg_types"):
        return (
            equivalent(a.res_type, b.res_type)
            and len(a.arg_types) == len(b.arg_types)
            and all(same(x, y) for x, y in zip(a.arg_types, b.arg_types))
        )
    return type(a) is type(b) and a == b


def field_names(c):
    return [(f[0], *f[2:]) for f in bgen.fields(c)]


def show(x):
    if isinstance(x, type):
        return "%r size %d fields %r" % (x, ct.sizeof(x), bgen.fields(x))
    if hasattr(x, "arg_types"):
        return "%r (%r)" % (x.res_type, x.arg_types)
    return repr(x)


def case(ctx):
    ready()
    rng = ctx.rng
    g = Full(ctx)
    for _ in range(rng.randint(5, 12)):
        rng.choice([g.directive, g.typedef, g.structure, g.structure, g.structure,
                    g.recursion, g.opaque, g.function, g.function, g.enum])()
    g.recursion()
    g.function()
    g.all_queries()
    text = "\n".join(g.lines) + "\n"
    path = ctx.write("h.h", text)
    parser = CParser(path)
    first = snap(parser), snap_files(parser)
    sizes = ", ".join("sizeof(%s %s)" % x for x in g.layouts)
    other = ctx.write("sizes.c", C_PRELUDE + '\n#include "h.h"\nunsigned long SIZES[] = {%s};\n' % sizes)
    so = gcc_lib(ctx, "int COUNT;\n" + "\n".join(g.src) + "\n", "order", [other])
    reference = None
    n = rng.randint(3, 4)
    for k in range(n):
        copy = so[:-3] + "-%d.so" % k
        shutil.copy(so, copy)
        lib = CLibrary(copy, parser)
        if k == n - 1:
            found = by_threads(ctx, g, lib)
        else:
            found = by_history(ctx, g, lib)
        check_sizes(ctx, g, copy, found)
        again = snap(parser), snap_files(parser)
        ctx.saw("snapshots")
        ctx.true(again[0] == first[0], "the definitions were modified",
                 before=first[0], after=again[0])
        ctx.true(again[1] == first[1], "the definitions by file were modified")
        if reference is None:
            reference = found
            continue
        for q in g.queries:
            a, b = reference[q], found[q]
            ctx.saw("objects compared")
            ctx.eq(b[0], a[0], "whether %s %s can be had" % q)
            ctx.true(same(a[1], b[1]), "%s %s depends on the order" % q,
                     one=show(a[1]), other=show(b[1]))
    by_files(ctx, g, so, text)
    ctx.kind("queries", len(g.queries))
    ctx.case_key(text)


PICKED = {"char": ct.c_char, "short": ct.c_short, "double": ct.c_double,
          "unsigned": ct.c_uint}


def by_files(ctx, g, so, text):
    """The wrapper parses the headers itself, with the options it is given."""
    rng = ctx.rng
    ctx.saw("parsed by the wrapper")
    n = rng.choice([3, 7, 100])
    base = ctx.write("base.h", "typedef int base_T9[%d];\n" % n)
    opts = {}
    want = {"base_T9": ct.c_int * n, "opt_T9": ct.c_int}
    words = "OPT_9"
    if rng.random() < 0.6:
        word = rng.choice(sorted(PICKED))
        want["opt_T9"] = PICKED[word]
        how = rng.choice(["macros", "replace"])
        opts[how] = {"OPT_9": word}
    else:
        words = "int"
    data = "/* \xe9 */\ntypedef %s opt_T9;\n" % words + text
    if rng.random() < 0.5:
        opts["encoding"] = "latin-1"
    path = ctx.write("opts.h", data.encode(opts.get("encoding", "utf-8")))
    files = [base, path]
    if rng.random() < 0.5:
        opts["copy_from"] = CParser(base)
        files = [path]
    if rng.random() < 0.4:
        opts["cache"] = ctx.path("opts.cache")
    given = {k: dict(v) if isinstance(v, dict) else v for k, v in opts.items()}
    ref = CParser(list(files), **{k: v for k, v in opts.items() if k != "cache"})
    copy = so[:-3] + "-own.so"
    shutil.copy(so, copy)
    lib = CLibrary(copy, list(files), **opts)
    got = {k: lib[k] for k in ref.defs}
    for k in ref.defs:
        ctx.saw("comparisons")
        ctx.eq(freeze(dict(got[k])), freeze(dict(ref.defs[k])),
               "%s of the wrapper which parsed the headers" % k, options=sorted(opts))
    for name, cls in want.items():
        ctx.true(getattr(lib, name) is cls, "%s is another type" % name,
                 got=getattr(lib, name), expected=cls, options=sorted(opts))
    ctx.eq(given, opts, "the options given")
    if "cache" in opts:
        ctx.true(os.path.isfile(opts["cache"]), "no cache was written")


def check_sizes(ctx, g, so, found):
    """The recursive structures have the layout gcc gives them."""
    sizes = (ct.c_ulong * len(g.layouts)).in_dll(ct.CDLL(so), "SIZES")
    for (kw, n), size in zip(g.layouts, sizes):
        ctx.saw("sizes")
        ok, cls = found[kw + "s", n]
        ctx.eq(ok, "ok", "whether %s %s can be had" % (kw, n))
        ctx.eq(ct.sizeof(cls), size, "sizeof %s %s" % (kw, n))


def by_history(ctx, g, lib):
    rng = ctx.rng
    order = g.queries + rng.choices(g.queries, k=len(g.queries) // 2)
    rng.shuffle(order)
    found = {}
    for q in order:
        got = ask(lib, q, rng)
        if q in found:
            check_again(ctx, q, found[q], got)
        found[q] = got
        r = rng.random()
        if r < 0.15 and g.functions:
            ctx.saw("calls")
            call(lib, rng, rng.choice(g.functions))
        elif r < 0.2:
            use(ctx, lib, g, rng)
    return found


def check_again(ctx, q, before, got):
    ctx.saw("asked again")
    ctx.eq(got[0], before[0], "whether %s %s can be had again" % q)
    if q[0] != "values":
        ctx.true(got[1] is before[1], "another object for %s %s" % q, before=show(before[1]),
                 after=show(got[1]))
    else:
        ctx.eq(got[1], before[1], "the value of %s" % q[1])


def call(lib, rng, name):
    """Whether it works does not matter here."""
    try:
        f = getattr(lib, name)
        args = [0 if issubclass(t, ct._SimpleCData) and t._type_ in "bBhHiIlLqQfd?"
                else None for t in f.arg_types]
        res = rng.choice([lambda: f(*args), f])()
        res.auto()
        res()
        list(res)
    except Exception:
        pass


def use(ctx, lib, g, rng):
    """The other things which look at the definitions."""
    try:
        r = rng.random()
        if r < 0.3:
            ask(lib, (rng.choice(["structs", "unions", "types", "functions", "values"]),
                      "unknown_"), rng)
        elif r < 0.6:
            kind, n = rng.choice(g.queries)
            build_array(lib, n if kind != "structs" else "struct " + n,
                        rng.choice([2, (2, 3)]))
        elif r < 0.8:
            cast_to(lib, (ct.c_int * 4)(), rng.choice(["char *", "int *", "unsigned long"]))
        else:
            for f in rng.sample(g.functions, 1):
                getattr(lib, f).arg_c_type(0)
                getattr(lib, f).pretty_signature()
    except Exception:
        pass


def by_threads(ctx, g, lib):
    rng = ctx.rng
    n = rng.randint(2, 4)
    gate = threading.Barrier(n)
    out = []

    def run(seed):
        r = random.Random(seed)
        order = list(g.queries)
        r.shuffle(order)
        gate.wait()
        out.append({q: ask(lib, q, r) for q in order})

    old = sys.getswitchinterval()
    sys.setswitchinterval(rng.choice([1e-6, 1e-5, 1e-4]))
    if rng.random() < 0.6:
        threading.settrace(Delays(rng.random(), rng.choice([0.01, 0.05])))
    try:
        ts = [threading.Thread(target=run, args=(rng.random(),)) for _ in range(n)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        threading.settrace(None)
        sys.setswitchinterval(old)
    for other in out[1:]:
        for q in g.queries:
            ctx.saw("asked by threads")
            check_again(ctx, q, out[0][q], other[q])
    return out[0]
