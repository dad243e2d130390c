"""C15: a cache gives back exactly what parsing gives."""

import contextlib
import io
import os
import shutil

from ..cgen import Names
from ..hgen import Header
from ..sut import CParser, Type, freeze, ready, snap, snap_files
from .c14 import options

RULE = (
    "A case parses 1 to 3 random headers (with options, replacements and copied parsers "
    "in some cases) with a cache, then loads the cache in several ways: again, after the "
    "headers were emptied behind the back of the cache, deleted or moved, without "
    "validity check, in a deferred processing, and after writing it again from a loaded "
    "one. Every snapshot (overall and by file) must be the one of parsing without cache, "
    "which also shows that the cache was used. Distinct: by the texts and options."
)
CASES = {"quick": 300, "thorough": 4000}
REQUIRE = {"loads": 900, "loads without headers": 200, "generations": 200, "defined again": 150,
           "other parsers": 50}
ASSUMPTIONS = ["macros given as options are not undefined by the headers (listed finding)"]


def old(path, dt=100):
    st = os.stat(path)
    os.utime(path, (st.st_atime - dt, st.st_mtime - dt))


def case(ctx):
    ready()
    rng = ctx.rng
    names = Names(rng)
    opts, heads, src = {}, [], None
    n = rng.choice([1, 1, 2, 3])
    files, types, ints = [], [], []
    src_kw = {}
    if rng.random() < 0.3:
        h = Header(rng, n=5, names=names)
        src = CParser(ctx.write("src.h", h.text()))
        types, ints = list(h.types), list(h.ints)
        src_kw["copy_from"] = src if rng.random() < 0.5 else [src]
    for i in range(n):
        h = Header(rng, n=0, names=names, types=types)
        h.ints = ints
        for _ in range(rng.randint(3, 10)):
            getattr(h, "add_" + rng.choice(
                ["macro", "macro", "fnmacro", "enum", "struct", "struct", "union", "typedef",
                 "typedef", "variable", "function", "function", "cond", "pack", "usemacro"]))()
        items = list(h.items)
        if i == 0 and rng.random() < 0.4:
            opts, heads = options(rng, names, items)
        if rng.random() < 0.3:
            items.append("int __stdcall %s(int (__cdecl *)(int), const char *const);" % names.new("c_"))
        if rng.random() < 0.5:
            # The last definition is the one kept.
            ctx.saw("defined again")
            items += rng.sample(
                ["#define RE_DEF %d" % i, "typedef %s re_t;" % ("int", "long", "char")[i],
                 "extern char re_v[%d];" % (i + 1), "void re_f(re_t x, int y%d);" % i,
                 "#define RE_F(x) (x + %d)" % i, "struct re_s { int m%d; };" % i], 3)
        files.append(ctx.write("d/h%d.h" % i, "\n".join(items) + "\n"))
        types, ints = h.types, h.ints
    kw = dict(opts, **src_kw)
    if rng.random() < 0.3:
        kw["replace"] = {"unsigned": "signed"} if rng.random() < 0.5 else {r"\bint\b": "long"}
    if rng.random() < 0.2:
        kw["encoding"] = "latin1"
    for f in files:
        old(f)
    ref = CParser(files, **kw)
    want, by = snap(ref), snap_files(ref)
    cache = ctx.path("the.cache")

    known = [n_ for n_ in ref.defs["types"] if isinstance(n_, str)]
    numbers = [n_ for n_, v in ref.defs["values"].items() if isinstance(v, int)]
    asked = [rng.choice(numbers or ["7"]) + rng.choice([" + 1", " * (2 + 3)", "", " << 2u"]),
             rng.choice(["(int)4 + 1", "0x1F & ~1", "3.5f * 2", "-(010)"])]
    typed = rng.sample(known, min(3, len(known)))

    def answers(p):
        printed = io.StringIO()
        with contextlib.redirect_stdout(printed):
            p.print_all()
        return ([freeze(p.eval_expr(e)) for e in asked],
                [freeze(p.eval_type(Type(n_))) for n_ in typed],
                [sorted(p.find(n_)) for n_ in typed],
                printed.getvalue())

    replies = answers(ref)

    def same(p, what):
        ctx.saw("loads")
        ctx.eq(answers(p), replies, "answers: " + what, asked=asked)
        ctx.eq(snap(p), want, "definitions: " + what)
        ctx.eq(snap_files(p), by, "definitions by file: " + what)

    p = CParser(files, cache=cache, **kw)
    same(p, "when the cache is written")
    ctx.true(os.path.isfile(cache), "no cache was written")
    with open(cache, "rb") as f:
        first = f.read()
    same(CParser(files, cache=cache, **kw), "when the cache is there")
    # The content of the headers is not looked at any more.
    for f in files:
        st = os.stat(f)
        with open(f, "w") as fd:
            fd.write("int not_in_the_cache;\n")
        os.utime(f, (st.st_atime, st.st_mtime))
    same(CParser(files, cache=cache, **kw), "from the cache alone")
    if rng.random() < 0.6:
        q = CParser(files, process_all=False, **kw)
        q.process_all(cache=cache)
        same(q, "deferred processing")
    mode = rng.randrange(4)
    where = files
    ctx.kind("missing headers", mode)
    if mode == 0:
        for f in files:
            os.unlink(f)
    elif mode == 1:
        # The directory does not matter.
        shutil.move(os.path.dirname(files[0]), ctx.path("moved"))
        where = [f.replace("/d/", "/moved/") for f in files]
    elif mode == 2:
        os.unlink(rng.choice(files))
    else:
        for f in files:
            os.utime(f)
    if mode == 3:
        # Newer headers: the cache is only used if its validity is not checked.
        same(CParser(where, cache=cache, check_cache_validity=False, **kw), "unchecked")
    else:
        ctx.saw("loads without headers")
        same(CParser(where, cache=cache, **kw), "without the headers")
        same(CParser(where, cache=cache, check_cache_validity=False, **kw), "unchecked")
    if src is None and rng.random() < 0.5:
        # Unchecked, whatever it was written for
        ctx.saw("other parsers")
        same(CParser(rng.choice([[], None, [ctx.path("none.h")], where[:1]]), cache=cache,
                     check_cache_validity=False), "unchecked in another parser")
        q = CParser(rng.choice([[], where]), process_all=False)
        ctx.true(q.load_cache(cache) is True, "load_cache did not tell it succeeded")
        same(q, "load_cache of another parser")
    # From generation to generation
    q = CParser(where, cache=cache, check_cache_validity=False, **kw)
    for i in range(2):
        ctx.saw("generations")
        c = ctx.path("gen%d.cache" % i)
        q.write_cache(c)
        q = CParser(where, cache=c, check_cache_validity=False, **kw)
        same(q, "generation %d" % i)
    with open(cache, "rb") as f:
        ctx.true(f.read() == first, "a cache which was only read was written")
    if src is not None:
        ctx.saw("with copies")
    if opts:
        ctx.saw("with options")
    ctx.case_key(*[ctx.inputs[k] for k in sorted(ctx.inputs)], opts, sorted(kw))
