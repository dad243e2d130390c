"""C24: one wrapper per library file, for as long as it is used."""

import ctypes as ct
import gc
import os
import shutil
import threading
import weakref

from ..core import gcc_lib
from ..sut import CLibrary, CParser, pyclibrary, ready

RULE = (
    "A case is a random history over 2 to 4 library files: opening one by its path, an "
    "unnormalised path, a path relative to the current directory, a link, a link to its "
    "directory, a name found in an added directory, or a loaded library object, with "
    "random headers and options, from one thread or from several at once; failing to "
    "open (no such file or name, not a library, wrong headers or options); keeping "
    "wrappers, functions and results; dropping them and collecting. Oracle: a model of "
    "what is in use, checked by weak references: an open file gives the same wrapper, "
    "with the headers and options of its first opening; a forgotten one a new wrapper, "
    "with the new ones; each wrapper calls its own file. Distinct: by history."
)
CASES = {"quick": 160, "thorough": 2500}
REQUIRE = {"opened": 900, "opened again": 1000, "forgotten": 800, "failed openings": 500,
           "opened by several threads": 400, "kept by a function or result": 300}
ASSUMPTIONS = [
    "hard links to a file are distinct files, and are not tried",
    "what the classes of the structures keep alive is not asserted",
]

SRC = """
int ident(void) { return %(k)d; }
int p_first(int *a, void *b) { if (a) *a = %(k)d; return %(k)d; }
"""
HDR = """
#define VERSION %(v)d
int ident(void);
int p_first(int *a, void *b);
struct s%(v)d { int m[%(v)d]; };
"""
add_library_locations = pyclibrary.utils.add_library_locations


class File:
    def __init__(self, ctx, k):
        self.k = k
        self.real = os.path.realpath(gcc_lib(ctx, SRC % {"k": 100 + k}, "one%d" % k))
        d = ctx.dir
        self.sub = "added%d" % k
        os.mkdir(os.path.join(d, self.sub))
        self.name = "libn%d-%d-%d.so" % (k, os.getpid(), ctx.index)
        os.symlink(self.real, os.path.join(d, self.sub, self.name))
        self.link = os.path.join(d, "link%d.so" % k)
        os.symlink(os.path.basename(self.real), self.link)
        self.link2 = os.path.join(d, "again%d" % k)
        os.symlink(self.link, self.link2)
        add_library_locations([os.path.join(d, self.sub)])
        self.wrapper = None  # weak reference to the wrapper
        self.version = self.prefix = None
        self.holders = []  # what keeps it in use

    def form(self, rng, d, link):
        base = os.path.basename(self.real)
        return rng.choice([
            ("path", lambda: self.real),
            ("path", lambda: self.real),
            ("unnormalised", lambda: os.path.join(d, self.sub, "..", ".", base)),
            ("double slash", lambda: d + "//" + base),
            ("relative", lambda: "./" + os.path.relpath(self.real)),
            ("relative link", lambda: "./" + os.path.relpath(self.link)),
            ("link", lambda: self.link),
            ("link to link", lambda: self.link2),
            ("directory link", lambda: os.path.join(link, base)),
            ("name", lambda: self.name),
            ("object", lambda: ct.CDLL(self.real)),
            ("object of link", lambda: ct.CDLL(self.link)),
            ("object of relative", lambda: ct.CDLL("./" + os.path.relpath(self.link2))),
            ("object of name", lambda: ct.CDLL(os.path.join(d, self.sub, self.name))),
        ])


def case(ctx):
    ready()
    rng = ctx.rng
    d = os.path.realpath(ctx.dir)
    old = os.getcwd()
    link = d + "-dir"
    os.symlink(d, link)
    try:
        os.chdir(rng.choice([d, "/", os.path.dirname(d)]))
        history(ctx, rng, d, link)
    finally:
        os.chdir(old)
        os.unlink(link)
        gc.collect()


def history(ctx, rng, d, link):
    files = [File(ctx, k) for k in range(rng.randint(2, 4))]
    headers = {}
    for v in range(1, 9):
        headers[v] = ctx.write("h%d.h" % v, HDR % {"v": v})
    parsers = {v: CParser(headers[v]) for v in rng.sample(range(1, 9), 4)}
    notlib = ctx.write("text.so", "this is not a library\n")
    shutil.copy(files[0].real, os.path.join(d, "cut.so"))
    os.truncate(os.path.join(d, "cut.so"), 200)
    bad = [os.path.join(d, "missing.so"), "no-such-name-%d" % ctx.index, notlib,
           os.path.join(d, "cut.so"), d + "/", "./", files[0].real + "/x", "libnone.so.7"]
    trace = []
    for _ in range(60):
        f = rng.choice(files)
        op = rng.choice(["open"] * 6 + ["drop"] * 4 + ["all"] * 2 + ["keep"] * 3
                        + ["fail"] * 3 + ["threads", "chdir"])
        trace.append((f.k, op))
        if op == "chdir":
            os.chdir(rng.choice([d, "/", os.path.dirname(d), os.path.join(d, f.sub)]))
        elif op in ("open", "threads"):
            how, get = f.form(rng, d, link)
            v = rng.choice(sorted(headers))
            hdr = parsers[v] if v in parsers and rng.random() < 0.6 else [headers[v]]
            prefix = rng.choice([None, "p_"])
            options = {"prefix": prefix, "lock_calls": rng.random() < 0.3}
            trace.append((how, v, prefix))
            if op == "open":
                libs = [CLibrary(get(), hdr, **options)]
            else:
                libs = together(ctx, rng, get, hdr, options)
            ctx.kind("ways of naming", how)
            lib = libs[0]
            for x in libs:
                ctx.true(x is lib, "threads got different wrappers", how=how)
            if f.holders:
                ctx.saw("opened again")
                ctx.true(lib is f.wrapper(), "another wrapper for a library in use",
                         how=how, file=f.real, history=trace)
            else:
                ctx.saw("opened")
                ctx.true(f.wrapper is None or f.wrapper() is None or
                         lib is not f.wrapper(), "a forgotten wrapper came back")
                f.wrapper, f.version, f.prefix = weakref.ref(lib), v, prefix
            f.holders.append(lib)
            works(ctx, f, lib)
            del lib, libs, x
        elif op == "keep" and f.holders:
            lib = f.wrapper()
            fn = lib.ident if rng.random() < 0.5 else lib.p_first
            r = rng.random()
            if r < 0.4:
                f.holders.append(fn)
            elif fn.name == "ident":
                f.holders.append(fn())
            else:
                f.holders.append(fn(b=None))
            ctx.saw("kept by a function or result")
            del fn, lib
        elif op == "drop" and f.holders:
            f.holders.pop(rng.randrange(len(f.holders)))
            released(ctx, f, trace)
        elif op == "all" and f.holders:
            del f.holders[:]
            released(ctx, f, trace)
        elif op == "fail":
            fail(ctx, rng, f, bad, headers, d, trace)
        in_use = [g.wrapper() for g in files if g.holders]
        ctx.eq(len(set(map(id, in_use))), len(in_use), "the number of wrappers in use",
               history=trace)
        ctx.true(None not in in_use, "a library in use was forgotten", history=trace)
        del in_use
    for f in files:
        del f.holders[:]
        released(ctx, f, trace)
    ctx.case_key(trace)


def released(ctx, f, trace):
    if f.holders:
        # Functions and results keep the wrapper.
        gc.collect()
        lib = f.wrapper()
        ctx.true(lib is not None, "a library in use was forgotten", history=trace)
        works(ctx, f, lib)
        return
    gc.collect()
    if f.wrapper is not None and f.version is not None:
        ctx.true(f.wrapper() is None, "a library no longer used is not forgotten",
                 history=trace)
        ctx.saw("forgotten")
        f.version = None


def works(ctx, f, lib):
    """The wrapper has the file, headers and options of its first opening."""
    ctx.eq(lib.ident()(), 100 + f.k, "the file the wrapper calls")
    ctx.eq(lib.VERSION, f.version, "the headers of the wrapper")
    ctx.eq(list(lib["structs"]), ["s%d" % f.version], "the structures of the wrapper")
    ctx.eq(lib.p_first()(), 100 + f.k, "the file the wrapper calls")
    if f.prefix:
        ctx.eq(lib.first().auto(), [100 + f.k, None], "what the function gives")
    else:
        ctx.raises(Exception, getattr, lib, "first")


def together(ctx, rng, get, hdr, options):
    n = rng.randint(2, 6)
    gate = threading.Barrier(n)
    out = []
    path = get()

    def run():
        gate.wait()
        try:
            out.append(CLibrary(path, hdr, **options))
        except BaseException as e:
            out.append(e)

    ts = [threading.Thread(target=run) for _ in range(n)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    for x in out:
        if isinstance(x, BaseException):
            raise x
    ctx.saw("opened by several threads", n)
    return out


def fail(ctx, rng, f, bad, headers, d, trace):
    kind = rng.choice(["file", "file", "headers", "header type", "option"])
    if kind != "file" and f.holders:
        return  # already open: the rest is not looked at
    good = [headers[rng.randint(1, 8)]]
    trace.append(kind)
    ctx.saw("failed openings")
    if kind == "file":
        ctx.raises(Exception, CLibrary, rng.choice(bad), good)
    elif kind == "headers":
        ctx.raises(Exception, CLibrary, f.real, [os.path.join(d, "missing.h")])
    elif kind == "header type":
        ctx.raises(Exception, CLibrary, rng.choice([f.real, ct.CDLL(f.real)]),
                   rng.choice([None, 5, {}, good[0]]))
    else:
        ctx.raises(Exception, CLibrary, f.real, good, convention="nosuch")
