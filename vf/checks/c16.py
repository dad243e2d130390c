"""C16: a stale, foreign or damaged cache is never used."""

import os
import pickle

from ..cgen import Names
from ..hgen import Header
from ..sut import CParser, Type, ready, snap, snap_files

RULE = (
    "Enumeration: for a small header, the cache is cut at every length from 0 to its "
    "size minus one (a crash while writing it); each time parsing must give what parsing "
    "without cache gives and leave a cache which works. Histories: random sequences of "
    "header edits (with a controlled clock), changes of options (files, their order, "
    "replacements, start definitions, copied parsers, encoding), damage (cut, emptied, "
    "garbage, other pickles, cache of another program, older format, removed) and "
    "parsings with the cache; after each parsing the snapshot must be the one without "
    "cache. Headers are taken away, others being modified or not: the parser refuses to "
    "work without them or gives what it gives with them. Distinct: by the header (enumeration) or the sequence of steps."
)
CASES = {"quick": 120, "thorough": 2500}
LEVEL = "fault_enumeration"
EXHAUSTIVE = "every truncation length of the caches of the enumeration cases"
REQUIRE = {"truncations": 1500, "parsers made in steps": 100,
           "options altered after use": 60,
           "edited meanwhile": 60, "steps": 700, "option changes": 150, "header edits": 100,
           "damages": 100, "headers missing": 150, "headers missing, no cache": 30}
ASSUMPTIONS = [
    "a header edited later than the cache has a later modification time",
    "alterations which leave a readable cache with plausible content are not detectable",
]


def state(p):
    return snap(p), snap_files(p)


def truncations(ctx):
    rng = ctx.rng
    h = Header(rng, n=rng.randint(1, 2), kinds=["macro", "enum", "typedef", "variable", "function"])
    path = ctx.write("h.h", h.text())
    os.utime(path, (1000, 1000))
    want = state(CParser(path))
    cache = ctx.path("c.cache")
    CParser(path, cache=cache)
    with open(cache, "rb") as f:
        data = f.read()
    step = 1 if len(data) <= 900 else 3
    for n in range(0, len(data), step):
        with open(cache, "wb") as f:
            f.write(data[:n])
        ctx.saw("truncations")
        p = CParser(path, cache=cache)
        ctx.eq(state(p), want, "definitions after cutting the cache to %d bytes" % n)
        if n % 16 == 0 or n > len(data) - 4:
            # It was written anew.
            with open(path, "a") as f:
                f.write("int later;\n")
            os.utime(path, (1000, 1000))
            ctx.eq(state(CParser(path, cache=cache)), want,
                   "the cache written after a cut to %d bytes" % n)
            with open(path, "w") as f:
                f.write(h.text())
            os.utime(path, (1000, 1000))
            ctx.saw("rewritten caches")
    ctx.case_key("cut", h.text())


class World:
    def __init__(self, ctx):
        self.ctx, self.rng = ctx, ctx.rng
        self.clock = 10_000
        self.names = Names(ctx.rng)
        self.files = {}
        self.cache = ctx.path("c.cache")
        self.k = 0
        self.trace = []
        for n in ("a.h", "b.h", "c.h"):
            self.edit(n)
        self.order = ["a.h", "b.h"]
        self.kw = {}
        self.sources = []

    def tick(self):
        self.clock += self.rng.choice([0.125, 0.25, 0.5, 1, 10, 3600])
        return self.clock

    def edit(self, n):
        self.k += 1
        h = Header(self.rng, n=2, names=self.names)
        text = h.text() + "extern int mark_%d; /* \xe9 */ int UNSIGNED_MARK;\n" % self.k
        text += "extern char s_%d[sizeof_x];\n" % self.k
        text += "static char *str_%d = \"\xe9\";\n" % self.k
        # The last file of the list decides.
        text += "#define WHICH %d\ntypedef struct st_%s which_t;\n" % (self.k, n[0])
        path = self.ctx.write(n, text.encode("utf-8"))
        t = self.tick()
        os.utime(path, (t, t))
        self.files[n] = path

    def option(self):
        """A change of the way the parser is created."""
        rng = self.rng
        self.ctx.saw("option changes")
        what = rng.choice(["order", "order", "replace", "replace", "macros", "types",
                           "copy_from", "encoding", "values", "clear"])
        if what == "order":
            k = rng.randint(1, 3)
            self.order = rng.sample(sorted(self.files), k)
        elif what == "replace":
            self.kw["replace"] = rng.choice(
                [{"UNSIGNED_MARK": "um_%d" % rng.randint(0, 2)}, {"mark_": "MARK_"},
                 {"UNSIGNED_MARK": "um_0", "mark_": "MARK_"}, None,
                 {"UNSIGNED_MARK": "mark_", "mark_": "M_"},
                 {"mark_": "M_", "UNSIGNED_MARK": "mark_"}]
            )
        elif what == "macros":
            self.kw["macros"] = rng.choice(
                [{"UNSIGNED_MARK": "x%d" % rng.randint(0, 2)}, {"sizeof_x": "4"}, {},
                 {"sizeof_x": "5"}]
            )
        elif what == "types":
            self.kw["types"] = rng.choice(
                [{"myt": Type("int")}, {"myt": Type("int", "*")}, {"yourt": Type("int")},
                 {"myt": Type("int", type_quals=(("const",),))}]
            )
        elif what == "values":
            self.kw["values"] = rng.choice([{"sizeof_x": 3}, {"sizeof_x": 6}, {"q": 1}])
        elif what == "copy_from":
            self.k += 1
            p = CParser(self.ctx.write("src%d.h" % rng.randint(0, 1),
                                       "#define sizeof_x %d\nint from_%d;\n"
                                       % (rng.randint(1, 3), rng.randint(0, 2))))
            self.kw["copy_from"] = rng.choice([p, [p], [p]])
        elif what == "encoding":
            self.kw["encoding"] = rng.choice(["latin1", "utf-8", "cp1252"])
        else:
            self.kw = {}
        for k in list(self.kw):
            if self.kw[k] is None:
                del self.kw[k]
        self.trace.append((what, sorted(self.kw), tuple(self.order)))

    def damage(self):
        rng, c = self.rng, self.cache
        self.ctx.saw("damages")
        if not os.path.exists(c):
            return
        with open(c, "rb") as f:
            data = f.read()
        what = rng.choice(["cut", "empty", "garbage", "pickle", "remove", "head", "text",
                           "swap", "oldformat"])
        new = data
        if what == "cut":
            new = data[: rng.randint(0, max(0, len(data) - 1))]
        elif what == "empty":
            new = b""
        elif what == "garbage":
            new = bytes(rng.randrange(256) for _ in range(200))
        elif what == "pickle":
            new = pickle.dumps(rng.choice([None, [], {}, 3, "x", {"opts": {}}, {"version": 99},
                                           {"opts": 1, "version": 1000, "file_defs": None}]))
        elif what == "head":
            new = data[rng.randint(1, 20):]
        elif what == "text":
            new = b"#define CACHE 1\n"
        elif what == "swap":
            # The cache of other headers
            p = self.ctx.path("other", "zz.h")
            with open(p, "w") as f:
                f.write("int other_%d;\n" % rng.randint(0, 9))
            CParser(p, cache=c)
            with open(c, "rb") as f:
                new = f.read()
        self.trace.append((what,))
        if what == "remove":
            os.unlink(c)
            return
        if what == "oldformat":
            # Written by a version of the library with an older format, from
            # headers of the same names.
            v = CParser.cache_version
            d = self.ctx.path("older", "x")
            fs = []
            for n in self.order:
                p = os.path.join(os.path.dirname(d), n)
                with open(p, "w") as f:
                    f.write("int of_the_old_format;\n")
                fs.append(p)
            try:
                CParser.cache_version = v - 1
                q = CParser(fs, process_all=False, **self.kw)
                q.process_all()
                q.write_cache(c)
            finally:
                CParser.cache_version = v
            t = self.tick()
            os.utime(c, (t, t))
            return
        with open(c, "wb") as f:
            f.write(new)
        t = self.tick()
        os.utime(c, (t, t))

    def in_steps(self, fs):
        """The parser of the files created first and given them later."""
        rng = self.rng
        kw = {k: dict(v) if isinstance(v, dict) else v for k, v in self.kw.items()}
        src = kw.get("copy_from")
        if src is not None:
            # A copy of ours, for what follows
            src = [CParser(copy_from=q) for q in (src if isinstance(src, list) else [src])]
            kw["copy_from"] = src if rng.random() < 0.5 else src[0]
        self.ctx.saw("parsers made in steps")
        repl, enc = kw.pop("replace", None), kw.get("encoding")
        p = CParser(process_all=False, **kw)
        for f in fs:
            how = {}
            if enc and rng.random() < 0.5:
                how["encoding"] = enc
            p.load_file(f, replace=repl, **how)
        # What was given is no longer of any importance.
        if rng.random() < 0.7:
            self.ctx.saw("options altered after use")
            for k, v in kw.items():
                if isinstance(v, dict):
                    v.clear()
                    v["later_%d" % rng.randint(0, 2)] = (
                        Type("long") if k == "types" else "7")
            if repl is not None:
                repl["UNSIGNED_MARK"] = "altered"
            if src is not None:
                for q in src:
                    if rng.random() < 0.5:
                        q.add_def("values", "sizeof_x", 9)
                    q.add_def("variables", "altered", Type("int"))
        if rng.random() < 0.3:
            # The same files read in another encoding must not be confused with it.
            self.ctx.saw("files of another encoding")
            kw2 = {k: v for k, v in self.kw.items() if k != "replace"}
            other = "latin1" if enc != "latin1" else "cp437"
            which = rng.randrange(len(fs))
            make = []
            for _ in range(2):
                q = CParser(process_all=False, **kw2)
                for k, f in enumerate(fs):
                    q.load_file(f, replace=self.kw.get("replace"),
                                **({"encoding": other} if k == which else {}))
                make.append(q)
            make[0].process_all(cache=self.cache)
            make[1].process_all()
            self.stamp()
            self.ctx.eq(state(make[0]), state(make[1]),
                        "definitions with one file read as %s" % other, steps=self.trace[-6:])
        if rng.random() < 0.3:
            # A header saved while the parser works on what it has read
            self.ctx.saw("edited meanwhile")
            self.edit(rng.choice(self.order))
            self.trace.append(("edit meanwhile",))
        p.process_all(cache=self.cache)
        return p

    def stamp(self):
        t = self.tick()
        os.utime(self.cache, (t, t))

    def parse(self):
        fs = [self.files[n] for n in self.order]
        want = state(CParser(fs, **self.kw))
        if self.rng.random() < 0.3:
            p = self.in_steps(fs)
        else:
            p = CParser(fs, cache=self.cache, **self.kw)
        got = state(p)
        self.ctx.eq(got, want, "definitions", steps=self.trace[-6:])
        if os.path.exists(self.cache) and os.stat(self.cache).st_mtime > 1e9:
            # Just written: put on our clock
            self.ctx.saw("parsed again")
            self.stamp()
        else:
            self.ctx.saw("cache used")

    def without(self):
        """Some headers are not there: the cache replaces them, unless another one was
        modified since."""
        rng = self.rng
        if not os.path.exists(self.cache):
            return
        t = os.stat(self.cache).st_mtime
        if any(os.stat(self.files[n]).st_mtime > t for n in self.order):
            return
        gone = rng.sample(self.order, rng.randint(1, len(self.order)))
        rest = [n for n in self.order if n not in gone]
        edited = rest and rng.random() < 0.6
        if edited:
            self.edit(rng.choice(rest))
        fs = [self.files[n] for n in self.order]
        want = state(CParser(fs, **self.kw))
        for n in gone:
            os.rename(self.files[n], self.files[n] + ".away")
        self.ctx.saw("headers missing")
        try:
            got = state(CParser(fs, cache=self.cache, **self.kw))
        except OSError:
            self.ctx.saw("headers missing, no cache")
        else:
            self.ctx.eq(got, want, "definitions without %s" % gone, steps=self.trace[-6:],
                        edited=edited)
        for n in gone:
            os.rename(self.files[n] + ".away", self.files[n])
        self.trace.append(("without", len(gone), bool(edited)))


def case(ctx):
    ready()
    rng = ctx.rng
    if ctx.index % 8 == 0:
        truncations(ctx)
        return
    w = World(ctx)
    w.parse()
    w.parse()
    for _ in range(rng.randint(6, 14)):
        ctx.saw("steps")
        r = rng.random()
        if r < 0.25:
            ctx.saw("header edits")
            w.edit(rng.choice(sorted(w.files)))
            w.trace.append(("edit",))
        elif r < 0.6:
            w.option()
        elif r < 0.75:
            w.damage()
        w.parse()
        if rng.random() < 0.5:
            w.parse()
        if rng.random() < 0.3:
            w.without()
    ctx.case_key(w.trace, *[ctx.inputs[k] for k in sorted(ctx.inputs)])
