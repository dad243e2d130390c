"""C17: replacements and encodings apply to the text read, never to the files."""

import os
import re

from ..cgen import Names
from ..hgen import Header
from ..sut import CParser, diff, ready, snap, snap_files

RULE = (
    "A case is one to three random headers holding names and strings with characters "
    "outside ASCII, written in a random encoding (UTF-8, UTF-16, Latin 1, several code "
    "pages, Shift JIS, with any line ends), and a random ordered set of replacements "
    "(words, regular expressions, groups, deletions, chains where one replacement "
    "produces what the next one looks for, replacements of directives and comments). "
    "Oracle: the definitions of a UTF-8 file in which the replacements were made before "
    "by the monitor. With deferred processing nothing may be reported before it is "
    "asked for, and the same afterwards. The bytes, times and directory of the headers "
    "are compared before and after. Non-trivial: the replacements change the text. "
    "Distinct: by text, encoding and replacements."
)
CASES = {"quick": 500, "thorough": 6000}
REQUIRE = {"many occurrences": 5, "replacements": 800, "encoded files": 800,
           "deferred": 150, "encoding by file": 30, "chains": 60,
           "files watched": 800}
ASSUMPTIONS = ["the encodings can represent the text of the header"]

#: encoding, characters it can represent
ENCODINGS = [
    ("utf-8", "\xe9\u20ac\u4e2d\U0001f600"), ("utf-16", "\xe9\u20ac\u4e2d\U0001f600"),
    ("utf-16-le", "\xe9\u4e2d"), ("utf-16-be", "\xe9\u20ac\u4e2d"),
    ("utf-32", "\u4e2d\U0001f600"), ("latin1", "\xe9\xa7\xff\x85\xa0"),
    ("cp1252", "\u20ac\u2014\xe9"), ("cp437", "\u2591\xe9\xe7"),
    ("koi8-r", "\u0436\u042f"), ("shift_jis", "\u8868\u30bd\u3042"),
    ("gb18030", "\u4e2d\u20ac"), ("utf-8-sig", "\xe9\u4e2d"), ("cp037", "\xe9\xa7"),
]  # fmt: skip


class Gen:
    def __init__(self, ctx):
        self.ctx, self.rng = ctx, ctx.rng
        self.names = Names(ctx.rng)
        self.enc, self.chars = self.rng.choice(ENCODINGS)
        self.repl = {}
        self.k = 0

    def odd(self):
        return "".join(self.rng.choice(self.chars) for _ in range(self.rng.randint(1, 4)))

    def text(self):
        rng = self.rng
        h = Header(rng, n=rng.randint(2, 6), names=self.names)
        items = list(h.items)
        extra = []
        for _ in range(rng.randint(2, 6)):
            self.k += 1
            k = self.k
            extra.append(
                rng.choice(
                    [
                        'static const char *s%d = "%s";' % (k, self.odd()),
                        '#define S%d "a%sb"' % (k, self.odd()),
                        "/* %s */ int after%d;" % (self.odd(), k),
                        "int before%d; // %s" % (k, self.odd()),
                        "OLD_WORD fw%d(OLD_WORD a, int b);" % k,
                        "int OLD_WORD_%d(void);" % k,
                        "#define OLD_MACRO_%d %d" % (k, k),
                        "BROKEN_API(int) bro%d(void);" % k,
                        "@remove@ int rem%d;" % k,
                        "struct sx%d { STEP_A a; int STEP_A_m; };" % k,
                        "extern int arr%d[SIZE_X];" % k,
                        "BEGIN_X\nint hid%d;\nEND_X int shown%d;" % (k, k),
                        "#define OLD_LONG%d 1 + \\\n  2" % k,
                        "#if OLD_COND\nint c%d;\n#else\nint d%d;\n#endif" % (k, k),
                    ]
                )
            )
        if rng.random() < 0.025:
            # The same word many times
            many = rng.choice([300, 1100, 1100])
            extra.append("\n".join("OLD_WORD many%d_%d;" % (self.k, i) for i in range(many)))
            self.ctx.saw("many occurrences")
        # Not between the lines of a header item.
        items = extra[: len(extra) // 2] + items + extra[len(extra) // 2 :]
        return "\n".join(items) + "\n"

    def replacements(self):
        rng, ctx = self.rng, self.ctx
        pool = [
            [("OLD_WORD", rng.choice(["int", "unsigned long", "char *", "new_word"]))],
            [(r"\bOLD_WORD\b", "double")],
            [(r"OLD_MACRO_(\d+) (\d+)", r"NEW_MACRO_\1 (\2 + 1)")],
            [(r"BROKEN_API\((\w+)\)", rng.choice([r"\1", r"static \1", r"\1 *"]))],
            [(r"@remove@", ""), ("@", "")],
            [(r"(?m)^@remove@.*$", "")],
            [("STEP_A", "STEP_B"), ("STEP_B", "STEP_C"), ("STEP_C", "long")],
            [("STEP_C", "long"), ("STEP_B", "STEP_C"), ("STEP_A", "STEP_B")],
            [("SIZE_X", str(rng.randint(1, 9)))],
            [("OLD_COND", rng.choice(["0", "1", "defined NOPE", "1 == 1"]))],
            [(r"/\*", "int shown_%d; /*" % rng.randint(0, 9))],
            [("[%s]+" % self.chars, "x")],
            [("absent_from_the_text", "int nothing;")],
            [(r"(?s)struct sx.*?};", "struct gone { int g; };")],
            [(r"BEGIN_X[\s\S]*?END_X", "")],
            [(r"(?s)BEGIN_X\n(.*?)END_X", r"\1")],
            [(r"\A", "int first_line;\n")],
            [(r"\Z", "\nint last_line;\n")],
            [(r";\n", ";\n\n")],
            [(r"1 \+ \\\n\s*", "30 + ")],
            [("int", "int")],
            [(r"//.*", "")],
            [("after", "AFTER"), ("before", lambda m: m.group().upper())],
        ]
        chosen = rng.sample(pool, rng.choice([0, 1, 1, 2, 3, 4]))
        for group in chosen:
            if len(group) > 1:
                ctx.saw("chains")
            for a, b in group:
                if a not in self.repl:
                    self.repl[a] = b
                    ctx.saw("replacements")


def stamp(paths):
    res = {}
    for p in paths:
        with open(p, "rb") as f:
            data = f.read()
        st = os.stat(p)
        res[p] = (data, st.st_mtime_ns, st.st_mode, st.st_ino, st.st_size)
    return res


def tree(d):
    return sorted(os.path.join(r, x) for r, ds, fs in os.walk(d) for x in ds + fs)


def case(ctx):
    ready()
    rng = ctx.rng
    g = Gen(ctx)
    n = rng.choice([1, 1, 2, 3])
    texts = [g.text() for _ in range(n)]
    g.replacements()
    eol = rng.choice(["\n", "\n", "\r\n"])
    paths, refs = [], []
    changed = False
    for i, text in enumerate(texts):
        data = text.replace("\n", eol).encode(g.enc)
        paths.append(ctx.write("in/h%d.h" % i, data))
        want = text
        for a, b in g.repl.items():
            want = re.sub(a, b, want)
        changed = changed or want != text
        refs.append(ctx.write("ref/h%d.h" % i, want))
        ctx.saw("encoded files")
    ctx.kind("encodings", g.enc)
    ref = CParser(refs)
    before = stamp(paths)
    listing = tree(os.path.dirname(paths[0]))
    kw = {}
    if g.enc != "utf-8" or rng.random() < 0.5:
        kw["encoding"] = g.enc
    given = dict(g.repl)
    if g.repl:
        kw["replace"] = given
    mode = rng.choice(["now", "now", "deferred", "late"])
    files = paths[0] if n == 1 and rng.random() < 0.5 else list(paths)
    if mode == "now":
        p = CParser(files, **kw)
    elif mode == "deferred":
        ctx.saw("deferred")
        p = CParser(files, process_all=False, **kw)
        d = {k: v for k, v in p.defs.items() if v}
        ctx.true(not d, "something is reported before processing", got=d)
        ctx.true(not snap_files(p), "something is attributed before processing")
        p.process_all()
    else:
        # Nothing given at creation, the files are loaded one by one.
        ctx.saw("deferred")
        how = {k: v for k, v in kw.items() if k == "encoding"}
        loads = {}
        if rng.random() < 0.5:
            # The encoding is the one of these files, others have another one
            ctx.saw("encoding by file")
            loads = {"encoding": g.enc}
            how = rng.choice([{}, {"encoding": rng.choice(["utf-8", "utf-16", "cp037"])}])
        p = CParser(process_all=False, **how)
        for f in paths:
            ok = p.load_file(f, kw.get("replace"), **loads)
            ctx.true(ok, "load_file did not find the file")
        ctx.true(not any(p.defs.values()), "something is reported before processing")
        p.process_all()
    if snap(p) != snap(ref):
        ctx.fail("the definitions are not those of the replaced text",
                 diff=diff(p.defs, ref.defs)[:5], encoding=g.enc, mode=mode,
                 replace=list(g.repl.items()))
    ctx.saw("comparisons")
    ctx.eq(snap_files(p), snap_files(ref), "the definitions by file")
    ctx.eq(stamp(paths), before, "the header files")
    ctx.eq(tree(os.path.dirname(paths[0])), listing, "the directory of the headers")
    ctx.eq(given, g.repl, "the replacements given")
    ctx.saw("files watched", n)
    ctx.saw("definitions", sum(len(v) for v in p.defs.values()))
    if changed or g.enc != "utf-8":
        ctx.case_key(g.enc, eol, mode, list(map(str, g.repl)), *texts)
