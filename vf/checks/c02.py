"""C02: conditional compilation keeps what the C preprocessor keeps."""

import re

from ..core import run_tool
from ..sut import CParser, ready

RULE = (
    "A case is a header of nested #if/#ifdef/#ifndef/#elif/#else/#endif groups (up to "
    "six deep, with define/undef and skipped garbage inside) around uniquely named "
    "declarations; the names which survive and the macros left at the end are compared "
    "with those of gcc -E and gcc -dM -E on the same text. Non-trivial: at least one "
    "declaration kept and one dropped. Distinct: by the text."
)
CASES = {"quick": 800, "thorough": 16000}
REQUIRE = {"conditions": 1000, "divisions": 300, "kept": 500, "dropped": 500}
ASSUMPTIONS = ["gcc's preprocessor is the reference"]


def literal(rng, v):
    r = rng.random()
    if r < 0.04:
        # A character constant
        return rng.choice(["'a'", "' '", "'0'", "'\\n'", "'\\0'", "'\\\\'", "'\\''", "'\"'", "'\\x7'",
                           "'\\x41'", "'\\101'", "'!'", "'&'", "'/'", "'('", "')'"])  # fmt: skip
    if v >= 0 and r < 0.1:
        return hex(v)
    if v >= 0 and r < 0.15 and v:
        return "0%o" % v
    if v >= 0 and r < 0.3:
        return "%d%s" % (v, rng.choice(["L", "l", "LL", "ll"]))
    return "%d" % v if v >= 0 else "(%d)" % v


class Conds:
    def __init__(self, ctx):
        self.ctx, self.rng = ctx, ctx.rng
        self.lines = []
        self.marks = 0
        self.pool = ["A", "B", "C1", "DEBUG", "_X", "VERSION", "HAVE_foo", "ident"]
        self.fns = []

    def arith(self, d=2):
        """An integer expression, fully parenthesised unless it is an atom."""
        rng = self.rng
        r = rng.random()
        if d <= 0 or r < 0.45:
            r = rng.random()
            if r < 0.5:
                return rng.choice(self.pool)
            return literal(rng, rng.choice([0, 1, 2, 3, 5, 8, 10, 255, 199901]))
        if self.fns and r < 0.55:
            f, k = rng.choice(self.fns)
            return "%s(%s)" % (f, ", ".join(self.arith(d - 1) for _ in range(k)))
        op = rng.choice(["+", "-", "*", "&", "|", "^", "<<", ">>", "%", "/"])
        a = self.arith(d - 1)
        if op in ("<<", ">>"):
            b = str(rng.randint(0, 5))
        else:
            b = self.arith(d - 1)
        if op in ("%", "/"):
            # Of any sign, but not by 0
            self.ctx.saw("divisions")
            b = rng.choice(["%d", "%d", "(-%d)", "-%d"]) % rng.randint(1, 9)
            if rng.random() < 0.5:
                a = rng.choice(["%d", "(-%d)", "-%d"]) % rng.randint(0, 100)
        if op in ("<<", ">>"):
            a = str(rng.randint(0, 100))
        sp = rng.choice(["", " "])
        return "(%s%s%s%s%s)" % (a, sp, op, sp, b)

    def defined(self):
        n = self.rng.choice(self.pool + [f for f, _ in self.fns])
        return self.rng.choice(
            ["defined(%s)", "defined %s", "defined ( %s )", "defined(%s)"]
        ) % n

    def term(self, d):
        """Something with the truth of a condition, safe next to && and ||."""
        rng = self.rng
        r = rng.random()
        if r < 0.3:
            return self.defined()
        if r < 0.45:
            return "!" + rng.choice(["", " "]) + self.defined()
        if r < 0.5:
            return rng.choice(["0", "1"])
        if r < 0.6:
            return self.arith(1)
        if r < 0.7 and d > 0:
            return "(%s)" % self.cond(d - 1)
        if r < 0.8 and d > 0:
            return "!(%s)" % self.cond(d - 1)
        if r < 0.85:
            # (never negative: unsigned arithmetic is not claimed)
            return "%s %s %d%s" % (
                rng.choice(self.pool), rng.choice(["==", ">=", "<", "!="]),
                rng.choice([0, 1, 2, 3, 199901]), rng.choice(["u", "U", "UL", "ull"]),
            )
        a, b = self.arith(d), self.arith(d)
        if rng.random() < 0.3:
            a = "%s %s %s" % (
                rng.randint(0, 9),
                rng.choice(["+", "-", "*"]),
                self.arith(0),
            )
        op = rng.choice(["==", "!=", "<", ">", "<=", ">="])
        sp = rng.choice(["", " "])
        return "%s%s%s%s%s" % (a, sp, op, sp, b)

    def cond(self, d=2):
        rng = self.rng
        self.ctx.saw("conditions")
        n = rng.choice([1, 1, 1, 2, 2, 3, 4])
        s = self.term(d)
        for _ in range(n - 1):
            sp = rng.choice([" ", " ", ""])
            s += sp + rng.choice(["&&", "||"]) + sp + self.term(d)
        return s

    def mark(self):
        self.marks += 1
        self.lines.append("int mark_%d;" % self.marks)

    def garbage(self):
        """What may only appear where it is skipped."""
        rng = self.rng
        return rng.choice(
            [
                "#error this is skipped", "#define BAD_%d (" % rng.randint(0, 9),
                "this is ( not C", "#include <nowhere.h>", "}} {{ ;",
                "#pragma pack(1)", "#undef A", "#define A 99", "#undef DEBUG",
                "#define VERSION 77", "#line 3", "#unknown directive", "# ",
            ]
        )  # fmt: skip

    def macro(self):
        rng = self.rng
        n = rng.choice(self.pool)
        if rng.random() < 0.35:
            self.lines.append("#undef " + n)
        else:
            # (redefining without undef is only valid when nothing changes)
            self.lines.append("#undef " + n)
            v = rng.choice([0, 1, 2, 3, 10, 199901])
            body = literal(rng, v)
            if rng.random() < 0.15:
                body = "(%s + 1)" % body
            self.lines.append("#define %s %s" % (n, body))

    def skipped(self, d):
        rng = self.rng
        self.lines.append(rng.choice(["#if 0", "#ifdef NOWHERE_", "#if 0"]))
        for _ in range(rng.randint(1, 4)):
            r = rng.random()
            if r < 0.5:
                self.lines.append(self.garbage())
            elif r < 0.7:
                self.mark()
            elif d > 0:
                # Only the nesting counts in there.
                self.lines.append(rng.choice(["#if (", "#if 1", "#ifdef A", "#if 1/0", "#ifndef A"]))
                self.lines.append(self.garbage())
                self.mark()
                if rng.random() < 0.5:
                    self.lines.append(rng.choice(["#else", "#elif )", "#elif 1"]))
                    self.mark()
                self.lines.append("#endif")
        if rng.random() < 0.4:
            self.lines.append("#else")
            self.mark()
        self.lines.append("#endif")

    def group(self, depth):
        rng = self.rng
        r = rng.random()
        if r < 0.2:
            self.lines.append("#ifdef " + rng.choice(self.pool))
        elif r < 0.4:
            self.lines.append("#ifndef " + rng.choice(self.pool))
        else:
            self.lines.append("#if " + self.cond())
        self.body(depth - 1)
        for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
            self.lines.append("#elif " + self.cond())
            self.body(depth - 1)
        if rng.random() < 0.6:
            self.lines.append("#else")
            self.body(depth - 1)
        self.lines.append("#endif" + rng.choice(["", "", " /* done */", " // done"]))

    def body(self, depth):
        rng = self.rng
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            r = rng.random()
            if r < 0.5 or depth <= 0:
                self.mark()
            elif r < 0.65:
                self.macro()
            elif r < 0.75:
                self.skipped(depth)
            else:
                self.group(depth)


def case(ctx):
    ready()
    rng = ctx.rng
    c = Conds(ctx)
    initial = {}
    for n in c.pool:
        r = rng.random()
        if r < 0.2:
            initial[n] = str(rng.randint(0, 4))
        elif r < 0.5:
            c.lines.append("#define %s %s" % (n, literal(rng, rng.randint(0, 4))))
    if rng.random() < 0.5:
        c.lines.append("#define FN1(x) ((x) + 1)")
        c.fns.append(("FN1", 1))
    if rng.random() < 0.3:
        c.lines.append("#define FN2(x, y) ((x) * (y))")
        c.fns.append(("FN2", 2))
    for _ in range(rng.randint(1, 4)):
        c.mark()
        c.group(rng.randint(1, 6))
        if rng.random() < 0.5:
            c.macro()
    c.mark()
    text = "\n".join(c.lines) + "\n"
    path = ctx.write("h.h", text)
    ctx.inputs["macros"] = initial
    flags = ["-D%s=%s" % kv for kv in initial.items()]
    cmd = ["gcc", "-w", "-undef", "-x", "c", *flags]
    out = run_tool([*cmd, "-E", "-P", path]).stdout.decode()
    kept = set(re.findall(r"\bmark_\d+\b", out))
    left = {
        m.group(1)
        for m in re.finditer(
            r"^#define (\w+)",
            run_tool([*cmd, "-E", "-dM", path]).stdout.decode(),
            re.M,
        )
    } & {*c.pool, "FN1", "FN2"}

    p = CParser(path, macros=initial) if initial else CParser(path)
    got = set(p.defs["variables"])
    ctx.saw("kept", len(kept))
    ctx.saw("dropped", c.marks - len(kept))
    ctx.eq(sorted(got), sorted(kept), "the declarations kept")
    ctx.eq(
        sorted(({*p.defs["macros"], *p.defs["fnmacros"]})),
        sorted(left),
        "the macros defined at the end",
    )
    if 0 < len(kept) < c.marks:
        ctx.case_key(text, initial)
