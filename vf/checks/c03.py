"""C03: every line sees the object-like macros in force at that line."""

import re

from ..cgen import tokens
from ..core import run_tool
from ..sut import CParser, diff, ready

RULE = (
    "A case is a history of #define, redefinition and #undef of object-like macros "
    "(numbers, types, names, qualifiers, empty, strings, and macros made of earlier "
    "ones) interleaved with declarations using them, words which only contain their "
    "names, and strings holding their names. Oracle: parsing what gcc -E makes of the "
    "file gives the same declarations, and gcc -dM -E lists the same macros with the "
    "same text. Non-trivial: at least one macro changed or removed after use. "
    "Distinct: by the text."
)
CASES = {"quick": 700, "thorough": 12000}
REQUIRE = {"uses": 2000, "undefined": 200, "redefined": 200}
ASSUMPTIONS = [
    "gcc's preprocessor is the reference",
    "macros are defined from literals or from earlier macros which do not change "
    "(known finding macro-defined-later)",
]

BODIES = {
    "I": ["3", "0x10", "(4)", "07", "12L", "1u", "(1 + 2)", "5 + 1", "-2"],
    "T": ["int", "unsigned int", "double *", "char", "struct s_", "long long", "T_foo",
          "const char *", "float"],
    "Q": ["const", "volatile", "", "const volatile"],
    "E": ["", "", "extern"],
    "N": ["renamed_a", "renamed_b", "x_v2", "_impl"],
    "S": ['"text"', '"I0 T0"', '""', '"a\\"b"', "\"'\""],
}  # fmt: skip


class History:
    def __init__(self, ctx):
        self.ctx, self.rng = ctx, ctx.rng
        self.lines = []
        self.force = {}  # name -> kind, for the macros in force
        self.frozen = set()  # used in another macro: never changed
        self.k = 0
        self.changed = 0
        self.macros_of = {
            kind: ["%s%s" % (kind, i) for i in ("0", "1", "_x", "_LONG_NAME")]
            for kind in BODIES
        }

    def event(self):
        rng = self.rng
        r = rng.random()
        if r < 0.4:
            kind = rng.choice(sorted(BODIES))
            n = rng.choice(self.macros_of[kind])
            if n in self.frozen:
                return
            old = [m for m in self.macros_of[kind] if m in self.force and m != n]
            if old and kind in "IT" and rng.random() < 0.25:
                m = rng.choice(old)
                self.frozen.add(m)
                body = {"I": "(%s + 1)", "T": "%s"}[kind] % m
            else:
                body = rng.choice(BODIES[kind])
            if n in self.force:
                self.ctx.saw("redefined")
                self.changed += 1
                if rng.random() < 0.3:
                    self.lines.append("#undef " + n)
            self.lines.append(("#define %s %s" % (n, body)).rstrip())
            self.force[n] = kind
            self.ctx.saw("defined")
        elif r < 0.55:
            n = rng.choice(self.macros_of[rng.choice(sorted(BODIES))])
            if n in self.frozen:
                return
            if n in self.force:
                self.ctx.saw("undefined")
                self.changed += 1
            self.lines.append("#undef " + n)
            self.force.pop(n, None)
        else:
            self.use()

    def pick(self, kind, default):
        """A macro of this kind, in force or not when it does not matter."""
        ms = self.macros_of[kind]
        if kind in "QEIS":
            ms = [m for m in ms if m in self.force]
        if not ms or self.rng.random() < 0.2:
            return default
        self.ctx.saw("uses")
        return self.rng.choice(ms)

    def use(self):
        rng = self.rng
        self.k += 1
        k = self.k
        t, q, e = self.pick("T", "int"), self.pick("Q", ""), self.pick("E", "")
        i = self.pick("I", "2")
        n = self.pick("N", "plain")
        # A name is used once per state, or a later declaration hides it.
        u = "%s_%d" % (rng.choice(["x", n, "v" + n, i.strip("()") + "_"]), k)
        u = u if re.match(r"[A-Za-z_]", u) else "v" + u
        self.lines.append(
            rng.choice(
                [
                    "{e} {t} f{k}({q} {t} a, int b[{i}]);",
                    "static int {u} = {i};",
                    "static int {u} = {i} * ({i}) + N0x;",
                    "typedef {q} {t} ty{k};",
                    "{t} arr{k}[{i}][({i})];",
                    "struct st{k} {{ {q} {t} m{i}x; {t} *p[{i}]; }};",
                    "enum en{k} {{ e{k}_a = {i}, e{k}_b }};",
                    "static const char *s{k} = \"{t} {i} {n}\";",
                    "static const char *s{k} = \"\\\"{t}\\\\\"; int after{k} = {i};",
                    "static char c{k} = '{t}'; int {u};",
                    "static int la{k} = {i}, {n};",
                    "int {n}(int {n}_, {t} {n}x); int g{k}(void);",
                    "{t} {n};",
                    "static const char *s{k} = {s};",
                    "int {u}[{i}]; /* {t} */ int {u}_b;",
                ]
            ).format(t=t, q=q, e=e, i=i, n=n, k=k, u=u, s=self.pick("S", '"z"'))
        )


def case(ctx):
    ready()
    rng = ctx.rng
    h = History(ctx)
    for _ in range(rng.randint(10, 40)):
        h.event()
    text = "\n".join(h.lines) + "\n"
    path = ctx.write("h.h", text)
    cmd = ["gcc", "-w", "-undef", "-x", "c", "-E"]
    out = run_tool([*cmd, "-P", path]).stdout.decode()
    left = dict(
        re.findall(
            r"^#define (\w+)\b ?(.*)$",
            run_tool([*cmd, "-dM", path]).stdout.decode(),
            re.M,
        )
    )
    names = {n for ms in h.macros_of.values() for n in ms}
    left = {n: b for n, b in left.items() if n in names}

    p = CParser(path)
    ref = CParser(ctx.write("expanded.h", out))
    ctx.eq(sorted(p.defs["macros"]), sorted(left), "the macros in force at the end")
    for n, b in left.items():
        ctx.true(n in p.defs["values"], "macro %s has no entry in the values" % n)
        if not any(m in names for m in tokens(b)):
            ctx.eq(tokens(p.defs["macros"][n]), tokens(b), "the text of macro %s" % n)
    a = {k: dict(v) for k, v in p.defs.items()}
    b = {k: dict(v) for k, v in ref.defs.items()}
    for n in names:
        a["values"].pop(n, None)
        b["values"].pop(n, None)
    a["macros"] = {}
    for k in ("functions", "variables", "types", "structs", "enums"):
        ctx.saw("declarations compared", len(a[k]))
    d = diff(a, b)
    ctx.true(not d, "a declaration is not what the preprocessed text says", diff=d[:5])
    if h.changed:
        ctx.case_key(text)
