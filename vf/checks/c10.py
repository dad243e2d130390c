"""C10: enumerators have the values C gives them."""

import re

from ..cgen import Names, relayout
from ..core import Infra, run_tool
from ..sut import CParser, freeze, ready

RULE = (
    "A case is a header of random enumerations (tagged, unnamed, typedefs, with "
    "variables, as members or parameters; implicit values after explicit ones, all "
    "number forms, negative values, expressions on earlier enumerators and macros, "
    "casts, trailing commas, duplicates, later mentions of the tag). The set of names "
    "and the value of each enumerator, in the enumeration and among the values, must be "
    "the ones gcc computes. Non-trivial: an implicit value after an explicit one. "
    "Distinct: by the text."
)
CASES = {"quick": 500, "thorough": 5000}
REQUIRE = {"enumerators": 5000, "implicit after explicit": 500, "expressions": 500,
           "forward mentions": 200, "characters": 200, "divisions": 200}
ASSUMPTIONS = [
    "gcc is the reference",
    "not explored: !, &&, || and ?: (listed findings), wide and non-ASCII characters",
]


class Gen:
    def __init__(self, ctx):
        self.ctx, self.rng = ctx, ctx.rng
        self.names = Names(ctx.rng)
        self.lines, self.known, self.enums = [], {}, []
        self.hard = False

    def number(self):
        rng = self.rng
        v = rng.choice([0, 1, 2, 7, 8, 9, 10, 31, 64, 100, 255, 4095, 65536, 1 << 30,
                        rng.randint(0, 1 << 20)])  # fmt: skip
        if rng.random() < 0.12:
            self.ctx.saw("characters")
            return rng.choice(["'a'", "'Z'", "' '", "'0'", "'\\n'", "'\\0'", "'\\\\'", "'\\''", "'\"'", "'\\x7'",
                               "'\\x41'", "'\\101'", "'{'", "'}'", "','", "';'", "'='", "'/'"])  # fmt: skip
        t = rng.choice(["%d", "%d", "0x%x", "0X%X", "0%o"]) % v
        return t + rng.choice(["", "", "", "", "u" * 0, "L", "l"])

    def expr(self, d=2):
        rng = self.rng
        r = rng.random()
        if d == 0 or r < 0.3:
            r = rng.random()
            if self.known and r < 0.6:
                return rng.choice(sorted(self.known))
            return self.number()
        if r < 0.7:
            op = rng.choice(["+", "-", "*", "|", "&", "^", "<<", ">>", "%", "/"])
            a = self.expr(d - 1)
            if op in ("<<", ">>"):
                b = str(rng.randint(0, 7))
                a = str(rng.randint(0, 4000)) if op == "<<" else "((%s) & 0xffff)" % a
            elif op in "/%":
                self.ctx.saw("divisions")
                b = rng.choice(["%d", "(-%d)", "-%d"]) % rng.randint(1, 9)
                a = rng.choice(["(%s)", "-(%s)", "(0-(%s))"]) % a
            elif op == "*":
                a, b = "((%s) & 0xfff)" % a, str(rng.randint(0, 99))
            elif op in "+-":
                a, b = "((%s) & 0xffffff)" % a, "((%s) & 0xffff)" % self.expr(d - 1)
            else:
                b = self.expr(d - 1)
            s = rng.choice(["", " "])
            return rng.choice(["(%s%s%s%s%s)", "(%s%s%s%s%s)", "%s%s%s%s%s"]) % (a, s, op, s, b)
        if r < 0.8:
            return "(%s)" % self.expr(d - 1)
        if r < 0.9:
            return rng.choice(["-(%s)", "~(%s)", "-%s", "~%s"]) % rng.choice(
                [str(rng.randint(0, 99)), *sorted(self.known)]
            )
        return "(%s)%s" % (rng.choice(["int", "long"]), self.expr(0))

    def body(self):
        rng, ctx = self.rng, self.ctx
        out, members, explicit = [], [], False
        for _ in range(rng.choice([1, 1, 2, 3, 5, 8, 12])):
            n = self.names.new(rng.choice(["E_", "", "k", "_"]))
            r = rng.random()
            if r < 0.2:
                out.append("%s = %s" % (n, self.expr()))
                ctx.saw("expressions")
                explicit = True
            elif r < 0.4:
                s = rng.choice(["", " "])
                out.append("%s%s=%s%s%s" % (n, s, s, rng.choice(["", "", "-", "- ", "+"]),
                                            self.number()))
                explicit = True
            else:
                out.append(n)
                if explicit:
                    ctx.saw("implicit after explicit")
                    self.hard = True
            members.append(n)
            self.known[n] = None
            ctx.saw("enumerators")
        sep = rng.choice([", ", ",", ",\n", " ,\n  "])
        return "{%s%s}" % (sep.join(out) + rng.choice(["", " "]), rng.choice(["", "", ","])), members

    def add(self):
        rng = self.rng
        r = rng.random()
        if r < 0.15:
            n = self.names.new("M_")
            self.lines.append("#define %s %s" % (n, self.number()))
            self.known[n] = None
            return
        if r < 0.2:
            if not self.enums:
                return
            tag = rng.choice(self.enums)[0]
            if tag:
                n = self.names.new("v_")
                self.lines.append(
                    rng.choice(["extern enum {t} {n};", "void {n}(enum {t} p);",
                                "typedef enum {t} {n};", "struct {n} {{ enum {t} q; }};"])
                    .format(t=tag, n=n)
                )  # fmt: skip
            return
        body, ms = self.body()
        tag = self.names.new("en_") if rng.random() < 0.6 else ""
        if tag and rng.random() < 0.3:
            # Mentioned before its definition
            self.ctx.saw("forward mentions")
            self.lines.append(
                rng.choice(["extern enum {t} *{n};", "void {n}(enum {t} *p);",
                            "typedef enum {t} {n};", "struct {n} {{ enum {t} *q; }};",
                            "enum {t};", "typedef enum {t} *{n}, **{n}p;"])
                .format(t=tag, n=self.names.new("w_"))
            )  # fmt: skip
        head = "enum %s %s" % (tag, body)
        n = self.names.new("v_")
        form = rng.choice(["{h};", "{h};", "typedef {h} {n};", "typedef {h} {n}, *{n}p;",
                           "extern {h} {n};", "struct in_{n} {{ int a; {h} m; }};",
                           "{h} {n}[2];"])  # fmt: skip
        if rng.random() < 0.2:
            head = relayout(rng, head, comments=False)
        self.lines.append(form.format(h=head, n=n))
        self.enums.append((tag, ms, form, n))


def values(text, names):
    src = text + "".join("\nlong o_%s = (long)(%s);" % (n, n) for n in names)
    out = run_tool(
        ["gcc", "-w", "-S", "-o", "-", "-x", "c", "-"], src.encode()
    ).stdout.decode()
    res = {n: 0 for n in names}
    for m in re.finditer(r"^o_(\w+):\n\s+\.(quad|zero)\s+(-?\d+)", out, re.M):
        res[m.group(1)] = int(m.group(3)) if m.group(2) == "quad" else 0
    return res


def case(ctx):
    ready()
    rng = ctx.rng
    g = Gen(ctx)
    for _ in range(rng.randint(3, 9)):
        g.add()
    g.add()
    text = "\n".join(g.lines) + "\n"
    path = ctx.write("h.h", text)
    every = [n for e in g.enums for n in e[1]]
    vals = values(text, every)
    for n, v in vals.items():
        if not -(1 << 31) <= v < (1 << 31):
            # The generator went out of the range of the values compilers agree on.
            ctx.saw("out of range")
            return
    if sorted(vals) != sorted(every):
        raise Infra("values not found")
    p = CParser(path)
    found = dict(p.defs["enums"])
    for tag, ms, form, n in g.enums:
        want = {m: vals[m] for m in ms}
        if tag:
            ctx.true(tag in found, "enum %s is missing" % tag)
            got = found.pop(tag)
            ctx.eq(freeze(p.defs["types"].get("enum " + tag)), freeze_type(tag), "type of " + tag)
        else:
            # Whatever the name given to it.
            ms_of = [k for k, v in found.items() if set(v) == set(ms)]
            ctx.true(len(ms_of) == 1, "unnamed enum found %d times" % len(ms_of), members=ms)
            got = found.pop(ms_of[0])
            if form.startswith("typedef"):
                ctx.eq(p.defs["types"].get(n), ("enum " + ms_of[0],), "typedef " + n)
        ctx.eq(freeze(dict(got)), freeze(want), "enum " + (tag or "(unnamed)"))
        for m in ms:
            ctx.eq(p.defs["values"].get(m), vals[m], "value of " + m)
        if form.startswith("typedef") and tag:
            ctx.eq(p.defs["types"].get(n), ("enum " + tag,), "typedef " + n)
    ctx.eq(sorted(found), [], "other enums")
    if g.hard:
        ctx.case_key(text)


def freeze_type(tag):
    from ..sut import Type

    return freeze(Type("enum", tag))
