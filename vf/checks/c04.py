"""C04: constants have the value they have in C."""

import builtins
import os

from ..cgen import Names
from ..core import gcc_run
from ..sut import CParser, ready

RULE = (
    "A case is a header of constants: object-like macros, enumerators, initialised "
    "variables, arrays of values and array sizes, written with every C spelling of "
    "numbers (decimal, octal, hexadecimal, suffixes, exponents), characters, strings, operators, "
    "parentheses, casts and references to earlier constants; a C program compiled from "
    "the same header prints the values, which must be the ones reported (with their "
    "kind: int, float, str). Half of the cases add macros which are no constants "
    "(names known to Python, calls): they must have no value and run nothing. Distinct: by the text."
)
CASES = {"quick": 700, "thorough": 10000}
REQUIRE = {"ints": 2000, "floats": 200, "strings": 100, "not constants": 300,
           "about known constants": 300, "variables without value": 200,
           "strings in parts": 30, "characters": 300, "divisions": 300, "enums partly unknown": 100}
ASSUMPTIONS = [
    "gcc's arithmetic is the reference",
    "not constants: True, False and None included, numbers with underscores excluded",
    "no comparison, logical or conditional operator (known finding for the second), no "
    "unsigned or overflowing arithmetic",
]


def div(v, w):
    q = abs(v) // abs(w)
    return q if (v < 0) == (w < 0) else -q


class Gen:
    def __init__(self, ctx):
        self.ctx, self.rng = ctx, ctx.rng
        self.names = Names(ctx.rng)
        self.ints = []  # (text, value) usable in an expression
        self.pp_ints = []

    def int_literal(self, v):
        rng = self.rng
        r = rng.random()
        if r < 0.2:
            s = rng.choice(["0x%x", "0X%X", "0x%X", "0x%04x"]) % v
        elif r < 0.35:
            s = rng.choice(["0%o", "0%o", "00%o", "000%o", "0%04o"]) % v
        else:
            s = "%d" % v
        return s + rng.choice(["", "", "", "", "L", "l", "LL", "ll"])

    def character(self):
        """A character constant, whose value gcc gives."""
        rng = self.rng
        if rng.random() < 0.5:
            c = rng.choice("abzAZ059 ;,{}()[]<>/*#%$@!~^&|\"?:=+-_.`")
            return "'%s'" % c, ord(c)
        c = rng.choice(["\\n", "\\t", "\\r", "\\a", "\\b", "\\f", "\\v", "\\0", "\\7", "\\012", "\\101",
                        "\\x41", "\\x7", "\\x0a", "\\'", "\\\\", "\\\""])  # fmt: skip
        return "'%s'" % c, ord(eval("'%s'" % c.replace("\\x7", "\\x07")))

    def int_expr(self, d, refs):
        """(text, value, precedence) of a signed integer expression."""
        rng = self.rng
        r = rng.random()
        if d <= 0 or r < 0.25:
            v = rng.choice([0, 1, 2, 3, 7, 8, 9, 10, 16, 31, 64, 100, 255, 1000])
            if rng.random() < 0.15:
                self.ctx.saw("characters")
                t, v = self.character()
                return t, v, 9
            return self.int_literal(v), v, 9
        if refs and r < 0.45:
            n, v = rng.choice(refs)
            return n, v, 9
        if r < 0.55:
            a, v, p = self.int_expr(d - 1, refs)
            op = rng.choice(["-", "~", "+"])
            if p < 8 or a[0] in "+-~":
                a = "(%s)" % a
            return op + a, {"-": -v, "~": ~v, "+": v}[op], 8
        if r < 0.62:
            a, v, p = self.int_expr(d - 1, refs)
            c = rng.choice(["int", "long", "long long", "signed long"])
            return "(%s)%s" % (c, a if p >= 8 else "(%s)" % a), v, 8
        if r < 0.7:
            a, v, p = self.int_expr(d - 1, refs)
            return "(%s)" % a, v, 9
        op, prec = rng.choice(
            [("+", 6), ("-", 6), ("*", 7), ("%", 7), ("/", 7), ("&", 4), ("^", 3), ("|", 2),
             ("<<", 5), (">>", 5)]
        )  # fmt: skip
        a, v, p = self.int_expr(d - 1, refs)
        b, w, q = self.int_expr(d - 1, refs)
        if op in "/%":
            self.ctx.saw("divisions")
        if op in "/%" and w == 0 or op in ("<<", ">>") and (
            v < 0 or not 0 <= w < 8
        ):
            op, prec = "+", 6
        res = {
            "+": lambda: v + w, "-": lambda: v - w, "*": lambda: v * w,
            "%": lambda: v - w * div(v, w), "/": lambda: div(v, w), "&": lambda: v & w, "^": lambda: v ^ w,
            "|": lambda: v | w, "<<": lambda: v << w, ">>": lambda: v >> w,
        }[op]()  # fmt: skip
        if abs(res) > 10**9:
            return a, v, p
        if p < prec:
            a = "(%s)" % a
        if q <= prec:
            b = "(%s)" % b
        sp = rng.choice(["", " "])
        if b[0] in "+-" or a[-1] in "+-":
            sp = " "
        return a + sp + op + sp + b, res, prec

    def integer(self, refs):
        for _ in range(20):
            t, v, p = self.int_expr(self.rng.randint(0, 4), refs)
            if abs(v) < 10**9:
                return t, v, p
        return "1", 1, 9

    def big(self):
        rng = self.rng
        v = rng.choice(
            [2**31, 2**32 - 1, 2**32, 2**63 - 1, 2**62 + 1, 10**12, 4000000000]
        )
        return rng.choice(["%dLL", "%dll", "0x%xLL", "0x%XLL"]) % v, v

    def unsigned(self):
        rng = self.rng
        v = rng.choice([0, 1, 255, 65535, 2**31, 2**32 - 1, 2**64 - 1, 2**63])
        s = rng.choice(["U", "u"]) if v < 2**32 else ""
        s = s or rng.choice(["ULL", "ull", "UL", "ul", "LLU", "llu", "LU"])
        return rng.choice(["%d%s", "0x%x%s", "0%o%s"]) % (v, s), v

    def floating(self):
        rng = self.rng
        exact = rng.choice([0.0, 0.5, 1.0, 1.5, 0.25, 3.0, 10.0, 1024.0, 0.125, 12.75])
        r = rng.random()
        if r < 0.35:
            s = "%r" % exact
            s = rng.choice([s, s.rstrip("0") if s.endswith(".0") else s, s.lstrip("0")])
            if s == ".":
                s = "0."
            return s + rng.choice(["", "", "f", "F", "L", "l"])
        if r < 0.7:
            m = rng.choice(["1", "2", "12", "1.5", ".5", "3.", "10.25", "0.1", "123456.789"])
            s = m + rng.choice("eE") + rng.choice(["", "+", "-"]) + str(rng.randint(0, 20))
            return s + rng.choice(["", "", "", "L", "l"])
        if r < 0.85:
            return rng.choice(["-", "+", "- "]) + rng.choice(["1.5", "2.", ".5", "3e2"])
        return "(%s %s %s)" % (
            rng.choice(["1.5", "2.0", "0.1"]),
            rng.choice(["+", "*", "-", "/"]),
            rng.choice(["3", "0.5", "4.0", "7"]),
        )

    def string(self):
        rng = self.rng
        parts = ["abc", " ", "x y", "\\n", "\\t", "\\\"", "\\\\", "'", "/*no*/", "//",
                 "1UL", "0x10", "077", "1.5f", "{}", "%s", "#", ";", ",", "(int)", "\\0" * 0]  # fmt: skip
        one = lambda: '"%s"' % "".join(  # noqa: E731
            rng.choice(parts) for _ in range(rng.randint(0, 4))
        )
        if rng.random() < 0.7:
            return one()
        # Strings written one after the other are a single one
        self.ctx.saw("strings in parts")
        return rng.choice([" ", "  ", "\t"]).join(one() for _ in range(rng.randint(2, 4)))


NOT_CONSTANTS = [
    "'ab'", "L'a'", "'abcd' + 1", "'\\x41b'", "u8'a'", "'a'('b')", "'a'[0]", "'a'.real",
    "undefined_name == 2", "undefined_name != another", "(undefined_name < 4) + 1", "EMPTY == 2", "EMPTY != 3",
    "EMPTY == other", "3 > EMPTY", "-EMPTY", "2 << (EMPTY == 1)", "(3 + EMPTY == 4)",
    "undefined_name", "another_one + 1", "some_call(3)", "int", "unsigned long",
    "struct foo", "return", "while", "do { x(); } while (0)", "a.b", "p->q", "sizeof(int)",
    "__attribute__((packed))", "{ 1, 2", "(", "&name", "extern \"C\" {", "os", "sys", "re",
    "self", "expr", "args", "toks", "logger", "Type", "CParser", "__import__(\"os\")",
    "open(\"%(f)s\", \"w\")", "exec(\"open('%(f)s', 'w')\")", "__import__(\"os\").mkdir(\"%(f)s\")",
    "eval(\"1\")", "globals()", "__name__", "__file__", "self.defs", "val",
    # Known to Python, not to C
    "\"a\".upper()", "\"\".__class__", "\"\".__class__.__mro__[1].__subclasses__()", "\"%%d\".__mod__",
    "\"ab\"[0]", "[1, 2]", "{1, 2}", "{}", "[]", "()", "(1, 2)", "1, 2", "3 ** 2", "1j", "2.5j",
    "1 / 0", "(7 % 0)", "1 << -1", "1 << 0x7fffffffffffffffffffffff", "2 / 0.0", "~1.5", "-\"a\"",
    "\"a\" & 1", "1.5 << 2", "1 << 1.0", "7 % \"a\"",
    "...", "lambda: 1", "1 if 2 else 3", "[x for x in (1, 2)]", "f\"x\"", "b\"x\"",
    "{\"a\": 1}", "(y := 3)", "1 in (1, 2)", "1 is 1", "`1`", "*(1, 2)", "\"abc\"[9]", "True", "False",
    "None", "3 @ 4", "(x for x in \"a\")", "{**{}}", "(1).real",
]

#: With {} standing for a known constant
NOT_CONSTANTS_OF = [
    "{}.low", "{}.real", "{}.numerator", "{}.bit_length()", "{}->next", "{}(1)", "{}[0]", "&{}",
    "{}.__class__", "{}.low + 1", "(*{}).x", "{} {}", "({}).y.z", "{}.imag | 1", "[{}]", "{}, 2",
    "{}++", "sizeof {}.a",
]  # fmt: skip


#: Values of enumerators which cannot be known
UNKNOWN = ["sizeof(int)", "undefined_name", "sizeof(struct u_) + 1", "undefined_name + 1",
           "some_call(3)", "undefined_name == 2", "offset_of(x, y)", "sizeof x * 2"]


def case(ctx):
    ready()
    rng = ctx.rng
    g = Gen(ctx)
    lines, prints, want = [], [], []

    def ask(kind, name, expr, where, index=None):
        fmt, cast = {
            "int": ("%lld", "(long long)"),
            "uint": ("%llu", "(unsigned long long)"),
            "float": ("%.17g", "(double)"),
            "str": ("%s", ""),
        }[kind]
        if kind == "str":
            prints.append('puts_hex(%s);' % expr)
        else:
            prints.append('printf("%s\\n", %s(%s));' % (fmt, cast, expr))
        want.append((kind, name, where, index))

    for _ in range(rng.randint(4, 12)):
        r = rng.random()
        if r < 0.5:
            n = g.names.new("M_")
            k = rng.random()
            if k < 0.6:
                t, v, p = g.integer(g.pp_ints)
                text = t if p == 9 else rng.choice([t, "(%s)" % t])
                lines.append("#define %s %s" % (n, text))
                ask("int", n, n, "values")
                if p == 9 or text != t:
                    g.pp_ints.append((n, v))
                    g.ints.append((n, v))
            elif k < 0.7:
                t, v = g.big()
                lines.append("#define %s %s" % (n, t))
                ask("int", n, n, "values")
            elif k < 0.78:
                t, v = g.unsigned()
                lines.append("#define %s %s" % (n, t))
                ask("uint", n, n, "values")
            elif k < 0.9:
                lines.append("#define %s %s" % (n, g.floating()))
                ask("float", n, n, "values")
            else:
                lines.append("#define %s %s" % (n, g.string()))
                ask("str", n, n, "values")
        elif r < 0.7:
            tag = g.names.new("en_")
            ms, local = [], []
            prev = None
            for _ in range(rng.randint(1, 6)):
                m = g.names.new("E_")
                if rng.random() < 0.5:
                    t, v, p = g.integer(g.ints + local)
                    ms.append("%s = %s" % (m, t))
                else:
                    v = 0 if prev is None else prev + 1
                    ms.append(m)
                prev = v
                local.append((m, v))
                ask("int", m, m, "values")
                ask("int", m, m, ("enum", tag))
            g.ints += local
            lines.append("enum %s { %s };" % (tag, ", ".join(ms)))
        elif r < 0.85:
            n = g.names.new("v_")
            k = rng.random()
            if k < 0.6:
                t, v, p = g.integer(g.ints)
                lines.append("static const long long %s = %s;" % (n, t))
                ask("int", n, n, "variables")
                ask("int", n, n, "values")
            elif k < 0.8:
                lines.append("static const double %s = %s;" % (n, g.floating()))
                ask("float", n, n, "variables")
            else:
                lines.append("static const char *%s = %s;" % (n, g.string()))
                ask("str", n, n, "variables")
        else:
            n = g.names.new("a_")
            if rng.random() < 0.5:
                xs = [g.integer(g.ints)[0] for _ in range(rng.randint(1, 5))]
                lines.append("static int %s[] = {%s};" % (n, ", ".join(xs)))
                for i in range(len(xs)):
                    ask("int", n, "%s[%d]" % (n, i), "variables", i)
            else:
                t, v, p = g.integer(g.ints)
                if 0 < v < 10000:
                    lines.append("extern char %s[%s];" % (n, t))
                    ask("int", n, "sizeof(%s)" % n, "size")
    bad, bad_vars, part, unknown = [], [], [], []
    trap = ctx.path("executed")
    header = list(lines)
    if rng.random() < 0.6:
        pool = NOT_CONSTANTS + rng.sample(dir(builtins), 6)
        pool = [b for b in pool if b != "__debug__"]
        known = ["GIVEN", "TEXT"]
        for body in rng.sample(pool, 5) + rng.sample(NOT_CONSTANTS_OF, 2):
            n = g.names.new("X_")
            if body in NOT_CONSTANTS_OF:
                header.append("#define %s %s" % (n, body.replace("{}", rng.choice(known))))
                bad.append(n)
                ctx.saw("about known constants")
                continue
            if "%(" in body:
                body = body % {"f": trap}
            header.insert(rng.randint(0, len(header)), "#define %s %s" % (n, body))
            bad.append(n)
        known += [n for n, v in g.ints if n.startswith("E_")] * 3
        for body in rng.sample([b for b in NOT_CONSTANTS_OF if b not in ("{} {}", "{}, 2")], 2):
            n = g.names.new("X_")
            header.append("static long %s = %s;" % (n, body.replace("{}", rng.choice(known))))
            bad_vars.append(n)
        if rng.random() < 0.5:
            # What follows an enumerator without value has none either
            tag, known_val = g.names.new("en_"), None
            for _ in range(rng.randint(2, 6)):
                m = g.names.new("E_")
                r = rng.random()
                if not part or r < 0.3:
                    part.append("%s = %s" % (m, rng.choice(UNKNOWN)))
                    known_val = None
                elif r < 0.5:
                    known_val = rng.randint(0, 99)
                    part.append("%s = %d" % (m, known_val))
                else:
                    known_val = None if known_val is None else known_val + 1
                    part.append(m)
                unknown.append((tag, m, known_val))
            header.append("enum %s { %s };" % (tag, ", ".join(part)))
    text = "\n".join(header) + "\n"
    prog = (
        "#include <stdio.h>\n%s\n"
        "static void puts_hex(const char *s) { while (*s) printf(\"%%02x\", "
        "(unsigned char)*s++); puts(\"\"); }\n"
        "int main(void) {\n%s\nreturn 0; }\n" % ("\n".join(lines), "\n".join(prints))
    )
    out = gcc_run(ctx, prog).split("\n")
    p = CParser(ctx.write("h.h", text), values={"GIVEN": 3, "TEXT": "abc", "EMPTY": None})
    for (kind, n, where, index), line in zip(want, out):
        if where == "values":
            got = p.defs["values"].get(n, "<missing>")
        elif where == "variables":
            got = p.defs["variables"][n][0]
        elif where == "size":
            got = p.defs["variables"][n][1][1][0]
        else:
            got = p.defs["enums"][where[1]][n]
        if index is not None:
            got = got[index]
        if kind in ("int", "uint"):
            exp = int(line)
            ctx.saw("ints")
        elif kind == "float":
            exp = float(line)
            ctx.saw("floats")
        else:
            exp = bytes.fromhex(line).decode()
            ctx.saw("strings")
        ctx.true(
            type(got) is type(exp) and got == exp,
            "%s %s has not the value it has in C" % (where, n),
            got=got,
            expected=exp,
            line=[l for l in lines if n in l][:1],
        )
    for n in bad:
        ctx.saw("not constants")
        ctx.true(n in p.defs["macros"], "macro %s is missing" % n)
        ctx.true(
            p.defs["values"][n] is None,
            "macro %s is no constant but has a value" % n,
            got=p.defs["values"][n],
            text=p.defs["macros"][n],
        )
    if unknown:
        ctx.saw("enums partly unknown")
        tag = unknown[0][0]
        exp = {m: v for _, m, v in unknown}
        ctx.eq(p.defs["enums"].get(tag), exp, "enum %s, partly without value" % tag, line=header[-1])
        ctx.eq({m: p.defs["values"].get(m, "<missing>") for m in exp}, exp, "values of enum " + tag)
        ctx.eq(p.defs["types"].get("enum " + tag), ("enum", tag), "type of enum " + tag)
    for n in bad_vars:
        # Only found if the parser understands the text
        if n in p.defs["variables"]:
            ctx.saw("variables without value")
            ctx.eq(p.defs["variables"][n][0], None, "value of the variable " + n)
    ctx.true(not os.path.exists(trap), "text of a header was executed")
    ctx.case_key(text)
