"""Random headers: valid C, within what pyclibrary says it supports.

Header.items is a list of logical lines (directives are single items, and so
are declarations); Header.defined lists (kind, name) of what they define.
"""

from . import cgen
from .cgen import Arr, Base, Names, Ptr, TypeGen, declare

NUMBERS = [
    ("0", 0), ("1", 1), ("7", 7), ("42", 42), ("0x1F", 31), ("0XffUL", 255),
    ("010", 8), ("100000L", 100000), ("3u", 3), ("12ull", 12), ("-5", -5),
    ("(8)", 8), ("(1 << 4)", 16), ("1.5", 1.5), ("2.5e3", 2500.0), (".25f", 0.25),
    ("3.0F", 3.0), ("1e-2", 0.01), ("(2 + 3 * 4)", 14), ("0xF0 | 0x0F", 255),
    ("(6 & 3)", 2), ("5 ^ 1", 4), ("~0", -1), ("10 % 4", 2),
]  # fmt: skip
STRINGS = [
    '"text"', '"a b  c"', '"with /* no comment */ in"', '"// nor here"', '"q\\"uote"',
    '"back\\\\"', '""', '"it\'s"', '"#define NO 1"', '"{;}"', '"tab\\t"',
]  # fmt: skip


class Header:
    def __init__(self, rng, n=12, names=None, types=(), kinds=None, fancy=True,
                 pack=True, quals=0.2):
        self.rng = rng
        self.names = names or Names(rng)
        self.items, self.defined = [], []
        self.ints = []  # names of integer constants
        self.types = list(types)  # names usable as base types
        self.macros, self.fnmacros = [], []
        self.pp = {}  # macros with a value the preprocessor knows
        self.quals = quals
        self.gen = TypeGen(rng, cgen.FUND, quals=quals)
        kinds = kinds or (
            ["macro"] * 3 + ["fnmacro", "enum", "enum", "struct", "struct", "struct",
             "union", "typedef", "typedef", "variable", "function", "function", "cond",
             "undef", "usemacro"] + (["pack"] if pack else [])
        )
        for _ in range(n):
            getattr(self, "add_" + rng.choice(kinds))()

    def text(self, sep="\n"):
        return sep.join(self.items) + sep

    def refresh(self):
        self.gen.bases = cgen.FUND + self.types * 5
        self.gen.sizes = [(n, v) for n, v in self.ints if 0 < v < 500]

    def define(self, kind, name):
        self.defined.append((kind, name))

    # --- items

    def add_macro(self):
        rng = self.rng
        n = self.names.new("M_")
        r = rng.random()
        if r < 0.15:
            text = ""
        elif r < 0.35:
            text = rng.choice(STRINGS)
        elif r < 0.5 and self.ints:
            a, v = rng.choice(self.ints)
            k = rng.randint(0, 9)
            text = "(%s + %d)" % (a, k)
            self.ints.append((n, v + k))
        else:
            text, v = rng.choice(NUMBERS)
            if isinstance(v, int):
                self.ints.append((n, v))
                if text.isalnum():
                    self.pp[n] = v
        self.items.append(("#define %s %s" % (n, text)).strip())
        self.macros.append(n)
        self.define("macros", n)

    def add_undef(self):
        if self.macros and self.rng.random() < 0.5:
            n = self.rng.choice(self.macros)
            self.macros.remove(n)
            self.pp.pop(n, None)
            self.ints = [x for x in self.ints if x[0] != n]
            self.defined.remove(("macros", n))
            self.items.append("#undef " + n)

    def add_fnmacro(self):
        rng = self.rng
        n = self.names.new("F_")
        ps = rng.sample(["x", "y", "z", "arg"], rng.randint(1, 3))
        body = rng.choice(["({0})", "({0} + 1)", "(({0}) * 2 + ({1}))", "({0}-{1}-{0})"])
        self.items.append(
            "#define %s(%s) %s" % (n, ", ".join(ps), body.format(ps[0], ps[-1]))
        )
        self.fnmacros.append((n, len(ps)))
        self.define("fnmacros", n)

    def add_usemacro(self):
        rng = self.rng
        n = self.names.new("u_")
        if self.fnmacros and rng.random() < 0.5:
            f, k = rng.choice(self.fnmacros)
            v = "%s(%s)" % (f, ", ".join(str(rng.randint(1, 9)) for _ in range(k)))
        elif self.ints:
            v = rng.choice(self.ints)[0]
        else:
            v = str(rng.randint(0, 99))
        self.items.append("static const int %s = %s;" % (n, v))
        self.define("variables", n)

    def add_enum(self):
        rng = self.rng
        tag = self.names.new("en_")
        ms, v, out = [], 0, []
        for _ in range(rng.randint(1, 5)):
            m = self.names.new("E_")
            r = rng.random()
            if r < 0.4:
                t, v = rng.choice([x for x in NUMBERS if isinstance(x[1], int)])
                out.append("%s = %s" % (m, t))
            elif r < 0.5 and ms:
                q, w = rng.choice(ms)
                v = w + 1
                out.append("%s = %s + 1" % (m, q))
            else:
                out.append(m)
            ms.append((m, v))
            v += 1
        self.ints += ms
        body = "{ %s%s }" % (", ".join(out), rng.choice(["", ","]))
        r = rng.random()
        if r < 0.6:
            self.items.append("enum %s %s;" % (tag, body))
            self.define("enums", tag)
            self.types.append("enum " + tag)
        elif r < 0.8:
            td = self.names.new("T_")
            self.items.append("typedef enum %s %s %s;" % (tag, body, td))
            self.define("enums", tag)
            self.define("types", td)
            self.types += ["enum " + tag, td]
        else:
            td = self.names.new("T_")
            self.items.append("typedef enum %s %s;" % (body, td))
            self.define("types", td)
            self.types.append(td)
        for m, _ in ms:
            self.define("values", m)

    def members(self, depth=1):
        rng = self.rng
        self.refresh()
        own = Names(rng)
        out = []
        for _ in range(rng.randint(1, 5)):
            r = rng.random()
            if r < 0.12:
                out.append(
                    "%s %s : %d;" % (
                        rng.choice(["int", "unsigned int", "unsigned"]),
                        own.new(),
                        rng.randint(1, 20),
                    )
                )
            elif r < 0.22 and depth:
                k = rng.choice(["struct", "union"])
                out.append(
                    "%s { %s } %s;" % (k, self.members(depth - 1), own.new("in_"))
                )
            elif r < 0.3:
                b = self.gen.base()
                out.append(
                    "%s %s, *%s;" % (cgen.spec(b), own.new(), own.new())
                )
            else:
                out.append(declare(self.gen.object(2), own.new()) + ";")
        return " ".join(out)

    def add_struct(self, kw="struct"):
        rng = self.rng
        tag = self.names.new("st_" if kw == "struct" else "un_")
        r = rng.random()
        if r < 0.15:
            # Incomplete, only used through pointers.
            td = self.names.new("T_")
            self.items.append("typedef %s %s *%s;" % (kw, tag, td))
            self.define("types", td)
            self.types.append(td)
            return
        ms = self.members()
        if r < 0.3 and kw == "struct":
            ms += " struct %s *self_;" % tag
        body = "{ %s }" % ms
        self.define(kw + "s", tag)
        if r < 0.7:
            self.items.append("%s %s %s;" % (kw, tag, body))
            self.types.append("%s %s" % (kw, tag))
        else:
            td, tp = self.names.new("T_"), self.names.new("TP_")
            self.items.append("typedef %s %s %s %s, *%s;" % (kw, tag, body, td, tp))
            self.define("types", td)
            self.define("types", tp)
            self.types += ["%s %s" % (kw, tag), td, tp]

    def add_union(self):
        self.add_struct("union")

    def add_pack(self):
        rng = self.rng
        n = rng.choice([1, 2, 4, 8])
        self.items.append("#pragma pack(push, %d)" % n)
        self.add_struct()
        self.items.append("#pragma pack(pop)")

    def add_typedef(self):
        self.refresh()
        n = self.names.new("T_")
        t = self.gen.object(2)
        if self.rng.random() < 0.2:
            t = Ptr(self.gen.function(1))
        self.items.append("typedef %s;" % declare(t, n))
        self.define("types", n)
        self.types.append(n)
        if isinstance(t, Arr) or (isinstance(t, Base) and t.spec in self.gen.arrays):
            self.gen.arrays.add(n)

    def add_variable(self):
        rng = self.rng
        self.refresh()
        n = self.names.new("v_")
        r = rng.random()
        if r < 0.3:
            t, _ = rng.choice(NUMBERS)
            self.items.append("static double %s = %s;" % (n, t))
        elif r < 0.45:
            self.items.append(
                "static int %s[] = {%s};"
                % (n, ", ".join(str(rng.randint(0, 99)) for _ in range(rng.randint(1, 4))))
            )
        else:
            self.items.append("extern %s;" % declare(self.gen.object(2), n))
        self.define("variables", n)

    def add_function(self):
        self.refresh()
        n = self.names.new("f_")
        self.items.append(declare(self.gen.function(2), n) + ";")
        self.define("functions", n)

    def add_cond(self):
        rng = self.rng
        if self.macros and rng.random() < 0.5:
            c, t = "#ifdef " + rng.choice(self.macros), True
        elif self.pp and rng.random() < 0.6:
            n = rng.choice(sorted(self.pp))
            v = self.pp[n]
            k = rng.choice([v, v + 1])
            c, t = "#if %s == %d" % (n, k), k == v
        else:
            t = rng.random() < 0.5
            c = "#if %d" % t
        a, b = self.names.new("ca_"), self.names.new("cb_")
        self.items += [c, "int %s(void);" % a, "#else", "int %s(void);" % b, "#endif"]
        self.define("functions", a if t else b)
