"""C05: function-like macros are replaced like the C preprocessor does."""

import re

from ..core import run_tool
from ..sut import CParser, diff, ready

RULE = (
    "A case defines random function-like macros (1 to 5 parameters, repeated, unused or "
    "swapped; bodies with strings, braces, percent signs, earlier macros), aliases, "
    "redefinitions and #undef, and calls them in declarations with random arguments "
    "(nested calls, parentheses, commas in parentheses, strings and character constants "
    "holding parentheses, commas and parameter names, names of other parameters, empty). "
    "Oracle: parsing what gcc -E makes of the file gives the same declarations. Names "
    "which are not followed by an argument list, or only contain a macro name, must be "
    "left alone. Distinct: by the text."
)
CASES = {"quick": 420, "thorough": 7000}
REQUIRE = {"calls": 3000, "nested calls": 300, "not calls": 200,
           "bodies written alike": 100,
           "plain macros given parameters": 40, "macros losing their parameters": 80}
ASSUMPTIONS = [
    "gcc's preprocessor is the reference",
    "calls on one line, no # or ## operator, at least one parameter, parameters not "
    "named like a macro, bodies only naming macros already defined",
]

PARAMS = ["x", "y", "z", "a", "b", "arg", "_n", "T", "name", "val1", "xx"]


class G:
    def __init__(self, ctx):
        self.ctx, self.rng = ctx, ctx.rng
        self.lines = []
        self.expr = {}  # macros giving an integer: name -> number of parameters
        self.types = {}  # macros giving a type from types
        self.decls = {}  # macros giving declarations: name -> kinds of parameters
        self.ints = []
        self.plain = set()  # macros without parameters named like them
        self.used = set()  # named by other macros: never changed
        self.k = 0
        self.bodies = {}  # bodies naming no macro: the parameters
        self.nested = set()  # macros naming others: not named themselves

    def new(self, p):
        self.k += 1
        return "%s%d" % (p, self.k)

    # --- definitions

    def params(self, n):
        return self.rng.sample(PARAMS, n)

    def define_expr(self):
        rng = self.rng
        n = rng.choice([1, 1, 1, 2, 2, 2, 3, 5])
        ps = self.params(n)
        name = rng.choice(["F", "MAKE_", "add", "Max", "fm_", "_G"]) + str(
            rng.randint(0, 9)
        )
        if self.plain and rng.random() < 0.4:
            name = rng.choice(sorted(self.plain))
        if name in self.used or name in self.types or name in self.decls:
            return
        use = [rng.choice(ps) for _ in range(rng.randint(1, 2))]
        if rng.random() < 0.6:
            use = ps + use[1:]  # every parameter
        rng.shuffle(use)
        parts = []
        for u in use:
            r = rng.random()
            if r < 0.5:
                parts.append("(%s)" % u)
            elif r < 0.7:
                parts.append(u)
            elif r < 0.85:
                others = [e for e in self.expr if e not in (name, *self.nested)]
                if others and n < 3:
                    self.nested.add(name)
                    e = rng.choice(sorted(others))
                    self.used.add(e)
                    args = [u] + [str(rng.randint(1, 9))] * (self.expr[e] - 1)
                    parts.append("%s(%s)" % (e, ", ".join(args)))
                else:
                    parts.append("(%s)" % u)
            else:
                n_ = rng.choice(self.ints) if self.ints and rng.random() < 0.5 else rng.randint(1, 9)
                parts.append("%s * (%s)" % (n_, u))
        body = rng.choice([" + ", "+", " | ", " - ", " ^ "]).join(parts)
        if rng.random() < 0.6:
            body = "(%s)" % body
        # The parameters of another body written alike, in another order
        alike = sorted(b for b, n_ in self.bodies.items() if len(n_) == n)
        if alike and rng.random() < 0.3:
            body = rng.choice(alike)
            ps = list(self.bodies[body])
            rng.shuffle(ps)
            self.ctx.saw("bodies written alike")
        elif not any(e in body for e in self.expr):
            self.bodies[body] = ps
        if name in self.expr or name in self.plain:
            # A compiler only warns when the #undef is missing.
            if rng.random() < 0.6:
                self.lines.append("#undef " + name)
            self.ctx.saw("redefined")
            if name in self.plain:
                self.ctx.saw("plain macros given parameters")
                self.plain.discard(name)
        sep = rng.choice([", ", ",", " , "])
        self.lines.append(
            "#define %s(%s)%s%s"
            % (name, sep.join(ps), rng.choice([" ", "  ", "" if body[0] == "(" else " "]),
               body)
        )  # fmt: skip
        self.expr[name] = n

    def define_plain(self):
        """A name of a macro with parameters becomes a plain macro."""
        rng = self.rng
        free = sorted(f for f in [*self.expr, *self.plain] if f not in self.used
                      and not f.startswith("ALIAS_"))
        name = rng.choice(free) if free and rng.random() < 0.7 else (
            rng.choice(["F", "MAKE_", "add", "Max", "fm_", "_G"]) + str(rng.randint(0, 9)))
        if name in self.used or name in self.types or name in self.decls:
            return
        if (name in self.expr or name in self.plain) and rng.random() < 0.6:
            self.lines.append("#undef " + name)
        if name in self.expr:
            self.ctx.saw("macros losing their parameters")
            del self.expr[name]
        self.plain.add(name)
        self.k += 1
        self.lines.append("#define %s %d" % (name, self.k))
        self.lines.append(rng.choice(["int pl_%d[%s];", "static int pl_%d = (%s) + 1;"])
                          % (self.k, name))

    def define_type(self):
        rng = self.rng
        name = self.new("TY_")
        p = rng.choice(PARAMS)
        body = rng.choice(["%s *", "const %s", "%s", "struct %s *", "unsigned %s"]) % p
        self.lines.append("#define %s(%s) %s" % (name, p, body))
        self.types[name] = body

    def define_decl(self):
        rng = self.rng
        name = self.new("DECL_")
        ps = self.params(3)
        t, n, v = ps
        kinds = {t: "type", n: "name", v: "int"}
        body = rng.choice(
            [
                "%(t)s %(n)s(%(t)s p, int q[%(v)s]);",
                "struct s_%(k)d { %(t)s m1; %(t)s m2[%(v)s]; }; static int %(n)s = %(v)s;",
                "enum { e_%(k)d = %(v)s, f_%(k)d }; %(t)s %(n)s;",
                "static const char *s_%(k)d = \"%(t)s %(n)s, (%(v)s) {}\"; %(t)s %(n)s[%(v)s];",
                "typedef %(t)s (*%(n)s)(%(t)s, %(t)s); int v_%(k)d[%(v)s][%(v)s];",
                "static int %(n)s[] = {%(v)s, 1, %(v)s};",
                "static const char *s_%(k)d = \"100%%s %%d {0} {x}\"; extern %(t)s %(n)s, *p_%(k)d;",
                "inline %(t)s %(n)s(%(t)s w) { return %(v)s; }",
                "static char c_%(k)d = '%(n)s'; %(t)s %(n)s(void); static int w_%(k)d = %(v)s;",
            ]
        ) % {"t": t, "n": n, "v": v, "k": self.k}  # fmt: skip
        order = ps[:]
        rng.shuffle(order)
        self.lines.append("#define %s(%s) %s" % (name, ", ".join(order), body))
        self.decls[name] = [kinds[p] for p in order]

    # --- uses

    def arg(self, d):
        """An integer argument."""
        rng = self.rng
        r = rng.random()
        if d > 0 and self.expr and r < 0.3:
            self.ctx.saw("nested calls")
            return self.call(d - 1)
        if r < 0.4:
            return "pair(%s, %s)" % (self.arg(0), self.arg(0)) if rng.random() < 0.3 else (
                "(%s + (%s))" % (self.arg(d - 1), self.arg(0))
            )
        if r < 0.5 and self.ints:
            return rng.choice(self.ints)
        if r < 0.6:
            # Names of parameters are only names outside of the macro.
            return "(sizeof_%s + 1)" % rng.choice(PARAMS) if rng.random() < 0.2 else (
                rng.choice(PARAMS)
            )
        return rng.choice(["1", "2", "0x1F", "3 + 4", "-1", " 5 ", "(6)", "7L", "1 << 2"])

    def call(self, d=1):
        rng = self.rng
        f = rng.choice(sorted(self.expr))
        self.ctx.saw("calls")
        return "%s%s(%s)" % (
            f,
            rng.choice(["", "", "", " ", "  "]),
            rng.choice([", ", ",", " , "]).join(
                self.arg(d) for _ in range(self.expr[f])
            ),
        )

    def type_arg(self):
        rng = self.rng
        t = rng.choice(["int", "char", "unsigned long", "double", "struct q", "T_x"])
        if self.types and rng.random() < 0.4:
            self.ctx.saw("calls")
            return "%s(%s)" % (rng.choice(sorted(self.types)), rng.choice(["int", "char"]))
        return t

    def use(self):
        rng = self.rng
        self.k += 1
        k = self.k
        r = rng.random()
        if self.decls and r < 0.35:
            n = rng.choice(sorted(self.decls))
            kinds = self.decls.pop(n)  # once: it declares fixed names too
            args = []
            for kd in kinds:
                if kd == "type":
                    args.append(self.type_arg())
                elif kd == "name":
                    args.append("nm_%d" % k)
                else:
                    args.append(self.arg(1))
            self.ctx.saw("calls")
            self.lines.append("%s(%s)" % (n, ", ".join(args)))
        elif self.expr and r < 0.75:
            c = self.call()
            self.lines.append(
                rng.choice(
                    [
                        "static int v_%d = {c};", "static int v_%d = 1 + {c} + {d};",
                        "int a_%d[{c}];", "static int b_%d[] = {{{c}, {d}}};",
                        "struct st_%d {{ int m[{c}]; char n[{d}]; }};",
                        "static const char *s_%d = \"{q}\"; static int t_%d = {c};",
                        "static char c_%d = '\"'; static int d_%d = {c};",
                        "void f_%d(int p[{c}], char q[{d}]);",
                    ]
                ).replace("%d", str(k)).format(c=c, d=self.call(0), q=c.replace('"', "'"))
            )  # fmt: skip
        elif self.types and r < 0.85:
            self.lines.append("%s g_%d(%s p);" % (self.type_arg(), k, self.type_arg()))
        elif self.expr:
            # Not calls.
            # (an alias is replaced even when it is not called)
            fs = sorted(f for f in self.expr if not f.startswith("ALIAS_"))
            if not fs:
                return
            self.ctx.saw("not calls")
            f = rng.choice(fs)
            self.lines.append(
                rng.choice(
                    [
                        "int %s;", "int x%s(int);", "int %s_(int x);", "struct %s;",
                        "extern int %s[3];", "typedef int t%s, (*_%s_)(int);",
                        "static const char *sz" + str(k) + " = \"%s(1)\";",
                        "enum { ee" + str(k) + " = 3 }; int n%s, %s;",
                    ]
                ).replace("%s", f)
            )  # fmt: skip

    def event(self):
        rng = self.rng
        r = rng.random()
        if r < 0.15:
            self.define_expr()
        elif r < 0.22:
            self.define_type()
        elif r < 0.34:
            self.define_decl()
        elif r < 0.37:
            # Empty arguments
            n = self.new("DECL_QL")
            p, q = self.params(2)
            k = self.k
            self.lines.append("#define %s(%s, %s) %s int ql_%d(%s)" % (n, p, q, p, k, q))
            if rng.random() < 0.7:
                self.ctx.saw("calls")
                self.ctx.saw("empty arguments")
                a, b = rng.choice(["", " ", "const", "unsigned"]), rng.choice(["", "void", " ", "char *s"])
                self.lines.append("%s(%s,%s);" % (n, a, b))
        elif r < 0.4:
            n = self.new("K_")
            self.lines.append("#define %s %d" % (n, rng.randint(1, 20)))
            self.ints.append(n)
        elif r < 0.44:
            self.define_plain()
        elif r < 0.47 and self.expr:
            f = rng.choice(sorted(self.expr))
            if f not in self.used:
                self.lines.append("#undef " + f)
                del self.expr[f]
        elif r < 0.5 and self.expr:
            f = rng.choice(sorted(self.expr))
            n = self.new("ALIAS_")
            self.lines.append("#define %s %s" % (n, f))
            self.used.add(f)
            self.used.add(n)
            self.expr[n] = self.expr[f]
            self.nested.add(n)
        else:
            self.use()


def depth(text):
    """How deep the parentheses are (the parser is recursive)."""
    d = m = 0
    for c in text:
        d += (c == "(") - (c == ")")
        m = max(m, d)
    return m


def case(ctx):
    ready()
    rng = ctx.rng
    g = G(ctx)
    g.define_expr()
    for _ in range(rng.randint(8, 22)):
        g.event()
    text = "\n".join(g.lines) + "\n"
    path = ctx.write("h.h", text)
    out = run_tool(["gcc", "-w", "-undef", "-x", "c", "-E", "-P", path]).stdout.decode()
    if len(out) > 20000 or depth(out) > 20:
        ctx.saw("too large")
        return
    p = CParser(path)
    ref = CParser(ctx.write("expanded.h", out))
    a = {k: dict(v) for k, v in p.defs.items()}
    for n in [*a["macros"], *a["fnmacros"]]:
        a["values"].pop(n, None)
    b = {k: dict(v) for k, v in ref.defs.items()}
    for n in [*a["macros"], *a["fnmacros"]]:
        b["values"].pop(n, None)
    ctx.eq(
        sorted(a["fnmacros"]),
        sorted([*g.expr, *g.types, *(n for n in a["fnmacros"] if n[:5] == "DECL_")]),
        "the function macros in force at the end",
    )
    ctx.eq(sorted(n for n in a["macros"] if re.fullmatch(r"(F|MAKE_|add|Max|fm_|_G)\d", n)),
           sorted(g.plain), "the plain macros in force at the end")
    a["macros"], a["fnmacros"] = {}, {}
    for k in ("functions", "variables", "types", "structs", "enums"):
        ctx.saw("declarations compared", len(b[k]))
    d = diff(a, b)
    ctx.true(not d, "a declaration is not what the preprocessed text says", diff=d[:5],
             expanded=out)
    ctx.case_key(text)
