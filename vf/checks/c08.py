"""C08: structures and unions have the members written, in that order."""

from .. import cgen
from ..cgen import Arr, Base, Names, Ptr, TypeGen, declarator, spec
from ..sut import CParser, freeze, ready

RULE = (
    "A case is a header of random structures and unions: several declarators per line, "
    "bit fields (named or not, in lists, zero width), default values, nested named, "
    "unnamed and anonymous structures, unions and enums up to 3 levels, forward "
    "declarations, self and mutual references, typedefs before and after the "
    "definition, mentions of the tag before and after. For each tag, typedef or "
    "variable the members reached through the reported types (names, order, types, "
    "values, bit widths; recursively for unnamed ones) are compared with the model. "
    "Non-trivial: at least one nested, bit-field or recursive member. Distinct: by the "
    "text."
)
CASES = {"quick": 700, "thorough": 6000}
REQUIRE = {"functions inside": 100, "computed widths": 200, "members": 5000, "bit fields": 300, "nested": 500, "mentions": 300,
           "several files": 150}
ASSUMPTIONS = []


class S:
    """A structure or union: its members are what must be reported."""

    def __init__(self, kw, tag, members):
        self.kw, self.tag, self.members = kw, tag, members


class Gen:
    def __init__(self, ctx):
        self.ctx, self.rng = ctx, ctx.rng
        self.names = Names(ctx.rng)
        self.types = TypeGen(ctx.rng, list(cgen.FUND), quals=0.1)
        self.tags = []  # (kw, tag) which may be used through pointers
        self.done = []  # complete tagged ones
        self.lines, self.want = [], []
        self.values = {}
        self.hard = False

    def kw(self):
        return self.rng.choice(["struct", "struct", "union"])

    def body(self, depth, me=None):
        """(text, members)"""
        rng, ctx = self.rng, self.ctx
        own = Names(rng)
        out, members = [], []
        for _ in range(rng.choice([1, 2, 3, 3, 4, 6])):
            r = rng.random()
            if r < 0.14:
                # Bit fields
                b = rng.choice(["int", "unsigned int", "unsigned", "signed int"])
                q = rng.choice(["", "", "", "const ", "volatile "])
                ds = []
                for _ in range(rng.choice([1, 1, 2, 3])):
                    w = rng.randint(1, 31)
                    wt = rng.choice(["%d", "%d", "0x%x", "0%o"]) % w
                    if rng.random() < 0.25:
                        wt, w = self.width()
                        ctx.saw("computed widths")
                    colon = rng.choice([":", " : ", ": "])
                    if rng.random() < 0.15:
                        w = rng.choice([0, w])
                        wt = "0" if w == 0 else wt
                        ds.append("%s%s" % (colon, wt))
                        # qualifiers of padding mean nothing
                        members.append(("bits", None, b, w, None))
                    else:
                        n = own.new()
                        ds.append("%s%s%s" % (n, colon, wt))
                        members.append(("bits", n, b, w, (q.strip(),) if q else ()))
                    ctx.saw("bit fields")
                out.append("%s%s %s;" % (q, b, ", ".join(ds)))
                self.hard = True
            elif r < 0.17 and members:
                # A function defined inside (C++), which is no member
                ctx.saw("functions inside")
                n = own.new()
                b = rng.choice(["", "return 0;", "m = 1; n = 2;", "if (x) { y(); } else { z(); }",
                                "puts(\"} {\");", "int k = 3; return k;", "struct q { int z; };",
                                "while (1) { { } }", "enum { QQ_ = 3 } e;"])  # fmt: skip
                a = rng.choice(["", "void", "int q", "int q, char *r", "const char *"])
                h = rng.choice(["int %s", "void %s", "const char *%s", "%s", "inline int %s",
                                "static long %s", "struct s_ *%s", "unsigned int %s"]) % n
                out.append("%s(%s) { %s }" % (h, a, b))
            elif r < 0.34 and depth > 0:
                self.hard = True
                ctx.saw("nested")
                k = self.kw()
                if rng.random() < 0.3:
                    tag = self.names.new("in_")
                    t, ms = self.body(depth - 1)
                    s = S(k, tag, ms)
                    n = own.new()
                    d, typ = self.simple(n)
                    out.append("%s %s { %s } %s;" % (k, tag, t, d))
                    members.append(("nested", n, typ, s))
                    self.want.append(("tag", s))
                    self.done.append((k, tag))
                elif rng.random() < 0.6:
                    t, ms = self.body(depth - 1)
                    s = S(k, None, ms)
                    ds = []
                    for _ in range(rng.choice([1, 1, 2])):
                        n = own.new()
                        d, typ = self.simple(n)
                        ds.append(d)
                        members.append(("nested", n, typ, s))
                    out.append("%s { %s } %s;" % (k, t, ", ".join(ds)))
                else:
                    t, ms = self.body(depth - 1)
                    q = rng.choice(["", "", "", "const "])
                    out.append("%s%s { %s };" % (q, k, t))
                    members.append(("nested", None, [], S(k, None, ms)))
            elif r < 0.39:
                # An enum declared inside
                e, f = self.names.new("E_"), self.names.new("E_")
                v = rng.randint(0, 50)
                n = own.new()
                tag = self.names.new("en_") if rng.random() < 0.5 else ""
                out.append("enum %s { %s = %d, %s } %s;" % (tag, e, v, f, n))
                self.values.update({e: v, f: v + 1})
                members.append(("enum", n, tag))
            elif r < 0.46 and (self.tags or me):
                # Through a pointer, maybe to itself or to something not known yet.
                self.hard = True
                k, tag = rng.choice(self.tags + [me] * 2 if me else self.tags)
                n = own.new()
                t = Ptr(Base("%s %s" % (k, tag)))
                if rng.random() < 0.3:
                    t = Arr(t, rng.randint(1, 5))
                out.append(cgen.declare(t, n) + ";")
                members.append(("plain", n, t, None))
            elif r < 0.52:
                # A default value (C++)
                n = own.new()
                v, text = rng.choice([(4, "4"), (1.5, "1.5"), (31, "0x1F"), ("ab", '"ab"')])
                b = {4: "int", 1.5: "double", 31: "long", "ab": "char"}[v]
                t = Base(b) if b != "char" else Ptr(Base("char"))
                out.append("%s = %s;" % (cgen.declare(t, n), text))
                members.append(("plain", n, t, v))
            elif r < 0.7:
                self.types.post = False
                b = self.types.base()
                ds = []
                for _ in range(rng.randint(2, 4)):
                    n = own.new()
                    t = b
                    for _ in range(rng.randint(0, 2)):
                        t = Ptr(t) if rng.random() < 0.6 else Arr(t, rng.randint(1, 9))
                    ds.append(declarator(t, n))
                    members.append(("plain", n, t, None))
                out.append("%s %s;" % (spec(b), ", ".join(ds)))
            else:
                self.types.post = True
                n = own.new()
                t = self.types.object(2)
                if rng.random() < 0.2:
                    t = self.types.pointer(2)
                if self.done and rng.random() < 0.2:
                    t = Base("%s %s" % rng.choice(self.done))
                out.append(cgen.declare(t, n) + ";")
                members.append(("plain", n, t, None))
        ctx.saw("members", len(members))
        return rng.choice([" ", " ", "\n"]).join(out), members

    def width(self):
        """A width which is computed, from a constant or not."""
        rng = self.rng
        if not self.values or rng.random() < 0.4:
            a, b = rng.randint(1, 9), rng.randint(0, 9)
            return rng.choice(
                [("%d + %d" % (a, b), a + b), ("(%d)" % a, a), ("%d*2" % a, 2 * a),
                 ("1<<2", 4), ("(int)%d" % a, a), ("(%d+%d)*1" % (a, b), a + b),
                 ("sizeof(%s)" % rng.choice(["int", "struct s_"]), None), ("%s_" % self.names.new(), None)]
            )  # fmt: skip
        n, v = rng.choice(sorted(self.values.items()))
        return rng.choice([("%s + 1" % n, v + 1), (n, v), ("(%s)" % n, v), ("2 + %s" % n, v + 2)])

    def simple(self, n):
        """A declarator and the declarators of the type."""
        r = self.rng.random()
        if r < 0.6:
            return n, []
        if r < 0.8:
            return "*" + n, ["*"]
        k = self.rng.randint(1, 9)
        return "%s[%d]" % (n, k), [[k]]

    def mention(self):
        """Anything naming a tag without defining it."""
        if not self.tags:
            return
        self.ctx.saw("mentions")
        k, tag = self.rng.choice(self.tags)
        n = self.names.new("m_")
        self.lines.append(
            self.rng.choice(
                ["{k} {t};", "extern {k} {t} *{n};", "void {n}({k} {t} *p);",
                 "typedef {k} {t} {n};", "typedef {k} {t} *{n};", "{k} {t} *{n}(void);",
                 "{k} {t};", "extern {k} {t} {n};"]
            ).format(k=k, t=tag, n=n)
        )  # fmt: skip

    def define(self):
        rng = self.rng
        r = rng.random()
        if self.tags and r < 0.7:
            todo = [x for x in self.tags if x not in self.done]
            if not todo:
                return
            k, tag = rng.choice(todo)
            text, ms = self.body(rng.randint(0, 3), (k, tag))
            s = S(k, tag, ms)
            self.done.append((k, tag))
            self.want.append(("tag", s))
        else:
            k, tag = self.kw(), ""
            text, ms = self.body(rng.randint(0, 2))
            s = S(k, None, ms)
        r = rng.random()
        head = "%s %s { %s }" % (k, tag, text)
        if r < 0.4 and tag:
            self.lines.append(head + ";")
        elif r < 0.75:
            a, b = self.names.new("T_"), self.names.new("TP_")
            if rng.random() < 0.5:
                self.lines.append("typedef %s %s, *%s;" % (head, a, b))
                self.want.append(("type", b, ["*"], s))
            else:
                self.lines.append("typedef %s %s;" % (head, a))
            self.want.append(("type", a, [], s))
        else:
            n = self.names.new("v_")
            d, typ = self.simple(n)
            self.lines.append("%s %s;" % (head, d))
            self.want.append(("variable", n, typ, s))


class Check:
    def __init__(self, ctx, p):
        self.ctx, self.p, self.d = ctx, p, p.defs
        self.seen = {}  # unnamed: name given -> model

    def reached(self, t, decls, s, what):
        """A type which must be s with some declarators."""
        ctx = self.ctx
        ctx.eq(freeze(list(t[1:])), freeze(decls), what + ": declarators")
        ctx.true(t[0].startswith(s.kw + " "), what + " is not a " + s.kw, got=t)
        name = t[0][len(s.kw) + 1 :]
        if s.tag is not None:
            ctx.eq(name, s.tag, what + ": tag")
            return
        # A name was made up: it must lead to this one only.
        ctx.eq(self.d["types"].get(t[0]), (s.kw, name), what + ": " + t[0])
        prev = self.seen.setdefault((s.kw, name), s)
        ctx.true(prev is s, "two unnamed structures are both called " + name, where=what)
        self.content(name, s)

    def content(self, name, s):
        ctx = self.ctx
        ctx.true(name in self.d[s.kw + "s"], "%s %s is missing" % (s.kw, name))
        got = self.d[s.kw + "s"][name]["members"]
        ctx.eq([m[0] for m in got], [m[1] for m in s.members], "members of " + name)
        for g, m in zip(got, s.members):
            what = "member %s of %s %s" % (m[1], s.kw, name)
            if m[0] == "plain":
                ctx.eq(freeze(g), freeze((m[1], cgen.expected(m[2]), m[3])), what,
                       shown=g)
            elif m[0] == "bits":
                ctx.eq(len(g), 4, what + ": length")
                ctx.eq((g[1][0], g[3], len(g[1])), (m[2], m[3], 1), what)
                if m[4] is not None:
                    ctx.eq(freeze(g[1])[2], (m[4],), what + ": qualifiers")
            elif m[0] == "enum":
                ctx.eq((len(g), len(g[1]), g[2]), (3, 1, None), what)
                if m[2]:
                    ctx.eq(g[1][0], "enum " + m[2], what)
                else:
                    ctx.true(g[1][0][:5] == "enum ", what, got=g)
            else:
                ctx.eq((len(g), g[2]), (3, None), what + ": length and value")
                self.reached(g[1], m[2], m[3], what)


def case(ctx):
    ready()
    rng = ctx.rng
    g = Gen(ctx)
    for _ in range(rng.randint(1, 4)):
        g.tags.append((g.kw(), g.names.new("s_")))
    for _ in range(rng.randint(4, 10)):
        if rng.random() < 0.35:
            g.mention()
        else:
            g.define()
    text = "\n".join(g.lines) + "\n"
    if rng.random() < 0.5:
        # The same in several files
        ctx.saw("several files")
        cuts = sorted(rng.randint(0, len(g.lines)) for _ in range(rng.choice([1, 1, 2])))
        p = CParser([ctx.write("h%d.h" % a, "\n".join(g.lines[a:b]) + "\n")
                     for a, b in zip([0, *cuts], [*cuts, len(g.lines)])
                     if a < b] or ctx.write("h.h", text))
    else:
        p = CParser(ctx.write("h.h", text))
    c = Check(ctx, p)
    for w in g.want:
        if w[0] == "tag":
            s = w[1]
            c.content(s.tag, s)
            ctx.eq(p.defs["types"].get("%s %s" % (s.kw, s.tag)), (s.kw, s.tag),
                   "type of the tag " + s.tag)
        elif w[0] == "type":
            ctx.true(w[1] in p.defs["types"], "typedef %s is missing" % w[1])
            c.reached(p.defs["types"][w[1]], w[2], w[3], "typedef " + w[1])
        else:
            ctx.true(w[1] in p.defs["variables"], "variable %s is missing" % w[1])
            c.reached(p.defs["variables"][w[1]][1], w[2], w[3], "variable " + w[1])
    for n, v in g.values.items():
        ctx.eq(p.defs["values"].get(n), v, "value of the enumerator " + n)
    # No tag of one kind is reported as the other.
    for kw, other in (("struct", "unions"), ("union", "structs")):
        for k, tag in g.tags:
            if k == kw:
                ctx.true(tag not in p.defs[other], "%s is in %s" % (tag, other))
    if g.hard:
        ctx.case_key(text)
