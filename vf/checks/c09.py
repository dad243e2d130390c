"""C09: structures get the packing in force where they are written."""

import re

from ..core import Infra, run_tool
from ..sut import CParser, ready

RULE = (
    "A case is a random history of #pragma pack directives (push, pop, values, names, "
    "macros as values, default) and of structures and unions between them, with blank "
    "and continued lines, multi-line comments, inactive sections and several structures "
    "per line. The packing reported for each structure must be the one clang applies "
    "(read from the offset of a long long member) and the one of a model of the "
    "directives. Non-trivial: at least two packings in the case. Distinct: by the text."
)
CASES = {"quick": 400, "thorough": 5000}
REQUIRE = {"structures": 2000, "pushes": 500, "pops": 400, "inactive directives": 50,
           "named pops": 50}
ASSUMPTIONS = [
    "clang follows the same documentation (MSVC) as the code",
    "not explored: a push, or a pop of an unknown name, while the packing was set by a "
    "bare #pragma pack(n) (listed finding pack-bare-push), #pragma pack(show)",
]


class Gen:
    def __init__(self, ctx):
        self.ctx, self.rng = ctx, ctx.rng
        self.lines, self.want = [], []
        self.k = 0
        self.macros = {}
        # (saved packing, name), the packing in force, was it set without push
        self.stack, self.cur, self.bare = [], None, False

    def pragma(self, text, active=True):
        rng = self.rng
        s = rng.choice(["", " ", "  "])
        args = (s + "," + rng.choice(["", " "])).join(text)
        self.lines.append(
            rng.choice(["#pragma pack(%s)", "#pragma pack (%s)", "# pragma pack( %s )",
                        "  #pragma  pack(%s)", "#pragma pack(%s) // note",
                        "#pragma pack(%s) /* x */"]) % args
        )  # fmt: skip

    def number(self):
        n = self.rng.choice([1, 2, 4, 8, 16])
        if self.rng.random() < 0.2:
            self.k += 1
            m = "PK%d" % self.k
            self.lines.append("#define %s %d" % (m, n))
            return m, n
        return str(n), n

    def directive(self):
        rng, ctx = self.rng, self.ctx
        r = rng.random()
        if r < 0.45 and not self.bare:
            ctx.saw("pushes")
            name = rng.choice([None, None, "r1", "r2", "_x9"])
            text = ["push"] + ([name] if name else [])
            self.stack.append((self.cur, name))
            if rng.random() < 0.7:
                t, n = self.number()
                text.append(t)
                self.cur = n
            self.pragma(text)
        elif r < 0.8:
            ctx.saw("pops")
            if rng.random() < 0.35 and self.stack:
                name = rng.choice([s[1] for s in self.stack if s[1]] or ["r3"])
                if rng.random() < 0.2:
                    name = "unknown"
                if self.bare and name not in [s[1] for s in self.stack]:
                    return
                ctx.saw("named pops")
                self.pragma(["pop", name])
                for i in reversed(range(len(self.stack))):
                    if self.stack[i][1] == name:
                        self.cur = self.stack[i][0]
                        del self.stack[i:]
                        self.bare = False
                        break
            else:
                if self.bare and not self.stack:
                    return
                text = ["pop"]
                if self.stack:
                    self.cur = self.stack.pop()[0]
                    self.bare = False
                    if rng.random() < 0.15:
                        t, n = self.number()
                        text.append(t)
                        self.bare = n != self.cur
                        self.cur = n
                self.pragma(text)
        elif r < 0.95:
            t, n = self.number()
            self.pragma([t])
            self.bare = True
            self.cur = n
        elif not self.stack:
            self.pragma([""])
            self.cur, self.bare = None, False
        if self.rng.random() < 0.2 and not self.lines[-1].strip().endswith("*/"):
            self.lines.append("")

    def struct(self):
        rng = self.rng
        self.k += 1
        kw = rng.choice(["struct", "struct", "union"])
        n = "s_%d" % self.k
        self.ctx.saw("structures")
        nl = rng.choice([" ", "\n", "\n\n"])
        body = "{%schar a;%slong long b;%s}" % (nl, nl, nl)
        if kw == "union":
            body = "{%schar a;%sstruct in_%d %s m;%s}" % (nl, nl, self.k, body, nl)
            self.want.append(("structs", "in_%d" % self.k, self.cur))
        self.want.append((kw + "s", n, self.cur))
        if rng.random() < 0.2:
            self.k += 1
            t = "typedef %s %s %s T_%d;" % (kw, n, body, self.k)
        else:
            t = "%s %s %s;" % (kw, n, body)
        return t

    def noise(self):
        rng = self.rng
        self.k += 1
        self.lines.append(
            rng.choice(["", "\n\n", "/* a\n b\n c */", "// x \\\n y", "int v%d;" % self.k,
                        "#define Q%d 1 + \\\n  2" % self.k, "int f%d(int a,\n int b);" % self.k,
                        "#pragma once", "#pragma packed(1)", "#pragma omp parallel",
                        "int w\\\n%d;" % self.k])
        )  # fmt: skip

    def group(self, depth=0, active=True):
        """Conditional parts, at most one of which is kept."""
        rng = self.rng
        hit = False
        for i in range(rng.choice([1, 1, 2, 2, 3])):
            last = "else" if i and rng.random() < 0.4 else None
            true = True if last else rng.random() < 0.5
            self.lines.append("#" + (last or "%s %d" % ("elif" if i else "if", true)))
            keep = active and true and not hit
            hit = hit or true
            save = self.stack[:], self.cur, self.bare, self.want[:]
            for _ in range(rng.choice([0, 1, 1, 2])):
                r = rng.random()
                if depth < 2 and r < 0.2:
                    self.group(depth + 1, keep)
                elif r < 0.4:
                    self.lines.append(self.struct())
                else:
                    self.ctx.saw("kept directives" if keep else "inactive directives")
                    self.directive()
            if not keep:
                self.stack, self.cur, self.bare, self.want = save
            if last:
                break
        self.lines.append("#endif")


def offsets(text, names):
    """The packing clang uses."""
    src = "#include <stddef.h>\n" + text
    for n in names:
        src += "\nint o_%s = offsetof(struct %s, b);" % (n, n)
    out = run_tool(
        ["clang", "-w", "-S", "-o", "-", "-x", "c", "-"], src.encode()
    ).stdout.decode()
    res = {}
    for m in re.finditer(r"^o_(\w+):\n\s+\.long\s+(\d+)", out, re.M):
        res[m.group(1)] = int(m.group(2))
    return res


def case(ctx):
    ready()
    rng = ctx.rng
    g = Gen(ctx)
    for _ in range(rng.randint(6, 18)):
        r = rng.random()
        if r < 0.45:
            g.directive()
        elif r < 0.85:
            t = g.struct()
            if rng.random() < 0.2:
                t += " " + g.struct()
            g.lines.append(t)
        elif r < 0.92:
            g.noise()
        else:
            g.group()
    g.lines.append(g.struct())
    text = "\n".join(g.lines) + "\n"
    path = ctx.write("h.h", text)
    names = [n for k, n, _ in g.want if k == "structs"]
    offs = offsets(text, names)
    for k, n, pack in g.want:
        if k == "structs" and offs[n] != min(pack or 8, 8):
            raise Infra("clang packs %s to %d, the model to %s" % (n, offs[n], pack))
    # The same directives in another file have no effect on this one.
    files = [path]
    if rng.random() < 0.3:
        files.insert(0, ctx.write("first.h", "#pragma pack(push, 2)\nstruct zz { int q; };\n"))
        g.want.append(("structs", "zz", 2))
    p = CParser(files)
    for k, n, pack in g.want:
        ctx.true(n in p.defs[k], "%s %s is missing" % (k, n))
        ctx.eq(p.defs[k][n]["pack"], pack, "packing of %s %s" % (k, n))
        ctx.kind("packings", pack)
    if len({p for _, _, p in g.want}) > 1:
        ctx.case_key(text)
