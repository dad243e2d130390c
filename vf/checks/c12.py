"""C12: what cannot be understood is skipped, and nothing else is lost."""

from ..hgen import Header
from ..sut import KINDS, CParser, freeze, ready, snap

RULE = (
    "A case takes a random valid header, then (a) inserts constructs the parser does not "
    "support between its declarations, or (b) cuts it at a random byte, or (c) alters "
    "random characters. Parsing must end without error; in (a) and (b) each declaration "
    "which is complete and was not touched must be reported exactly as when it is alone; "
    "after all of them, parsing an unrelated header must give what it gave before. "
    "Non-trivial: at least one construct inserted, a cut inside the text or a change. "
    "Distinct: by the text."
)
CASES = {"quick": 420, "thorough": 6000}
REQUIRE = {"foreign constructs": 300, "cuts": 80, "alterations": 200,
           "declarations compared": 3000}
CPU_LIMIT = 90
ASSUMPTIONS = ["the inserted constructs are complete statements on lines of their own"]

WRONG_IF = [
    "#if 1 +", "#if UNKNOWN_VERSION(4, 2)", "#if __has_include(<stdio.h>)", "#if 1 / 0", "#if 7 % 0",
    "#if (1", "#if 1)", "#if 1 2", "#if", "#ifdef", "#if defined", "#if 1 << -1",
    "#if 0(1)", "#if .", "#if 1 == ", "#if 1 ? 2", "#if ()", "#if 0x", "#if \"a", "#if 1 @ 2",
    "#if a.b + 1 / 0", "#if !", "#if [1", "#if \"%d\" % 1 + 1", "#if -\"a\"", "#if 1.5 << 1",
    "#if 10 ** 10 ** 10", "#if 9**9**9**9 > 1", "#if \uff45\uff58\uff49\uff54()", "#if [0] * 99",
    "#if (1).__class__", "#if lambda: 1", "#if (0 for x in ())", "#if {{1: 2}}", "#if 1 if 1 else 0",
    "#if 1, 2",
]
FOREIGN = [
    "int mv{k} = 1, mw{k} = 2;",
    "int vf{k}(const char *fmt, ...);",
    "#include <stdio.h>",
    '#include "other{k}.h"',
    "#error stop",
    "#warning careful",
    "#line 12 \"a.c\"",
    "#ident \"x\"",
    "#import <y.h>",
    "#",
    "# 33 \"file.h\"",
    "#pragma once",
    "#pragma GCC diagnostic push",
    "#define",
    "#undef",
    "#undef NEVER_DEFINED_{k}",
    ";",
    ";;;",
    "using namespace std;",
    "_Static_assert(sizeof(int) == 4, \"size\");",
    "asm(\"nop\");",
    "@interface X{k} @end",
    "$ % ` ? ;",
    "template <class T> T tmax{k}(T a, T b);",
    "class Cls{k};",
    "goto label{k};",
    "if (x) {{ y(); }} else {{ z(); }}",
    "extern \"C\" {{",
    "}}",
    "= 3;",
    "-> . :: ? : ;",
    *WRONG_IF * 2,
    "int ( * ;",
    "a b c d e f;",
    "\"a stray string\";",
    "'c';",
    "'",
    "0x 1e 08 09 1.2.3;",
    "[3];",
    "struct;",
    "enum;",
    "typedef;",
    "typedef int;",
    "union {{ }};",
    "operator+ (a, b);",
    "unsigned const short volatile;",
    "#define BAD{k}( x",
    "#define BAD{k}(x, ...) x",
    "#define BAD{k}(...) __VA_ARGS__",
    "#define STR{k}(x) #x",
    "#define CAT{k}(x, y) x ## y",
    "#define 12 x",
    "#define \"x\" y",
    "#undef 12",
    "#endif",
    "#else",
    "#elif 1",
    "#if 1\n#endif",
    "#unknown directive",
    "#pragma pack",
    "#pragma",
    "\x0c",
    "été = \"ü\";",
    "int fd{k}(x) int x; {{ return x; }}",
]

CONTROL = """
#define CT_A 3
typedef struct ct { int a[CT_A]; struct { char b : 3; } in; } *ct_p;
enum ct_e { CT_X = 5, CT_Y };
unsigned long ct_f(const char *s, ct_p (*cb)(int, ct_p), enum ct_e e);
#pragma pack(push, 2)
union ct_u { double d; struct ct c; };
#pragma pack(pop)
static const int ct_v = (CT_A << 2) + CT_Y;
"""
_control = None


def defs_of(p, names):
    return {(k, n): freeze(p.defs[k][n]) for k, n in names if n in p.defs[k]}


def quiet():
    import warnings

    warnings.simplefilter("ignore")


def case(ctx):
    global _control
    ready()
    quiet()
    rng = ctx.rng
    control = ctx.write("control.h", CONTROL)
    if _control is None:
        _control = snap(CParser(control))
    mode = rng.choice(["insert", "insert", "cut", "alter"])
    h = Header(rng, n=rng.randint(5, 14))
    names = [d for d in h.defined]
    text = h.text()
    if mode == "insert":
        ref = CParser(ctx.write("ref.h", text))
        want = {(k, n): freeze(v) for k in KINDS for n, v in ref.defs[k].items()}
        items = []
        depth = 0
        opened = False
        for it in h.items:
            items.append(it)
            if it.startswith("#if"):
                depth += 1
            if it.startswith("#endif"):
                depth -= 1
            while rng.random() < 0.35:
                f = rng.choice(FOREIGN)
                if f in ("#endif", "#else", "#elif 1") and depth:
                    continue
                if f in WRONG_IF:
                    # Cannot be evaluated: taken as false
                    f += "\n int not_there{k};\n#endif"
                    opened = True
                ctx.saw("foreign constructs")
                ctx.kind("constructs", f)
                items.append(f.format(k=rng.randint(0, 999)))
        new = "\n".join(items) + "\n"
        p = CParser(ctx.write("h.h", new))
        got = {(k, n): freeze(v) for k in KINDS for n, v in p.defs[k].items()}
        # Names given to the unnamed ones may shift.
        for (k, n), v in want.items():
            if "anon_" in n or "anon_" in repr(v):
                continue
            ctx.saw("declarations compared")
            ctx.true((k, n) in got, "%s %s is lost" % (k, n), expected=v)
            ctx.eq(got[k, n], v, "%s %s" % (k, n))
        if opened:
            ctx.true(not any(n.startswith("not_there") for _, n in got),
                     "a section whose condition has no value is active")
        ctx.case_key(new)
    elif mode == "cut":
        ctx.saw("cuts")
        i = rng.randint(0, len(text) - 1)
        new = text[:i]
        lines, pos, whole = [], 0, []
        for it in h.items:
            if pos + len(it) > i:
                break
            whole.append(it)
            pos += len(it) + 1
        rest = new[pos:] if pos <= len(new) else ""
        p = CParser(ctx.write("h.h", new))
        if not rest.lstrip().startswith("#") and "#undef" not in new[-60:]:
            ref = CParser(ctx.write("ref.h", "\n".join(whole) + "\n"))
            for k in KINDS:
                for n, v in ref.defs[k].items():
                    if "anon_" in n or "anon_" in repr(v):
                        continue
                    ctx.saw("declarations compared")
                    ctx.true(n in p.defs[k], "%s %s is lost" % (k, n), rest=rest)
                    ctx.eq(freeze(p.defs[k][n]), freeze(v), "%s %s" % (k, n), rest=rest)
        ctx.saw("comparisons")
        ctx.case_key(new)
    else:
        b = list(text)
        chars = "(){}[];,*&\"'/\\#=<>:?.01aZ_ \n!|+-~%"
        for _ in range(rng.randint(1, 6)):
            ctx.saw("alterations")
            i = rng.randrange(len(b))
            r = rng.random()
            if r < 0.3:
                del b[i]
            elif r < 0.6:
                b.insert(i, rng.choice(chars))
            elif r < 0.8:
                b[i] = rng.choice(chars)
            else:
                j = rng.randrange(len(b))
                b[i:i] = b[j : j + rng.randint(1, 30)]
        new = "".join(b)
        p = CParser(ctx.write("h.h", new))
        for k in KINDS:
            ctx.true(isinstance(p.defs[k], dict), "no definitions")
        if rng.random() < 0.5:
            # Asking for what was not understood works too.
            q = CParser(ctx.write("h.h", new), process_all=False)
            res = q.process_all(return_unparsed=True)
            ctx.true(len(res) == 1 and isinstance(res[0], str), "no unparsed text", got=res)
            ctx.eq(snap(q), snap(p), "definitions found when asking for the unparsed text")
        ctx.case_key(new)
    ctx.eq(snap(CParser(control)), _control, "an unrelated header parsed afterwards")
    del names
