"""C29: the parser is initialised once, and its types and modifiers are honoured."""

import json
import os
import subprocess
import sys

from ..cgen import FUND, WORDS, Arr, Base, Names, Ptr, TypeGen
from ..cgen import expected, expected_function
from ..core import VERIF, gcc_lib
from ..sut import Enum, Struct, Type, Union, freeze

RULE = (
    "Each case is a fresh interpreter following a random history: init, auto_init "
    "(possibly for Windows, Linux or macOS) or a first parser (alone, or several threads "
    "at once creating parsers and initialising, delayed at random lines), then parsing "
    "random headers using the extra types everywhere types are and the extra modifiers "
    "(with and without arguments) everywhere qualifiers are, opening a library using the "
    "types, being initialised again with types and modifiers which would change "
    "everything. Oracle: the declarations expected, and those of the same header without "
    "modifiers; the C types are those given, sizes and values are the ones of gcc; a "
    "second initialisation raises RuntimeError and the same headers give the same. "
    "The dict and list given are as they were, and are modified by the caller "
    "afterwards. Distinct: by history and headers."
)
CASES = {"quick": 260, "thorough": 3500}
REQUIRE = {"declarations": 1500, "modifiers used": 2500, "modifiers with arguments": 500,
           "extra types used": 1000, "types bound": 400, "initialised again": 250,
           "several threads": 30, "delays": 300, "for windows": 10,
           "initialised by a parser": 20, "overridden types": 30}
ASSUMPTIONS = [
    "modifiers are where the parser understands qualifiers: not after struct/union/enum, "
    "nor after the declarator, and have arguments when parentheses follow",
    "extra types are given along with ctypes classes",
]

TYPE_NAMES = ["my_t", "my_tt", "DWORD", "Handle", "LPVOID", "u128", "T", "_x_t", "intt",
              "unsigned_t", "my_T", "float16", "HANDLE_", "structx", "a_t"]
OVERRIDES = ["size_t", "ssize_t", "time_t", "bool", "uint8_t", "int64_t", "wchar_t"]
CLASSES = {
    "c_byte": ("signed char", [0, -5, 127]), "c_ubyte": ("unsigned char", [0, 200]),
    "c_short": ("short", [-3, 3000]), "c_ushort": ("unsigned short", [65535]),
    "c_int": ("int", [-70000]), "c_uint": ("unsigned", [4000000000]),
    "c_long": ("long", [-(2**40)]), "c_ulong": ("unsigned long", [2**63 + 1]),
    "c_longlong": ("long long", [-(2**62)]), "c_ulonglong": ("unsigned long long", [3]),
    "c_float": ("float", [1.5, -0.25]), "c_double": ("double", [0.1]),
    "c_bool": ("_Bool", [True, False]), "c_void_p": ("void *", [4096]),
    "sub:c_short": ("short", [-30000]), "sub:c_double": ("double", [2.5]),
    "sub:c_uint": ("unsigned", [7]), "ptr:c_int": ("int *", None),
    "ptr:ptr:c_short": ("short **", None), "arr:c_short": ("short", None),
    "struct:c_short": ("struct { short p; int q; }", None),
}
MODIFIERS = ["API", "MOD", "WINAPI", "__declspec", "__based", "CALLBACK", "_In_", "IN",
             "OUT", "__w64", "__restrict", "APIENTRY", "In_opt", "x_", "__attribute__",
             "DECL", "__stdcall2", "FAR", "_Inout_updates_", "m"]
WIN = ["__based", "__declspec", "__fastcall", "__restrict", "__sptr", "__uptr", "__w64",
       "__unaligned", "__nullterminated"]
ARGS = ["(dllexport)", "(1)", "()", "((a, (b)), c)", "(\"x (\")", "(align(8))",
        "( x[3] * 2 )", "(1,\n 2)", "(int a)", " (dllimport)", "(\"a\", \")\")"]
SLOT = "\x00"


class Header:
    """Random declarations, with slots where modifiers may be."""

    def __init__(self, ctx, types, avoid):
        self.ctx, self.rng = ctx, ctx.rng
        rng = self.rng
        self.types = list(types)
        self.names = Names(rng, {*avoid, *WORDS[:0]})
        # Names which look like the modifiers, the types
        self.near = [n + "x" for n in avoid if n.isidentifier()] + [
            "x" + n for n in avoid if n.isidentifier()]
        rng.shuffle(self.near)
        self.gen = TypeGen(rng, FUND[:12] + self.types * 6, quals=0.15, abstract=0.3,
                           fn=0.25, post=True)
        self.lines = []
        self.want = {k: {} for k in ("types", "variables", "functions", "structs",
                                     "unions", "enums", "macros", "values", "fnmacros")}

    def name(self):
        if self.near and self.rng.random() < 0.3:
            n = self.near.pop()
            if n not in self.names.taken and not n.startswith("__"):
                self.names.taken.add(n)
                return n
        return self.names.new()

    # --- text

    def spec(self, b):
        s = SLOT + " " + "".join("%s %s " % (q, SLOT) for q in b.pre) + b.spec
        if any(b.spec == t for t in self.types):
            self.ctx.saw("extra types used")
        return s + " " + SLOT + "".join(" %s %s" % (q, SLOT) for q in b.post)

    def declarator(self, t, name):
        s = name or ""
        prev = None
        while not isinstance(t, Base):
            if isinstance(t, Ptr):
                s = "*" + SLOT + "".join(" %s %s" % (q, SLOT) for q in t.quals) + " " + s
                prev = "ptr"
                t = t.to
            else:
                if prev == "ptr":
                    s = "(" + SLOT + " " + s + ")"
                prev = None
                if isinstance(t, Arr):
                    s = "%s[%s]" % (s, t.text)
                    t = t.of
                else:
                    if t.params is None:
                        p = ""
                    elif not t.params:
                        p = "void"
                    else:
                        p = ", ".join(self.declare(pt, pn) for pn, pt in t.params)
                    s = "%s(%s)" % (s, p)
                    t = t.ret
        return s

    def declare(self, t, name):
        b = t
        while not isinstance(b, Base):
            b = b.to if isinstance(b, Ptr) else b.of if isinstance(b, Arr) else b.ret
        return "%s %s" % (self.spec(b), self.declarator(t, name))

    # --- declarations

    def decl(self):
        rng, want = self.rng, self.want
        r = rng.random()
        n = self.name()
        self.ctx.saw("declarations")
        if r < 0.25:
            t = self.gen.object(3)
            st = rng.choice(["", "", "extern ", "static "])
            self.lines.append("%s%s;" % (st, self.declare(t, n)))
            want["variables"][n] = (None, expected(t))
            want["values"][n] = None
        elif r < 0.6:
            t = self.gen.function(2)
            st = rng.choice(["", "", "extern ", "static inline "])
            body = ";"
            if rng.random() < 0.2:
                body = " { return 0; }"
            self.lines.append("%s%s%s" % (st, self.declare(t, n), body))
            want["functions"][n] = expected_function(t)
        elif r < 0.75:
            t = self.gen.object(3)
            if rng.random() < 0.4:
                t = Ptr(self.gen.function(2))
            self.lines.append("typedef %s;" % self.declare(t, n))
            want["types"][n] = expected(t)
        elif r < 0.93:
            kw = rng.choice(["struct", "struct", "union"])
            ms, own = [], Names(rng, self.names.taken)
            body = ""
            for _ in range(rng.randint(1, 5)):
                t, m = self.gen.object(2), own.new()
                body += " %s;" % self.declare(t, m)
                ms.append((m, expected(t), None))
            cls = Struct if kw == "struct" else Union
            self.lines.append("%s %s %s {%s };" % (SLOT, kw, n, body))
            want["types"]["%s %s" % (kw, n)] = Type(kw, n)
            want["structs" if kw == "struct" else "unions"][n] = cls(*ms)
        else:
            a, b = self.name(), self.name()
            v = rng.randint(0, 99)
            self.lines.append("%s enum %s { %s, %s = %d };" % (SLOT, n, a, b, v))
            want["types"]["enum " + n] = Type("enum", n)
            want["enums"][n] = Enum(**{a: 0, b: v})
            want["values"].update({a: 0, b: v})

    def text(self, mods, p):
        """Write the header with these modifiers in the slots."""
        rng, out = self.rng, []
        pieces = "\n".join(self.lines).split(SLOT)
        for i, piece in enumerate(pieces):
            out.append(piece)
            if i == len(pieces) - 1 or not mods or rng.random() > p:
                continue
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                out.append(" " + rng.choice(mods))
                self.ctx.saw("modifiers used")
                if rng.random() < 0.3:
                    out.append(rng.choice(ARGS))
                    args = True
                    self.ctx.saw("modifiers with arguments")
                else:
                    args = False
            # The parentheses of a declarator are not its arguments
            after = "".join(pieces[i + 1:])[:40].lstrip()
            if after.startswith("(") and not args:
                out.append("(0)")
            out.append(" ")
        return "".join(out) + "\n"


def choose_types(rng):
    types = {}
    for n in rng.sample(TYPE_NAMES, rng.choice([0, 1, 2, 3, 5])):
        types[n] = rng.choice(list(CLASSES))
    if rng.random() < 0.35:
        types[rng.choice(OVERRIDES)] = rng.choice(
            [c for c in CLASSES if c.startswith("c_") and c != "c_bool"])
    items = list(types.items())
    rng.shuffle(items)
    return dict(items)


def choose_mods(rng):
    return rng.sample(MODIFIERS, rng.choice([0, 1, 2, 3, 5, 8]))


def library(ctx, types):
    """A library using the types: its C text, its header."""
    c, h = [], []
    for n, cls in types.items():
        text = CLASSES[cls][0]
        if cls.startswith("arr:"):
            c.append("typedef %s %s[3];" % (text, n))
        else:
            c.append("typedef %s %s;" % (text, n))
        k = n.replace(" ", "_")
        lines = ["typedef %s alias_%s, *ptr_%s;" % (n, k, k),
                 "struct s_%s { char c; %s a; char d; %s b[2]; };" % (k, n, n)]
        h += lines
        c += lines
        h.append("int size_%s(void);" % k)
        c.append("int size_%s(void) { return sizeof(struct s_%s); }" % (k, k))
        if CLASSES[cls][1] is not None:
            fns = [("%s id_%s(%s a)" % (n, k, n), "return a;"),
                   ("%s *at_%s(%s *p)" % (n, k, n),
                    "static %s v; v = *p; return &v;" % n),
                   ("%s cb_%s(%s (*f)(%s x), %s a)" % (n, k, n, n, n),
                    "return f(a);")]
            for proto, body in fns:
                h.append(proto + ";")
                c.append("%s { %s }" % (proto, body))
    return "\n".join(c) + "\nint none;\n", "\n".join(h) + "\n"


def run(ctx, steps):
    env = {k: v for k, v in os.environ.items() if k != "LD_PRELOAD"}
    out = ctx.path("outcome.json")
    proc = subprocess.Popen(
        [sys.executable, "-X", "faulthandler", "-m", "vf.initchild", out],
        stdin=subprocess.PIPE, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
        cwd=VERIF, env=env)
    try:
        _, err = proc.communicate(json.dumps(steps).encode(), timeout=100)
    except subprocess.TimeoutExpired:
        proc.kill()
        proc.communicate()
        ctx.fail("the parser does not answer", steps=steps)
    data = None
    if os.path.exists(out):
        with open(out) as f:
            data = f.read()
    if not data:
        ctx.fail("the interpreter failed", err=err.decode("utf-8", "replace")[-3000:],
                 steps=steps)
    return json.loads(data)


def snapshot(want):
    return {"%s %s" % (k, n): repr(freeze(v))
            for k in want for n, v in want[k].items()}


def same(ctx, got, want, what, **details):
    """Compare definitions, telling which differ."""
    ctx.saw("comparisons", len(want))
    if got != want:
        if not isinstance(got, dict):
            ctx.fail("%s: failed" % what, got=got, **details)
        ctx.fail("%s differ" % what, got={
            k: v for k, v in got.items() if want.get(k) != v}, expected={
            k: v for k, v in want.items() if got.get(k) != v}, **details)


def case(ctx):
    rng = ctx.rng
    types, mods = choose_types(rng), choose_mods(rng)
    used = dict(types)
    first = rng.choice(["init", "init", "auto_init", "auto_init", "windows", "other os",
                        "parser", "threads", "race", "races"])
    init = {"op": "init", "how": "auto_init", "types": types, "mods": mods,
            "kw": rng.random() < 0.5}
    win = False
    if first == "init":
        init["how"] = "init"
    elif first == "windows":
        win = True
        init["os"] = "win32"
        if rng.random() < 0.3:
            used["__int64"] = rng.choice(["c_short", "c_double", "sub:c_uint"])
            types = init["types"] = dict(used)
        else:
            used["__int64"] = "c_longlong"
        used["unsigned __int64"] = "c_ulonglong"
        ctx.saw("for windows")
    elif first == "other os":
        init["os"] = rng.choice(["linux2", "darwin", "linux"])
    if first in ("parser", "threads"):
        used, mods = {}, []
        ctx.saw("initialised by a parser")
    if not types and rng.random() < 0.5:
        init["types"] = None
    if not mods and rng.random() < 0.5:
        init["mods"] = None
    ctx.saw("overridden types", sum(n in OVERRIDES for n in used))
    allmods = mods + (WIN if win else [])
    if win and rng.random() < 0.5:
        allmods = allmods[len(mods):] or allmods

    avoid = {*MODIFIERS, *WIN, *TYPE_NAMES, *OVERRIDES, "late_t", "LATE", "other_t"}
    heads = []
    for i in range(rng.randint(1, 3)):
        h = Header(ctx, list(used), avoid)
        for _ in range(rng.randint(3, 12)):
            h.decl()
        want = snapshot(h.want)
        heads.append((ctx.write("h%d.h" % i, h.text(allmods, 0.35)), want))
        if allmods:
            heads.append((ctx.write("plain%d.h" % i, h.text([], 0)), want))
    csrc, hsrc = library(ctx, {n: c for n, c in used.items()
                               if n != "unsigned __int64"})
    if win:
        # gcc does not know this type
        csrc = csrc.replace("__int64", "vf_int64")
        csrc = csrc.replace("_vf_int64", "___int64")
        csrc += "typedef unsigned long long vf_u;\n" + wide("vf_u")
        hsrc += wide("unsigned __int64", False)
    so = gcc_lib(ctx, csrc, "init")
    names = {n.replace(" ", "_"): (c, CLASSES[c][1]) for n, c in used.items()}
    libh = ctx.write("lib.h", hsrc)
    uses = [{"op": "parse", "file": f} for f, _ in heads]
    uses.append({"op": "bind", "lib": so, "headers": [libh], "names": names})

    steps, oracle = [], []

    def add(step, check):
        steps.append(step)
        oracle.append(check)

    def use():
        order = list(uses)
        rng.shuffle(order)
        for s in order:
            if s["op"] == "parse":
                want = dict(heads)[s["file"]]
                add(s, lambda got, s=s, want=want: same(
                    ctx, got, want, "the declarations of %s" % os.path.basename(s["file"]),
                    steps=steps))
            else:
                add(s, bound)

    def bound(got):
        ctx.true(isinstance(got, dict), "the library cannot be opened", got=got)
        for n, cls in used.items():
            k = n.replace(" ", "_")
            r = got[k]
            ctx.true("error" not in r, "type %s cannot be used" % n, got=r, given=cls)
            ctx.eq(r["class"], k, "the C type of %s (given %s)" % (n, cls))
            ctx.eq(r["member"], k, "the C type of a member %s (given %s)" % (n, cls))
            ctx.eq(r["pointer"], k, "the C type of a pointer to %s (given %s)" % (n, cls))
            ctx.eq(r["size"][0], r["size"][1], "size of a structure using %s" % n)
            ctx.saw("types bound")
            if CLASSES[cls][1] is not None:
                vals = []
                for v in CLASSES[cls][1]:
                    vals += [v, v] if cls.startswith("sub:") else [v, v, v]
                ctx.eq(r["values"], vals, "values of type %s (%s)" % (n, cls))
                if not cls.startswith("sub:"):
                    ctx.eq(r["called"], CLASSES[cls][1],
                           "values of type %s given to a callback" % n)
                ctx.saw("values", len(vals))

    def ok(got):
        ctx.eq(got["res"], "ok", "first initialisation")
        ctx.true(got["kept"], "the types and modifiers given are modified")

    def refused(got):
        ctx.eq(got["res"], "RuntimeError", "outcome of a second initialisation")
        ctx.true(got["kept"], "the types and modifiers given are modified")
        ctx.saw("initialised again")

    def again():
        for _ in range(rng.randint(1, 2)):
            t = {"other_t": "c_int"}
            for n in [*used, "int", "unsigned int", "char", "size_t"]:
                if rng.random() < 0.5:
                    t[n] = "c_double"
            m = rng.sample([*WORDS, "LATE", "const", "struct"], 8)
            s = {"op": "init", "how": rng.choice(["init", "auto_init"]),
                 "types": rng.choice([t, {}, None]), "mods": rng.choice([m, [], None]),
                 "kw": rng.random() < 0.5}
            if s["how"] == "auto_init" and rng.random() < 0.4:
                s["os"] = rng.choice(["win32", "linux2", "darwin"])
            add(s, refused)

    def job(op, **kw):
        return {"op": op, "seed": rng.random(), "p": rng.choice([0, 0.01, 0.05]), **kw}

    if first in ("init", "auto_init", "windows", "other os"):
        add(init, ok)
    elif first == "parser":
        add({"op": "parser"}, lambda got: None)
    elif first == "threads":
        jobs = []
        for _ in range(rng.randint(2, 6)):
            if rng.random() < 0.5:
                jobs.append(job("parse", file=rng.choice(heads)[0]))
            else:
                jobs.append(job("parser"))

        def parsers(got):
            ctx.saw("several threads")
            ctx.saw("delays", got["delays"])
            ctx.eq(got["alive"], 0, "threads which do not answer")
            for j, r in zip(jobs, got["out"]):
                if j["op"] == "parser":
                    ctx.eq(r, "ok", "what creating one of the first parsers gives")
                else:
                    same(ctx, r, dict(heads)[j["file"]],
                         "the declarations found by one of the first parsers")

        add({"op": "threads", "jobs": jobs}, parsers)
    else:
        # Several threads initialise the same way: one does
        jobs = [job("init", **{k: v for k, v in init.items() if k != "op"})
                for _ in range(rng.randint(2, 4))]

        def one(got):
            ctx.saw("several threads")
            ctx.saw("delays", got["delays"])
            ctx.eq(got["alive"], 0, "threads which do not answer")
            for r in got["out"]:
                ctx.true(isinstance(r, dict), "a thread initialising fails", got=r)
                ctx.true(r["kept"], "the types and modifiers given are modified")
            ctx.eq(sorted(r["res"] for r in got["out"]),
                   ["RuntimeError"] * (len(jobs) - 1) + ["ok"],
                   "outcomes of initialisations by several threads")

        add({"op": "threads", "jobs": jobs}, one)
    use()
    again()
    use()
    if rng.random() < 0.5:
        again()
        use()
    ctx.case_key(first, init, [open(f).read() for f, _ in heads], steps)
    ctx.kind("history", "%s/%s" % (first, [s["op"] for s in steps]))
    ctx.sample = {"history": [{k: v for k, v in s.items() if k != "lib"}
                              for s in steps][:6],
                  "header": open(heads[0][0]).read()[:800]}
    for got, check in zip(run(ctx, steps), oracle):
        check(got)


def wide(n, bodies=True):
    """The functions of a type of two words."""
    k = "unsigned___int64"
    lines = ["typedef %s alias_%s, *ptr_%s;" % (n, k, k),
             "struct s_%s { char c; %s a; char d; %s b[2]; };" % (k, n, n)]
    fns = [("int size_%s(void)" % k, "return sizeof(struct s_%s);" % k),
           ("%s id_%s(%s a)" % (n, k, n), "return a;"),
           ("%s *at_%s(%s *p)" % (n, k, n), "static %s v; v = *p; return &v;" % n),
           ("%s cb_%s(%s (*f)(%s x), %s a)" % (n, k, n, n, n), "return f(a);")]
    lines += ["%s { %s }" % f if bodies else f[0] + ";" for f in fns]
    return "\n".join(lines) + "\n"
