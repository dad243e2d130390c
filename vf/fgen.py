"""Random C functions which record what they are given.

Each function k of the generated library, when called, adds one to CALLS[k] and
writes its arguments at the start of LOG, one after the other, as plain bytes.
What it returns is read from the variable RET_k. A pointer is recorded as its
address followed by what it points to (zeroes if NULL).
"""

import ctypes as ct

from . import bgen
from .cgen import C_PRELUDE, Names
from .core import gcc_lib

PREFIX = (
    C_PRELUDE
    + """#include <string.h>
#define __cdecl
#define __stdcall
long CALLS[64];
unsigned char LOG[8192];
static long at;
static void put(const void *p, long n) { memcpy(LOG + at, p, n); at += n; }
static void zero(long n) { memset(LOG + at, 0, n); at += n; }
static void text(const char *s) {
  long n = s ? strlen(s) : -1; put(&n, sizeof n); if (s) put(s, n); }
static void wtext(const wchar_t *s) {
  long n = s ? wcslen(s) : -1; put(&n, sizeof n); if (s) put(s, n * sizeof *s); }
"""
)


class Param:
    """kind: scalar, ptr (to count scalars), arr, string, wstring, void, struct, sptr."""

    def __init__(self, kind, name, base=None, ctype=None, count=1, quals="", rec=None):
        self.kind, self.name, self.base, self.ctype = kind, name, base, ctype
        self.count, self.quals, self.rec = count, quals, rec
        self.ref = False  # a reference, in C++

    def declare(self, name=None):
        name = self.name if name is None else name
        q = self.quals + " " if self.quals else ""
        if self.kind == "scalar":
            return "%s%s %s" % (q, self.base, name)
        if self.kind == "ptr":
            return "%s%s *%s" % (q, self.base, name)
        if self.kind == "arr":
            return "%s%s %s[%d]" % (q, self.base, name, self.count)
        if self.kind == "open":
            return "%s%s %s[]" % (q, self.base, name)
        if self.kind == "string":
            return "%schar *%s" % (q, name)
        if self.kind == "wstring":
            return "%swchar_t *%s" % (q, name)
        if self.kind == "void":
            return "%svoid *%s" % (q, name)
        if self.kind == "handle":
            return "%s%s %s" % (q, self.base, name)
        if self.kind == "struct":
            return "%s %s" % (self.rec.name, name)
        return "%s%s *%s" % (q, self.rec.name, name)

    def log(self, n):
        """C statements which record the argument."""
        if self.kind == "scalar" and self.ctype is ct.c_longdouble:
            # The rest is padding
            return "put(&%s, 10);" % n
        if self.kind == "scalar":
            return "put(&%s, sizeof %s);" % (n, n)
        if self.kind in ("ptr", "arr", "open"):
            return (
                "put(&{0}, sizeof {0}); if ({0}) put((void *){0}, {1} * sizeof *{0}); "
                "else zero({1} * sizeof *{0});"
            ).format(n, self.count)
        if self.kind == "string":
            return "text(%s);" % n
        if self.kind == "wstring":
            return "wtext(%s);" % n
        if self.kind in ("void", "handle"):
            return "put(&%s, sizeof %s);" % (n, n)
        if self.kind == "struct":
            return " ".join(
                "put((void *)&%s.%s, sizeof %s.%s);" % (n, m, n, m)
                for m, _, _ in self.rec.members
            )
        return "put(&%s, sizeof %s); if (%s) { %s } else { %s }" % (
            n, n, n,
            " ".join("put((void *)&%s->%s, sizeof %s->%s);" % (n, m, n, m)
                     for m, _, _ in self.rec.members),
            " ".join("zero(sizeof %s->%s);" % (n, m) for m, _, _ in self.rec.members),
        )


class Rec:
    """A structure of scalars and arrays of scalars."""

    def __init__(self, name, members, text):
        #: members: (name, scalar type, count or None)
        self.name, self.members, self.text = name, members, text

    def passable(self):
        """Whether libffi can pass it by value: an integer eightbyte followed by one of
        floats, in the last integer register, spoils the first float argument."""

        class mirror(ct.Structure):
            _fields_ = [(m, c if n is None else c * n) for m, c, n in self.members]

        if not 8 < ct.sizeof(mirror) <= 16:
            return True
        ints = [False, False]
        for m, c, n in self.members:
            for i in range(n or 1):
                if c._type_ not in "fd":
                    ints[(getattr(mirror, m).offset + i * ct.sizeof(c)) // 8] = True
        return not (ints[0] and not ints[1])

    def fill(self, rng, obj):
        """Random values in the members; returns them."""
        res = {}
        for m, c, n in self.members:
            if n is None:
                res[m] = bgen.value(rng, c)
                setattr(obj, m, res[m])
            else:
                res[m] = [bgen.value(rng, c) for _ in range(n)]
                for i, v in enumerate(res[m]):
                    getattr(obj, m)[i] = v
        return res

    def data(self, values):
        """The bytes recorded for such a structure."""
        out = b""
        for m, c, n in self.members:
            vs = [values[m]] if n is None else values[m]
            for v in vs:
                out += bytes(c(v))
        return out

    def read(self, obj):
        return {
            m: getattr(obj, m) if n is None else list(getattr(obj, m))
            for m, c, n in self.members
        }


class Func:
    def __init__(self, k, name, params, ret, unnamed=False, conv=""):
        #: ret: None or a Param
        self.k, self.name, self.params, self.ret = k, name, params, ret
        self.unnamed, self.conv = unnamed, conv
        #: number of the last parameters which have a default value in C++
        self.defaults = 0

    def prototype(self, cpp=False):
        ps = ", ".join(
            p.declare("" if self.unnamed else None).replace("*", "&" if cpp and p.ref else "*")
            + (" = 7" if p.kind == "scalar" else " = 0")
            * (cpp and i >= len(self.params) - self.defaults)
            for i, p in enumerate(self.params)
        ) or ("void" if self.k % 2 else "")
        r = "void %s" if self.ret is None else self.ret.declare("%s")
        conv = self.conv + " " if self.conv else ""
        return r % ("%s%s(%s)" % (conv, self.name, ps))

    def definition(self, body=""):
        names = ["a%d_" % i for i in range(len(self.params))]
        ps = ", ".join(p.declare(n) for p, n in zip(self.params, names)) or "void"
        out = ["CALLS[%d]++; at = 0; memset(LOG, 0, 512);" % self.k]
        out += [p.log(n) for p, n in zip(self.params, names)]
        glob = ""
        if self.ret is not None:
            out.append("return RET_%d;" % self.k)
            glob = self.ret.declare("RET_%d" % self.k).replace("const ", "").replace(
                "volatile ", "") + ";\n"
        r = "void %s" if self.ret is None else self.ret.declare("%s")
        return "%s%s\n{ %s %s %s }" % (
            glob, r % ("%s(%s)" % (self.name, ps)), out[0], body, " ".join(out[1:]),
        )


class FuncGen:
    """Random functions and the types they use."""

    def __init__(self, ctx, scalars=None, late=True):
        self.ctx, self.rng = ctx, ctx.rng
        self.names = Names(ctx.rng)
        self.scalars = scalars or [
            s for s in bgen.ALL if bgen.SCALARS[s] is not ct.c_longdouble
        ]
        self.lines = []
        self.types = []  # (name, ctypes scalar)
        self.recs = []
        self.funcs = []
        self.late = late
        #: structures and unions never defined: (dictionary, tag, names of it, of pointers)
        self.opaques = []
        self.tail = []  # what the header ends with

    def prepare(self):
        rng = self.rng
        for _ in range(rng.randint(0, 4)):
            n = self.names.new("T_")
            r = rng.random()
            if r < 0.3:
                e = self.names.new("E_")
                self.lines.append("typedef enum { %s = -3, %s_b, %s_c = 1000 } %s;" % (e, e, e, n))
                self.types.append((n, ct.c_int))
            elif r < 0.4:
                t = self.names.new("en_")
                e = self.names.new("E_")
                self.lines.append("enum %s { %s };" % (t, e))
                self.types.append(("enum " + t, ct.c_int))
            else:
                b, c = self.scalar()
                self.lines.append("typedef %s %s;" % (b, n))
                self.types.append((n, c))
        for _ in range(rng.randint(1, 3)):
            self.record()
        for _ in range(rng.randint(0, 2)):
            self.opaque()

    def opaque(self):
        rng = self.rng
        kw, tag = rng.choice(["struct", "struct", "union"]), self.names.new("op_")
        full = "%s %s" % (kw, tag)
        names, ptrs = [full], [full + " *"]
        r = rng.random()
        if r < 0.3:
            names.append(self.names.new("T_"))
            self.lines.append("typedef %s %s;" % (full, names[1]))
            ptrs.append(names[1] + " *")
        elif r < 0.6:
            ptrs.append(self.names.new("T_"))
            self.lines.append("typedef %s *%s;" % (full, ptrs[1]))
        elif r < 0.8:
            self.lines.append(full + ";")
        else:
            # First seen in a function
            self.lines.append("%s *%s(void);" % (full, self.names.new("f_")))
        self.opaques.append((kw + "s", tag, names, ptrs))

    def record(self):
        rng = self.rng
        own = Names(rng)
        ms, out = [], []
        for _ in range(rng.randint(1, 5)):
            b, c = self.scalar()
            m = "value" if rng.random() < 0.1 and "value" not in own.taken else own.new()
            own.taken.add(m)
            n = rng.randint(1, 4) if rng.random() < 0.25 else None
            if n and c in (ct.c_char, ct.c_wchar):
                n = None
            ms.append((m, c, n))
            out.append("%s %s%s;" % (b, m, "[%d]" % n if n else ""))
        tag = self.names.new("st_")
        if self.late and rng.random() < 0.2:
            # Defined after its uses
            name, first = "struct " + tag, "struct %s;" % tag
            if rng.random() < 0.5:
                td = self.names.new("T_")
                first = "typedef struct %s %s;" % (tag, td)
                name = rng.choice([td, name])
            text = "struct %s { %s };" % (tag, " ".join(out))
            self.recs.append(Rec(name, ms, text))
            self.lines.append(first)
            self.tail.append(text)
            return
        if rng.random() < 0.5:
            td = self.names.new("T_")
            text = "typedef struct %s { %s } %s;" % (tag, " ".join(out), td)
            name = rng.choice([td, "struct " + tag])
        else:
            name = "struct " + tag
            text = "%s { %s };" % (name, " ".join(out))
        self.recs.append(Rec(name, ms, text))
        self.lines.append(text)

    def scalar(self):
        if self.types and self.rng.random() < 0.25:
            return self.rng.choice(self.types)
        b = self.rng.choice(self.scalars)
        return b, bgen.SCALARS[b]

    def param(self, name, kinds):
        rng = self.rng
        kind = rng.choice(kinds)
        q = rng.choice(["", "", "", "const", "volatile"])
        b, c = self.scalar()
        if kind == "scalar" and rng.random() < 0.05 and "double" in self.scalars:
            b, c = "long double", ct.c_longdouble
        if kind in ("ptr", "arr", "open"):
            while c in (ct.c_char, ct.c_wchar):
                b, c = self.scalar()
        rec = rng.choice(self.recs) if self.recs else None
        if kind in ("struct", "sptr") and rec is None:
            kind = "scalar"
        if kind == "struct" and not rec.passable():
            kind = "sptr"
        n = rng.randint(1, 4) if kind in ("ptr", "arr", "open") else 1
        if kind == "handle" and not self.opaques:
            kind = "void"
        if kind == "handle":
            rec = rng.choice(self.opaques)
            b = rng.choice(rec[3])
        return Param(kind, name, b, c, n, q, rec)

    def function(self, kinds, rets, n=None, names=None, unnamed=False):
        """names: words to choose the names of the parameters from."""
        rng = self.rng
        own = Names(rng)
        words = list(names or ())
        own.taken.update(words)
        rng.shuffle(words)
        if n is None:
            n = rng.choice([0, 1, 1, 2, 2, 3, 4, 6, 9])
        ps = []
        for _ in range(n):
            pn = words.pop() if words and rng.random() < 0.8 else own.new()
            if ps and names and rng.random() < 0.2:
                # Only the case differs
                other = rng.choice(ps).name
                other = other.upper() if other.upper() != other else "x" + other
                if other not in [p.name for p in ps]:
                    pn = other
            ps.append(self.param(pn, kinds))
        ret = None
        if rng.random() < 0.85:
            ret = self.param("", rets)
            ret.quals = ""
        f = Func(len(self.funcs), self.names.new("f_"), ps, ret,
                 unnamed, conv=rng.choice(["", "", "", "__cdecl"]) if ret is None or
                 ret.kind in ("scalar", "struct") else "")
        self.funcs.append(f)
        self.lines.append(rng.choice(["", "", "extern "]) + f.prototype() + ";")
        return f

    def header(self):
        return "\n".join(self.lines + self.tail) + "\n"

    def cpp_header(self):
        """The header, with the default values of the parameters."""
        protos = {f.prototype() + ";": f.prototype(cpp=True) + ";" for f in self.funcs}
        return "\n".join(
            ("extern " if line.startswith("extern ") else "")
            + protos.get(line.removeprefix("extern "), line.removeprefix("extern "))
            for line in self.lines + self.tail
        ) + "\n"

    def build(self, bodies=None, flags=()):
        """Write the header and compile the library: (header path, library path)."""
        path = self.ctx.write("h.h", self.header())
        src = [PREFIX, '#include "h.h"']
        src += [f.definition((bodies or {}).get(f.name, "")) for f in self.funcs]
        so = gcc_lib(self.ctx, "\n".join(src) + "\n", "fn",
                     ["-I" + self.ctx.dir, *flags])
        return path, so


class Watch:
    """Reads what the functions of a library recorded."""

    def __init__(self, so):
        self.raw = ct.CDLL(so)
        self.calls = (ct.c_long * 64).in_dll(self.raw, "CALLS")
        self.log = (ct.c_ubyte * 8192).in_dll(self.raw, "LOG")

    def counts(self):
        return list(self.calls)

    def read(self, n):
        return bytes(self.log[:n])

    def ret(self, f, ctype):
        return ctype.in_dll(self.raw, "RET_%d" % f.k)
