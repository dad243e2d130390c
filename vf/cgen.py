"""A model of C types: how they are written, and how they must be understood.

A type is a tree, from the outside in: Ptr(Arr(Base)) is a pointer to an array.
The same tree gives the C text of a declaration and the definition expected
from the parser.
"""

import re

from .sut import Type


class Base:
    def __init__(self, spec, pre=(), post=()):
        self.spec, self.pre, self.post = spec, tuple(pre), tuple(post)

    def __repr__(self):
        return "Base(%r)" % self.spec


class Ptr:
    """conv is the calling convention of the function pointed to."""

    sym = "*"

    def __init__(self, to, quals=(), conv=None):
        self.to, self.quals, self.conv = to, tuple(quals), conv

    def __repr__(self):
        return "Ptr(%r)" % self.to


class Ref(Ptr):
    """A C++ reference."""

    sym = "&"


#: The size of an array whose text cannot be evaluated
UNKNOWN = "unknown"


class Arr:
    """n is an int or None ([]); text is how the size is written."""

    def __init__(self, of, n, text=None):
        self.of, self.n = of, n
        self.text = text if text is not None else ("" if n is None else str(n))

    def __repr__(self):
        return "Arr(%r, %r)" % (self.of, self.n)


class Fn:
    """params: [(name or None, type)]; None for '()', [] for '(void)'.

    defaults: {index of the parameter: text of its default value} (C++)"""

    def __init__(self, ret, params, defaults=None):
        self.ret, self.params, self.defaults = ret, params, defaults or {}

    def __repr__(self):
        return "Fn(%r, %r)" % (self.ret, self.params)


def base_of(t):
    while not isinstance(t, Base):
        t = t.to if isinstance(t, Ptr) else t.of if isinstance(t, Arr) else t.ret
    return t


def declarator(t, name):
    """The declarator part: what goes after the base type."""
    s = name or ""
    prev = None
    while not isinstance(t, Base):
        if isinstance(t, Ptr):
            q = "".join(" %s " % q for q in t.quals)
            s = ("%s %s" % (t.conv, t.sym) if t.conv else t.sym) + q + s
            prev = "ptr"
            t = t.to
        else:
            if prev == "ptr":
                s = "(" + s + ")"
            prev = None
            if isinstance(t, Arr):
                s = "%s[%s]" % (s, t.text)
                t = t.of
            else:
                s = "%s(%s)" % (s, params(t))
                t = t.ret
    return s


def params(t):
    if t.params is None:
        return ""
    if not t.params:
        return "void"
    return ", ".join(
        declare(pt, pn) + (" = %s" % t.defaults[i] if i in t.defaults else "")
        for i, (pn, pt) in enumerate(t.params)
    )


def spec(t):
    b = base_of(t)
    return " ".join((*b.pre, b.spec, *b.post))


def declare(t, name):
    """The C declaration of name with type t, without the ';'."""
    return ("%s %s" % (spec(t), declarator(t, name))).strip()


def real(quals):
    """The qualifiers, without the words specific to a compiler."""
    return tuple(q for q in quals if not q.startswith("__"))


def _levels(t):
    if isinstance(t, Base):
        return [], [real(t.pre + t.post)]
    if isinstance(t, Ptr):
        d, q = _levels(t.to)
        if t.conv:
            d, q = d + [t.conv], q + [()]
        return d + [t.sym], q + [real(t.quals)]
    if isinstance(t, Arr):
        # Consecutive dimensions are listed as they are written.
        d, q = _levels(t.of)
        i = len(d)
        inner = t.of
        while isinstance(inner, Arr):
            i -= 1
            inner = inner.of
        n = -1 if t.n is None else None if t.n is UNKNOWN else t.n
        return d[:i] + [[n]] + d[i:], q[: i + 1] + [()] + q[i + 1 :]
    d, q = _levels(t.ret)
    if t.params is None:
        p = ()
    elif not t.params:
        p = ((None, Type("void"), None),)
    else:
        # (a C++ function may have default values)
        p = tuple((pn, expected(pt), t.defaults.get(i)) for i, (pn, pt) in enumerate(t.params))
    return d + [p], q + [()]


def expected(t):
    """The Type the parser must give."""
    d, q = _levels(t)
    return Type(base_of(t).spec, *d, type_quals=tuple(q))


def expected_function(t):
    """The definition expected for a function (the result is a Type itself)."""
    return Type(expected(t.ret), _levels(t)[0][-1], type_quals=((), ()))


# --- random material ----------------------------------------------------------

INTS = [
    "int", "unsigned int", "unsigned", "short", "short int", "unsigned short",
    "unsigned short int", "long", "long int", "unsigned long", "unsigned long int",
    "long long", "long long int", "unsigned long long", "unsigned long long int",
    "char", "unsigned char", "signed", "signed int", "signed short", "signed long",
    "signed long long", "short unsigned", "short unsigned int", "long unsigned",
    "long unsigned int", "long long unsigned", "long long unsigned int", "signed char",
    "short signed int", "long signed", "int unsigned",
]  # fmt: skip
# spelled in an order the library can bind
STD_INTS = [
    "int8_t", "uint8_t", "int16_t", "uint16_t", "int32_t", "uint32_t", "int64_t",
    "uint64_t", "size_t", "ssize_t",
]  # fmt: skip
FLOATS = ["float", "double"]
FUND = [s for s in INTS if s not in ("int unsigned",)] + STD_INTS + FLOATS + ["bool"]

WORDS = (
    "a b c x y z foo bar baz item count size data flags handle value left right "
    "next prev node list_head buf len idx width height intx structure unioned "
    "enumerate constant voided charset floating doubled longer shorty unsigned_v "
    "signed_x inty _p _q1 X Y_Z Camel camelCase UPPER_CASE t1 v2 w33 int_ _int "
    "externals statics inlined typedefs volatiles restricted sizes boolx "
    "intA constX longT structS typedefT volatile2 int8 long1 enum_ unionU floatV "
    "externC nearX far1 voidP charC defineX definedX"
).split()
QUALS = ["const", "volatile", "restrict"]

C_PRELUDE = """#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include <sys/types.h>
#include <time.h>
#include <wchar.h>
"""


class Names:
    """Distinct identifiers."""

    def __init__(self, rng, taken=(), dollar=0.0):
        self.rng, self.taken, self.dollar = rng, set(taken), dollar

    def new(self, prefix=""):
        if prefix != "N_" and self.rng.random() < self.dollar:
            # Compilers take $ for a letter.
            w = self.rng.choice(self.rng.choice([WORDS, ["int", "struct", "const", "enum"]]))
            prefix += self.rng.choice(["%s$", "%s$%s", "%s$$", "%s$_", "_$%s"])
            prefix = prefix.replace("%s", w)
            if prefix not in self.taken and self.rng.random() < 0.7:
                self.taken.add(prefix)
                return prefix
        for _ in range(4):
            n = prefix + self.rng.choice(WORDS)
            if n not in self.taken:
                break
        while n in self.taken:
            n = "%s%s%d" % (prefix, self.rng.choice(WORDS), self.rng.randrange(100000))
        self.taken.add(n)
        return n


def rand_quals(rng, p=0.25, ptr=False):
    res = []
    for q in QUALS:
        if q == "restrict" and not ptr:
            continue
        if rng.random() < p / 2:
            res.append(q)
    rng.shuffle(res)
    return res


class TypeGen:
    """Random derived types over some base type names."""

    def __init__(self, rng, bases=None, sizes=None, quals=0.0, abstract=0.4, fn=0.25,
                 post=True):
        self.rng = rng
        self.bases = list(bases or FUND)
        #: [(text, value)] of array sizes
        self.sizes = list(sizes or []) or None
        self.quals, self.abstract, self.fn = quals, abstract, fn
        self.post = post
        #: typedef names no function may return
        self.arrays = set()

    def base(self, void=False):
        spec = "void" if void else self.rng.choice(self.bases)
        q = rand_quals(self.rng, self.quals)
        k = self.rng.randint(0, len(q))
        if not self.post:
            k = len(q)
        return Base(spec, q[:k], q[k:])

    def size(self):
        if self.sizes and self.rng.random() < 0.5:
            return self.rng.choice(self.sizes)
        n = self.rng.choice([1, 2, 3, 4, 5, 7, 8, 16, 31, 64, 255, 1000])
        if self.rng.random() < 0.15:
            return (hex(n), n)
        return (str(n), n)

    def object(self, depth=3, where="var"):
        """A type an object may have."""
        rng = self.rng
        if depth <= 0 or rng.random() < 0.3:
            return self.base()
        r = rng.random()
        if r < 0.5:
            return self.pointer(depth)
        if r < 0.9:
            text, n = self.size()
            return Arr(self.object(depth - 1, "elem"), n, text)
        return self.base()

    def pointee(self, depth):
        rng = self.rng
        r = rng.random()
        if r < 0.15:
            return self.base(void=True)
        if r < 0.15 + self.fn and depth > 0:
            return self.function(depth - 1)
        return self.object(depth)

    def result(self, depth):
        rng = self.rng
        if rng.random() < 0.25:
            return self.base(void=True)
        if rng.random() < 0.6 or depth <= 0:
            b = self.base()
            if b.spec in self.arrays:
                b.spec = rng.choice(FUND)
            return b
        return self.pointer(depth)

    def pointer(self, depth):
        to = self.pointee(depth - 1)
        q = rand_quals(self.rng, self.quals, not isinstance(to, Fn))
        return Ptr(to, q)

    def function(self, depth=2, names=None):
        rng = self.rng
        r = rng.random()
        ret = self.result(depth)
        if r < 0.12:
            return Fn(ret, None)
        if r < 0.25:
            return Fn(ret, [])
        ps = []
        own = Names(rng)
        for _ in range(rng.choice([1, 1, 2, 2, 3, 4, 6])):
            t = self.object(depth)
            if rng.random() < 0.1:
                t = Arr(t, None)
            pn = None if rng.random() < self.abstract else own.new()
            ps.append((pn, t))
        return Fn(ret, ps)


def shape(t):
    """Structure of a type, base types and sizes left out."""
    if isinstance(t, Base):
        return "b"
    if isinstance(t, Ptr):
        return t.sym + shape(t.to)
    if isinstance(t, Arr):
        return ("[]" if t.n is None else "[n]") + shape(t.of)
    ps = (
        "?" if t.params is None
        else ",".join(shape(p) for _, p in t.params)
    )
    return "(%s)%s" % (ps, shape(t.ret))


TOKEN = re.compile(
    r"\s+|\"(?:\\.|[^\"\\])*\"|'(?:\\.|[^'\\])*'|[A-Za-z_][\w$]*"
    r"|\.?\d(?:[eE][+-]|[\w.])*"
    r"|<<|>>|<=|>=|==|!=|&&|\|\||->|."
)


def tokens(text):
    return [t for t in TOKEN.findall(text) if not t.isspace()]


def is_word(t):
    return t[0].isalnum() or t[0] in "_."


COMMENT_BODIES = [
    "", "*", " x ", " int hidden(int); ", "//", " // ", " \"quote ", " it's ", "**",
    " struct {", " } ", " ; ", " #define HIDDEN 1 ", "\n", " a\n * b\n ", " ( ", "/*",
    " é ", " \\ ", " == ",
]  # fmt: skip


def gap(rng, newlines=True, comments=True, need=True):
    """Something which separates two tokens and means nothing."""
    choices = ["", " ", " ", "  ", "\t"]
    if newlines:
        choices += ["\n", "\n\n", " \n\t"]
    s = rng.choice(choices)
    if comments and rng.random() < 0.25:
        body = rng.choice(COMMENT_BODIES)
        if not newlines:
            body = body.replace("\n", " ")
        s += "/*%s*/" % body
        if rng.random() < 0.5:
            s += rng.choice(choices)
    elif comments and newlines and rng.random() < 0.1:
        body = rng.choice([b for b in COMMENT_BODIES if "\n" not in b])
        s += "//%s\n" % body.rstrip("\\ ")
    if need and not s:
        s = " "
    return s


def relayout(rng, text, newlines=True, comments=True):
    """The same tokens, differently laid out."""
    toks = tokens(text)
    out = []
    for i, t in enumerate(toks):
        if i:
            p = toks[i - 1]
            need = (is_word(p) and is_word(t)) or (p + t in ("//", "/*", "++", "--"))
            need = need or (not is_word(p) and not is_word(t) and p not in "(){}[],;*"
                            and t not in "(){}[],;*")
            out.append(gap(rng, newlines, comments, need))
        out.append(t)
    return "".join(out)
