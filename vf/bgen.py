"""What the C types are in memory: reference ctypes for the trees of cgen."""

import ctypes as ct
import struct

from . import cgen
from .cgen import Arr, Base, Fn, Ptr

#: spelling -> ctypes type of the same size and values
SCALARS = {
    "bool": ct.c_bool, "char": ct.c_char, "unsigned char": ct.c_ubyte,
    "float": ct.c_float, "double": ct.c_double,
    "int8_t": ct.c_int8, "uint8_t": ct.c_uint8, "int16_t": ct.c_int16,
    "uint16_t": ct.c_uint16, "int32_t": ct.c_int32, "uint32_t": ct.c_uint32,
    "int64_t": ct.c_int64, "uint64_t": ct.c_uint64, "size_t": ct.c_size_t,
    "ssize_t": ct.c_ssize_t, "wchar_t": ct.c_wchar, "time_t": ct.c_int64,
    "long double": ct.c_longdouble,
}  # fmt: skip
_SIZES = {"short": (ct.c_short, ct.c_ushort), "": (ct.c_int, ct.c_uint),
          "long": (ct.c_long, ct.c_ulong), "long long": (ct.c_longlong, ct.c_ulonglong)}
for _size, (_s, _u) in _SIZES.items():
    for _int in ("", " int"):
        for _pat in ("{}", "signed {}", "unsigned {}", "{} unsigned", "{} signed"):
            if _size == "" and _pat.startswith("{} "):
                continue
            _n = " ".join((_pat.format(_size) + _int).split())
            if _n:
                SCALARS[_n] = _u if "unsigned" in _n else _s

# Any order of the words
SCALARS.update({
    "signed char": ct.c_byte, "char signed": ct.c_byte, "char unsigned": ct.c_ubyte,
    "int unsigned": ct.c_uint, "int signed": ct.c_int, "int long": ct.c_long,
    "int short": ct.c_short, "unsigned int long": ct.c_ulong,
    "int long unsigned": ct.c_ulong, "int short unsigned": ct.c_ushort,
    "long unsigned long": ct.c_ulonglong, "long int long": ct.c_longlong,
    "long int unsigned long": ct.c_ulonglong, "double long": ct.c_longdouble,
})  # fmt: skip

INTEGERS = sorted(
    n for n, c in SCALARS.items()
    if issubclass(c, ct._SimpleCData) and c._type_ in "bBhHiIlLqQ"
)
NUMERIC = INTEGERS + ["float", "double"]
ALL = sorted(SCALARS)

SPECIAL = {"char": ct.c_char_p, "void": ct.c_void_p, "wchar_t": ct.c_wchar_p}


def ref(t, env):
    """The ctypes type of a type tree; env: other names -> ctypes type."""
    if isinstance(t, Base):
        if t.spec in env:
            return env[t.spec]
        return None if t.spec == "void" else SCALARS[t.spec]
    if isinstance(t, Arr):
        return ref(t.of, env) * t.n
    assert isinstance(t, Ptr)
    if isinstance(t.to, Fn):
        ps = [param(p, env) for _, p in t.to.params or ()]
        return ct.CFUNCTYPE(ref(t.to.ret, env), *ps)
    if isinstance(t.to, Base) and t.to.spec in SPECIAL:
        return SPECIAL[t.to.spec]
    return ct.POINTER(ref(t.to, env))


def param(t, env):
    return ct.POINTER(ref(t.of, env)) if isinstance(t, Arr) else ref(t, env)


def limits(c):
    """(min, max) of a ctypes integer type."""
    bits = 8 * ct.sizeof(c)
    if c._type_ in "bhilq":
        return -(1 << (bits - 1)), (1 << (bits - 1)) - 1
    return 0, (1 << bits) - 1


def value(rng, c):
    """A Python value a ctypes scalar holds exactly."""
    k = c._type_
    if k == "?":
        return rng.random() < 0.5
    if k == "c":
        return bytes([rng.choice([0, 1, 65, 127, 128, 255, rng.randrange(256)])])
    if k == "u":
        return rng.choice(["a", "\xe9", "\u20ac", "\U0001f600", "\0", "\uffff"])
    if k in "fdg":
        v = rng.choice([0.0, -0.0, 1.5, -2.25, 1e30, -1e-30, rng.uniform(-1e6, 1e6),
                        float("inf"), 3.4028234663852886e38])
        return struct.unpack("f", struct.pack("f", v))[0] if k == "f" else v
    lo, hi = limits(c)
    return rng.choice([lo, hi, 0, 1, lo + 1, hi - 1, hi // 2 + 1, rng.randint(lo, hi),
                       max(lo, -1)])


def same(a, b):
    """Equal, the sign of zero included."""
    if isinstance(a, float) and isinstance(b, float):
        return a == b and str(a) == str(b)
    return a == b


def bytes_of(obj):
    return bytes(ct.string_at(ct.addressof(obj), ct.sizeof(obj)))


def fields(c):
    return getattr(c, "_fields_", ())


def equivalent(a, b, seen=None):
    """Two ctypes types of the same structure."""
    seen = seen or set()
    if a is b or (a, b) in seen:
        return True
    if a is None or b is None:
        return False
    seen.add((a, b))
    for kind in (ct.Structure, ct.Union):
        if issubclass(a, kind):
            return (
                issubclass(b, kind)
                and ct.sizeof(a) == ct.sizeof(b)
                and len(fields(a)) == len(fields(b))
                and all(
                    getattr(a, x[0]).offset == getattr(b, y[0]).offset
                    and getattr(a, x[0]).size == getattr(b, y[0]).size
                    and equivalent(x[1], y[1], seen)
                    for x, y in zip(fields(a), fields(b))
                )
            )
    if issubclass(a, ct.Array):
        return (issubclass(b, ct.Array) and a._length_ == b._length_
                and ct.sizeof(a) == ct.sizeof(b)
                and equivalent(a._type_, b._type_, seen))
    if issubclass(a, ct._Pointer):
        return issubclass(b, ct._Pointer) and equivalent(a._type_, b._type_, seen)
    if issubclass(a, ct._CFuncPtr):
        return (
            issubclass(b, ct._CFuncPtr)
            and equivalent(a._restype_, b._restype_, seen)
            and len(a._argtypes_) == len(b._argtypes_)
            and all(equivalent(x, y, seen) for x, y in zip(a._argtypes_, b._argtypes_))
        )
    if issubclass(a, ct._SimpleCData) and issubclass(b, ct._SimpleCData):
        x, y = a._type_, b._type_
        same_ints = "ilq" if x in "ilq" else "ILQ"
        return x == y or (x in same_ints and y in same_ints
                          and ct.sizeof(a) == ct.sizeof(b))
    return False


HEADER_TYPES = cgen.C_PRELUDE
