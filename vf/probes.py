"""One function per listed finding: true if the defect still shows."""

import os
import tempfile

from .core import run_tool
from .sut import CLibrary, CParser, ready


def parse(text, **kwargs):
    ready()
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, "h.h")
        with open(p, "w") as f:
            f.write(text)
        return CParser(p, **kwargs).defs


def pack_bare_push():
    d = parse(
        "#pragma pack(2)\n#pragma pack(push, 4)\n#pragma pack(pop)\nstruct s { int a; };\n"
    )
    return d["structs"]["s"]["pack"] != 2


def if_not_precedence():
    return "y" in parse("#if !1 == 2\nint y;\n#endif\n")["variables"]


def if_bitand_precedence():
    return "y" in parse("#if 2 & 2 == 2\nint y;\n#endif\n")["variables"]


def if_logical_value():
    return "y" not in parse("#if (2 || 0) == 1\nint y;\n#endif\n")["variables"]


def if_chained_comparison():
    return "y" not in parse("#if 3 > 2 > 0\nint y;\n#endif\n")["variables"] or (
        "y" not in parse("#if 5 > 4 == 1\nint y;\n#endif\n")["variables"]
    )


def constant_boolean_operators():
    return parse("#define A (1 && 1)\n")["values"]["A"] != 1


def macro_defined_later():
    d = parse("#define A T\n#define T int\nextern A x;\n")["variables"]
    return d["x"][1] != ("int",)


def macro_of_enumerator():
    return parse("enum { E = 4 };\n#define A (E + 1)\n")["values"]["A"] != 5


def fnmacro_no_parameter():
    return "y" not in parse("#define F() 3\nstatic int y = F();\n")["variables"] or (
        parse("#define F() 3\nstatic int y = F();\n")["variables"]["y"][0] != 3
    )


def fnmacro_several_lines():
    return (
        parse("#define F(a, b) a + b\nstatic int y = F(1,\n 2);\n")["variables"].get(
            "y", (None,)
        )[0]
        != 3
    )


def fnmacro_stringize():
    d = parse("#define S(x) #x\nstatic char *y = S(ab);\n")["variables"]
    return d.get("y", (None,))[0] != "ab"


def fnmacro_paste():
    return "ab" not in parse("#define C(x, y) x##y\nint C(a, b);\n")["variables"]


def postfix_const_list():
    d = parse("int const a, b;\n")["variables"]
    return d["b"][1].type_quals[0] != ("const",)


def cache_option_undefined():
    ready()
    with tempfile.TemporaryDirectory() as d:
        p, c = os.path.join(d, "h.h"), os.path.join(d, "h.cache")
        with open(p, "w") as f:
            f.write("#undef A\n")
        a = CParser(p, cache=c, macros={"A": "1"}).defs["macros"]
        b = CParser(p, cache=c, macros={"A": "1"}).defs["macros"]
        return a != b


def same_base_name():
    ready()
    with tempfile.TemporaryDirectory() as d:
        fs = []
        for i in "12":
            os.mkdir(os.path.join(d, i))
            fs.append(os.path.join(d, i, "h.h"))
            with open(fs[-1], "w") as f:
                f.write("int v%s;\n" % i)
        return len(CParser(fs).file_defs) < 2


def initialised_list():
    return "b" not in parse("int a = 1, b = 2;\n")["variables"]


def copied_unnamed_collide():
    ready()
    with tempfile.TemporaryDirectory() as d:
        ps = []
        for i in "12":
            f = os.path.join(d, i + ".h")
            with open(f, "w") as fd:
                fd.write("typedef struct { int m%s; } T%s;\n" % (i, i))
            ps.append(CParser(f))
        p = CParser(copy_from=ps)
        return p.eval_type(["T1"]) == p.eval_type(["T2"])


def null_sized_array():
    with tempfile.TemporaryDirectory() as d:
        with open(d + "/a.c", "w") as fd:
            fd.write("int f(int a[3]) { return a == 0; }\n")
        with open(d + "/a.h", "w") as fd:
            fd.write("int f(int a[3]);\n")
        so = d + "/liba.so"
        run_tool(["gcc", "-w", "-fPIC", "-shared", "-o", so, d + "/a.c"])
        return CLibrary(so, CParser(d + "/a.h")).f(None)() != 1


def unparsed_unnamed():
    ready()
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, "h.h")
        with open(p, "w") as f:
            f.write("typedef struct { int a; } T;\n")
        c = CParser(p)
        before = len(c.defs["structs"])
        c.process_all(return_unparsed=True)
        return len(c.defs["structs"]) != before
