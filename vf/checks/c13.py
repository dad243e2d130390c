"""C13: several files compose, and each definition belongs to its file."""

import os
import re

from ..hgen import Header
from ..sut import KINDS, CParser, diff, freeze, ready

RULE = (
    "A case is a random header cut at random places into 1 to 5 files (later files use "
    "macros, constants and types of the earlier ones, undefine and redefine some). "
    "Oracle: the overall definitions must be those of the single file; the definitions "
    "by file must be disjointly those each file holds (each generated name is looked "
    "for), their union must be the overall ones; find() with names and patterns must "
    "list exactly the entries of the definitions by file; find_text must list the lines. "
    "Non-trivial: at least two files. Distinct: by the texts."
)
CASES = {"quick": 320, "thorough": 4000}
REQUIRE = {"files": 700, "names attributed": 2000, "find by name": 1000,
           "find by pattern": 300, "redefined": 100, "written alike": 500,
           "constants of other files": 40}
ASSUMPTIONS = ["file names are distinct (listed finding same-base-name)",
               "files are cut between declarations and outside conditional sections"]

NAMES = ["a.h", "b.h", "defs.h", "types_1.h", "x.hpp", "noext", "z-z.h", "Upper.H"]


SAME = [
    ("#define SAME_M 6", [("macros", "SAME_M"), ("values", "SAME_M")]),
    ("#define SAME_F(x) (x + 1)", [("fnmacros", "SAME_F")]),
    ("#define SAME_T int", [("macros", "SAME_T"), ("values", "SAME_T")]),
    ("enum same_e { SAME_A, SAME_B = 5 };",
     [("enums", "same_e"), ("values", "SAME_B"), ("types", "enum same_e")]),
    ("struct same_s { int a; };", [("structs", "same_s"), ("types", "struct same_s")]),
    ("union same_u { int a; char b; };", [("unions", "same_u"), ("types", "union same_u")]),
    ("typedef unsigned same_t;", [("types", "same_t")]),
    ("extern long same_v;", [("variables", "same_v"), ("values", "same_v")]),
    ("static int same_w = 4;", [("variables", "same_w"), ("values", "same_w")]),
    ("int same_f(int a);", [("functions", "same_f")]),
]


def case(ctx):
    ready()
    rng = ctx.rng
    h = Header(rng, n=rng.randint(6, 16))
    # Group the items which may not be separated.
    groups, depth, packed = [[]], 0, False
    for it in h.items:
        groups[-1].append(it)
        if it.startswith("#if"):
            depth += 1
        elif it.startswith("#endif"):
            depth -= 1
        elif it.startswith("#pragma pack(push"):
            packed = True
        elif it.startswith("#pragma pack(pop"):
            packed = False
        if depth == 0 and not packed:
            groups.append([])
    groups = [g for g in groups if g]
    # Something redefined later on, in another file perhaps.
    again = None
    if rng.random() < 0.5:
        again = "re_def"
        i = rng.randint(0, len(groups))
        groups.insert(i, ["#define RE_DEF 1", "typedef int re_def;", "extern int re_v[RE_DEF];"])
        j = rng.randint(i + 1, len(groups))
        groups.insert(j, ["#undef RE_DEF", "#define RE_DEF 2", "typedef long re_def;",
                          "extern int re_v[RE_DEF];"])
        # Likewise what has a tag, alike or not.
        tagged, final = [], {}
        for kd, n, bodies in (
            ("enums", "re_e", ["RE_A = 1, RE_B", "RE_A = 7, RE_B, RE_C", "RE_A = 1, RE_B"]),
            ("structs", "re_s", ["int a;", "int a; char b[RE_DEF];", "long a; int a2;"]),
            ("unions", "re_u", ["int a;", "int a;", "re_def a; char *b;"]),
            ("functions", "re_f", ["int", "int", "re_def x, int y"]),
        ):
            tagged.append((kd, n))
            second = rng.choice(bodies)
            final[n] = second
            for k, body in ((j, second), (i, bodies[0])):
                groups[k].append(
                    "void re_f(%s);" % body if kd == "functions"
                    else "%s %s { %s };" % (kd[:-1], n, body))
        if rng.random() < 0.3:
            groups[i].insert(0, "enum re_e *re_p1(struct re_s *, union re_u *);")
        ctx.saw("redefined")
    # A macro which needs a constant of a previous file
    top = None
    if rng.random() < 0.5:
        top = rng.choice(["enum top_e { TOP_BASE = 16 };", "static const int TOP_BASE = 16;",
                          "typedef enum { TOP_NO = 15, TOP_BASE } top_t;"])
        i = rng.randint(0, len(groups))
        groups.insert(i, [top])
        j = rng.randint(i + 1, len(groups))
        groups.insert(j, ["#define TOP (TOP_BASE * 2)", "extern char top_v[TOP + 1];"])
    # What is written alike in several files belongs to each of them
    same = []
    if rng.random() < 0.5:
        same = rng.sample(SAME, rng.randint(3, len(SAME)))
        for _ in range(rng.randint(2, 4)):
            groups.insert(rng.randint(0, len(groups)), [s for s, _ in same])
    k = rng.choice([1, 2, 2, 3, 3, 4, 5])
    cuts = sorted(rng.randint(0, len(groups)) for _ in range(k - 1))
    parts = [groups[a:b] for a, b in zip([0, *cuts], [*cuts, len(groups)])]
    fnames = rng.sample(NAMES, len(parts))
    paths, texts = [], {}
    for n, part in zip(fnames, parts):
        text = "".join(it + "\n" for g in part for it in g)
        if rng.random() < 0.2:
            text = text.rstrip("\n")
        texts[n] = text
        d = rng.choice(["", "sub", "sub/deep"])
        paths.append(ctx.write(os.path.join(d, n), text))
        ctx.saw("files")
    whole = "".join(it + "\n" for g in groups for it in g)
    one = CParser(ctx.write("whole.h", whole))
    arg = paths if len(paths) > 1 or rng.random() < 0.5 else paths[0]
    if isinstance(arg, list) and rng.random() < 0.3:
        arg = tuple(arg)
    p = CParser(arg)
    a, b = dict(p.defs), dict(one.defs)
    # A macro naming an enumerator only has a value in the next files (listed
    # finding macro-of-enumerator of C04).
    none = [n for n in b["macros"] if b["values"][n] is None]
    for x in (a, b):
        x["values"] = {n: v for n, v in x["values"].items() if n not in none}
    d = diff(a, b)
    ctx.true(not d, "several files are not like a single one", diff=d[:5], files=fnames)
    # By file
    by = p.file_defs
    ctx.true(set(by) <= set(fnames), "unknown files", got=sorted(map(str, by)))
    union = {kd: {} for kd in KINDS}
    for n in fnames:
        for kd in KINDS:
            union[kd].update(by.get(n, {}).get(kd, {}))
    d = diff(union, p.defs)
    ctx.true(not d, "the definitions by file do not make the whole", diff=d[:5])
    for s, names in same:
        ctx.saw("written alike")
        for kd, n in names:
            held = [by.get(f, {}).get(kd, {}).get(n, "missing") for f in fnames
                    if s in texts[f]]
            ctx.true(all(freeze(x) == freeze(p.defs[kd].get(n)) for x in held),
                     "what several files define alike is not held by each", kind=kd, name=n,
                     got=held)
    for kd, n in h.defined:
        ctx.saw("names attributed")
        holders = [f for f in fnames if re.search(r"\b%s\b" % n, re.sub(
            r"#undef.*", "", texts[f]))]
        got = [f for f in fnames if n in by.get(f, {}).get(kd, {})]
        ctx.true(len(got) == 1, "%s %s is in the files %s" % (kd, n, got))
        ctx.true(got[0] in holders, "%s %s is not in %s" % (kd, n, got), holders=holders)
        # The first file with the name is the one which defines it, tags mentioned
        # ahead excepted.
        if kd not in ("structs", "unions", "enums"):
            ctx.eq(got[0], holders[0], "file of %s %s" % (kd, n))
    if again:
        where = [f for f in fnames if "re_def" in texts[f]]
        for kd, n in (("types", "re_def"), ("variables", "re_v"), ("macros", "RE_DEF")):
            got = [f for f in fnames if n in by.get(f, {}).get(kd, {})]
            ctx.eq(got, where if kd != "macros" else where[-1:], "files of %s" % n)
            ctx.eq(freeze(by[got[-1]][kd][n]), freeze(p.defs[kd][n]), "last " + n)
        for kd, n in tagged:
            got = [f for f in fnames if n in by.get(f, {}).get(kd, {})]
            ctx.eq(got, where, "files of %s %s" % (kd, n))
            ctx.eq(freeze(by[got[-1]][kd][n]), freeze(p.defs[kd][n]), "last " + n)
        last = [f for f in fnames if "RE_A" in by.get(f, {}).get("values", {})]
        ctx.eq(last, where, "files of RE_A")
        ctx.eq(sorted(p.defs["enums"]["re_e"]), re.findall(r"RE_[A-Z]", final["re_e"]), "re_e")
        for kd in ("structs", "unions"):
            n = "re_" + kd[0]
            ctx.eq([m[0] for m in p.defs[kd][n]["members"]],
                   re.findall(r"(\w+)(?:\[\w+\])?;", final[n]), n)
        ctx.eq(p.defs["values"]["RE_A"], p.defs["enums"]["re_e"]["RE_A"], "value of RE_A")
    if top:
        ctx.eq(p.defs["variables"]["top_v"][1], ("char", [33]), "size which needs another file")
        where = [[f for f in fnames if x in texts[f]] for x in (top, "#define TOP (")]
        if where[0] != where[1]:
            ctx.saw("constants of other files")
            ctx.eq(p.defs["values"]["TOP"], 32, "macro which needs a constant of another file")
    # Searching
    entries = [(f, kd, n) for f in by for kd in by[f] for n in by[f][kd]]
    probe = [n for _, n in h.defined] + ["re_def", "nothing_such", "M_", "x"]
    for n in rng.sample(probe, min(6, len(probe))):
        ctx.saw("find by name")
        ctx.eq(sorted(p.find(n)), sorted((f, kd) for f, kd, m in entries if m == n),
               "find(%r)" % n)
    for pat in rng.sample([r"M_", r".*e", r"[Tt]_\w+$", r"(E_|f_).", r"zzz", r"st_|un_",
                           r"\w*[0-9]$"], 2):  # fmt: skip
        ctx.saw("find by pattern")
        ctx.eq(
            sorted(p.find(re.compile(pat))),
            sorted((f, kd, m) for f, kd, m in entries if re.match(pat, m)),
            "find(%r)" % pat,
        )
    # Files read once the others are known (each time, unnamed structures and enums get
    # other names)
    if len(parts) > 1 and not any(n.startswith("anon_") for kd in (
            "structs", "unions", "enums") for n in p.defs[kd]):
        ctx.saw("files read later")
        q = CParser(paths[0])
        for f in paths[1:]:
            q.load_file(f)
            if f == paths[-1] or rng.random() < 0.5:
                q.process_all()
        d = diff(q.defs, p.defs)
        ctx.true(not d, "files read later are not like files read at once", diff=d[:5],
                 files=fnames)
        for n in fnames:
            d = diff(q.file_defs.get(n, {}), by.get(n, {}))
            ctx.true(not d, "definitions of a file, some being read later", file=n, diff=d[:5])
    if len(parts) > 1:
        ctx.case_key(*[texts[f] for f in fnames])
