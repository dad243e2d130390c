"""C14: parsers start from what they are given and share nothing."""

import copy

from .. import cgen
from ..cgen import Names, TypeGen
from ..hgen import Header
from ..sut import KINDS, CParser, diff, freeze, ready, snap, snap_files

RULE = (
    "A case keeps a pool of parsers and makes random steps: a new parser reading new "
    "text, with definitions copied from one or several of the pool, and/or given as "
    "options (macros, function macros, types, values, enums, structures, functions); "
    "the new text uses, undefines and redefines the names it was given. Oracle: the "
    "result must be the one of a parser reading all the texts in order; after each step "
    "the snapshots of all the parsers of the pool, and the objects given by the caller, "
    "must be unchanged. Non-trivial: at least one copy. Distinct: by the texts."
)
CASES = {"quick": 260, "thorough": 3000}
REQUIRE = {"copies": 300, "options": 150, "pool snapshots": 1000, "removed or redefined": 100,
           "defined by several": 200}
ASSUMPTIONS = ["macros given as options have no entry among the values (as documented "
               "they are the start state of the preprocessor)",
               "not explored: several copied parsers with unnamed structures (listed "
               "finding copied-unnamed-collide)"]


def case(ctx):
    ready()
    rng = ctx.rng
    names = Names(rng)
    pool = []  # (parser, names of its files in order, header, snapshot, by file)
    copied = False
    for step in range(rng.randint(2, 5)):
        # What it starts from
        src = []
        if pool and rng.random() < 0.8:
            src = rng.sample(pool, min(len(pool), rng.choice([1, 1, 2])))
        types, ints, macros = [], [], []
        for q in src:
            types += q["types"]
            ints += q["ints"]
            macros += q["macros"]
        h = Header(rng, n=0, names=names, types=types)
        h.ints, h.macros = list(ints), []
        kinds = (["macro"] * 3 + ["fnmacro", "enum", "struct", "struct", "union", "typedef",
                 "typedef", "variable", "function", "usemacro", "usemacro", "cond", "undef"])
        for _ in range(rng.randint(2, 7)):
            getattr(h, "add_" + rng.choice(kinds))()
        items = list(h.items)
        if rng.random() < 0.5:
            # The last one to define these is the one kept.
            ctx.saw("defined by several")
            items += rng.sample(
                ["#define TWICE %d" % step, "extern char twice_v[%d];" % (step + 1),
                 "struct twice_s { int m%d; };" % step, "enum twice_e { TW_A = %d };" % step,
                 "typedef %s twice_t;" % ("int", "long", "char", "float *", "short")[step],
                 "#define TWICE_F(x) (x + %d)" % step, "union twice_u { char m%d; };" % step,
                 "void twice_f(int y%d);" % step], rng.randint(3, 8))
        gone = []
        if macros and rng.random() < 0.5:
            # Remove or redefine what was copied.
            n = rng.choice(macros)
            ctx.saw("removed or redefined")
            gone.append(n)
            items.append("#undef " + n)
            if rng.random() < 0.5:
                items.append("#define %s 77" % n)
        opts, heads = {}, []
        if rng.random() < 0.5:
            ctx.saw("options")
            opts, heads = options(rng, names, items)
        name = "f%d.h" % step
        path = ctx.write(name, "\n".join(items) + "\n")
        given = copy.deepcopy(opts)
        src_parsers = [q["parser"] for q in src]
        kw = dict(opts)
        if src:
            copied = True
            ctx.saw("copies", len(src))
            kw["copy_from"] = src_parsers if len(src) > 1 or rng.random() < 0.5 else src_parsers[0]
        files = [path]
        p = CParser(files if rng.random() < 0.5 else path, **kw)
        ctx.eq(freeze(opts), freeze(given), "the options of the caller")
        ctx.eq(files, [path], "the list of files of the caller")
        # The same, read in order.
        allfiles = []
        for q in src:
            for f in q["files"]:
                if f not in allfiles:
                    allfiles.append(f)
        shared = len(set(sum((q["files"] for q in src), []))) != sum(len(q["files"]) for q in src)
        # The same text copied twice has no equivalent in files.
        shared = shared or any(q["shared"] for q in src)
        # Unnamed ones are given the same names by each parser (listed finding).
        anon = [n for q in src for k in ("structs", "unions", "enums")
                for n in q["parser"].defs[k] if n.startswith("anon_")]  # fmt: skip
        shared = shared or len(anon) != len(set(anon))
        if heads:
            head = ctx.write("head%d.h" % step, "\n".join(heads) + "\n")
        if not shared:
            ref_files = ([head] if heads else []) + allfiles + [path]
            ref = CParser(ref_files)
            a, b = dict(p.defs), dict(ref.defs)
            drop = set(opts.get("macros", ()))
            none = {n for n in [*b["macros"]] if b["values"].get(n) is None or
                    a["values"].get(n) is None} | drop
            for x in (a, b):
                x["values"] = {n: v for n, v in x["values"].items() if n not in none}
            d = diff(a, b)
            ctx.true(not d, "not like reading everything in order", diff=d[:4],
                     options=opts, files=ref_files)
            ctx.saw("compared with all the texts")
        for n in gone:
            has = any(("#define %s 77" % n) == it for it in items)
            ctx.eq(p.defs["macros"].get(n), "77" if has else None, "macro %s removed" % n)
        rec = {
            "parser": p,
            "files": ([head] if heads else []) + [f for f in allfiles] + [path],
            "types": types + [t for t in h.types if t not in types],
            "ints": [x for x in h.ints if x[0] not in gone],
            "macros": [n for n in h.macros if n not in gone]
            + [n for n in macros if n not in gone],
            "shared": shared,
            "snap": snap(p),
            "by": snap_files(p),
        }
        pool.append(rec)
        for i, q in enumerate(pool[:-1]):
            ctx.saw("pool snapshots")
            if snap(q["parser"]) != q["snap"]:
                ctx.fail("parser %d was changed by a later one" % i)
            ctx.eq(snap_files(q["parser"]), q["by"], "definitions by file of parser %d" % i)
    # An empty parser knows nothing of them.
    e = CParser()
    ctx.true(not any(e.defs[k] for k in KINDS), "a new parser is not empty", got=e.defs)
    # Adding to one does not reach the others.
    p = rng.choice(pool)["parser"]
    p.add_def("macros", "ONLY_HERE", "1")
    p.add_def("types", "only_here", cgen.Type("int"))
    for q in pool:
        if q["parser"] is not p:
            ctx.eq(snap(q["parser"]), q["snap"], "a parser after adding to another")
    if copied:
        ctx.case_key(*[ctx.inputs[k] for k in sorted(ctx.inputs)])


def options(rng, names, items):
    """Options, the text saying the same thing, and uses of them in items."""
    opts, heads, uses = {}, [], []
    gen = TypeGen(rng, list(cgen.FUND))
    if rng.random() < 0.7:
        n = names.new("OM_")
        v = str(rng.randint(1, 50))
        opts.setdefault("macros", {})[n] = v
        heads.append("#define %s %s" % (n, v))
        uses += ["extern int %s[%s];" % (names.new("om_"), n),
                 "#ifdef %s\nint %s(void);\n#endif" % (n, names.new("od_"))]
        if rng.random() < 0.3:
            m = names.new("OE_")
            opts["macros"][m] = ""
            heads.append("#define %s" % m)
            uses.append("%s int %s(void);" % (m, names.new("oe_")))
    if rng.random() < 0.4:
        n = names.new("OF_")
        opts["fnmacros"] = {n: ("({} + 2 * {})", [0, 0])}
        heads.append("#define %s(x) (x + 2 * x)" % n)
        uses.append("static int %s = %s(4);" % (names.new("of_"), n))
    if rng.random() < 0.6:
        n = names.new("OT_")
        t = gen.object(2)
        opts["types"] = {n: cgen.expected(t)}
        heads.append("typedef %s;" % cgen.declare(t, n))
        uses.append("extern %s *%s;" % (n, names.new("ot_")))
    if rng.random() < 0.3:
        n = names.new("ofn_")
        t = gen.function(1)
        opts["functions"] = {n: cgen.expected_function(t)}
        heads.append("%s;" % cgen.declare(t, n))
    for u in uses:
        if rng.random() < 0.8:
            items.insert(rng.randint(0, 0), u)
    return opts, heads
