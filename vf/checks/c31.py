"""C31: what is asked of a parser tells what it holds and what it did not understand."""

import contextlib
import io
import os
import re

from .. import cgen
from ..hgen import Header
from ..sut import CParser, Enum, Struct, Type, Union, freeze, ready, snap, snap_files

RULE = (
    "A case is one to three random headers, with unsupported constructs (each with a word "
    "found nowhere else) between the declarations. The unparsed text returned for each "
    "file must hold each of these words and none of the names the file declares, and "
    "asking for it must change nothing; each name must be found on its line of its file; "
    "the printed form of the parser, and of each file, must evaluate to its definitions, "
    "kind by kind; what is found under a name or a pattern is what the files "
    "hold. Non-trivial: at least one unsupported construct. Distinct: by the text."
)
CASES = {"quick": 260, "thorough": 3500}
REQUIRE = {"unsupported constructs": 600, "declared names": 2500, "lines found": 1500,
           "written again": 100,
           "sections printed": 2500, "preprocessed texts": 100, "found by pattern": 2000}
CPU_LIMIT = 90
ASSUMPTIONS = [
    "the unsupported constructs come from a list",
    "names are found by their line when the file has no comment or continued line, which "
    "are joined",
    "enumerators are not named like the keywords of Python",
]
FOREIGN = [
    "@interface %s @ ;", "%s ->;", "[%s];", "%s ? : ;", "\"%s\";", "template <%s> ;",
    "static %s(;", "{ %s }", "operator %s + ;", "int %s = 1, mw = 2;", "asm (\"%s\");",
    "int %s(const char *fmt, ...);", "%s ++;", "do { %s(3); } while (0);", "$ ` %s ` ?",
]
TITLE = re.compile(r"^============== (\w+) ==================$", re.M)
SPACE = {"Type": Type, "Struct": Struct, "Union": Union, "Enum": Enum,
         "inf": float("inf"), "nan": float("nan")}


def sections(text):
    """{kind: text of its definitions}"""
    parts = TITLE.split(text)
    return {k: v for k, v in zip(parts[1::2], parts[2::2])}


def case(ctx):
    ready()
    rng = ctx.rng
    names = cgen.Names(rng)
    files, words, declared, texts = [], [], [], []
    for k in range(rng.choice([1, 1, 2, 3])):
        h = Header(rng, n=rng.randint(4, 12), names=names)
        items, mine, depth, again = [], [], 0, []
        for it in h.items:
            items.append(it)
            depth += it.startswith("#if")
            depth -= it.startswith("#endif")
            if not depth and rng.random() < 0.35:
                wd = "Un%dderstood%d_" % (k, len(mine))
                ctx.saw("unsupported constructs")
                odd = rng.choice(FOREIGN) % wd
                items.append(odd)
                mine.append(wd)
                # Written again, on another line
                if rng.random() < 0.25:
                    ctx.saw("written again")
                    again.append((rng.randint(len(items), len(items) + 6), odd))
            while again and not depth and again[0][0] <= len(items):
                items.append(again.pop(0)[1])
        items += [odd for _, odd in again]
        for i, it in enumerate(items):
            if rng.random() < 0.15 and "\\\n" not in it:
                items[i] = rng.choice(["  ", "\t", ""]) + it + rng.choice(["", " ", "  "])
        text = "\n".join(items) + "\n"
        files.append(ctx.write("f%d.h" % k, text))
        texts.append(text)
        words.append(mine)
        declared.append([n for kind, n in h.defined
                         if kind in ("variables", "functions", "types", "structs",
                                     "unions", "enums")])
    p = CParser(files)
    before, by_file = snap(p), snap_files(p)
    q = CParser(files, process_all=False)
    # The lines of the files as they are
    for f, text in zip(files, texts):
        lines = text.split("\n")
        k = files.index(f)
        some = words[k] + declared[k]
        cut = ["  ", "\t"]  # any part of a line
        for _ in range(3):
            x = rng.choice(lines)
            if x:
                i = rng.choice([0, rng.randrange(len(x))])
                cut.append(x[i : i + rng.randint(1, 9)])
        cut += [x[-3:] for x in lines if x.endswith(" ")][:1]
        cut += [x[:5] for x in lines if x[:1].isspace()][:1]
        for n in rng.sample(some, min(4, len(some))) + cut:
            want = [(g, i, x) for g, t in zip(files, texts)
                    for i, x in enumerate(t.split("\n")) if n in x]
            ctx.eq([tuple(r) for r in q.find_text(n)], want, "lines which hold a text", text=n)
            ctx.saw("lines found", len(want))
        ctx.kind("numbers of lines", len(lines))
    ctx.eq(q.find_text("nowhere to be found"), [], "lines of a text which is nowhere")
    res = res_unparsed = q.process_all(return_unparsed=True)
    ctx.eq(len(res), len(files), "number of unparsed texts")
    ctx.eq(snap(q), before, "definitions when asking for the unparsed text")
    for k, (mine, names_) in enumerate(zip(words, declared)):
        found = re.findall(r"\w+", res[k])
        for wd in mine:
            ctx.eq(found.count(wd), len(re.findall(r"\b%s\b" % wd, texts[k])),
                   "number of times a construct is in the unparsed text", word=wd)
        found = set(found)
        for wd in mine:
            ctx.true(wd in found, "a construct without definition is not in the unparsed text",
                     word=wd, got=res[k])
        seen = by_file.get("f%d.h" % k, {})
        for n in names_:
            if not any(n in defs for defs in p.file_defs["f%d.h" % k].values()):
                continue  # swallowed by an unsupported construct
            ctx.saw("declared names")
            ctx.true(n not in found or not fresh(n, texts),
                     "what was understood is in the unparsed text", name=n, got=res[k],
                     seen=seen)
    # Lines are those of the file after processing too
    for k, (f, text) in enumerate(zip(files, texts)):
        if "\\\n" in text or "/*" in text or "//" in text:
            continue
        for i, x in enumerate(text.split("\n")):
            m = re.search(r"Un%dderstood\d+_" % k, x)
            if m:
                ctx.saw("lines found")
                got = [(r[0], r[1]) for r in p.find_text(m.group())]
                want = [(f, j) for j, y in enumerate(text.split("\n")) if m.group() in y]
                ctx.eq(got, want, "line of %s once processed" % m.group())
    # The preprocessed texts, printed on the way
    if rng.random() < 0.5:
        ctx.saw("preprocessed texts", len(files))
        q = CParser(files, process_all=False)
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            res = q.process_all(print_after_preprocess=True)
        ctx.eq(len(res), len(files), "number of lists of what was parsed")
        ctx.eq(snap(q), before, "definitions when printing the preprocessed text")
        ctx.eq(snap_files(q), by_file, "definitions by file when printing them")
        at = 0
        for f in files:
            for x in (f, "\n".join(r[2] for r in q.find_text("") if r[0] == f)):
                ctx.saw("comparisons")
                i = out.getvalue().find(x, at)
                ctx.true(i >= 0, "the preprocessed text is not printed", file=f, text=x,
                         got=out.getvalue())
                at = i + len(x)
        ctx.eq(q.find_text(""), p.find_text(""), "the preprocessed lines")
    # Printed
    check_print(ctx, str(p), p.defs, "parser")
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        p.print_all()
    check_print(ctx, out.getvalue(), p.defs, "printed parser")
    for f in files:
        b = os.path.basename(f)
        if b in p.file_defs:
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                p.print_all(b)
            check_print(ctx, out.getvalue(), p.file_defs[b], "printed file")
    # What is found under a name or a pattern
    held = sorted((f, kd, n) for f, d in p.file_defs.items() for kd in d for n in d[kd])
    if held:
        for _ in range(4):
            n = rng.choice(held)[2]
            if rng.random() < 0.5:
                ctx.eq(sorted(p.find(n)), [(f, kd) for f, kd, m in held if m == n],
                       "definitions found for %s" % n)
            else:
                pat = rng.choice([re.escape(n[: rng.randint(1, 3)]), "[a-z]", ".*_",
                                  re.escape(n) + "$", "(?i)" + re.escape(n.upper())])
                want = [(f, kd, m) for f, kd, m in held if re.match(pat, m)]
                ctx.eq(sorted(p.find(re.compile(pat))), want,
                       "definitions found for %s" % pat)
                ctx.saw("found by pattern", len(want))
        ctx.eq(p.find("nowhere to be found"), [], "definitions of an unknown name")
    ctx.eq(snap(p), before, "definitions once printed")
    # What was not understood is asked for once everything is known (each time, unnamed
    # structures and enums get other names)
    again = p.process_all(return_unparsed=True)
    ctx.eq(again, res_unparsed, "unparsed texts asked for afterwards")
    if not any(n.startswith("anon_") for k in ("structs", "unions", "enums")
               for n in p.defs[k]):
        ctx.saw("unparsed afterwards")
        ctx.saw("packed, unparsed afterwards",
                sum(d.pack is not None for d in p.defs["structs"].values()))
        ctx.eq(snap(p), before, "definitions once asked for the unparsed text")
        ctx.eq(snap_files(p), by_file, "definitions by file once asked for it")
    if any(words):
        ctx.case_key(*texts)


def fresh(n, texts):
    """Is it only written once?"""
    return sum(len(re.findall(r"\b%s\b" % re.escape(n), t)) for t in texts) == 1


def check_print(ctx, text, defs, what):
    got = sections(text)
    ctx.eq(sorted(got), sorted(defs), "kinds of the " + what)
    for k in defs:
        ctx.saw("sections printed")
        try:
            val = eval(got[k].strip(), dict(SPACE))
        except Exception as e:
            ctx.fail("what is printed is no description", error=e, got=got[k], kind=k)
        ctx.eq(freeze(val), freeze(dict(defs[k])), "%s of the %s" % (k, what))
