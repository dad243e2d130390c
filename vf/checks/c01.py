"""C01: comments, line splices and layout mean nothing."""

import re

from .. import cgen
from ..cgen import gap, relayout, tokens
from ..hgen import Header
from ..sut import KINDS, CParser, diff, ready

RULE = (
    "A case is a random header (macros, conditionals, pragmas, enums, structs, "
    "typedefs, variables, functions) parsed in a plain layout, then as several "
    "variants with other white space, C and C++ comments (holding quotes, code, "
    "directives, stars, slashes), backslash-newline splices at random places (inside "
    "tokens too), CRLF or CR line ends and declarations sharing lines; all the "
    "definitions must be the same. Distinct: by the text of the first variant."
)
CASES = {"quick": 260, "thorough": 4000}
REQUIRE = {"variants": 400, "comments": 500, "splices": 200}


def directive(rng, text, comments):
    """Another layout of a directive, which stays on a logical line."""
    m = re.match(r"#define (\w+)(\([^)]*\))?(.*)$", text)
    if m:
        name, args, body = m.groups()
        head = "#%sdefine%s%s" % (
            rng.choice(["", " ", "\t"]),
            gap(rng, False, comments, True),
            name,
        )
        if args:
            head += relayout(rng, args, False, comments)
        if body.strip():
            head += gap(rng, False, comments, True) + relayout(
                rng, body, False, comments
            )
        res = head
    else:
        m = re.match(r"#(\w+)(.*)$", text)
        res = "#%s%s" % (rng.choice(["", " "]), m.group(1))
        if m.group(2).strip():
            res += gap(rng, False, comments, True) + relayout(
                rng, m.group(2), False, comments
            )
    if rng.random() < 0.3:
        res = rng.choice([" ", "\t", "  "]) + res
    if comments and rng.random() < 0.3:
        res += rng.choice([" // note", " /* note */", " // it's", "  ", "// \"x"])
    if comments and rng.random() < 0.05:
        res += " /* a\n b */"
    return res


def variant(ctx, rng, items):
    comments = rng.random() < 0.85
    out = []
    fresh = True  # at the start of a line
    for it in items:
        if it.startswith("#"):
            if not fresh:
                out.append("\n")
            out.append(directive(rng, it, comments) + "\n")
            fresh = True
        else:
            # (macro calls are only supported on one line)
            out.append(relayout(rng, it, "F_" not in it, comments))
            if rng.random() < 0.7:
                out.append("\n")
                fresh = True
            else:
                out.append(" ")
                fresh = False
        if comments and rng.random() < 0.3:
            body = rng.choice(cgen.COMMENT_BODIES)
            if fresh and "\n" not in body and rng.random() < 0.5:
                out.append("//%s\n" % body.rstrip("\\ "))
            else:
                out.append("/*%s*/" % body)
                # (a comment may come before a directive on its line)
        if fresh and rng.random() < 0.2:
            out.append(rng.choice(["\n", " \n", "\t\n\n", "\f\n"]))
    if not fresh or rng.random() < 0.8:
        out.append("\n")
    text = "".join(out)
    ctx.saw("comments", text.count("/*") + text.count("//"))
    if rng.random() < 0.6:
        # Splices, anywhere.
        n = rng.choice([1, 3, 10, 30])
        for _ in range(n):
            i = rng.randrange(len(text) + 1)
            if text[i - 1 : i + 1] == "\\\n":
                continue
            text = text[:i] + "\\\n" + text[i:]
            ctx.saw("splices")
        ctx.kind("layout", "splices")
    if rng.random() < 0.25:
        nl = rng.choice(["\r\n", "\r\n", "\r"])
        text = text.replace("\n", nl)
        ctx.kind("layout", repr(nl))
    return text


def norm(defs):
    """The definitions, macro texts being compared by their tokens."""
    res = {k: dict(defs[k]) for k in KINDS}
    res["macros"] = {n: " ".join(tokens(v)) for n, v in res["macros"].items()}
    res["fnmacros"] = {
        n: (" ".join(tokens(v[0])), list(v[1])) for n, v in res["fnmacros"].items()
    }
    return res


def case(ctx):
    ready()
    rng = ctx.rng
    h = Header(rng, rng.randint(4, 14))
    plain = ctx.write("plain.h", h.text())
    ref = CParser(plain)
    for k, n in h.defined:
        ctx.true(n in ref.defs[k], "%s %s is missing from the plain header" % (k, n))
    for i in range(2):
        text = variant(ctx, rng, h.items)
        p = CParser(ctx.write("variant%d.h" % i, text))
        ctx.saw("variants")
        ctx.saw("definitions compared", sum(len(p.defs[k]) for k in KINDS))
        d = diff(norm(ref.defs), norm(p.defs))
        ctx.true(not d, "the layout changes the definitions", diff=d[:5])
        if i == 0:
            ctx.case_key(text)
