"""Writes DESIGN.md from the text below, meta.py, the checks and the tables.

usage: python3 tools/design.py
"""

import ast
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import meta  # noqa: E402

HEAD = open(os.path.join(HERE, "design_head.md")).read()
TAIL = open(os.path.join(HERE, "design_tail.md")).read()


def constants(prop):
    path = os.path.join(VERIF, "vf", "checks", prop.lower() + ".py")
    res = {"ASSUMPTIONS": [], "REQUIRE": {}}
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            if node.targets[0].id in ("RULE", "CASES", "REQUIRE", "ASSUMPTIONS"):
                res[node.targets[0].id] = ast.literal_eval(node.value)
    return res


def load(name):
    with open(os.path.join(HERE, name)) as f:
        return json.load(f)


def findings():
    known, fixed = {}, {}
    for line in open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")):
        m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
        if m:
            known.setdefault(m[1], []).append((m[2], m[3]))
        m = re.match(r"fixed: property=(\S+) (\S+) (.*)", line)
        if m:
            fixed.setdefault(m[1], []).append((m[2], m[3]))
    return known, fixed


def main():
    costs, notes, caught = load("costs.json"), load("notes.json"), load("caught.json")
    known, fixed = findings()
    out = [HEAD.strip(), "", "## The properties and what decides each of them", ""]
    for p in meta.PROPS:
        c = constants(p["id"])
        out += ["### %s. %s" % (p["id"], p["title"]), "", p["statement"], ""]
        out += ["- *Deciding technique*: %s." % p["technique"]]
        out += ["- *Cases and oracle*: %s" % c["RULE"]]
        if p["id"] in notes:
            out += ["- *Detail*: %s" % notes[p["id"]]]
        out += ["- *Beyond the tests*: %s" % p["why"]]
        for a in c["ASSUMPTIONS"]:
            out += ["- *Assumption or limit*: %s." % a.rstrip(".")]
        q = costs.get(p["id"], {})
        out += ["- *Cost*: quick %d cases%s, thorough %d cases%s. No answer (exit 2) "
                "unless observed at least: %s."
                % (c["CASES"]["quick"], ", about %d s" % q["quick"] if "quick" in q else "",
                   c["CASES"]["thorough"],
                   ", about %d s" % q["thorough"] if "thorough" in q else "",
                   ", ".join("%s %d" % x for x in sorted(c["REQUIRE"].items())) or "a comparison")]
        if known.get(p["id"]):
            out += ["- *Known findings* (not repaired, probed at each run): %s."
                    % ", ".join("`%s`" % k for k, _ in known[p["id"]])]
        if fixed.get(p["id"]):
            out += ["- *Repaired in /repo*: %s." % "; ".join("%s (%s)" % (t, h) for h, t in fixed[p["id"]])]
        out += [""]
    out += ["## Genuine defects left as known findings", "",
            "Each is listed in KNOWN_FINDINGS.txt under its key, and has a probe in "
            "vf/probes.py: the exact input is run again at each run of its check, which "
            "prints KNOWN-FINDING while it still fails.", "",
            "| property | key | what fails |", "|---|---|---|"]
    for pid in sorted(known):
        for k, t in known[pid]:
            out.append("| %s | %s | %s |" % (pid, k, t.replace("|", "\\|")))
    out += ["", "## Planted bugs", "",
            "Kept in seeded/ (validated: applies, builds, passes the stable tests, its demo "
            "fails with it and passes without). `caught` is the result of the quick check of "
            "its property, with the first case which showed it.", "",
            "| bug | property | what it breaks | caught |", "|---|---|---|---|"]
    d = os.path.join(VERIF, "seeded")
    for n in sorted(os.listdir(d)):
        m = json.load(open(os.path.join(d, n, "meta.json")))
        out.append("| %s | %s | %s | %s |" % (
            n, m["property"], " ".join(m["what_it_breaks"].split()).replace("|", "\\|"),
            caught.get(n, "?").replace("|", "\\|")))
    out += ["", TAIL.strip(), ""]
    with open(os.path.join(VERIF, "DESIGN.md"), "w") as f:
        f.write("\n".join(out))


main()
