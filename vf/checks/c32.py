"""C32: parsers working at the same time give what they give alone."""

import os
import random
import subprocess
import sys
import threading
import time

from .. import cgen
from ..core import REPO, Infra
from ..hgen import Header
from ..sut import CParser, Type, freeze, ready, snap, snap_files

RULE = (
    "A case is 2 to 6 parsers of random headers with their own options, made at the same "
    "time by as many threads, released together, under a random tiny switch interval and, "
    "for half of the cases, delays injected at random lines of the parser; each also "
    "evaluates types and constants and searches. Some share their headers, a copied parser or a "
    "cache file, some headers fail to be read. Others are processes writing and "
    "reading one cache with different options. Oracle: the "
    "definitions, by file too, and the answers are those of the same parser made alone, "
    "and the cache left behind never gives anything else. Non-trivial: two parsers were "
    "seen inside the parser at the same time. Distinct: by plan and observed order."
)
CASES = {"quick": 130, "thorough": 2000}
REQUIRE = {"parsers": 350, "definitions compared": 3000, "cases which overlapped": 90,
           "switches observed": 2000, "caches shared": 20, "processes": 18}
CPU_LIMIT = 150
LIMIT = 140
ASSUMPTIONS = [
    "schedules are those of this machine under the injected delays",
    "what is shared (headers, copied parsers) is not altered by the caller meanwhile",
    "nobody removes a cache while it is being opened",
]


class Watch:
    """Watches which thread executes the parser; delays it at random lines."""

    def __init__(self, seed, delays):
        self.seed, self.delays = seed, delays
        self.last, self.switches, self.order = None, 0, []
        self.inside, self.most = set(), 0

    def install(self, k):
        rng = random.Random("%s/%s" % (self.seed, k))
        base = os.path.join(REPO, "pyclibrary") + os.sep
        left = [40]

        def line(frame, event, arg):
            if self.last != k:
                self.last = k
                self.switches += 1
                if len(self.order) < 500:
                    self.order.append(k)
            if self.delays and left[0] and rng.random() < 0.002:
                left[0] -= 1
                time.sleep(rng.choice([0, 0.0005, 0.002]))
            return line

        def call(frame, event, arg):
            if frame.f_code.co_filename.startswith(base):
                return line(frame, event, arg)
            return None

        sys.settrace(call)


class Plan:
    """One parser: how it is made and what it is asked."""

    def __init__(self, files, kw, ask, cache=None, steps=False):
        self.files, self.kw, self.ask = files, kw, ask
        self.cache, self.steps = cache, steps

    def run(self, cache=True):
        kw = dict(self.kw)
        if cache and self.cache:
            kw["cache"] = self.cache
        try:
            if self.steps:
                c = kw.pop("cache", None)
                p = CParser(self.files, process_all=False, **kw)
                p.process_all(cache=c)
            else:
                p = CParser(self.files, **kw)
        except Exception as e:
            return ("failed", type(e).__name__)
        got = [snap(p), snap_files(p)]
        for what, arg in self.ask:
            if what == "eval":
                try:
                    got.append(freeze(p.eval_type(Type(arg))))
                except Exception as e:
                    got.append(type(e).__name__)
            elif what == "find":
                got.append(sorted(p.find(arg)))
            elif what == "text":
                got.append(freeze(p.find_text(arg)) if not cache else None)
            elif what == "const":
                try:
                    got.append(freeze(p.eval_expr(arg)))
                except Exception as e:
                    got.append(type(e).__name__)
        return got


def threads(ctx):
    rng = ctx.rng
    n = rng.choice([2, 2, 3, 4, 6])
    names = cgen.Names(rng)
    headers, plans = [], []
    for k in range(rng.randint(2, n + 1)):
        # The same names mean something else in each header.
        names = cgen.Names(rng) if rng.random() < 0.7 else names
        h = Header(rng, n=rng.randint(3, 9), names=names)
        text = h.text()
        text += "#pragma pack(push, %d)\nstruct same_s { char a; long b[SAME]; };\n" % (
            1 << rng.randint(0, 3))
        text += "typedef %s same_t;\nenum same_e { SAME_A = %d, SAME_B };\n" % (
            rng.choice(["int", "char *", "struct same_s", "float (*f)[2]"]), k + 1)
        text += "struct { same_t x; } same_v;\n#define SAME_M (SAME * %d)\n" % (k + 2)
        text = "#define SAME %d\n" % (k + 3) + text
        if rng.random() < 0.5:
            text += "#pragma pack(pop)\n"
        headers.append((ctx.write("h%d.h" % k, text), h))
    source = None
    if rng.random() < 0.3:
        source = CParser(ctx.write("src.h", "typedef int src_t;\n#define SRC 3\n"))
    shared = ctx.path("shared.cache") if rng.random() < 0.3 else None
    for k in range(n):
        mine = rng.sample(headers, rng.choice([1, 1, 1, 2]))
        kw = {}
        if rng.random() < 0.3:
            kw["macros"] = {"OPT": str(k), "SAME_O": "1"}
        if rng.random() < 0.2:
            kw["types"] = {"opt_t": Type("int", k + 1)}
        if rng.random() < 0.3:
            kw["replace"] = {"same_v": "other_v%d" % k}
        if rng.random() < 0.2:
            kw["encoding"] = rng.choice(["latin1", "cp1252"])
        if source is not None and rng.random() < 0.6:
            kw["copy_from"] = source
        files = [f for f, _ in mine]
        if rng.random() < 0.08:
            files.append(ctx.path("missing%d.h" % k))
        ask = []
        known = [n_ for _, h in mine for _, n_ in h.defined] + ["same_t", "SAME"]
        for _ in range(rng.randint(0, 8)):
            what = rng.choice(["eval", "eval", "find", "text", "const"])
            arg = rng.choice(known)
            if what == "const":
                arg = rng.choice(["SAME + 1", "(SAME_A << 3) - 2", "4 * (2 + 1)"])
            ask.append((what, arg))
        cache = None
        if shared and rng.random() < 0.8:
            cache = shared
            ctx.saw("caches shared")
        elif rng.random() < 0.2:
            cache = ctx.path("own%d.cache" % k)
        plans.append(Plan(files, kw, ask, cache, rng.random() < 0.2))
    # A cached parser has no text to search.
    for pl in plans:
        if pl.cache:
            pl.ask = [a for a in pl.ask if a[0] != "text"]
    want = [pl.run(cache=False) for pl in plans]
    watch = Watch(rng.random(), rng.random() < 0.5)
    gate = threading.Barrier(n)
    errors = []
    laps = rng.choice([1, 1, 2])
    results = [[] for _ in range(n)]

    def work(k):
        try:
            gate.wait()
            watch.install(k)
            try:
                for _ in range(laps):
                    results[k].append(plans[k].run(cache=bool(plans[k].cache)))
            finally:
                sys.settrace(None)
        except BaseException as e:
            errors.append((k, "%s: %s" % (type(e).__name__, e)))

    old = sys.getswitchinterval()
    sys.setswitchinterval(10 ** rng.uniform(-6, -3.5))
    try:
        ts = [threading.Thread(target=work, args=(k,), daemon=True) for k in range(n)]
        for t in ts:
            t.start()
        end = time.monotonic() + LIMIT
        for t in ts:
            t.join(max(0.1, end - time.monotonic()))
    finally:
        sys.setswitchinterval(old)
    ctx.true(not any(t.is_alive() for t in ts), "threads are stuck")
    ctx.true(not errors, "a thread failed", errors=errors)
    ctx.saw("parsers", n * laps)
    ctx.saw("switches observed", watch.switches)
    ctx.kind("numbers of threads", n)
    ctx.kind("orders of execution", "".join(map(str, watch.order[:60])))
    if watch.switches > n:
        ctx.saw("cases which overlapped")
    for k in range(n):
        for res in results[k]:
            if isinstance(want[k], list):
                ctx.saw("definitions compared",
                        sum(len(v[1]) for kv, v in want[k][0][1] if v[0] == "dict"))
            ctx.true(res == want[k],
                     "the parser of thread %d is not like when it is alone" % k,
                     got=res, expected=want[k], options=sorted(plans[k].kw),
                     files=[os.path.basename(f) for f in plans[k].files])
    # What is left in the caches
    for k in range(n):
        if plans[k].cache:
            ctx.true(plans[k].run() == want[k],
                     "a cache left by the threads is wrong", files=plans[k].files)
    if source is not None:
        ctx.eq(snap(source), snap(CParser(ctx.path("src.h"))), "the copied parser")
    if watch.switches > n:
        ctx.case_key([(pl.ask, sorted(pl.kw)) for pl in plans], watch.order,
                     *[ctx.inputs[x] for x in sorted(ctx.inputs)])


CHILD = r"""
import os, random, sys, time
sys.path.insert(0, os.environ["VF_WHERE"])
from vf.sut import CParser, snap
d, k, end = sys.argv[1], int(sys.argv[2]), float(sys.argv[3])
rng = random.Random("%s/%d" % (sys.argv[4], k))
f, cache = os.path.join(d, "big.h"), os.path.join(d, "big.cache")
import logging
logging.disable(logging.CRITICAL)
CParser()
n = written = 0
while time.monotonic() < end:
    mine = k if rng.random() < 0.8 else rng.randint(0, 3)
    p = CParser([f], process_all=False, values={"WHO": mine},
                macros={"W": "x" * (mine % 2)})
    if not p.load_cache(cache, check_validity=True):
        # What parsing would define
        p.current_file = "big.h"
        for i in range(int(os.environ["VF_COUNT"])):
            p.add_def("values", "n%d" % i, mine)
        p.write_cache(cache)
        written += 1
        continue
    n += 1
    got = {v for x, v in p.defs["values"].items() if x[0] == "n"}
    if got != {mine}:
        print("MIXED", mine, sorted(got))
        sys.exit(0)
print("OK", n, written)
"""


def processes(ctx):
    """Several processes using one cache with different options."""
    rng = ctx.rng
    ctx.write("big.h", "int big;\n")
    script = ctx.write("child.py", CHILD)
    n = rng.choice([2, 3, 4])
    count = rng.choice([300, 3000, 9000])
    env = dict(os.environ, VF_WHERE=os.path.join(os.path.dirname(__file__), "..", ".."),
               VF_REPO=REPO, VF_COUNT=str(count))
    end = time.monotonic() + 4
    ps = [subprocess.Popen([sys.executable, script, ctx.dir, str(k), str(end),
                            str(rng.random())], stdout=subprocess.PIPE, text=True,
                           stderr=subprocess.PIPE, env=env) for k in range(n)]
    loads = writes = 0
    for k, p in enumerate(ps):
        try:
            out, err = p.communicate(timeout=LIMIT)
        except subprocess.TimeoutExpired:
            for q in ps:
                q.kill()
            raise Infra("processes too slow")
        ctx.true(p.returncode == 0, "a process sharing a cache failed", output=err[-1500:])
        ctx.true(out.startswith("OK"), "a cache mixes what two processes wrote", output=out)
        _, a, b = out.split()
        loads, writes = loads + int(a), writes + int(b)
    ctx.saw("processes", n)
    ctx.saw("caches loaded by processes", loads)
    ctx.saw("caches written by processes", writes)
    left = [f for f in os.listdir(ctx.dir) if f not in ("big.h", "child.py", "big.cache")]
    ctx.true(not left, "files are left behind", files=left)
    if loads and writes > 1:
        ctx.case_key("processes", n, count, ctx.index)


def case(ctx):
    ready()
    if ctx.index % 13 == 5:
        processes(ctx)
    else:
        threads(ctx)
