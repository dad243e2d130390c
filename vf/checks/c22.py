"""C22: with locked calls, no two calls into the library overlap."""

import ctypes as ct
import os
import random
import sys
import threading
import time

from ..core import REPO, gcc_lib
from ..sut import CLibrary, CParser, ready

RULE = (
    "A case is a compiled library whose functions (no argument, scalars, structures by "
    "value, automatic outputs, strings, callbacks) count the threads inside and stay "
    "there for random times, called by 2 to 8 threads through one wrapper opened with "
    "locked calls, by attribute, by kind, with prefix, with functions shared or obtained "
    "by each thread, under random switch intervals and, for half of the cases, delays "
    "injected at random lines of the wrapper; among them wrong calls, callbacks which "
    "call the library again, several levels deep, or fail. Oracle: the counters inside C "
    "never see a second thread, every call is counted once, all threads end; without the "
    "option two threads meet inside. Distinct: by plan and observed order of entries."
)
CASES = {"quick": 160, "thorough": 2500}
REQUIRE = {"locked calls": 8000, "calls from callbacks": 1500, "failed calls": 800,
           "threads": 500, "entries after waiting": 2000, "unlocked meetings": 100}
ASSUMPTIONS = [
    "the wrapper is opened by one thread",
    "schedules are those of this machine under the injected delays",
]
LIMIT = 150  # seconds: a case needs less than one

SRC = r"""
#define _GNU_SOURCE
#include <unistd.h>
#include <string.h>
#include <stdatomic.h>
#include <time.h>
atomic_int INSIDE, OVERLAPS, AT, MEETING, MET, WAITING;
atomic_long CALLS;
int ORDER[4096];
static __thread int depth;
static __thread int me;
void raw_thread(int id) { me = id; }
static void stay(int us) {
  if (us < 0) { for (volatile int i = 0; i < -us * 30; i++); return; }
  if (us) usleep(us);
}
static void enter(int us) {
  if (depth++ == 0) {
    if (atomic_fetch_add(&INSIDE, 1) != 0) atomic_fetch_add(&OVERLAPS, 1);
    int k = atomic_fetch_add(&AT, 1);
    if (k < 4096) ORDER[k] = me;
  } else if (atomic_load(&INSIDE) != 1) atomic_fetch_add(&OVERLAPS, 1);
  atomic_fetch_add(&CALLS, 1);
  stay(us);
}
static void leave(int us) {
  stay(us / 2);
  if (atomic_load(&INSIDE) != 1) atomic_fetch_add(&OVERLAPS, 1);
  if (--depth == 0) atomic_fetch_sub(&INSIDE, 1);
}
static int delay;
struct pt { int x; double y[3]; };
typedef int (*CB)(int);
void l_nothing(void) { enter(20); leave(20); }
int l_get(void) { enter(-5); leave(0); return 7; }
int l_add(int us, int a, int b) { enter(us); leave(us); return a + b; }
double l_scale(int us, struct pt p, double k) { enter(us); leave(us); return p.y[1] * k; }
struct pt l_make(int us, int x) { enter(us); struct pt p = {x, {1, 2, x}}; leave(us); return p; }
int l_out(int us, int *a, struct pt *p, void **q) {
  enter(us); if (a) *a = us; if (p) p->x = us; leave(us); return us; }
int l_text(int us, const char *s) { enter(us); int n = strlen(s); leave(us); return n; }
char *l_name(int us) { enter(us); leave(us); return "name"; }
int l_each(int us, int n, CB f) {
  enter(us); int s = 0; for (int i = 0; i < n; i++) s += f(i); leave(us); return s; }
int meet(int ms) {
  int n = atomic_fetch_add(&MEETING, 1) + 1;
  if (n >= 2) atomic_store(&MET, 1);
  for (int i = 0; i < ms && !atomic_load(&MET); i++) usleep(1000);
  return atomic_load(&MET);
}
"""

HDR = """
struct pt { int x; double y[3]; };
typedef int (*CB)(int);
void l_nothing(void);
int l_get(void);
int l_add(int us, int a, int b);
double l_scale(int us, struct pt p, double k);
struct pt l_make(int us, int x);
int l_out(int us, int *a, struct pt *p, void **q);
int l_text(int us, const char *s);
char *l_name(int us);
int l_each(int us, int n, CB f);
int meet(int ms);
"""

NAMES = ["nothing", "get", "add", "scale", "make", "out", "text", "name", "each"]
WHERE = os.path.join(REPO, "pyclibrary") + os.sep


class Delays:
    """Sleeps at random lines of the wrapper."""

    def __init__(self, seed, p):
        self.rng, self.p = random.Random(seed), p

    def __call__(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(WHERE):
            return None
        return self.line

    def line(self, frame, event, arg):
        if self.rng.random() < self.p:
            time.sleep(self.rng.random() * 3e-4)
        return self.line


class Caller:
    """What one thread does."""

    def __init__(self, lib, k, seed, us, shared, n):
        self.lib, self.k, self.rng = lib, k, random.Random(seed)
        self.us, self.shared, self.n = us, shared, n
        self.calls = self.nested = self.failed = 0
        self.error = None
        self.wrong = None

    def run(self, raw, gate):
        try:
            raw.raw_thread(self.k + 1)
            gate.wait()
            for _ in range(self.n):
                self.call(0)
        except BaseException as e:
            self.error = e

    def get(self, name):
        r = self.rng.random()
        if self.shared and r < 0.4:
            return self.shared[name]
        if r < 0.6:
            return getattr(self.lib, "l_" + name)
        if r < 0.8:
            return getattr(self.lib, name)  # by prefix
        return self.lib("functions", self.rng.choice(["", "l_"]) + name)

    def expect(self, got, want, what):
        if got != want:
            self.wrong = "%s gives %r instead of %r" % (what, got, want)

    def call(self, level):
        rng = self.rng
        us = rng.choice([0, 0, 0, 20, -3, -20, self.us, self.us // 3])
        kind = rng.choice(NAMES + ["each"] * 2 + ["wrong"])
        if kind == "each" and level >= 3:
            kind = "add"
        if kind == "wrong":
            return self.fail(us)
        f = self.get(kind)
        self.calls += 1
        if level:
            self.nested += 1
        if kind == "nothing":
            self.expect(f()(), None, kind)
        elif kind == "get":
            self.expect(f()(), 7, kind)
        elif kind == "add":
            a = rng.randrange(1000)
            self.expect(f(us, b=self.k, a=a)(), a + self.k, kind)
        elif kind == "scale":
            p = self.lib.pt()
            p.y[1] = 1.5
            self.expect(f(us, p, 2.0)(), 3.0, kind)
        elif kind == "make":
            self.expect(f(us, self.k)().x, self.k, kind)
        elif kind == "out":
            res = f(us) if rng.random() < 0.7 else f(us, None, p=None)
            self.expect(res(), us, kind)
        elif kind == "text":
            self.expect(f(us, b"text")(), 4, kind)
        elif kind == "name":
            self.expect(f(us)(), b"name", kind)
        else:
            n = rng.randint(0, 2)

            def back(i):
                if rng.random() < 0.7:
                    self.call(level + 1)
                if rng.random() < 0.15:
                    raise ValueError("from a callback")
                return i + 1

            cb = self.lib("types", "CB")(back)
            f(us, n, cb)

    def fail(self, us):
        rng = self.rng
        kind = rng.choice(["text", "add", "each", "scale", "out", "add"])
        f = self.get(kind)
        self.failed += 1
        try:
            if kind == "text":
                f(us, "not bytes")
            elif kind == "add":
                rng.choice([lambda: f(us, 1), lambda: f(us, 1, "x"),
                            lambda: f(us, 1, c=2), lambda: f(us, None, 2)])()
            elif kind == "each":
                f(us, 1, len)
            elif kind == "scale":
                f(us, 3, 1.0)
            else:
                f(us, 1.5)
        except Exception:
            return
        self.wrong = "a wrong call of %s is accepted" % kind


def case(ctx):
    ready()
    rng = ctx.rng
    path = ctx.write("l.h", HDR)
    so = gcc_lib(ctx, SRC, "lock")
    raw = ct.CDLL(so)

    def counter(name, t=ct.c_int):
        return t.in_dll(raw, name)

    form = rng.choice(["path", "object", "headers"])
    how = {"prefix": "l_", "lock_calls": True}
    if form == "path":
        lib = CLibrary(so, CParser(path), **how)
    elif form == "object":
        lib = CLibrary(ct.CDLL(so), CParser(path), **how)
    else:
        lib = CLibrary(so, [path], **how)
    n = rng.choice([2, 2, 3, 4, 8])
    us = rng.choice([0, 60, 200, 500])
    delays = rng.random() < 0.5
    shared = None
    if rng.random() < 0.5:
        # Functions made beforehand; otherwise by the threads, at the same time.
        shared = {k: getattr(lib, "l_" + k) for k in NAMES}
    todo = max(4, 120 // n // (3 if us >= 200 else 1))
    callers = [Caller(lib, k, rng.random(), us, shared, todo) for k in range(n)]
    ctx.kind("thread counts", n)
    gate = threading.Barrier(n)
    threads = [threading.Thread(target=c.run, args=(raw, gate), daemon=True)
               for c in callers]
    old, hook = sys.getswitchinterval(), sys.unraisablehook
    sys.unraisablehook = lambda u: None
    sys.setswitchinterval(rng.choice([1e-6, 1e-5, 1e-4, 5e-3]))
    if delays:
        threading.settrace(Delays(rng.random(), rng.choice([0.02, 0.1])))
    try:
        for t in threads:
            t.start()
        end = time.monotonic() + LIMIT
        for t in threads:
            t.join(max(0.1, end - time.monotonic()))
    finally:
        threading.settrace(None)
        sys.setswitchinterval(old)
        sys.unraisablehook = hook
    stuck = [c.k for c, t in zip(callers, threads) if t.is_alive()]
    ctx.saw("comparisons")
    if stuck:
        ctx.fail("some threads never end", threads=stuck,
                 inside=counter("INSIDE").value, calls=counter("CALLS", ct.c_long).value)
    for c in callers:
        if c.error is not None:
            ctx.fail("unexpected %s: %s" % (type(c.error).__name__, c.error))
        ctx.true(c.wrong is None, "wrong result: %s" % c.wrong)
    total = sum(c.calls for c in callers)
    ctx.eq(counter("OVERLAPS").value, 0, "the number of overlapping calls",
           threads=n, calls=total)
    ctx.eq(counter("CALLS", ct.c_long).value, total, "the calls received by the library")
    ctx.eq(counter("INSIDE").value, 0, "the number of threads inside at the end")
    ctx.saw("threads", n)
    ctx.saw("locked calls", total)
    ctx.saw("calls from callbacks", sum(c.nested for c in callers))
    ctx.saw("failed calls", sum(c.failed for c in callers))
    at = counter("AT").value
    order = list((ct.c_int * 4096).in_dll(raw, "ORDER"))[: min(at, 4096)]
    switches = sum(1 for a, b in zip(order, order[1:]) if a != b)
    ctx.saw("entries after waiting", switches)
    ctx.case_key(n, us, form, order)
    ctx.kind("orders of entries", ctx.sig.hexdigest()[:12])

    # The other way round: without the option both threads are inside.
    so2 = gcc_lib(ctx, SRC, "free")
    lib2 = CLibrary(so2, CParser(path))
    out = []
    ts = [threading.Thread(target=lambda: out.append(lib2.meet(60000)()), daemon=True)
          for _ in range(2)]
    for t in ts:
        t.start()
    for t in ts:
        t.join(LIMIT)
    ctx.eq(out, [1, 1], "whether two threads meet inside an unlocked library")
    ctx.saw("unlocked meetings")
