"""A fresh interpreter following a history of initialisations (for C29).

Reads a JSON list of steps on stdin, writes a JSON list of what happened in the file named.
"""

import ctypes as ct
import json
import os
import random
import sys
import threading
import time

CLASSES = {}


def klass(spec):
    """The ctypes class of a description (the same one for the same text)."""
    if spec not in CLASSES:
        if spec.startswith("sub:"):
            c = type("Sub_" + spec[4:], (klass(spec[4:]),), {})
        elif spec.startswith("ptr:"):
            c = ct.POINTER(klass(spec[4:]))
        elif spec.startswith("arr:"):
            c = klass(spec[4:]) * 3
        elif spec.startswith("struct:"):
            c = type("St", (ct.Structure,), {
                "_fields_": [("p", klass(spec[7:])), ("q", ct.c_int)]})
        else:
            c = getattr(ct, spec)
        CLASSES[spec] = c
    return CLASSES[spec]


class Child:
    def __init__(self):
        from . import core

        from . import sut  # which does not initialise the parser

        self.sut = sut
        self.repo = core.REPO
        self.libs = []

    def args(self, step):
        types = step.get("types")
        if types is not None:
            types = {n: klass(c) for n, c in types.items()}
        mods = step.get("mods")
        if mods is not None:
            mods = list(mods)
        return types, mods

    def initialise(self, step):
        p = self.sut.pyclibrary
        types, mods = self.args(step)
        before = (None if types is None else dict(types),
                  None if mods is None else list(mods))
        fn = p.init if step["how"] == "init" else p.auto_init
        kw = {"os": step["os"]} if "os" in step else {}
        try:
            if step.get("kw"):
                kw.update({k: v for k, v in (("extra_types", types),
                                             ("extra_modifiers", mods))
                           if v is not None})
                fn(**kw)
            else:
                fn(types, mods, **kw)
            res = "ok"
        except RuntimeError:
            res = "RuntimeError"
        except Exception as e:
            res = "%s: %s" % (type(e).__name__, e)
        kept = (types, mods) == before and (
            types is None or list(types) == list(before[0]))
        # What the caller does with them afterwards is no business of the parser.
        if types is not None:
            types.clear()
            types.update({"late_t": ct.c_double, "int": ct.c_char})
        if mods is not None:
            mods[:] = ["int", "LATE"]
        return {"res": res, "kept": kept}

    def parse(self, step):
        p = self.sut.CParser(step["file"])
        return {"%s %s" % (k, n): repr(self.sut.freeze(v))
                for k in self.sut.KINDS for n, v in p.defs[k].items()}

    def threads(self, step):
        """Several threads at once, delayed at random places."""
        out = [None] * len(step["jobs"])
        barrier = threading.Barrier(len(out))
        for job in step["jobs"]:
            self.args(job)  # make the classes
        root = self.repo + os.sep + "pyclibrary"
        left = [400]

        def run(i, job):
            rng = random.Random(job["seed"])

            def line(frame, event, arg):
                if left[0] > 0 and rng.random() < job["p"]:
                    left[0] -= 1
                    time.sleep(rng.choice([0, 0, 1e-4, 1e-3]))
                return line

            def trace(frame, event, arg):
                if frame.f_code.co_filename.startswith(root):
                    name = frame.f_code.co_name
                    if name != "__setattr__":
                        return line(frame, event, arg)
                return None

            barrier.wait()
            sys.settrace(trace)
            try:
                if job["op"] == "init":
                    out[i] = self.initialise(job)
                elif job["op"] == "parse":
                    out[i] = self.parse(job)
                else:
                    self.sut.CParser()
                    out[i] = "ok"
            except BaseException as e:
                out[i] = "%s: %s" % (type(e).__name__, e)
            finally:
                sys.settrace(None)

        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-5)
        ts = [threading.Thread(target=run, args=(i, j))
              for i, j in enumerate(step["jobs"])]
        for t in ts:
            t.start()
        for t in ts:
            t.join(60)
        sys.setswitchinterval(old)
        return {"out": out, "alive": sum(t.is_alive() for t in ts),
                "delays": 400 - left[0]}

    def bind(self, step):
        """What the library makes of the types."""
        res = {}
        try:
            lib = self.sut.CLibrary(step["lib"], step["headers"])
        except Exception as e:
            return "%s: %s" % (type(e).__name__, e)
        self.libs.append(lib)
        for k, (given, values) in step["names"].items():
            r = res[k] = {}
            given = klass(given)
            try:
                cls = lib("types", "alias_%s" % k)
                r["class"] = k if cls is given else repr(cls)
                st = lib("structs", "s_%s" % k)
                member, ptr = st._fields_[1][1], lib("types", "ptr_%s" % k)
                r["member"] = k if member is given else repr(member)
                r["pointer"] = k if ptr is ct.POINTER(given) else repr(ptr)
                r["size"] = [ct.sizeof(st), getattr(lib, "size_%s" % k)()()]
                if values is None:
                    continue
                r["values"], r["called"] = [], []
                for v in values:
                    got = getattr(lib, "id_%s" % k)(v)()
                    r["values"].append(getattr(got, "value", got))
                    got = getattr(lib, "at_%s" % k)(cls(v))()[0]
                    r["values"].append(getattr(got, "value", got))
                    if cls.__module__ == "ctypes":
                        cb = getattr(lib, "cb_%s" % k)
                        fn = cb.arg_c_type(0)(lambda x: r["called"].append(x) or v)
                        r["values"].append(cb(fn, v)())
            except Exception as e:
                r["error"] = "%s: %s" % (type(e).__name__, e)
        return res

    def follow(self, steps):
        out = []
        for s in steps:
            if s["op"] == "init":
                out.append(self.initialise(s))
            elif s["op"] == "parser":
                self.sut.CParser()
                out.append("ok")
            elif s["op"] == "parse":
                out.append(self.parse(s))
            elif s["op"] == "threads":
                out.append(self.threads(s))
            elif s["op"] == "bind":
                out.append(self.bind(s))
        return out


if __name__ == "__main__":
    steps = json.load(sys.stdin)
    res = json.dumps(Child().follow(steps))
    with open(sys.argv[1], "w") as f:
        f.write(res)
