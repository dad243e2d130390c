"""What every check shares: cases, verdicts, and the observation counters."""

import hashlib
import json
import os
import random
import shutil
import subprocess
import sys
import traceback

REPO = os.path.realpath(os.environ.get("VF_REPO", "/repo"))
VERIF = os.path.realpath(os.path.join(os.path.dirname(__file__), ".."))
SCRATCH = os.environ.get("VF_SCRATCH") or "/tmp"


class Violation(Exception):
    """The property does not hold on the observed execution."""

    def __init__(self, mess, **details):
        super().__init__(mess)
        self.details = details


class Infra(Exception):
    """The machinery itself could not work: no verdict."""


def import_sut():
    """Import pyclibrary from the working tree of the repository."""
    sys.path.insert(0, REPO)
    import logging

    logging.getLogger().addHandler(logging.NullHandler())
    import pyclibrary

    where = os.path.realpath(pyclibrary.__file__)
    if not where.startswith(REPO + os.sep):
        raise Infra("pyclibrary comes from %s" % where)
    return pyclibrary


def short(obj, n=600):
    s = obj if isinstance(obj, str) else repr(obj)
    return s if len(s) <= n else s[: n - 3] + "..."


class Ctx:
    """One case: its random choices, its scratch directory, its counters."""

    def __init__(self, prop, seed, tier, index):
        self.prop, self.seed, self.tier, self.index = prop, seed, tier, index
        self.rng = random.Random("%s/%s/%s" % (prop, seed, index))
        self.events = {}
        self.distinct = {}
        self.sig = hashlib.sha1()
        self.nontrivial = False
        self.sample = None
        self.inputs = {}
        self._dir = None

    # --- scratch

    @property
    def dir(self):
        if self._dir is None:
            self._dir = os.path.join(SCRATCH, "case-%d-%d" % (os.getpid(), self.index))
            os.makedirs(self._dir)
        return self._dir

    def cleanup(self):
        if self._dir is not None:
            shutil.rmtree(self._dir, ignore_errors=True)
            self._dir = None

    def path(self, *names):
        p = os.path.join(self.dir, *names)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        return p

    def write(self, name, text, encoding="utf-8"):
        """Write an input file of the case (kept in the replay file)."""
        p = self.path(name)
        if isinstance(text, bytes):
            with open(p, "wb") as f:
                f.write(text)
            self.inputs[name] = text.decode("latin1")
        else:
            with open(p, "w", encoding=encoding, newline="") as f:
                f.write(text)
            self.inputs[name] = text
        return p

    # --- observations

    def saw(self, event, n=1):
        """Count an observed event."""
        self.events[event] = self.events.get(event, 0) + n

    def kind(self, what, value):
        """Record a distinct observed state/shape."""
        self.distinct.setdefault(what, set()).add(str(value))

    def case_key(self, *what):
        """What makes this case distinct from the others."""
        self.nontrivial = True
        for w in what:
            self.sig.update(str(w).encode("utf-8", "replace"))

    # --- verdicts

    def fail(self, mess, **details):
        raise Violation(mess, **{k: short(v, 4000) for k, v in details.items()})

    def eq(self, got, expected, what, **details):
        """The oracle: what was observed must be what is expected."""
        self.saw("comparisons")
        if type(got) is bool or type(expected) is bool:
            same = type(got) is type(expected) and got == expected
        else:
            same = got == expected
        if not same:
            self.fail("%s differs" % what, got=got, expected=expected, **details)

    def true(self, cond, what, **details):
        self.saw("comparisons")
        if not cond:
            self.fail(what, **details)

    def raises(self, excs, fn, *args, **kwargs):
        """fn must raise one of the exceptions; returns it."""
        self.saw("rejections checked")
        try:
            res = fn(*args, **kwargs)
        except excs as e:
            return e
        except Exception as e:
            self.fail(
                "wrong exception: expected %s" % (excs,),
                got="%s: %s" % (type(e).__name__, e),
            )
        self.fail("no exception raised: expected %s" % (excs,), got=res)


def run_case(mod, prop, seed, tier, index):
    """Run one case, return its JSON-able record."""
    ctx = Ctx(prop, seed, tier, index)
    rec = {"i": index, "verdict": "held"}
    try:
        mod.case(ctx)
    except Violation as e:
        rec.update(
            verdict="violated", mess=str(e), details=e.details, tb=tb_text(), hard=True
        )
    except Infra as e:
        rec.update(verdict="infra", mess=str(e), tb=tb_text())
    except (MemoryError, KeyboardInterrupt):
        rec.update(verdict="infra", mess="out of memory or interrupted")
    except Exception as e:
        # The real code failed, or gave something the oracle cannot read.
        text = tb_text()
        rec.update(
            verdict="violated",
            mess="unexpected %s: %s" % (type(e).__name__, short(str(e))),
            details={},
            tb=text,
            hard=(REPO + os.sep + "pyclibrary") in text,
        )
    finally:
        ctx.cleanup()
    rec["ev"] = ctx.events
    rec["distinct"] = {k: sorted(v) for k, v in ctx.distinct.items()}
    rec["nt"] = ctx.nontrivial
    rec["sig"] = ctx.sig.hexdigest()[:16]
    if rec["verdict"] == "violated":
        rec["inputs"] = ctx.inputs
    elif index < 3:
        rec["sample"] = ctx.sample or {k: short(v, 1500) for k, v in ctx.inputs.items()}
    return rec


def tb_text():
    return traceback.format_exc(limit=-12)


# --- compiler ---------------------------------------------------------------


def run_tool(cmd, inp=None, timeout=300, ok=(0,), env=None, cwd=None):
    """Run an external tool whose failure says nothing about the property."""
    if env is None:
        # Not under the sanitizer the case may run under.
        env = {k: v for k, v in os.environ.items() if k not in ("LD_PRELOAD",)}
    try:
        r = subprocess.run(
            cmd,
            input=inp,
            stdout=subprocess.PIPE,
            stderr=subprocess.PIPE,
            timeout=timeout,
            env=env,
            cwd=cwd,
        )
    except subprocess.TimeoutExpired:
        raise Infra("%s timed out" % cmd[0])
    except OSError as e:
        raise Infra("%s: %s" % (cmd[0], e))
    if ok is not None and r.returncode not in ok:
        raise Infra(
            "%s failed: %s\n%s"
            % (
                " ".join(cmd),
                r.stderr.decode("utf-8", "replace")[-3000:],
                short((inp or b"").decode("utf-8", "replace"), 3000),
            )
        )
    return r


def gcc_run(ctx, source, name="oracle", flags=()):
    """Compile and run a C program, return its standard output."""
    src = ctx.path(name + ".c")
    with open(src, "w") as f:
        f.write(source)
    exe = ctx.path(name + ".exe")
    run_tool(["gcc", "-w", "-O0", "-o", exe, src, *flags])
    return run_tool([exe]).stdout.decode("utf-8", "replace")


def gcc_lib(ctx, source, name="lib", flags=()):
    """Compile a shared library, whose path is unique to the case."""
    src = ctx.path(name + ".c")
    with open(src, "w") as f:
        f.write(source)
    so = ctx.path("lib%s-%d-%d.so" % (name, os.getpid(), ctx.index))
    run_tool(
        ["gcc", "-w", "-O1", "-fPIC", "-shared", "-o", so, src, "-pthread", *flags]
    )
    return so


def cpp(text, flags=()):
    """What the C preprocessor makes of a text (without line markers)."""
    r = run_tool(
        ["gcc", "-E", "-P", "-w", "-undef", "-x", "c", *flags, "-"], text.encode()
    )
    return r.stdout.decode()


def dumps(obj):
    return json.dumps(obj, default=repr, ensure_ascii=True)
