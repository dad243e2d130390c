"""C28: headers and libraries are found where they should, or refused."""

import ctypes as ct
import os
import re
import shutil
import subprocess
import sys

from ..core import gcc_lib
from ..sut import CLibrary, CParser, ready

from pyclibrary.utils import (  # noqa: E402
    add_header_locations, add_library_locations, find_header, find_library,
)

RULE = (
    "A case is a tree of directories (spaces, other alphabets, links, trailing slashes, "
    "relative ones) holding headers and libraries of the same names, each telling which "
    "it is, with traps: directories and dangling links of these names, "
    "names also found in the standard places, 32-bit libraries. A random history adds "
    "locations (some invalid), changes the lists it gave, looks for headers and "
    "libraries with or without directories, parses headers and opens libraries by name, "
    "path or from ctypes, standard ones too, and tries names holding shell commands. "
    "Oracle: a model of the search order for the file found and, by its content and by "
    "calling it, for the file used; an audit hook sees each library loaded. "
    "Distinct: by tree and history."
)
CASES = {"quick": 240, "thorough": 3000}
REQUIRE = {"linked headers": 300, "headers found": 800, "headers not found": 200, "libraries found": 700,
           "libraries not found": 40, "headers parsed": 300, "libraries opened": 400,
           "from the directories given": 500, "from the last added": 700,
           "from an older one": 300, "standard headers": 150, "standard libraries": 100,
           "other bitness": 50, "hostile names": 100}
ASSUMPTIONS = ["the 'file' program tells the bitness of libraries", "Linux"]

HEADERS = ["a.h", "b b.h", "sub/c.h", "stdio.h", "sys/types.h", "\xe9t\xe9.h", "noext"]
LIBS = ["liba.so", "b b.so", "sub/libc.so", "libm.so.6", "lib\xe9.so", "liba.so.1"]
STANDARD = ["/usr/local/include", "/usr/target/include", "/usr/include"]
MARK = b"\xef\xbe\xad\xde\x78\x56\x34\x12"

loaded = []
watching = [False]


def audit(event, args):
    if watching[0] and event == "ctypes.dlopen":
        loaded.append(args[0])


sys.addaudithook(audit)


class World:
    def __init__(self, ctx):
        self.ctx, self.rng = ctx, ctx.rng
        self.dirs, self.content, self.bits = [], {}, {}
        self.hdr_added, self.lib_added, self.open = [], [], {}
        self.trace, self.lists = [], []
        so = gcc_lib(ctx, "unsigned long ID[1] = {0x12345678deadbeefUL};\n"
                     "unsigned long where(void) { return ID[0]; }\n", "where")
        with open(so, "rb") as f:
            self.image = f.read()
        assert self.image.count(MARK) == 1
        # The locations are never forgotten: not the same ones in another case
        self.base = os.path.join(ctx.dir, "tree-%d-%d" % (os.getpid(), ctx.index))
        self.cwd = os.path.join(ctx.dir, "cwd")
        os.makedirs(self.cwd)
        names = ["one", "two two", "tr\xe8s", "four.d", "-five", "six(6)", "$HOME"]
        self.rng.shuffle(names)
        for n in names[: self.rng.randint(4, 7)]:
            self.directory(os.path.join(self.base, n))
        link = os.path.join(self.base, "link")
        os.symlink(self.rng.choice(self.dirs), link)
        self.dirs.append(link)
        # A few in the current directory
        for n in HEADERS:
            if self.rng.random() < 0.1:
                self.header(os.path.join(self.cwd, n))

    def directory(self, d):
        rng = self.rng
        os.makedirs(os.path.join(d, "sub"))
        self.dirs.append(d)
        for n in HEADERS:
            if rng.random() < 0.4:
                self.header(os.path.join(d, n))
            elif rng.random() < 0.15:
                self.trap(os.path.join(d, n))
        for n in LIBS:
            if rng.random() < 0.4:
                self.library(os.path.join(d, n), 32 if rng.random() < 0.12 else 64)
            elif rng.random() < 0.15:
                self.trap(os.path.join(d, n))

    def trap(self, path):
        os.makedirs(os.path.dirname(path), exist_ok=True)
        if self.rng.random() < 0.5:
            os.mkdir(path)
        else:
            os.symlink(path + "-missing", path)

    def header(self, path):
        os.makedirs(os.path.dirname(path), exist_ok=True)
        n = len(self.content) + 1
        real = path
        if self.rng.random() < 0.25:
            # A link to a file of another name
            self.ctx.saw("linked headers")
            real = os.path.join(self.ctx.path("real", "x")[:-2], "real_%d.hpp" % n)
            os.symlink(real, path)
        with open(real, "w") as f:
            f.write("#define WHERE %d\nunsigned long where(void);\n" % n)
        self.content[path] = n

    def library(self, path, bits):
        os.makedirs(os.path.dirname(path), exist_ok=True)
        n = len(self.content) + 1
        data = bytearray(self.image.replace(MARK, n.to_bytes(8, "little")))
        if bits == 32:
            data[4] = 1
            data[18] = 3
        with open(path, "wb") as f:
            f.write(data)
        self.content[path] = n
        self.bits[path] = bits

    # --- the model

    def some_dirs(self, k):
        """Directories, as one would write them."""
        out = []
        for d in self.rng.choices(self.dirs, k=k):
            r = self.rng.random()
            if r < 0.15:
                d += "/"
            elif r < 0.25:
                d = os.path.relpath(d, self.cwd)
            elif r < 0.3:
                d = os.path.join(d, "sub", "..")
            out.append(d)
        return out

    def expected(self, name, given, added, last=()):
        """(path, where from) of the file which must be found."""
        groups = [("the directories given", list(given or ()))]
        groups += [("the last added", added[-1:]), ("an older one", added[-2::-1])]
        groups.append(("the standard ones", list(last)))
        for label, ds in groups:
            for d in ds:
                p = os.path.join(d, name)
                if os.path.isfile(p):
                    self.ctx.saw("from " + label)
                    return p
        return None

    # --- the steps

    def add(self):
        rng = self.rng
        which = rng.random() < 0.5
        ds = self.some_dirs(rng.randint(0, 3))
        valid = list(ds)
        for bad in (os.path.join(self.base, "missing"), "", "nowhere",
                    *[p for p in self.content][:1]):
            if rng.random() < 0.2:
                ds.insert(rng.randint(0, len(ds)), bad)
        arg = rng.choice([list, tuple])(ds)
        before = list(arg)
        (add_header_locations if which else add_library_locations)(arg)
        self.ctx.eq(list(arg), before, "the list of locations after it was added")
        (self.hdr_added if which else self.lib_added).extend(valid)
        if isinstance(arg, list):
            self.lists.append(arg)

    def change_lists(self):
        """What is done later with the lists has no effect."""
        for x in self.lists:
            self.rng.choice([x.clear, lambda: x.extend(self.some_dirs(2)), x.reverse])()

    def given(self):
        if self.rng.random() < 0.4:
            return None
        ds = self.some_dirs(self.rng.randint(0, 3))
        if self.rng.random() < 0.3:
            ds.insert(self.rng.randint(0, len(ds)), os.path.join(self.base, "missing"))
        return ds

    def look(self, find, name, given):
        arg = list(given) if given is not None else None
        args = [name] if given is None and self.rng.random() < 0.5 else [name, arg]
        try:
            return find(*args)
        finally:
            self.ctx.eq(arg, given, "the list of directories given")

    def find_header(self):
        ctx = self.ctx
        name = self.rng.choice([*HEADERS, "missing.h", "errno.h"])
        given = self.given()
        want = self.expected(name, given, self.hdr_added, STANDARD)
        self.trace.append(("h", name, given))
        if want is None:
            ctx.saw("headers not found")
            ctx.raises(OSError, self.look, find_header, name, given)
            return
        got = self.look(find_header, name, given)
        ctx.saw("headers found")
        self.same_file(got, want, name)

    def same_file(self, got, want, name):
        self.ctx.true(os.path.isfile(got) and os.path.samefile(got, want),
                      "another file is found for %r" % name, got=got, expected=want)

    def find_library(self):
        ctx = self.ctx
        name = self.rng.choice([*LIBS, "libmissing.so"])
        given = self.given()
        want = self.expected(name, given, self.lib_added)
        self.trace.append(("l", name, given))
        if want is None:
            if name == "libm.so.6":
                self.standard(name)
                return
            ctx.saw("libraries not found")
            if self.rng.random() < 0.3:
                ctx.raises(OSError, self.look, find_library, name, given)
            return
        got = self.look(find_library, name, given)
        ctx.saw("libraries found")
        self.same_file(got, want, name)
        ctx.true(isinstance(got, str), "the path is not a string")
        bits = self.bits[os.path.join(os.path.realpath(os.path.dirname(want)),
                                      os.path.basename(want))]
        if self.rng.random() < 0.2:
            ctx.eq(got.is_32bit, bits == 32, "is_32bit")
            ctx.eq(got.is_64bit, bits == 64, "is_64bit")

    def parse(self):
        ctx = self.ctx
        name = self.rng.choice(HEADERS[:3] + HEADERS[5:])
        here = os.path.join(self.cwd, name)
        want = here if os.path.isfile(here) else \
            self.expected(name, None, self.hdr_added, STANDARD)
        self.trace.append(("p", name))
        if want is None:
            ctx.saw("headers not found")
            ctx.raises(OSError, CParser, [name])
            return
        p = CParser(self.rng.choice([name, [name], (name,)])
                    if self.rng.random() < 0.5 else [name])
        ctx.saw("headers parsed")
        ctx.eq(p.defs["values"].get("WHERE"), self.id(want), "the header parsed for " + name)
        ctx.eq({f for f, _ in p.find("where")}, {os.path.basename(name)},
               "the file it is attributed to")

    def id(self, path):
        d, n = os.path.split(path)
        return self.content[os.path.join(os.path.realpath(d), n)]

    def open_library(self):
        ctx, rng = self.ctx, self.rng
        by_path = rng.random() < 0.3
        if by_path:
            want = rng.choice(list(self.bits))
            name = rng.choice([want, os.path.relpath(want, self.cwd)])
            if os.sep not in name:
                name = "./" + name
        else:
            name = rng.choice([n for n in LIBS if "/" not in n])
            want = self.expected(name, None, self.lib_added)
        self.trace.append(("o", name))
        header = self.parser()
        loaded.clear()
        if want is None:
            if name != "libm.so.6":
                ctx.saw("libraries not found")
                ctx.raises(OSError, CLibrary, name, header)
                ctx.eq(loaded, [], "the libraries loaded")
            return
        real = os.path.join(os.path.realpath(os.path.dirname(want)), os.path.basename(want))
        if self.bits[real] == 32:
            ctx.saw("other bitness")
            ctx.raises(OSError, CLibrary, name, header)
            ctx.eq(loaded, [], "the libraries loaded before the refusal")
            return
        if rng.random() < 0.15:
            lib = CLibrary(ct.CDLL(os.path.abspath(want)), header)
        else:
            lib = CLibrary(name, header)
        ctx.saw("libraries opened")
        ctx.eq(lib.where()(), self.id(want), "the library opened for %r" % name)
        self.open[real] = lib

    def parser(self):
        return CParser([next(p for p, n in self.content.items() if p not in self.bits)])

    def wrong_path(self):
        ctx = self.ctx
        bad = self.rng.choice([
            os.path.join(self.base, "missing.so"), self.base, "./nothing.so",
            os.path.join(self.base, ""), self.dirs[0] + "/sub",
        ])
        loaded.clear()
        ctx.raises(Exception, CLibrary, bad, self.parser())
        ctx.eq(loaded, [], "the libraries loaded for a wrong path")

    def standard(self, name=None):
        """A library of the system, by the name of its file or of the library."""
        ctx, rng = self.ctx, self.rng
        if name is None:
            name = rng.choice(["m", "c", "libc.so.6", "libm.so.6", *rng.choices(NAMES, k=3)])
            if rng.random() < 0.3:
                name = name[3:].split(".so")[0] if name.startswith("lib") else name
        if self.expected(name, None, self.lib_added):
            return
        exact = [p for n, p in SYSTEM if n == name]
        short = [p for n, p in SYSTEM if n.startswith("lib%s.so" % name)]
        self.trace.append(("s", name))
        if not exact and not short:
            return
        ctx.saw("standard libraries")
        got = find_library(name)
        ctx.true(any(os.path.samefile(got, p) for p in exact or short),
                 "another library is found for %r" % name, got=got, expected=exact or short)
        if name == "libc.so.6":
            h = self.ctx.path("labs.h")
            with open(h, "w") as f:
                f.write("long labs(long x);\n")
            n = -rng.getrandbits(62)
            ctx.eq(CLibrary(name, CParser([h])).labs(n)(), -n, "labs of libc")

    def standard_header(self):
        """One only found in the standard places."""
        ctx = self.ctx
        name = self.rng.choice(["errno.h", "math.h", "linux/types.h", "wchar.h"])
        want = self.expected(name, None, self.hdr_added, STANDARD)
        if want is None:
            return
        ctx.saw("standard headers")
        self.same_file(find_header(name), want, name)

    def hostile(self):
        """The name of a library is never a command."""
        ctx, rng = self.ctx, self.rng
        target = os.path.join(self.cwd, "owned")
        name = rng.choice([
            "x; touch owned;", "x$(touch owned)", "x`touch owned`", "x | touch owned",
            "x & touch owned", "x\ntouch owned\n", "' ; touch owned ; '", '" ; touch owned ; "',
            "x || touch owned", "x && touch owned", "a -o owned", "m -o owned",
            "m' -o owned '", "x > owned", "${IFS}touch${IFS}owned", "-o owned",
        ])
        ctx.saw("hostile names")
        try:
            if rng.random() < 0.5:
                find_library(name)
            else:
                CLibrary(name, self.parser())
        except OSError:
            pass
        ctx.true(not os.path.lexists(target), "the name of a library was run as a command",
                 name=name)


def system():
    out = subprocess.run(["/sbin/ldconfig", "-p"], capture_output=True, text=True).stdout
    res = []
    for line in out.splitlines():
        m = re.match(r"\s+(\S+) \(.*x86-64.*\) => (\S+)$", line)
        if m and os.path.isfile(m.group(2)):
            res.append(m.groups())
    return res


SYSTEM = system()
#: Names whose text is not in another one after 'lib'
NAMES = [n for n, _ in SYSTEM if n.count("lib") == 1 and n.startswith("lib")]


def case(ctx):
    ready()
    w = World(ctx)
    old = os.getcwd()
    os.chdir(w.cwd)
    watching[0] = True
    try:
        w.add()
        steps = [w.add, w.add, w.change_lists, w.find_header, w.find_header, w.find_header,
                 w.find_library, w.find_library, w.find_library, w.parse, w.open_library,
                 w.open_library, w.wrong_path, w.standard_header]
        for _ in range(ctx.rng.randint(30, 50)):
            ctx.rng.choice(steps)()
        w.hostile()
        w.standard()
    finally:
        watching[0] = False
        os.chdir(old)
    ctx.kind("directories added", len(w.hdr_added) + len(w.lib_added))
    tree = os.path.basename(w.base)
    ctx.case_key(repr([sorted(w.content), w.trace]).replace(ctx.dir, "").replace(tree, ""))
    shutil.rmtree(w.base, ignore_errors=True)
