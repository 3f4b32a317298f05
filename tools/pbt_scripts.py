"""D01 D02 D03: the scripts and make targets of the repository that write and remove files. D04: its build.

They run as an unprivileged user, on a copy of the repository's files in a scratch directory, with a stand-in for cmake.
"""
import argparse, base64, hashlib, hmac, json, os, random, shutil, stat, subprocess, sys, tempfile, time, traceback
from hypothesis import HealthCheck, Phase, given, seed, settings, strategies as st

REPO = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))
NOBODY = 65534
TOOLS = "sh bash echo mkdir cp rm make cat python3 env printf test true install find ln mv touch chmod dirname basename uname sed ls rmdir unlink ctest".split()


class Broken(Exception):
    pass


class Box:
    """A scratch directory that belongs to the unprivileged user"""

    def __init__(self, real=None):
        self.d = tempfile.mkdtemp(prefix="pgfe-scripts-")
        os.chmod(self.d, 0o755)
        self.src = self.d + "/" + (real or "src")
        os.mkdir(self.src)
        if real:  # for real builds
            for n in ("CMakeLists.txt", "Makefile", "metadata.mak", "project.json", "README.md", "LICENSE-MIT", "LICENSE-APACHE"):
                if os.path.exists(REPO + "/" + n):
                    shutil.copy(REPO + "/" + n, self.src)
            for n in ("include", "src", "cmake", "tests", "scripts"):
                shutil.copytree(REPO + "/" + n, self.src + "/" + n, ignore=shutil.ignore_patterns("__pycache__"))
            os.mkdir(self.d + "/out")
            for n in (self.src, self.d + "/out"):
                self.give(n)
            self.path = "/usr/bin:/bin"
            return
        self.path = self.d + "/bin"
        for n in ("Makefile", "metadata.mak", "project.json"):
            if os.path.exists(REPO + "/" + n):
                shutil.copy(REPO + "/" + n, self.src)
        for n in ("include", "scripts"):
            shutil.copytree(REPO + "/" + n, self.src + "/" + n, ignore=shutil.ignore_patterns("__pycache__"))
        os.mkdir(self.d + "/bin")
        for t in TOOLS:
            p = shutil.which(t, path="/usr/bin:/bin")
            if p:
                os.symlink(p, self.d + "/bin/" + t)
        with open(self.d + "/bin/cmake", "w") as f:  # a build makes the library out of a file of the harness
            f.write("#!/bin/sh\nmkdir -p build\ncp -f lib.bin build/libpgfe.so\n")
        os.chmod(self.d + "/bin/cmake", 0o755)
        self.give(self.src)
        os.mkdir(self.d + "/to")
        self.give(self.d + "/to")

    def give(self, top):
        if os.getuid() == 0:
            for base, dirs, files in os.walk(top):
                for n in [base] + [os.path.join(base, f) for f in files]:
                    os.lchown(n, NOBODY, NOBODY)

    def run(self, cmd, ok=True, text=None, **more):
        who = dict(user=NOBODY, group=NOBODY, extra_groups=[]) if os.getuid() == 0 else {}
        r = subprocess.run(cmd, cwd=self.src, **(dict(stdin=subprocess.DEVNULL) if text is None else dict(input=text)), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=600 if more else 120,
                           env=dict({"PATH": self.path, "HOME": self.src, "LC_ALL": "C.UTF-8", "PYTHONDONTWRITEBYTECODE": "1"}, **more), **who)
        if r.returncode < 0 and (text is None or r.returncode == -9):
            raise MemoryError("killed by signal %d" % -r.returncode)
        if ok and r.returncode:
            raise Broken("%s ended with status %d: %s" % (" ".join(cmd).replace(self.d, ""), r.returncode, r.stdout[-700:].replace(self.d, "")))
        return r

    def write(self, path, text):
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w", encoding="utf-8", errors="surrogateescape", newline="") as f:
            f.write(text)

    def close(self):
        shutil.rmtree(self.d, ignore_errors=True)


def tree(top):
    """Files (with their contents), and directories"""
    files, dirs = {}, set()
    for base, ds, fs in os.walk(top):
        for n in ds:
            p = os.path.join(base, n)
            if os.path.islink(p):
                files[os.path.relpath(p, top)] = "-> " + os.readlink(p)
            else:
                dirs.add(os.path.relpath(p, top))
        for n in fs:
            p = os.path.join(base, n)
            files[os.path.relpath(p, top)] = "-> " + os.readlink(p) if os.path.islink(p) else open(p, "rb").read().decode("latin-1")
    return files, dirs


def differences(got, want):
    out = []
    for k in sorted(set(got) | set(want)):
        if k not in got:
            out.append("%s is missing" % k)
        elif k not in want:
            out.append("%s should not be there" % k)
        elif got[k] != want[k]:
            out.append("%s has other contents (%d instead of %d bytes)" % (k, len(got[k]), len(want[k])))
    return "; ".join(out[:6])


# ------------------------------------------------------------------------------------------------ D01
word = st.text("abcdefgxyz0123_", min_size=1, max_size=6)
odd = st.sampled_from(["a b", "é", "x'y", "a;b", "$HOME", "(z)", "-n", "*"])
places = st.lists(st.sampled_from(["usr/include", "usr/lib", "opt", "inc", "lib", "a/b/c", "usr/local/include", "usr"]), min_size=1, max_size=3, unique=True)
others = st.sampled_from(["stdio.h", "libpgfe.h", "libpgfe2/x.h", "libpgfe.so.1", "libpgfe.a", "libpgfexx.so", "zlib/zlib.h", "pgfe.hpp", "libother.so", "README", "sub/deep/er/file.hpp", "libpgf", "x.hpp"])
step_make = st.fixed_dictionaries(dict(op=st.sampled_from(["make install", "make uninstall"]), h=st.integers(0, 2), l=st.integers(0, 2), rel=st.booleans(), slash=st.booleans()))
step_py = st.fixed_dictionaries(dict(op=st.sampled_from(["deploy", "undeploy"]), h=st.lists(st.integers(0, 2), max_size=3), l=st.lists(st.integers(0, 2), max_size=3), rel=st.booleans(), form=st.integers(0, 2)))
step_user = st.fixed_dictionaries(dict(op=st.just("write"), at=st.integers(0, 2), name=others, text=st.text("ab\n", max_size=5)))
step_up = st.fixed_dictionaries(dict(op=st.just("upgrade"), lib=st.text("01", max_size=8), header=st.sampled_from(["libpgfe/new.h", "libpgfe/hashes/sha4.h", "libpgfe/fresh/deep/x.hpp", "libpgfe/utils.h"]), text=st.text("ab\n", max_size=5), drop=st.booleans()))
D01 = st.fixed_dictionaries(dict(places=places, odd=st.one_of(st.none(), odd), before=st.lists(st.tuples(st.integers(0, 2), others), max_size=4),
                                 steps=st.lists(st.one_of(step_make, step_py, step_py, step_user, step_up), min_size=2, max_size=8)))


def d01(case):
    box = Box()
    try:
        to = box.d + "/to"
        ps = list(case["places"])
        python_only = case["odd"] is not None
        if python_only:
            ps[0] += "/" + case["odd"]

        def place(i):
            return ps[i % len(ps)]
        for i, n in case["before"]:
            box.write("%s/%s/%s" % (to, place(i), n), "before %s" % n)
        box.give(to)
        box.write(box.src + "/lib.bin", "library")
        box.write(box.src + "/build/libpgfe.so", "library")
        box.give(box.src)
        files, dirs = tree(to)
        work = 0
        for s in case["steps"]:
            headers = {k: v for k, v in tree(box.src + "/include")[0].items()}
            lib = open(box.src + "/lib.bin").read()

            def name(i, s=s):
                return os.path.relpath(to + "/" + place(i), box.src) if s["rel"] else to + "/" + place(i)
            if s["op"] in ("make install", "make uninstall"):
                h, l = name(s["h"]), name(s["l"])
                if python_only:
                    continue
                if s["slash"]:
                    h, l = h + "/", l + "/"
                box.run(["make"] + s["op"].split()[1:] + ["HEADER_DIR=" + h, "LIB_DIR=" + l])
                hs, ls = [place(s["h"])], [place(s["l"])]
            elif s["op"] in ("deploy", "undeploy"):
                h, l = [name(i) for i in s["h"]], [name(i) for i in s["l"]]
                if any(os.path.basename(x).startswith("-") for x in h + l if not x.startswith("/")):
                    continue
                cmd = ["python3", "scripts/deploy.py"]
                if s["form"] == 0:
                    cmd += ["-h"] + h + ["-l"] + l
                elif s["form"] == 1:
                    cmd += ["--lib-dir"] + l + ["--header-dir"] + h
                else:
                    cmd += [x for y in h or [None] for x in (["-h", y] if y else ["-h"])] + [x for y in l or [None] for x in (["-l", y] if y else ["-l"])]
                if s["op"] == "undeploy":
                    cmd.insert(2 + (s["form"] == 1) * (len(cmd) - 2), "-u")
                elif l and not os.path.exists(box.src + "/build/libpgfe.so"):
                    continue
                box.run(cmd)
                hs, ls = [place(i) for i in s["h"]], [place(i) for i in s["l"]]
            elif s["op"] == "write":
                if s["name"].split("/")[0] == "libpgfe":
                    continue
                p = place(s["at"]) + "/" + s["name"]
                if p in dirs or any(q == f for f in files for q in [p[:i] for i, ch in enumerate(p) if ch == "/"]):
                    continue
                box.write(to + "/" + p, s["text"])
                box.give(to)
                files, dirs = tree(to)
                continue
            else:
                p = box.src + "/include/" + s["header"]
                box.write(p, s["text"])
                if s["drop"] and os.path.exists(box.src + "/include/libpgfe/version.h"):
                    os.unlink(box.src + "/include/libpgfe/version.h")
                box.write(box.src + "/lib.bin", s["lib"])
                box.write(box.src + "/build/libpgfe.so", s["lib"])
                box.give(box.src)
                continue
            work += 1
            if s["op"] in ("make install", "deploy"):
                for p in hs:
                    for k, v in headers.items():
                        files[p + "/" + k] = v
                for p in ls:
                    files[p + "/libpgfe.so"] = lib
            else:
                for p in hs:
                    for k in [k for k in files if k.startswith(p + "/libpgfe/")]:
                        del files[k]
                    dirs = {d for d in dirs if d != p + "/libpgfe" and not d.startswith(p + "/libpgfe/")}
                for p in ls:
                    files.pop(p + "/libpgfe.so", None)
            got, gdirs = tree(to)
            bad = differences(got, files)
            if bad:
                raise Broken("after %s: %s" % (s["op"], bad))
            if not dirs <= gdirs:
                raise Broken("after %s: directories are gone: %s" % (s["op"], ", ".join(sorted(dirs - gdirs)[:5])))
            if s["op"] in ("make uninstall", "undeploy"):
                for p in hs:
                    if os.path.lexists("%s/%s/libpgfe" % (to, p)):
                        raise Broken("after %s: the directory of the headers is still there" % s["op"])
            dirs = gdirs
            now = {k: v for k, v in tree(box.src + "/include")[0].items()}
            if now != headers:
                raise Broken("after %s: the headers of the source tree changed: %s" % (s["op"], differences(now, headers)))
        return work >= 2, [s["op"] for s in case["steps"]]
    finally:
        box.close()


# ------------------------------------------------------------------------------------------------ D02
number = st.one_of(st.integers(0, 20), st.integers(0, 10 ** 6))
variant = st.one_of(st.none(), st.text("abcrt0123456789.-", min_size=1, max_size=12), st.sampled_from(["beta", "rc.1", "alpha-2", "0", "-", "1.2.3", "a-b-c"]))
D02 = st.fixed_dictionaries(dict(name=st.text("abcdefghijklmnopqrstuvwxyz0123456789-_", min_size=1, max_size=12), version=st.tuples(number, number, number), variant=variant,
                                 more=st.dictionaries(word, word, max_size=2), order=st.booleans(), indent=st.integers(0, 4),
                                 old=st.sampled_from(["committed", "missing", "longer"]), bad=st.sampled_from([None, None, None, "no version", "no name", "text", "letters", "not json"])))


def c_macros(text):
    out = {}
    for l in text.splitlines():
        w = l.split(None, 2)
        if len(w) == 3 and w[0] == "#define":
            out[w[1]] = w[2]
    return out


def d02(case):
    box = Box()
    try:
        targets = {"metadata.mak": box.src + "/metadata.mak", "version.h": box.src + "/include/libpgfe/version.h"}
        committed = {k: open(p).read() for k, p in targets.items()}
        # the committed files are what the committed project makes of them
        box.run(["python3", "scripts/update_meta.py"])
        for k, p in targets.items():
            if open(p).read() != committed[k]:
                raise Broken("%s does not belong to project.json" % k)
        for k, p in targets.items():
            if case["old"] == "missing":
                os.unlink(p)
            elif case["old"] == "longer":
                box.write(p, "x" * 5000)
        box.give(box.src)
        before = tree(box.src)[0]
        v = "%d.%d.%d" % tuple(case["version"]) + ("-" + case["variant"] if case["variant"] is not None else "")
        j = {"name": case["name"], "version": v}
        for k, w in case["more"].items():
            if k not in j:
                j[k] = w
        if case["order"]:
            j = dict(reversed(list(j.items())))
        bad = case["bad"]
        if bad == "no version":
            del j["version"]
        elif bad == "no name":
            del j["name"]
        elif bad == "letters":
            j["version"] = "a.b.c"
        t = json.dumps(j, indent=case["indent"] or None)
        if bad == "text":
            t = t[:-1]
        elif bad == "not json":
            t = ""
        box.write(box.src + "/project.json", t)
        box.give(box.src)
        before["project.json"] = t
        r = box.run(["python3", "scripts/update_meta.py"], ok=bad is None)
        got = tree(box.src)[0]
        if bad:
            if r.returncode == 0:
                raise Broken("a project without %s is accepted" % bad)
            d = differences(got, before)
            if d:
                raise Broken("a rejected project leaves changes: " + d)
            return True, ["rejected"]
        want = dict(before)
        for k in ("metadata.mak", "include/libpgfe/version.h"):
            want[k] = got.get(k)
        d = differences(got, want)
        if d:
            raise Broken("other files changed: " + d)
        if None in want.values():
            raise Broken("a file was not written")
        m = c_macros(got["include/libpgfe/version.h"])
        exp = {"LIBPGFE_MAJOR_VERSION": str(case["version"][0]), "LIBPGFE_MINOR_VERSION": str(case["version"][1]), "LIBPGFE_REVISION": str(case["version"][2]),
               "LIBPGFE_VARIANT": '"%s"' % (case["variant"] or ""), "LIBPGFE_VERSION": '"%s"' % v}
        for k, w in exp.items():
            if m.get(k) != w:
                raise Broken("%s is %s instead of %s" % (k, m.get(k), w))
        old = c_macros(committed["version.h"])
        if set(m) != set(old):
            raise Broken("macros of version.h: %s" % sorted(set(m) ^ set(old)))
        mk = [l for l in got["metadata.mak"].splitlines()]
        exp = {"PROJECT": case["name"], "VERSION": v}
        for l, o in zip(mk + [""] * 50, committed["metadata.mak"].splitlines()):
            k = o.split(":=")[0].strip()
            if k in exp:
                if l.split(":=", 1)[-1].strip() != exp[k]:
                    raise Broken("metadata.mak has '%s' for %s" % (l, exp[k]))
            elif l != o:
                raise Broken("metadata.mak has '%s' instead of '%s'" % (l, o))
        if len(mk) != len(committed["metadata.mak"].splitlines()):
            raise Broken("metadata.mak has %d lines" % len(mk))
        box.run(["python3", "scripts/update_meta.py"])
        d = differences(tree(box.src)[0], got)
        if d:
            raise Broken("the second run changes something: " + d)
        return True, [case["old"], "variant" if case["variant"] else "plain"]
    finally:
        box.close()


# ------------------------------------------------------------------------------------------------ D03
content = st.lists(st.sampled_from(["/*", "*/", "//", "#pragma once", "\n", " ", "int x;", "/", "*", "é", "'''", "{0}", "\t", "\r\n", "\r", "\udcff", "\udcc3"]), max_size=7).map("".join)
fname = st.tuples(word, st.sampled_from([".c", ".h", ".cpp", ".hpp", ".py", ".txt", ".md", "", ".cc", ".h.in", ".C", ".hpp.c", ".c.h"])).map(lambda t: "f" + t[0] + t[1])
subdir = st.sampled_from(["", "include", "src", "test", "include/libpgfe", "src/hashes", "src/core/deep", "docs", "docs/src", "build", "include/src", "srcs", "x.h", "src.c", "c", "include/y.hpp", "src/z.c/w"])
D03 = st.fixed_dictionaries(dict(files=st.lists(st.tuples(subdir, fname, content), min_size=1, max_size=8), single=st.booleans(), slash=st.booleans()))
HEADER = "/*\n  libpgfe\n  %s\n\n  Copyright (c) 2022-2023 Charles Dong\n*/\n"


def d03(case):
    box = Box()
    try:
        top = box.src + "/tree"
        os.mkdir(top)
        for d, n, t in case["files"]:
            box.write(os.path.join(top, d, n), t)
        box.give(top)
        before = tree(top)[0]
        arg = top
        if case["single"]:
            only = sorted(before)[0]
            arg += "/" + only
        elif case["slash"]:
            arg += "/"
        want = {}
        for k, v in before.items():
            parts = k.split("/")
            mine = parts[-1].split(".")[-1] in ("c", "h", "cpp", "hpp") and "." in parts[-1] and (len(parts) == 1 or parts[0] in ("include", "src", "test"))
            if case["single"]:
                mine = k == only
            want[k] = HEADER % parts[-1] + "\n" + v if mine and not v.startswith("/*") else v
        for time in ("", "a second time "):
            box.run(["python3", "scripts/comment_header.py", arg])
            d = differences(tree(top)[0], want)
            if d:
                raise Broken("run %s: %s" % (time, d))
        return want != before, ["one file" if case["single"] else "a tree"]
    finally:
        box.close()


# ------------------------------------------------------------------------------------------------ D04
HASHES = {"md5": "md5", "sha1": "sha1", "sha224": "sha224", "sha256": "sha256", "sha384": "sha384", "sha512": "sha512", "sha512_224": "sha512_224", "sha512_256": "sha512_256",
          "sha3_224": "sha3_224", "sha3_256": "sha3_256", "sha3_384": "sha3_384", "sha3_512": "sha3_512", "shake128": "shake_128", "shake256": "shake_256"}
BASES = {"base16": base64.b16encode, "base32": base64.b32encode, "base32hex": base64.b32hexencode, "base64": base64.b64encode, "base64_url": base64.urlsafe_b64encode}
MACS = [h for h in sorted(HASHES) if h[:5] != "shake"]
# prints what the library computes
USER = r"""
import ctypes, json, os, sys
lib = ctypes.CDLL(sys.argv[1], mode=os.RTLD_NOW)
S, P, U = ctypes.c_size_t, ctypes.c_char_p, ctypes.c_uint64
for what, name, size, key, data in json.loads(sys.stdin.read()):
    k, d = bytes.fromhex(key), bytes.fromhex(data)
    o = ctypes.create_string_buffer(4 * len(d) + 4096)
    if what == "hash":
        a = (P(d), S(len(d)), o) + ((S(8 * size),) if name.startswith("shake") else ())
        getattr(lib, "pgfe_%s_encode" % name)(*a)
        print(o.raw[:size].hex())
    elif what == "hmac":
        getattr(lib, "pgfe_hmac_%s" % name)(P(k), S(len(k)), P(d), S(len(d)), o)
        print(o.raw[:size].hex())
    elif what == "base":
        getattr(lib, "pgfe_encode_%s" % name)(P(d), S(len(d)), o)
        print("=" + o.value.decode("latin-1"))
    else:
        f = lib.pgfe_hotp_6digits
        f.restype = ctypes.c_uint32
        print(f(P(k), S(len(k)), U(size)))
"""
data = st.binary(max_size=300).map(bytes.hex)
use = st.one_of(st.tuples(st.just("hash"), st.sampled_from(sorted(HASHES)), st.integers(1, 400), st.just(""), data),
                st.tuples(st.just("hmac"), st.sampled_from(MACS), st.just(0), data, data),
                st.tuples(st.just("base"), st.sampled_from(sorted(BASES)), st.just(0), st.just(""), data),
                st.tuples(st.just("hotp"), st.just(""), st.integers(0, 2**64 - 1), data, st.just("")))
types = st.sampled_from(["", "Debug", "Release", "RelWithDebInfo", "MinSizeRel"])
flags = st.lists(st.sampled_from(["-O1", "-O2", "-O3", "-Os", "-Wall", "-Wextra", "-fno-strict-aliasing", "-fstack-protector-strong", "-D_FORTIFY_SOURCE=2", "-D_GNU_SOURCE", "-DNDEBUG", "-ffunction-sections",
                                  "-fno-plt", "-funroll-loops", "-g", "-fomit-frame-pointer", "-funsigned-char", "-fno-common", "-fno-builtin", "-fwrapv"]), max_size=3, unique=True)
D04 = st.fixed_dictionaries(dict(how=st.sampled_from(["cmake"] * 8 + ["toolchain", "make", "make rebuild", "make build-x86_64"]), cc=st.sampled_from(["gcc", "clang"]), cxx=st.sampled_from(["g++", "clang++"]), type=types,
                                 gen=st.sampled_from(["Ninja", "Unix Makefiles"]), testing=st.booleans(), cflags=flags, cxxflags=flags, src=st.sampled_from(["src", "src", "my project", "é", "a+b", "libpgfe-0.7"]), inside=st.booleans(),
                                 again=st.one_of(st.none(), types), uses=st.lists(use, max_size=8), salt=st.integers(0, 2**32)))


def more_uses(salt):
    r = random.Random(salt)
    out = []

    def some():
        n = r.choice([0, 0, 1, r.randrange(40), r.randrange(300), r.choice([55, 56, 63, 64, 65, 111, 112, 127, 128, 129, 135, 136, 137]), r.randrange(3000)])
        return r.randbytes(n).hex()
    for _ in range(150):
        what = r.choice(["hash", "hash", "hmac", "base", "hotp"])
        if what == "hash":
            out.append((what, r.choice(sorted(HASHES)), r.randint(1, 400), "", some()))
        elif what == "hmac":
            out.append((what, r.choice(MACS), 0, some(), some()))
        elif what == "base":
            out.append((what, r.choice(sorted(BASES)), 0, "", some()))
        else:
            out.append((what, "", r.choice([r.randrange(300), r.getrandbits(64)]), some(), ""))
    return out



def d04(case):
    box = Box(case["src"])
    try:
        want = []
        uses = []
        for what, name, size, k, d in list(case["uses"]) + more_uses(case["salt"]):
            kb, db = bytes.fromhex(k), bytes.fromhex(d)
            if what == "hash":
                h = hashlib.new(HASHES[name], db)
                size = size if h.digest_size == 0 else h.digest_size
                want.append(h.hexdigest(size) if name.startswith("shake") else h.hexdigest())
            elif what == "hmac":
                size = hashlib.new(HASHES[name]).digest_size
                want.append(hmac.new(kb, db, HASHES[name]).hexdigest())
            elif what == "base":
                want.append("=" + BASES[name](db).decode())
            else:
                m = hmac.new(kb, size.to_bytes(8, "big"), "sha1").digest()
                o = m[19] & 15
                want.append(str((int.from_bytes(m[o:o + 4], "big") & 0x7fffffff) % 10**6))
            uses.append((what, name, size, k, d))

        def build(cmd, **env):
            r = box.run(cmd, ok=False, CCACHE_DISABLE="1", **env)
            if r.returncode:
                t = r.stdout
                if not any(x in t for x in ("error:", "CMake Error", "undefined reference", "undefined symbol", "No rule to make")) or "No space left" in t or "annot allocate" in t or "virtual memory" in t or "Killed" in t or "temporarily unavailable" in t or "SIGKILL" in t:
                    raise MemoryError(t[-300:])
                at = max(0, min((t.find(x) for x in ("error:", "CMake Error") if x in t), default=len(t) - 500) - 300)
                raise Broken("%s (%s) fails: %s" % (" ".join(cmd).replace(box.d, ""), " ".join("%s=%s" % e for e in env.items()), t[at:at + 900].replace(box.d, "")))
        out = box.src + "/build"
        if case["how"].startswith("make"):
            for c in [case["how"]] + (["make"] if case["again"] else []):
                build(c.split(" "))
        else:
            if not case["inside"]:
                out = box.d + "/out/b"
            for t in [case["type"]] + ([case["again"]] if case["again"] is not None else []):
                c = ["cmake", "-S", box.src, "-B", out, "-G", case["gen"], "-DCMAKE_BUILD_TYPE=" + t, "-DBUILD_TESTING=" + ("ON" if case["testing"] else "OFF")]
                env = {}
                if case["how"] == "toolchain":
                    c.append("-DCMAKE_TOOLCHAIN_FILE=" + box.src + "/cmake/toolchains/x86_64-linux-gnu-clang.cmake")
                else:
                    env = dict(CC="/usr/bin/" + case["cc"], CXX="/usr/bin/" + case["cxx"], CFLAGS=" ".join(case["cflags"]), CXXFLAGS=" ".join(case["cxxflags"]))
                build(c, **env)
                build(["cmake", "--build", out, "-j1", "--target", "pgfe"], **env)
        so = sorted(os.path.join(b, f) for b, _, fs in os.walk(out) for f in fs if f == "libpgfe.so")
        if not so:
            raise Broken("the build makes no libpgfe.so")
        r = box.run(["python3", "-c", USER, so[0]], ok=False, text=json.dumps(uses))
        if r.returncode:
            raise Broken("a program that loads the library ends with status %d: %s" % (r.returncode, r.stdout[-500:].replace(box.d, "")))
        for u, w, g in zip(uses, want, r.stdout.split("\n")):
            if w != g:
                raise Broken("the library that was built gives %s for %s, not %s" % (g[:200], u[:3], w[:200]))
        return True, [case["how"], case["cc"] + " and " + case["cxx"] if case["how"] == "cmake" else "clang", "type " + case["type"] if case["how"] == "cmake" else ""]
    finally:
        box.close()


PROPS = {"D04": (D04, d04, "configurations; every one that is built and used is non-trivial"),
         "D01": (D01, d01, "sequences of make install, make uninstall, deploy.py and its removal, upgrades and other files; non-trivial: two or more of these touch the destination"),
         "D02": (D02, d02, "project names, versions and variants, old files present or not, malformed projects; every case that is decided is non-trivial"),
         "D03": (D03, d03, "source trees; non-trivial: some file gets a header")}


def run(a):
    strat, body, rule = PROPS[a.prop]
    stats = dict(evaluations=0, nontrivial=0, inconclusive=0)
    seen, labels, samples, last = set(), {}, [], {}

    @seed(a.seed * 1000 + a.worker)
    @settings(max_examples=a.count, deadline=None, database=None, phases=[Phase.generate, Phase.shrink], suppress_health_check=list(HealthCheck), print_blob=False)
    @given(strat)
    def test(case):
        if last and time.monotonic() > last["until"]:  # enough of shrinking
            return
        stats["evaluations"] += 1
        try:
            non, labs = body(case)
        except Broken as e:
            last["case"], last["message"] = json.loads(json.dumps(case)), str(e)
            last.setdefault("until", time.monotonic() + 90)
            raise
        except (MemoryError, subprocess.TimeoutExpired, BlockingIOError):
            stats["inconclusive"] += 1
            return
        for l in filter(None, labs):
            labels[l] = labels.get(l, 0) + 1
        if non:
            t = json.dumps(case, sort_keys=True)
            stats["nontrivial"] += 1
            seen.add(hashlib.sha1(t.encode()).hexdigest()[:16])
            if len(samples) < 2 and len(t) > 150:
                samples.append(t[:900])
    try:
        test()
    except Broken:
        pass
    except BaseException as e:  # several distinct failures come as a group
        if not last:
            traceback.print_exc()
            sys.exit(3)
    json.dump(dict(stats, hashes=sorted(seen), labels=labels, samples=samples, rule=rule, failure={k: v for k, v in last.items() if k != "until"} or None), open(a.out, "w"))


def replay(a):
    r = json.load(open(a.file))
    try:
        PROPS[r["property"]][1](r["data"])
    except Broken as e:
        print(e)
        sys.exit(1)


ap = argparse.ArgumentParser()
ap.add_argument("what", choices=["run", "replay"])
ap.add_argument("--prop")
ap.add_argument("--seed", type=int, default=1)
ap.add_argument("--worker", type=int, default=0)
ap.add_argument("--count", type=int, default=10)
ap.add_argument("--out")
ap.add_argument("--file")
a = ap.parse_args()
run(a) if a.what == "run" else replay(a)
