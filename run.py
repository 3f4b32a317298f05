#!/usr/bin/env python3
"""Checks of the properties of libpgfe by generated inputs.

  run.py check ID            runs the check of a property (tier and seed from VERIF_TIER and VERIF_SEED)
  run.py replay FILE         runs a failing case again
  run.py build [VARIANT...]  builds the harness
  run.py setup               self test of the reference implementations, and a build
"""
import concurrent.futures, fcntl, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))
sys.path.insert(0, ROOT + "/tools")
from plan import PLAN, FUZZ

CORES = len(os.sched_getaffinity(0)) or 1
BUILD = os.environ.get("VERIF_BUILD") or ROOT + "/build" + ("" if REPO == "/repo" else "/" + hashlib.sha1(REPO.encode()).hexdigest()[:10])
HARNESS = ROOT + "/harness"
UBSAN = "-fsanitize=address,bounds,integer-divide-by-zero,return -fno-sanitize-recover=all"
VARIANTS = {
    "rel": dict(cc="clang", type="RelWithDebInfo", lib="", link=""),
    "gcc": dict(cc="gcc", type="", lib="-O2 -g", link=""),
    "debug": dict(cc="gcc", type="Debug", lib="-O0", link=""),
    "arm": dict(cc="clang", type="", lib="-O3 -g -funsigned-char", link=""),
    "m32": dict(cc="clang", type="RelWithDebInfo", lib="", link="", m32=True),
    "arm32": dict(cc="clang", type="", lib="-Os -g -funsigned-char", link="", m32=True),
    "cost": dict(cc="clang", type="", lib="-O1 -g -fsanitize-coverage=trace-pc-guard", link=""),
    "wrap": dict(cc="gcc", type="", lib="-O2 -g -fwrapv", link=""),
    "asan": dict(cc="clang", type="", lib="-O1 -g -fno-omit-frame-pointer " + UBSAN, link="-fsanitize=address,undefined -shared-libsan"),
    "tsan": dict(cc="clang", type="", lib="-O1 -g -fno-omit-frame-pointer -fsanitize=thread", link="-fsanitize=thread"),
    "fuzz": dict(cc="clang", type="", lib="-O1 -g -fno-omit-frame-pointer -fsanitize=fuzzer-no-link " + UBSAN, link="-fsanitize=fuzzer,address,undefined"),
}
VARIANTS["asan"]["link"] = "-fsanitize=address,undefined"
# 32 bits: the sandbox has the 32-bit runtime libraries and clang's, but no 32-bit start files, and headers of 64 bits only
LIB32 = "/usr/lib32/"
RT32 = "/usr/lib/llvm-18/lib/clang/18/lib/linux/"
GXX = "/usr/include/c++/13"
C32 = "-m32 -D_FILE_OFFSET_BITS=64 -isystem %s/i386 -isystem /usr/include/x86_64-linux-gnu" % HARNESS
CXX32 = "-m32 -D_FILE_OFFSET_BITS=64 -nostdinc++ -isystem %s -isystem /usr/include/x86_64-linux-gnu/c++/13 -isystem %s/backward -isystem %s/i386 -isystem /usr/include/x86_64-linux-gnu" % (GXX, GXX, HARNESS)
ENV = dict(os.environ,
           ASAN_OPTIONS="exitcode=77:detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:handle_abort=0:malloc_context_size=8:detect_stack_use_after_return=0",
           UBSAN_OPTIONS="print_stacktrace=1:exitcode=77:halt_on_error=1",
           TSAN_OPTIONS="exitcode=66:halt_on_error=1:report_bugs=1:second_deadlock_stack=1")
ENV.pop("LD_PRELOAD", None)
CLEAN = {k: v for k, v in os.environ.items() if k not in ("CFLAGS", "CXXFLAGS", "CPPFLAGS", "LDFLAGS", "CC", "CXX")}


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=CLEAN, **kw)
    if r.returncode:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout[-4000:])
    return r.stdout


def build_lib(v):
    d = BUILD + "/" + v
    V = VARIANTS[v]
    cxx = {"clang": "clang++", "gcc": "g++"}[V["cc"]]
    # -include stdarg.h: as in /opt/vp/build.sh (src/hashes/templates.h uses va_start without including it)
    m32 = V.get("m32")
    more = []
    if m32:
        more = ["-DCMAKE_TRY_COMPILE_TARGET_TYPE=STATIC_LIBRARY", "-DCMAKE_SHARED_LINKER_FLAGS=-nostdlib",
                "-DCMAKE_CXX_STANDARD_LIBRARIES=" + " ".join(RT32 + x for x in ("clang_rt.crtbegin-i386.o", "clang_rt.crtend-i386.o", "libclang_rt.builtins-i386.a"))]

    def config():
        sh(["cmake", "-S", REPO, "-B", d, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=" + V["type"], "-DBUILD_TESTING=OFF",
            "-DCMAKE_C_COMPILER=/usr/bin/" + V["cc"], "-DCMAKE_CXX_COMPILER=/usr/bin/" + cxx,
            "-DCMAKE_C_FLAGS=-Wno-error -w -include stdarg.h " + V["lib"] + (" " + C32 if m32 else ""),
            "-DCMAKE_CXX_FLAGS=-Wno-error -w " + V["lib"] + (" " + CXX32 if m32 else "")] + more)
        sh(["ninja", "-C", d, "pgfe"])
    try:
        config()
    except BuildError:
        shutil.rmtree(d, ignore_errors=True)  # perhaps a stale configuration
        config()
    so = sorted(p for p in glob.glob(d + "/**/libpgfe.so*", recursive=True) if not p.endswith(".symbols"))
    if not so:
        raise BuildError("no libpgfe.so in " + d)
    return so[0]


# X04 is a program of its own, which neither includes the library's headers nor is linked to it
def sources(kind):
    if kind == "prog":
        return ["engine", "ref", "p_build"]
    return ["engine", "ref", "api"] + sorted(os.path.basename(p)[:-4] for p in glob.glob(HARNESS + "/p_*.cpp") if not p.endswith("/p_build.cpp"))


def build_objects(kind):
    fuzz, m32 = kind == "fuzz", kind == "m32"
    d = BUILD + ("/obj32" if m32 else "/obj")
    os.makedirs(d, exist_ok=True)
    flags = ("-std=c++17 -fsized-deallocation -g1 -Wall -Wextra -Wno-unused-parameter -Wno-delete-non-abstract-non-virtual-dtor -Wno-overloaded-virtual "
             "-Wno-deprecated-declarations -fno-omit-frame-pointer -I%s/include -I%s -DREPO_INCLUDE='\"%s/include\"'" % (REPO, HARNESS, REPO))
    if m32:
        flags += " -fno-pic " + CXX32
    n = ["rule cxx\n command = /usr/bin/clang++ %s $opt -MMD -MF $out.d -c $in -o $out\n depfile = $out.d\n deps = gcc\n" % flags]
    objs = []
    for s in sources("main") + ["p_build"]:
        n.append("build %s.o: cxx %s/%s.cpp\n opt = %s\n" % (s, HARNESS, s, "-O2" if s == "ref" else "-O1"))
        if s in sources(kind) and not (fuzz and s == "engine"):
            objs.append(d + "/" + s + ".o")
    if m32:
        n.append("rule c\n command = /usr/bin/clang -m32 -fno-pic -O1 -c $in -o $out\nbuild start.o: c %s/i386/start.S\nbuild extra.o: c %s/i386/extra.c\n" % (HARNESS, HARNESS))
        objs += [d + "/start.o", d + "/extra.o"]
    n.append("build costmem.o: cxx %s/costmem.cpp\n opt = -O1 -fno-builtin\n" % HARNESS)
    n.append("build engine_fuzz.o: cxx %s/engine.cpp\n opt = -O1 -DPBT_FUZZ\n" % HARNESS)
    if fuzz:
        objs.append(d + "/engine_fuzz.o")
    f = d + "/build.ninja"
    t = "\n".join(n)
    if not os.path.exists(f) or open(f).read() != t:
        open(f, "w").write(t)
    sh(["ninja", "-C", d] + [os.path.basename(o) for o in objs] + (["costmem.o"] if kind == "main" else []))
    return objs


def link(v, so, objs, kind="main"):
    exe = BUILD + ("/prog_" if kind == "prog" else "/pbt_") + v
    if kind == "prog":
        with open(exe + ".lib", "w") as f:
            f.write(so)
    if v == "cost":
        objs = objs + [os.path.dirname(objs[0]) + "/costmem.o"]
    newest = max(os.path.getmtime(o) for o in objs)
    if os.path.exists(exe) and os.path.getmtime(exe) > newest and (kind == "prog" or os.path.getmtime(exe) > os.path.getmtime(so)):
        return exe
    tmp = exe + ".tmp%d" % os.getpid()
    if VARIANTS[v].get("m32"):
        sh(["/usr/bin/clang", "-m32", "-g", "-rdynamic", "-no-pie", "-nostdlib", "-o", tmp] + objs + [so, "-Wl,-rpath," + os.path.dirname(so), "-Wl,-dynamic-linker,/lib/ld-linux.so.2",
            "-Wl,-z,lazy", "-Wl,--unresolved-symbols=ignore-all"] + [LIB32 + x for x in ("libstdc++.so.6", "libm.so.6", "libc.so.6", "libgcc_s.so.1")] + [RT32 + "libclang_rt.builtins-i386.a"])
        os.rename(tmp, exe)
        return exe
    # A function missing from the library fails the cases that call it, not the link
    # clang, not clang++: the C++ part of the sanitizer runtimes would define operator new, which the harness replaces
    sh(["/usr/bin/clang", "-g", "-rdynamic", "-o", tmp] + objs + ([so, "-Wl,-rpath," + os.path.dirname(so)] if kind == "main" else []) + VARIANTS[v]["link"].split() + ["-Wl,-z,lazy", "-Wl,--unresolved-symbols=ignore-all", "-lstdc++", "-lm", "-lpthread", "-ldl"])
    os.rename(tmp, exe)
    return exe


def can_m32():
    """Whether programs of 32 bits can be built and run here"""
    if not all(os.path.exists(p) for p in (LIB32 + "libc.so.6", LIB32 + "libstdc++.so.6", LIB32 + "libm.so.6", LIB32 + "libgcc_s.so.1", RT32 + "libclang_rt.builtins-i386.a", "/lib/ld-linux.so.2")):
        return False
    d = BUILD + "/probe%d" % os.getpid()
    os.makedirs(d, exist_ok=True)
    try:
        with open(d + "/a.c", "w") as f:
            f.write("int main(void) { return sizeof(void *) == 4 ? 0 : 1; }\n")
        sh(["/usr/bin/clang", "-m32", "-fno-pic", "-no-pie", "-nostdlib", "-o", d + "/a", d + "/a.c", HARNESS + "/i386/start.S", LIB32 + "libc.so.6", "-Wl,-dynamic-linker,/lib/ld-linux.so.2"])
        return subprocess.run([d + "/a"]).returncode == 0
    except (BuildError, OSError):
        return False
    finally:
        shutil.rmtree(d, ignore_errors=True)


def build_locales():
    """Locales for X09; without them it has only those of the system"""
    d = BUILD + "/locales"
    for name, src, cm in (("tr", "tr_TR", "ISO-8859-9"), ("de", "de_DE", "ISO-8859-1"), ("fa", "fa_IR", "UTF-8"), ("ja", "ja_JP", "EUC-JP")):
        if os.path.exists("%s/%s/LC_CTYPE" % (d, name)) or not shutil.which("localedef"):
            continue
        os.makedirs(d, exist_ok=True)
        t = "%s/%s.tmp%d" % (d, name, os.getpid())
        try:
            sh(["localedef", "-c", "--no-archive", "-i", src, "-f", cm, t], timeout=120)
        except (BuildError, OSError, subprocess.TimeoutExpired):
            pass  # warnings make it fail, too
        if os.path.exists(t + "/LC_CTYPE") and not os.path.exists(d + "/" + name):
            os.rename(t, d + "/" + name)
        else:
            shutil.rmtree(t, ignore_errors=True)


def build(variants, kind="main"):
    os.makedirs(BUILD, exist_ok=True)
    with open(BUILD + "/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        with concurrent.futures.ThreadPoolExecutor() as ex:
            libs = {v: ex.submit(build_lib, v) for v in variants}
            objs = ex.submit(build_objects, kind)
            loc = ex.submit(build_locales)
            objs.result()
            loc.result()
            o32 = ex.submit(build_objects, "m32") if any(VARIANTS[v].get("m32") for v in variants) else None
            if o32:
                o32.result()
            fobjs = ex.submit(build_objects, "fuzz") if "fuzz" in variants else None
            links = {v: ex.submit(link, v, libs[v].result(), (fobjs if v == "fuzz" else o32 if VARIANTS[v].get("m32") else objs).result(), kind) for v in variants}
            return {v: l.result() for v, l in links.items()}


# ------------------------------------------------------------------------------------------------ running
procs, procs_lock, stop = set(), threading.Lock(), threading.Event()


def spawn(cmd, env=ENV, cwd=None, timeout=None):
    with procs_lock:
        if stop.is_set():
            return None, "", ""
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=env, cwd=cwd, start_new_session=True)
        procs.add(p)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        kill(p)
        out, err = p.communicate()
    with procs_lock:
        procs.discard(p)
    return p.returncode, out, err


def kill(p):
    # the engine runs its cases in process groups of their own
    kids = []
    for s in glob.glob("/proc/[0-9]*/stat"):
        try:
            t = open(s).read().rsplit(")", 1)[1].split()
            if int(t[1]) == p.pid:
                kids.append(int(s.split("/")[2]))
        except (OSError, IndexError, ValueError):
            pass
    for k in kids + [p.pid]:
        try:
            os.killpg(k, signal.SIGKILL)
        except OSError:
            try:
                os.kill(k, signal.SIGKILL)
            except OSError:
                pass


def stop_all():
    stop.set()
    with procs_lock:
        ps = list(procs)
    for p in ps:
        kill(p)


def run_job(exe, job, seed, outdir, n):
    out = "%s/%s-%s-%d.json" % (outdir, job["prop"], job["variant"], n)
    for attempt in range(3):
        if stop.is_set():
            return None
        rc, so, se = spawn([exe, "run", "--prop", job["prop"], "--variant", job["variant"], "--seed", str(seed), "--worker", str(job["worker"]),
                            "--workers", str(job["workers"]), "--count", str(job["count"]), "--limit", str(job["limit"]), "--out", out])
        if stop.is_set():
            return None
        if rc in (0, 1):
            with open(out) as f:
                r = json.load(f)
            h = out + ".hashes"
            r["hashes"] = open(h, "rb").read() if os.path.exists(h) else b""
            return r
    raise BuildError("worker ended with %s: %s\n%s %s" % (rc, job, so[-1000:], se[-2000:]))


def fuzz_job(exe, prop, seed, secs, outdir, n):
    """A coverage-guided campaign; a finding comes back as a failure with the recorded choices."""
    d = "%s/fuzz-%s-%d" % (outdir, prop, n)
    os.makedirs(d + "/corpus", exist_ok=True)
    env = dict(ENV, PBT_PROP=prop)
    rc, so, se = spawn([exe, d + "/corpus", "-seed=%d" % (seed * 1000 + n + 1), "-max_total_time=%d" % secs, "-max_len=4096", "-len_control=20",
                        "-artifact_prefix=%s/" % d, "-print_final_stats=1", "-timeout=60", "-rss_limit_mb=6000", "-verbosity=1"], env=env, timeout=secs + 120)
    if stop.is_set():
        return None
    m = re.search(r"stat::number_of_executed_units:\s*(\d+)", se)
    corpus = len(os.listdir(d + "/corpus"))
    cov = re.findall(r"cov: (\d+)", se)
    r = {"property": prop, "variant": "fuzz", "evaluations": int(m.group(1)) if m else 0, "corpus": corpus, "edges": int(cov[-1]) if cov else 0, "artifacts": []}
    for a in sorted(glob.glob(d + "/crash-*") + glob.glob(d + "/timeout-*") + glob.glob(d + "/oom-*")):
        r["artifacts"].append((a, se[-3000:]))
    return r


def choices_of_artifact(exes, prop, art):
    """Runs the artifact in the asan harness, which prints the recorded choices."""
    rc, so, se = spawn([exes["asan"], "bytes", "--prop", prop, "--variant", "asan", "--file", art])
    return [int(x) for x in so.split()], rc


def known_findings():
    """Lines 'known: property=<id> key=<key> <text>' of the file; fixed lines suppress nothing."""
    out = []
    p = ROOT + "/known_findings.txt"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l.strip())
            if m:
                out.append(m.groups())
    return out


def replay_file(pid, failure):
    os.makedirs(ROOT + "/replays", exist_ok=True)
    i = 0
    while os.path.exists("%s/replays/%s-%d.json" % (ROOT, pid, i)):
        i += 1
    p = "%s/replays/%s-%d.json" % (ROOT, pid, i)
    with open(p, "w") as f:
        json.dump(dict(failure, claim=pid), f, indent=1)
    return p


def distinct(results):
    s = set()
    for r in results:
        b = r["hashes"]
        s.update(b[i:i + 8] for i in range(0, len(b), 8))
    return len(s)


def check_scripts(pid, tier, seed, t0):
    """The properties of tools/pbt_scripts.py (Hypothesis)"""
    outdir = "%s/out/%s-%d" % (BUILD, pid, os.getpid())
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir)
    total = max(1, int(PLAN[pid][tier] * float(os.environ.get("VERIF_SCALE", "1"))))
    w = min(8, total)
    scratch = tempfile.mkdtemp(prefix="pgfe-check-")
    os.chmod(scratch, 0o755)
    env = dict(ENV, VERIF_REPO=REPO, TMPDIR=scratch)

    def job(k):
        out = "%s/%d.json" % (outdir, k)
        rc, so, se = spawn(["python3-vt", ROOT + "/tools/pbt_scripts.py", "run", "--prop", pid, "--seed", str(seed), "--worker", str(k),
                            "--count", str(total // w + (1 if k < total % w else 0)), "--out", out], env=env, cwd=outdir)
        if stop.is_set():
            return None
        if rc:
            raise BuildError("worker ended with %s: %s" % (rc, (so + se)[-3000:]))
        return json.load(open(out))
    results, failure, error = [], None, None
    with concurrent.futures.ThreadPoolExecutor(CORES) as ex:
        for f in concurrent.futures.as_completed([ex.submit(job, k) for k in range(w)]):
            try:
                r = f.result()
            except Exception as e:  # noqa
                if not failure and not error:
                    error = e
                    stop_all()
                continue
            if r:
                results.append(r)
                if r["failure"] and not failure:
                    failure = r["failure"]
                    stop_all()
    shutil.rmtree(outdir, ignore_errors=True)
    shutil.rmtree(scratch, ignore_errors=True)
    if error and not failure:
        raise error
    labels = {}
    for r in results:
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": sum(r["evaluations"] for r in results), "distinct_nontrivial": len({h for r in results for h in r["hashes"]}),
                       "inconclusive": sum(r["inconclusive"] for r in results), "rule": results[0]["rule"] if results else "",
                       "samples": [s for r in results for s in r["samples"]][:8], "labels": dict(sorted(labels.items())), "planned": total},
          "assumptions": [], "violations": 1 if failure else 0}
    rc = 0
    if failure:
        p = replay_file(pid, {"property": pid, "variant": "scripts", "message": failure["message"], "data": failure["case"]})
        ev["coverage"]["failure"] = failure
        print(failure["message"][:1500])
        print("case: %s" % json.dumps(failure["case"])[:3000])
        print("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(p, ROOT)))
        rc = 1
    ev["wall_s"] = round(time.time() - t0, 2)
    write_evidence(pid, ev)
    print("%s %s seed %d: %d evaluations, %d distinct non-trivial, %.1f s%s" % (
        pid, tier, seed, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], ev["wall_s"], "" if rc == 0 else ", VIOLATED"))
    return rc


def write_evidence(pid, ev):
    os.makedirs(ROOT + "/evidence", exist_ok=True)
    tmp = "%s/evidence/.%s.%d" % (ROOT, pid, os.getpid())
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(tmp, "%s/evidence/%s.json" % (ROOT, pid))


def check(pid):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1")) & 0xffffffffffff
    except ValueError:
        seed = 1
    os.environ["VERIF_TIER"] = ENV["VERIF_TIER"] = tier
    if PLAN[pid].get("scripts"):
        return check_scripts(pid, tier, seed, t0)
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    plan = PLAN[pid][tier]
    limit = PLAN[pid].get("limit", {}).get(tier, 420 if tier == "quick" else 3600)
    fuzz = FUZZ.get(pid, 0) if tier == "thorough" and os.environ.get("VERIF_NOFUZZ") != "1" else 0
    variants = sorted({e[1] for e in plan}) + (["fuzz"] if fuzz else [])
    if fuzz and "asan" not in variants:
        variants.append("asan")
    skipped = []
    if any(VARIANTS[v].get("m32") for v in variants) and not can_m32():
        skipped = [v for v in variants if VARIANTS[v].get("m32")]
        variants = [v for v in variants if v not in skipped]
        plan = [e for e in plan if e[1] not in skipped]
    try:
        exes = build(variants, PLAN[pid].get("kind", "main"))
    except BuildError as e:
        # a limit of the makeshift 32-bit environment, or sources that one of the compilers refuses (D04): not decided there
        exes, bad = {}, []
        for v in variants:
            try:
                exes.update(build([v], PLAN[pid].get("kind", "main")))
            except BuildError as x:
                bad.append(v)
                print("note: not built: %s: %s" % (v, str(x)[-600:]))
        if not exes:
            raise
        skipped, variants = skipped + bad, [v for v in variants if v not in bad]
        plan = [e for e in plan if e[1] not in bad]
        fuzz = 0 if "fuzz" in bad or "asan" in bad else fuzz
    t_build = time.time() - t0
    outdir = "%s/out/%s-%d" % (BUILD, pid, os.getpid())
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir)
    jobs = []
    for prop, variant, total, *opt in plan:
        total = max(1, int(total * scale))
        o = opt[0] if opt else {}
        w = min(o.get("workers", 8), total)
        for k in range(w):
            cnt = total // w + (1 if k < total % w else 0)
            jobs.append(dict(prop=prop, variant=variant, worker=k, workers=w, count=cnt, limit=limit, first=o.get("first", 0)))
    jobs.sort(key=lambda j: (-j["first"], j["worker"]))
    ENV["VERIF_TMP"] = outdir
    results, failure, error = [], None, None
    slots = max(1, CORES // PLAN[pid].get("threads", 1))
    with concurrent.futures.ThreadPoolExecutor(slots) as ex:
        fs = {ex.submit(run_job, exes[j["variant"]], j, seed, outdir, n): j for n, j in enumerate(jobs)}
        for f in concurrent.futures.as_completed(fs):
            try:
                r = f.result()
            except Exception as e:  # noqa
                if not failure and not error:
                    error = e
                    stop_all()
                continue
            if r is None:
                continue
            results.append(r)
            if "failure" in r and not failure:
                failure = r["failure"]
                stop_all()
    if error and not failure:
        raise error
    fuzzed = []
    if fuzz and not failure:
        with concurrent.futures.ThreadPoolExecutor(CORES) as ex:
            fs = [ex.submit(fuzz_job, exes["fuzz"], pid, seed, fuzz, outdir, n) for n in range(CORES)]
            for f in concurrent.futures.as_completed(fs):
                r = f.result()
                if r is None:
                    continue
                fuzzed.append(r)
                for art, msg in r["artifacts"]:
                    ch, rc = choices_of_artifact(exes, pid, art)
                    if rc == 1 and not failure:
                        failure = {"property": pid, "variant": "asan", "outcome": "fail", "message": msg[-1500:], "case": "found by libFuzzer", "choices": ch,
                                   "needs_preceding_cases": False}
                        stop_all()
    shutil.rmtree(outdir, ignore_errors=True)
    labels = {}
    for r in results:
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
    samples = []
    for r in sorted(results, key=lambda r: (r["property"], r["variant"])):
        for s in r["samples"][:1]:
            if len(samples) < 12 and s:
                samples.append("%s/%s: %s" % (r["property"], r["variant"], s))
    per = {}
    for r in results:
        k = r["property"] + "/" + r["variant"]
        q = per.setdefault(k, {"evaluations": 0, "nontrivial": 0, "discarded": 0, "inconclusive": 0, "cpu_wall": 0})
        for a, b in (("evaluations",) * 2, ("nontrivial",) * 2, ("discarded",) * 2, ("inconclusive",) * 2, ("cpu_wall", "wall")):
            q[a] = round(q[a] + r[b], 2)
    unrep = [r["unreproduced"] for r in results if r["unreproduced"]]
    findings = sorted({f for r in results for f in r.get("findings", [])})
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": sum(r["evaluations"] for r in results) + sum(r["evaluations"] for r in fuzzed),
                       "distinct_nontrivial": distinct(results),
                       "rule": " / ".join(sorted({r["rule"] for r in results})), "samples": samples, "labels": dict(sorted(labels.items())),
                       "per_variant": per, "planned": sum(j["count"] for j in jobs)},
          "assumptions": PLAN[pid].get("assumptions", []), "violations": 1 if failure else 0}
    if fuzzed:
        ev["coverage"]["fuzzing"] = {"seconds": fuzz, "processes": len(fuzzed), "executions": sum(r["evaluations"] for r in fuzzed),
                                     "corpus": sum(r["corpus"] for r in fuzzed), "edges": max(r["edges"] for r in fuzzed)}
    if unrep:
        ev["coverage"]["unreproduced"] = unrep
    if skipped:
        ev["coverage"]["skipped"] = "could not be built or run here: " + ", ".join(skipped)
    rc = 0
    known = known_findings()
    unlisted = [f for f in findings if not any(k[0] == pid and k[1] == f for k in known)]
    for k in known:
        if k[0] == pid and k[1] in findings:
            print("KNOWN-FINDING: property=%s %s" % (pid, k[2]))
            ev["coverage"].setdefault("known_findings", []).append(k[1])
    if unlisted and not failure:
        failure = {"property": pid, "variant": "asan", "outcome": "fail", "message": "finding not listed: " + unlisted[0], "case": "", "choices": [], "needs_preceding_cases": False}
    if failure:
        p = replay_file(pid, failure)
        ev["coverage"]["failure"] = {k: failure[k] for k in ("outcome", "message", "case", "variant")}
        ev["violations"] = 1
        print("%s in variant %s: %s" % (failure["outcome"], failure["variant"], failure["message"][:1500]))
        print("case: %s" % failure["case"][:3000])
        print("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(p, ROOT)))
        rc = 1
    ev["wall_s"] = round(time.time() - t0, 2)
    write_evidence(pid, ev)
    print("%s %s seed %d: %d evaluations, %d distinct non-trivial, %.1f s (%.1f s build)%s" % (
        pid, tier, seed, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], ev["wall_s"], t_build, "" if rc == 0 else ", VIOLATED"))
    for u in unrep:
        print("note: " + u[:600])
    return rc


def replay(path):
    with open(path) as f:
        r = json.load(f)
    v = r["variant"]
    if v == "scripts":
        rc, so, se = spawn(["python3-vt", ROOT + "/tools/pbt_scripts.py", "replay", "--file", path], env=dict(ENV, VERIF_REPO=REPO))
        print(so + se)
        if rc == 1:
            print("VIOLATION property=%s replay=%s" % (r["claim"], path))
        return rc
    exes = build([v], PLAN.get(r["property"], {}).get("kind", "main"))
    if r.get("needs_preceding_cases"):
        cmd = [exes[v], "range", "--prop", r["property"], "--variant", v, "--seed", str(r["seed"]), "--worker", str(r.get("worker", 0)), "--workers", str(r.get("workers", 1)),
               "--from", str(r["start"]), "--to", str(r["index"])]
    else:
        t = "%s/replay-%d.txt" % (BUILD, os.getpid())
        with open(t, "w") as f:
            f.write(" ".join(map(str, r["choices"])))
        cmd = [exes[v], "replay", "--prop", r["property"], "--variant", v, "--file", t, "--tries", "12" if v == "tsan" or r["property"][:3] in ("B05", "X02") else "1"]
    ENV["VERIF_TIER"] = os.environ.get("VERIF_TIER", "quick")
    rc, so, se = spawn(cmd)
    if not r.get("needs_preceding_cases"):
        os.unlink(t)
    print(so + se)
    if rc == 1:
        print("VIOLATION property=%s replay=%s" % (r.get("claim", r["property"]), path))
    return rc


def main():
    a = sys.argv[1:]
    if a[:1] == ["check"] and len(a) == 2 and a[1] in PLAN:
        return check(a[1])
    if a[:1] == ["replay"] and len(a) == 2:
        return replay(a[1])
    if a[:1] == ["build"]:
        for v, e in build(a[1:] or ["rel", "asan"]).items():
            print(v, e)
        return 0
    if a == ["setup"]:
        subprocess.check_call([sys.executable, ROOT + "/tools/selftest.py"])
        build(["rel", "gcc", "wrap", "asan", "tsan"])
        build(["rel", "gcc"], "prog")
        build(["debug", "arm", "cost"] + (["m32", "arm32"] if can_m32() else []))
        return 0
    print(__doc__)
    return 2


if __name__ == "__main__":
    try:
        sys.exit(main())
    except BuildError as e:
        print("ERROR: %s" % e)
        sys.exit(2)
    except KeyboardInterrupt:
        stop_all()
        sys.exit(2)
