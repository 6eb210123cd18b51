#!/usr/bin/env python3
"""Orchestrates the checks: builds a harness against /repo's working tree, runs the random and the
coverage-guided phase, shrinks and confirms failures, writes the evidence file.

  python3 run.py C01                 run the check (VERIF_SEED, VERIF_TIER from the environment)
  python3 run.py C01 --replay FILE   run one saved case and show it
  python3 run.py --setup             toolchain check and self test of the reference parser
"""
import concurrent.futures as cf
import glob, hashlib, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARN = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, "build")
OUT = os.path.join(VERIF, "out")
EVID = os.path.join(VERIF, "evidence")
NCPU = 8

# every source of the library, so that a file split in two still builds
LIB = sorted(os.path.relpath(f, REPO + "/Code")[:-4] for d in ("Json4C4", "Terathon") for f in glob.glob("%s/Code/%s/*.cpp" % (REPO, d)))
INC = ["-I%s/Code" % REPO, "-I%s/Code/Json4C4" % REPO, "-I%s/Code/Terathon" % REPO, "-I" + HARN]
ASAN = ("-fsanitize=address,undefined -fno-sanitize=vptr,nonnull-attribute,alignment "
        "-fno-sanitize-recover=all -fno-omit-frame-pointer").split()
CLANG_NO = ["-fno-sanitize=function,pointer-overflow"]
GCC_NO = ["-fno-sanitize=pointer-overflow"]
TSAN = ["-fsanitize=thread", "-fno-omit-frame-pointer"]

# quick/thorough seconds of the random phase, and of the coverage-guided phase (0: none)
PROPS = {
    "C01": dict(rnd=(25, 420), fuzz=(15, 420)),
    "C02": dict(rnd=(25, 420), fuzz=(12, 300)),
    "C03": dict(rnd=(25, 420), fuzz=(15, 600)),
    "C04": dict(rnd=(28, 420), fuzz=(12, 300)),
    "C05": dict(rnd=(30, 420), fuzz=(12, 300)),
    "C06": dict(rnd=(30, 500), fuzz=(0, 240), parts=7),
    "C07": dict(rnd=(25, 450), fuzz=(0, 240), parts=7),
    "C08": dict(rnd=(25, 450), fuzz=(0, 240), parts=7),
}
WRAP = ["-Wl,--wrap=%s" % f for f in ("open", "open64", "read", "write", "close", "fstat")]
PROPS.update({
    "C09": dict(rnd=(30, 420), fuzz=(10, 300)),
    "C10": dict(rnd=(30, 420), fuzz=(8, 200), link=WRAP),
    "C11": dict(rnd=(30, 420), fuzz=(8, 200), link=WRAP),
    "C12": dict(rnd=(28, 500), fuzz=(8, 240)),
    "C13": dict(rnd=(35, 600), fuzz=(0, 200), parts=7, level="fault_enumeration"),
    "C14": dict(rnd=(30, 500), fuzz=(10, 300)),
    "C15": dict(rnd=(25, 400), fuzz=(10, 300)),
    "C16": dict(rnd=(30, 450), fuzz=(10, 300), parts=5),
    "C17": dict(rnd=(30, 420), fuzz=(12, 300)),
})
PROPS["C19"] = dict(rnd=(35, 600), kind="tsan", workers=6, assume=["the thread sanitizer sees every access of the instrumented library and harness"])
PROPS["C20"] = dict(rnd=(35, 500), fuzz=(10, 240))
# builds of the Terathon sources side by side, each in a namespace of its own
PROPS["C21"] = dict(rnd=(20, 600), variants=[("sse2", []), ("avx", ["-mavx"]), ("nosimd", ["-DTERATHON_NO_SIMD"])], vsrc="c21v.cpp",
                    assume=["the C library's double-precision functions are right to well below the tolerances used", "rsqrtss keeps its documented relative error of 1.5 * 2^-12"])
ASSUME = ["the reference model in harness/ (RFC 8259 parser, container models) is right",
          "sanitizers report the memory errors and undefined behaviour they are enabled for",
          "Linux build; the Windows branches and the C4_ENGINE_MODULE branch are not compiled"]


def log(*a):
    print(*a, flush=True)


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


class BuildError(Exception):
    pass


def tree_key():
    h = hashlib.sha256()
    for root in (os.path.join(REPO, "Code", "Json4C4"), os.path.join(REPO, "Code", "Terathon"), HARN):
        for d, ds, fs in sorted(os.walk(root)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".h", ".cpp", ".inc")):
                    h.update(f.encode())
                    with open(os.path.join(d, f), "rb") as fh:
                        h.update(fh.read())
    return h


def compile_all(jobs):
    """jobs: list of (cmd, description); runs in parallel, raises BuildError."""
    def one(j):
        r = run(j)
        return r.returncode, " ".join(j), r.stdout
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for rc, c, o in ex.map(one, jobs):
            if rc:
                raise BuildError(c + "\n" + o[-6000:])


def build(prop, kind, compiler="clang++"):
    """kind: asan, fuzz, tsan.  Returns the path of the executable."""
    conf = PROPS[prop]
    cxx = compiler
    flags = ["-std=c++17", "-g1", "-O1"] + INC
    link = list(conf.get("link", []))
    if kind in ("asan", "fuzz"):
        # uninitialised variables hold a pattern, uninitialised memory is filled by the engine
        flags += ASAN + (CLANG_NO if cxx == "clang++" else GCC_NO) + ["-ftrivial-auto-var-init=pattern"]
    if kind == "tsan":
        flags += TSAN + ["-DPBT_NOTRACK"]
    lflags = list(flags)
    hflags = list(flags) + conf.get("hflags", [])
    if kind == "fuzz":
        lflags += ["-fsanitize=fuzzer-no-link"]
        hflags += ["-fsanitize=fuzzer-no-link", "-DPBT_FUZZ"]
    h = tree_key()
    h.update(json.dumps([prop, kind, cxx, lflags, hflags, link, conf.get("variants")]).encode())
    d = os.path.join(BUILD, prop.lower() + "-" + kind + "-" + h.hexdigest()[:16])
    exe = os.path.join(d, "check")
    if os.path.exists(exe):
        return exe
    for old in glob.glob(os.path.join(BUILD, prop.lower() + "-" + kind + "-*")):
        shutil.rmtree(old, ignore_errors=True)
    tmp = tempfile.mkdtemp(prefix="b-", dir=BUILD)
    try:
        objs, jobs = [], []
        for name, vf in conf.get("variants", []):
            vf = vf + ["-DTerathon=T_" + name]
            for s in [x for x in LIB if x.startswith("Terathon/")]:
                o = os.path.join(tmp, name + "-" + os.path.basename(s) + ".o")
                jobs.append([cxx] + lflags + vf + ["-w", "-c", "%s/Code/%s.cpp" % (REPO, s), "-o", o])
                objs.append(o)
            o = os.path.join(tmp, name + "-v.o")
            jobs.append([cxx] + hflags + vf + ["-DC21_VARIANT=" + name, "-w", "-c", os.path.join(HARN, conf["vsrc"]), "-o", o])
            objs.append(o)
        for s in [] if "variants" in conf else LIB:
            o = os.path.join(tmp, os.path.basename(s) + ".o")
            jobs.append([cxx] + lflags + ["-w", "-c", "%s/Code/%s.cpp" % (REPO, s), "-o", o])
            objs.append(o)
        parts = conf.get("parts", 1)
        hs = [(prop.lower() + ".cpp", ["-DFAM_PARTS=%d" % parts, "-DFAM_PART=%d" % k] if parts > 1 else []) for k in range(parts)]
        hs += [(s, []) for s in conf.get("src", []) + ["engine.cpp"]]
        for k, (s, extra) in enumerate(hs):
            o = os.path.join(tmp, "h%d-%s.o" % (k, s[:-4]))
            # the engine itself stays out of the coverage feedback
            f = [x for x in hflags if x != "-fsanitize=fuzzer-no-link"] if s == "engine.cpp" else hflags
            jobs.insert(0, [cxx] + f + extra + ["-w", "-c", os.path.join(HARN, s), "-o", o])
            objs.append(o)
        compile_all(jobs)
        compile_all([[cxx] + flags + (["-fsanitize=fuzzer"] if kind == "fuzz" else []) + objs + link + ["-lpthread", "-ldl", "-o", os.path.join(tmp, "check")]])
        for o in objs:
            os.unlink(o)
        os.rename(tmp, d)
    except BaseException:
        shutil.rmtree(tmp, ignore_errors=True)
        raise
    return exe


def build_any(prop, kind):
    try:
        return build(prop, kind)
    except BuildError as e:
        if kind == "fuzz":
            raise
        log("clang++ build failed, trying g++:\n" + str(e)[-1500:])
        return build(prop, kind, "g++")


def literals(path):
    """dictionary of literals found in the sources: a changed constant becomes an input"""
    ints, strs = set(), set()
    for f in glob.glob(REPO + "/Code/Json4C4/*") + glob.glob(REPO + "/Code/Terathon/*"):
        try:
            t = open(f, encoding="utf-8", errors="replace").read()
        except OSError:
            continue
        t = re.sub(r"//[^\n]*", "", t)
        if os.path.basename(f).startswith(("TSMath", "TSSimd")):
            continue
        body = re.sub(r"=\s*\{[^{}]{400,}\}", "", t, flags=re.S)  # leave out long tables
        for m in re.finditer(r"(?<![\w.])(0[xX][0-9a-fA-F]+|\d+)(?![\w.])", body):
            try:
                v = int(m.group(1), 0)
            except ValueError:
                continue
            if v < 2 ** 63:
                ints.add(v)
        for m in re.finditer(r'"((?:[^"\\\n]|\\.)*)"', t):
            try:
                s = m.group(1).encode("utf-8").decode("unicode_escape").encode("latin-1", "replace")
            except Exception:
                continue
            if 0 < len(s) < 60:
                strs.add(s)
        for m in re.finditer(r"'((?:[^'\\\n]|\\.))'", t):
            try:
                v = m.group(1).encode().decode("unicode_escape")
                ints.add(ord(v))
                if ord(v):
                    strs.add(v.encode("latin-1", "replace"))
            except Exception:
                pass
    with open(path, "w") as f:
        for v in sorted(ints):
            f.write("I %d\n" % v)
        for s in sorted(strs):
            f.write("S %s\n" % s.hex())
    return sorted(strs)


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) id=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


class Stats:
    def __init__(self):
        self.evals = 0
        self.fps = set()
        self.labels = {}
        self.samples = []

    def add_fps(self, f):
        with open(f, "rb") as fh:
            b = fh.read()
        self.fps.update(struct.unpack("<%dQ" % (len(b) // 8), b[: len(b) // 8 * 8]))

    def add_labels(self, d):
        for k, v in d.get("labels", {}).items():
            self.labels[k] = self.labels.get(k, 0) + v
        self.samples += d.get("samples", [])


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.conf = PROPS[prop]
        self.t0 = time.time()
        self.stats = Stats()
        self.notes = []
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp"
        self.work = tempfile.mkdtemp(prefix="pbt-%s-" % prop.lower(), dir=base)
        self.scratch = os.path.join(self.work, "scratch")
        self.res = os.path.join(self.work, "res")
        os.mkdir(self.scratch)
        os.mkdir(self.res)
        self.dict = os.path.join(self.work, "dict")
        self.strs = literals(self.dict)
        self.env = dict(os.environ)
        self.env.update(PBT_SCRATCH=self.scratch, PBT_DICT=self.dict, LC_ALL="C",
                        ASAN_OPTIONS="detect_leaks=0:exitcode=99:abort_on_error=0:detect_stack_use_after_return=0:allocator_may_return_null=1",
                        UBSAN_OPTIONS="print_stacktrace=1:exitcode=99", TSAN_OPTIONS="exitcode=99:halt_on_error=1:report_signal_unsafe=0",
                        PBT_BUILD=BUILD)
        self.env.pop("PBT_REEXEC", None)

    def cleanup(self):
        shutil.rmtree(self.work, ignore_errors=True)

    # ------------------------------------------------------------------ failures
    def report(self, exe, binfile, why, stderr_tail):
        os.makedirs(OUT, exist_ok=True)
        dst = os.path.join(OUT, "%s-seed%d.case" % (self.prop, self.seed))
        r = run([exe, "shrink", binfile, dst, "--confirm", "3", "--hang", str(self.conf.get("hang", 40)), "--budget", "45"], env=self.env, cwd=self.scratch)
        log(r.stdout.strip()[-1500:])
        if r.returncode == 4 or not os.path.exists(dst):
            return None
        show = run([exe, "replay", dst], env=self.env, cwd=self.scratch).stdout
        log("---- minimal case (replay: python3 run.py %s --replay %s)" % (self.prop, dst))
        log(show[-4000:])
        with open(dst + ".txt", "w") as f:
            f.write("first failure: %s\n%s\n%s\n" % (why, show, stderr_tail))
        return dst

    def violation(self, path):
        self.evidence(1)
        log("VIOLATION property=%s replay=%s" % (self.prop, path))
        return 1

    # ------------------------------------------------------------------ phases
    def random_phase(self, exe, secs, workers=NCPU):
        out = os.path.join(self.res, "rnd")
        os.makedirs(out, exist_ok=True)
        r = run([exe, "random", "--seed", str(self.seed), "--cases", "100000000", "--time", str(secs), "--workers", str(workers),
                 "--hang", str(self.conf.get("hang", 40)), "--out", out], env=self.env, cwd=self.scratch, timeout=secs + 300)
        m = re.search(r"DONE cases=(\d+) evals=(\d+) failures=(\d+)", r.stdout)
        if not m:
            raise RuntimeError("random phase gave no result: " + r.stdout[-2000:])
        self.stats.evals += int(m.group(2))
        for f in glob.glob(out + "/w*.json"):
            self.stats.add_labels(json.load(open(f)))
        for f in glob.glob(out + "/w*.fps"):
            self.stats.add_fps(f)
        log("random phase: %s" % m.group(0))
        fails = re.findall(r"^FAIL worker=(\d+) first=(\d+) index=(\d+) file=(\S+) why=(.*)$", r.stdout, re.M)
        for w, first, idx, f, why in fails[:6]:
            log("candidate failure: " + why[:600])
            tail = ""
            p = os.path.join(out, "stderr." + w)
            if os.path.exists(p):
                tail = open(p, errors="replace").read()[-4000:]
            dst = self.report(exe, f, why, tail)
            if dst:
                return dst
            # not reproducible as a single case: replay the worker's history in one process
            if int(idx) < 200000:
                cmd = [exe, "campaign", "--seed", str(self.seed), "--worker", w, "--workers", str(workers), "--first", "0", "--cases", str(int(idx) + 1), "--out", out]
                n = 0
                for _ in range(2):
                    try:
                        q = run(cmd, env=self.env, cwd=self.scratch, timeout=150)
                    except subprocess.TimeoutExpired:
                        break
                    n += "CAMPAIGN-FAILED" in q.stdout
                if n == 2:
                    os.makedirs(OUT, exist_ok=True)
                    dst = os.path.join(OUT, "%s-seed%d.campaign" % (self.prop, self.seed))
                    json.dump({"campaign": cmd[2:-2], "why": why}, open(dst, "w"))
                    log(q.stdout[-1500:])
                    return dst
            self.notes.append("a failure did not reproduce and was not reported: " + why[:300])
            log("not reproducible, not reported")
        return None

    def fuzz_phase(self, secs):
        try:
            exe = build(self.prop, "fuzz")
        except BuildError as e:
            self.notes.append("coverage-guided phase skipped: instrumented build failed")
            log("fuzz build failed\n" + str(e)[-1500:])
            return None
        out = os.path.join(self.res, "fz")
        os.makedirs(out, exist_ok=True)
        seeds = os.path.join(out, "seeds")
        os.makedirs(seeds, exist_ok=True)
        n = 0
        pre = self.conf.get("seedprefix", b"\0")
        for f in sorted(glob.glob(REPO + "/Data/**/*.json", recursive=True)):
            b = open(f, "rb").read()
            if len(b) < 4000:
                open(os.path.join(seeds, "s%d" % n), "wb").write(pre + b)
                n += 1
        for t in (b"[]", b"{}", b'"a\\u00e9\\ud83d\\ude00"', b"-1.5e+3", b"[true,false,null]", b'{"a":{"b":[1,2,{"c":""}]},"d":0}'):
            open(os.path.join(seeds, "s%d" % n), "wb").write(pre + t)
            n += 1
        d = os.path.join(out, "dict")
        with open(d, "w") as f:
            for s in self.strs[:400]:
                if len(s) <= 24:
                    f.write('"%s"\n' % "".join("\\x%02x" % b for b in s))
        procs = []
        for w in range(NCPU):
            c = os.path.join(out, "c%d" % w)
            os.makedirs(c)
            env = dict(self.env, PBT_FZ_STATS=os.path.join(out, "st%d" % w))
            a = [exe, c] + ([seeds] if w % 4 != 3 else [])
            a += ["-seed=%d" % (self.seed * 1000 + w + 1), "-max_total_time=%d" % secs, "-max_len=%d" % (4096 if w % 2 else 512), "-use_value_profile=%d" % (w % 2),
                  "-timeout=%d" % self.conf.get("hang", 40), "-rss_limit_mb=3000", "-artifact_prefix=%s/crash%d-" % (out, w), "-dict=" + d, "-verbosity=0", "-detect_leaks=0"]
            lf = open(os.path.join(out, "log%d" % w), "w")
            procs.append((w, subprocess.Popen(a, env=env, stdout=lf, stderr=lf, cwd=self.scratch), lf))
        for w, p, lf in procs:
            try:
                p.wait(timeout=secs + 240)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
            lf.close()
        ev = 0
        for w in range(NCPU):
            b = os.path.join(out, "st%d" % w)
            if os.path.exists(b + ".json"):
                ev += json.load(open(b + ".json"))["evals"]
            if os.path.exists(b + ".fps"):
                self.stats.add_fps(b + ".fps")
            if os.path.exists(b + ".labels.json"):
                self.stats.add_labels(json.load(open(b + ".labels.json")))
        self.stats.evals += ev
        log("coverage-guided phase: %d executions" % ev)
        self.fuzz_execs = ev
        crashes = sorted((f for f in glob.glob(out + "/crash*-*") if "-slow-unit-" not in os.path.basename(f)), key=os.path.getsize)
        if not crashes:
            return None
        plain = build_any(self.prop, "asan")
        for c in crashes[:6]:
            w = re.match(r"crash(\d+)-", os.path.basename(c)).group(1)
            t = open(os.path.join(out, "log" + w), errors="replace").read()
            m = re.search(r"PBT-FAIL: (.*)", t)
            why = m.group(1) if m else "crash or timeout under the fuzzer"
            log("candidate failure: " + why[:600])
            dst = self.report(plain, c, why, t[-4000:])
            if dst:
                return dst
            self.notes.append("a fuzzer finding did not reproduce and was not reported: " + why[:300])
        return None

    def evidence(self, violations):
        os.makedirs(EVID, exist_ok=True)
        s = self.stats
        cov = {"evaluations": s.evals, "distinct_nontrivial": len(s.fps), "rule": self.rule, "samples": s.samples[:12],
               "labels": dict(sorted(s.labels.items()))}
        if hasattr(self, "fuzz_execs"):
            cov["coverage_guided_executions"] = self.fuzz_execs
        if self.notes:
            cov["notes"] = self.notes
        e = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.conf.get("level", "exploration"), "coverage": cov,
             "assumptions": ASSUME + self.conf.get("assume", []), "wall_s": round(time.time() - self.t0, 2), "violations": violations}
        tmp = os.path.join(EVID, self.prop + ".json.tmp")
        with open(tmp, "w") as f:
            json.dump(e, f, indent=1)
        os.replace(tmp, os.path.join(EVID, self.prop + ".json"))

    def main(self):
        i = 0 if self.tier == "quick" else 1
        kind = self.conf.get("kind", "asan")
        if "prepare" in self.conf:
            self.conf["prepare"](self)
        exe = build_any(self.prop, kind)
        self.rule = run([exe, "rule"], env=self.env).stdout.strip()
        log("built in %.1f s" % (time.time() - self.t0))
        v = getattr(self, "broken", None) or self.random_phase(exe, self.conf["rnd"][i], self.conf.get("workers", NCPU))
        if v:
            return self.violation(v)
        if self.conf.get("fuzz", (0, 0))[i]:
            v = self.fuzz_phase(self.conf["fuzz"][i])
            if v:
                return self.violation(v)
        for fid, what in known_findings(self.prop):
            log("KNOWN-FINDING: property=%s %s" % (self.prop, what))
        self.evidence(0)
        log("property %s held on %d evaluations, %d distinct non-trivial, %.1f s" % (self.prop, self.stats.evals, len(self.stats.fps), time.time() - self.t0))
        return 0


def main():
    os.makedirs(BUILD, exist_ok=True)
    if len(sys.argv) > 1 and sys.argv[1] == "--setup":
        r = run(["clang++", "--version"])
        log(r.stdout.split("\n")[0])
        return 0
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    c = Check(prop, tier, seed)
    signal.signal(signal.SIGTERM, lambda *a: sys.exit(3))
    try:
        if "--replay" in sys.argv:
            f = sys.argv[sys.argv.index("--replay") + 1]
            if "prepare" in c.conf:
                c.conf["prepare"](c)
            exe = build_any(prop, c.conf.get("kind", "asan"))
            if f.endswith(".campaign"):
                a = json.load(open(f))["campaign"]
                r = run([exe, "campaign"] + a + ["--out", c.res], env=c.env, cwd=c.scratch)
            else:
                r = run([exe, "replay", os.path.abspath(f)], env=c.env, cwd=c.scratch)
            log(r.stdout)
            return r.returncode
        return c.main()
    except BuildError as e:
        log("BUILD FAILED\n" + str(e))
        return 2
    finally:
        c.cleanup()


# ------------------------------------------------------------------ build variants for C18
VARIANTS = [  # name, compiler, flags, flags of the sources that need them
    ("clang-o1", "clang++", "-std=c++17 -O1"),
    ("gcc-o2", "g++", "-std=c++17 -O2 -DNDEBUG"),
    ("gcc-o0-nostd", "g++", "-std=c++17 -O0 -DJSON4C4_DISABLE_STD_SUPPORT"),
    ("clang-o3-noexcept", "clang++", "-std=c++17 -O3 -fno-exceptions"),
    ("gcc-o3-noexcept-nostd", "g++", "-std=c++17 -O3 -fno-exceptions -DJSON4C4_DISABLE_STD_SUPPORT"),
    ("gcc-o2-shared", "g++", "-std=c++17 -O2 -DTERATHON_EXPORT"),
    ("clang-o2-uchar", "clang++", "-std=c++17 -O2 -funsigned-char"),
    ("gcc-o2-cxx20", "g++", "-std=c++20 -O2"),
    ("own-clang-o1", "clang++", "-std=c++17 -O1 -D__cdecl= -include cstddef"),
    ("own-gcc-o2", "g++", "-std=c++17 -O2 -D__cdecl= -include cstddef"),
]


def prepare_c18(c):
    h = tree_key()
    h.update(json.dumps(VARIANTS).encode())
    d = os.path.join(BUILD, "c18-variants-" + h.hexdigest()[:16])
    if not os.path.exists(d) or json.load(open(d + "/bad")):
        for old in glob.glob(os.path.join(BUILD, "c18-variants-*")):
            shutil.rmtree(old, ignore_errors=True)
        tmp = tempfile.mkdtemp(prefix="b-", dir=BUILD)
        try:
            def one(j):
                name, src, cmd = j
                r = run(cmd)
                return name, r.returncode, " ".join(cmd) + "\n" + r.stdout[-3000:]
            jobs, bad = [], {}
            for name, cxx, fl in VARIANTS:
                for s in [os.path.join(HARN, "c18_variant.cpp")] + ["%s/Code/%s.cpp" % (REPO, x) for x in LIB]:
                    f = fl.split() + ["-g0", "-w", "-fPIC", "-fvisibility=hidden"] + (["-fno-gnu-unique"] if cxx == "g++" else []) + INC
                    # Terathon's text and mathematics sources need the compiler's own SIMD headers on this platform
                    if name.startswith("own-") and os.path.basename(s) not in ("TSText.cpp", "TSMath.cpp", "TSSimd.cpp"):
                        f.append("-DTERATHON_NO_SYSTEM")
                    jobs.append((name, s, [cxx] + f + ["-c", s, "-o", os.path.join(tmp, name + "@" + os.path.basename(s) + ".o")]))
            with cf.ThreadPoolExecutor(NCPU) as ex:
                for name, rc, o in ex.map(one, jobs):
                    if rc:
                        bad.setdefault(name, o)
            for name, cxx, fl in VARIANTS:
                if name in bad:
                    continue
                r = run([cxx, "-shared", "-Wl,-Bsymbolic", "-Wl,-z,defs"] + sorted(glob.glob(os.path.join(tmp, name + "@*.o"))) + ["-o", os.path.join(tmp, name + ".so")])
                if r.returncode:
                    bad[name] = r.stdout[-3000:]
            for o in glob.glob(tmp + "/*.o"):
                os.unlink(o)
            with open(tmp + "/list", "w") as f:
                f.write("".join(v[0] + "\n" for v in VARIANTS if v[0] not in bad))
            json.dump(bad, open(tmp + "/bad", "w"))
            os.rename(tmp, d)
        except BaseException:
            shutil.rmtree(tmp, ignore_errors=True)
            raise
    bad = json.load(open(d + "/bad"))
    if VARIANTS[0][0] in bad:
        raise BuildError(bad[VARIANTS[0][0]])
    for n, o in bad.items():
        c.notes.append("variant %s does not build: %s" % (n, o[-600:]))
        log("variant %s does not build\n%s" % (n, o[-1500:]))
        if not n.startswith("own-"):  # a supported configuration
            os.makedirs(OUT, exist_ok=True)
            c.broken = os.path.join(OUT, "C18-seed%d.build" % c.seed)
            with open(c.broken, "w") as f:
                f.write(o)
    loc = os.path.join(c.work, "loc")
    os.mkdir(loc)
    todo = [("de_DE", "UTF-8"), ("ps_AF", "UTF-8"), ("tr_TR", "UTF-8"), ("fr_FR", "UTF-8"), ("de_DE", "ISO-8859-1")]
    with cf.ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(lambda t: shutil.which("localedef") and run(["localedef", "--no-archive", "-c", "-i", t[0], "-f", t[1], os.path.join(loc, "%s.%s" % t)]), todo))
    if not os.path.exists(loc + "/de_DE.UTF-8"):
        c.notes.append("localedef gave no locales: only those installed were used")
    c.env.update(LOCPATH=loc, PBT_VARIANTS=d)


PROPS["C18"] = dict(rnd=(40, 600), prepare=prepare_c18, assume=["the locales are the ones localedef can build here", "the configuration without system services is covered for Json4C4 itself; Terathon's text and SIMD sources do not compile in it with these compilers"])


if __name__ == "__main__":
    sys.exit(main())
