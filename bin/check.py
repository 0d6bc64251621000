#!/usr/bin/env python3
"""Build the library flavours and the harness from /repo's working tree and run one property's monitors.

check.py <PID> quick|thorough       run a check
check.py setup                      prebuild everything
check.py replay PID RUN CASE SEED TIER   repeat one recorded case verbosely
"""
import fcntl, hashlib, json, os, re, shutil, signal, struct, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
EVID = os.path.join(HERE, "evidence")
sys.path.insert(0, os.path.join(HERE, "bin"))
import plan  # noqa: E402

ENV = dict(os.environ)
for k in ("CFLAGS", "CXXFLAGS", "LDFLAGS", "LD_PRELOAD", "LD_LIBRARY_PATH", "CPATH", "C_INCLUDE_PATH"):
    ENV.pop(k, None)
ENV["LC_ALL"] = "C"
ENV["ASAN_OPTIONS"] = "detect_leaks=0:halt_on_error=1:detect_stack_use_after_return=1:allocator_may_return_null=1:exitcode=77"
ENV["UBSAN_OPTIONS"] = "halt_on_error=1:print_stacktrace=1:exitcode=77"
ENV["MSAN_OPTIONS"] = "halt_on_error=1:exitcode=77"
ENV["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:second_deadlock_stack=1:history_size=4"
ENV["ASAN_SYMBOLIZER_PATH"] = ENV["MSAN_SYMBOLIZER_PATH"] = shutil.which("llvm-symbolizer") or shutil.which("llvm-symbolizer-18") or ""

SAN = "-O1 -g -fno-omit-frame-pointer -fno-sanitize-recover=all"
ASAN = "-fsanitize=address,undefined,float-cast-overflow -fsanitize-address-use-after-scope"
MSAN = "-fsanitize=memory -fsanitize-memory-track-origins=1"
SCALAR, SIMD = "-DPFFFT_SIMD_DISABLE=1", "-DMBELIB_ENABLE_SIMD=1"
FLAV = {
    "ref": ("gcc", f"-O2 {SCALAR}"),
    "simd": ("gcc", f"-O2 {SIMD}"),
    "fast": ("gcc", f"-O3 -DNDEBUG -flto -ffat-lto-objects {SIMD} -ffast-math -fno-math-errno"),
    "dbg": ("gcc", f"-O0 -g {SCALAR} -DMBE_DEBUG -DIMBE_DEBUG -DAMBE_DEBUG"),
    "dbgsimd": ("gcc", f"-O1 -g {SIMD} -DMBE_DEBUG -DIMBE_DEBUG -DAMBE_DEBUG"),
    "strict": ("gcc", f"-O3 -DNDEBUG {SCALAR} -DMBELIB_STRICT_ORDER=1"),
    "notones": ("gcc", f"-O2 {SCALAR} -DDISABLE_AMBE_TONES"),
    "asan": ("clang", f"{SAN} {ASAN} {SCALAR}"),
    "asansimd": ("clang", f"{SAN} {ASAN} {SIMD}"),
    "msan": ("clang", f"{SAN} {MSAN} {SCALAR}"),
    "msansimd": ("clang", f"{SAN} {MSAN} {SIMD}"),
    "tsan": ("clang", f"{SAN} -fsanitize=thread {SCALAR}"),
    "tsansimd": ("clang", f"{SAN} -fsanitize=thread {SIMD}"),
    "alloc": ("gcc", f"-O2 {SCALAR}"),
    "allocsimd": ("gcc", f"-O2 {SIMD}"),
}
WRAP = " ".join("-Wl,--wrap=" + s for s in
                ("malloc", "calloc", "realloc", "free", "posix_memalign", "aligned_alloc", "memalign"))
HARN = {
    "plain": ("g++", "-O2 -g1"),
    "asan": ("clang++", "-O1 -g1 -fsanitize=address -fno-omit-frame-pointer"),
    "msan": ("clang++", f"-O1 -g1 {MSAN}"),
    "tsan": ("clang++", "-O1 -g1 -fsanitize=thread"),
}


def die(msg):
    print("ERROR: " + msg, flush=True)
    sys.exit(2)


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, text=True, **kw)
    return r.returncode, r.stdout


def repo_sources():
    cm = open(os.path.join(REPO, "CMakeLists.txt")).read()
    srcs = []
    for m in re.findall(r"(?m)^\s*(src/[\w./-]+\.c)\b", cm):
        if m not in srcs and os.path.exists(os.path.join(REPO, m)):
            srcs.append(m)
    m = re.search(r"project\s*\([^)]*VERSION\s+([0-9][\w.]*)", cm)
    if not srcs or not m:
        die("cannot read the source list or version from CMakeLists.txt")
    return srcs, m.group(1)


def tree_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h


def walk(d, exts):
    out = []
    for b, ds, fs in os.walk(d):
        ds.sort()
        for f in sorted(fs):
            if f.endswith(exts):
                out.append(os.path.join(b, f))
    return out


class Builder:
    def __init__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.srcs, self.version = repo_sources()
        files = walk(os.path.join(REPO, "src"), (".c", ".h", ".inc", ".def")) + walk(os.path.join(REPO, "include"), (".h", ".in"))
        self.base = tree_hash(files)
        self.base.update(("|".join(self.srcs) + self.version).encode())
        pub = walk(os.path.join(REPO, "include"), (".h", ".in"))
        hf = walk(os.path.join(HERE, "harness"), (".h", ".cpp", ".c"))
        self.hbase = tree_hash(pub + hf)
        self.hbase.update(self.version.encode())
        self.hsrc = [p for p in hf if p.endswith(".cpp")]

    def inc(self):
        """generated version.h, as configure_file would make it"""
        d = os.path.join(BUILD, "gen-" + hashlib.sha256(self.version.encode() + self.base.digest()).hexdigest()[:12])
        p = os.path.join(d, "mbelib-neo", "version.h")
        if not os.path.exists(p):
            os.makedirs(os.path.dirname(p), exist_ok=True)
            t = open(os.path.join(REPO, "include/mbelib-neo/version.h.in")).read()
            with open(p + ".tmp", "w") as f:
                f.write(t.replace("@PROJECT_VERSION@", self.version))
            os.rename(p + ".tmp", p)
        return d

    def lib_path(self, fl):
        h = self.base.copy()
        h.update(repr(FLAV[fl]).encode() + WRAP.encode())
        return os.path.join(BUILD, f"lib-{fl}-{h.hexdigest()[:16]}.so")

    def exe_path(self, ex):
        h = self.hbase.copy()
        h.update(repr(HARN[ex]).encode())
        return os.path.join(BUILD, f"hx-{ex}-{h.hexdigest()[:16]}")

    def build(self, flavs, exes):
        todo_l = [f for f in flavs if not os.path.exists(self.lib_path(f))]
        todo_e = [e for e in exes if not os.path.exists(self.exe_path(e))]
        for p in [self.lib_path(f) for f in flavs] + [self.exe_path(e) for e in exes]:
            if os.path.exists(p):
                os.utime(p)
        if not todo_l and not todo_e:
            return
        gen = self.inc()
        jobs, links = [], []
        tmp = os.path.join(BUILD, "obj-%d" % os.getpid())
        os.makedirs(tmp, exist_ok=True)
        incs = [f"-I{REPO}/include", f"-I{gen}", f"-I{REPO}", f"-I{REPO}/src/internal", f"-I{REPO}/src/external/pffft"]
        for f in todo_l:
            cc, fl = FLAV[f]
            objs = []
            for s in self.srcs:
                o = os.path.join(tmp, f + "-" + s.replace("/", "_") + ".o")
                objs.append(o)
                jobs.append([cc, "-std=gnu11", "-w", "-fPIC", "-DMBE_BUILDING=1", *fl.split(), *incs, "-c",
                             os.path.join(REPO, s), "-o", o])
            out = self.lib_path(f)
            lf = fl.split()
            if f == "fast":  # keep crtfastmath (FTZ/DAZ for the whole process) out of the link
                lf = ["-O3", "-flto"]
            links.append(([cc, "-shared", *lf, "-Wl,-Bsymbolic", *(WRAP.split() if f.startswith("alloc") else []),
                           *objs, "-lm", "-o", out + ".tmp%d" % os.getpid()], out))
        for e in todo_e:
            cc, fl = HARN[e]
            objs = []
            for s in self.hsrc:
                o = os.path.join(tmp, "hx-" + e + "-" + os.path.basename(s) + ".o")
                objs.append(o)
                jobs.append([cc, "-std=c++17", "-w",
                             "-fno-exceptions", "-fno-rtti", "-ffp-contract=off", f"-DHX_VERSION=\"{self.version}\"",
                             f"-I{REPO}/include", f"-I{gen}", *fl.split(), "-c", s, "-o", o])
            out = self.exe_path(e)
            links.append(([cc, *fl.split(), "-rdynamic", *objs, "-ldl", "-lpthread", "-lm", "-o",
                           out + ".tmp%d" % os.getpid()], out))
        with ThreadPoolExecutor(8) as ex:
            for (rc, log), j in zip(ex.map(sh, jobs), jobs):
                if rc:
                    shutil.rmtree(tmp, ignore_errors=True)
                    die("compile failed: " + " ".join(j) + "\n" + log[:1500])
            for (rc, log), (j, out) in zip(ex.map(lambda x: sh(x[0]), links), links):
                if rc:
                    shutil.rmtree(tmp, ignore_errors=True)
                    die("link failed: " + " ".join(j) + "\n" + log[:1500])
                os.rename(j[-1], out)
        shutil.rmtree(tmp, ignore_errors=True)
        self.prune()

    def prune(self):
        """keep the cache bounded: newest 80 products"""
        ps = [os.path.join(BUILD, f) for f in os.listdir(BUILD)]
        ps = sorted((p for p in ps if os.path.isfile(p)), key=os.path.getmtime, reverse=True)
        for p in ps[80:]:
            os.unlink(p)
        gs = sorted((os.path.join(BUILD, f) for f in os.listdir(BUILD) if f.startswith("gen-")),
                    key=os.path.getmtime, reverse=True)
        for p in gs[20:]:
            shutil.rmtree(p, ignore_errors=True)


class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, "lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def run_harness(b, run, seed, tier, outp, only=None, verbose=False, timeout=800):
    n = run[tier]
    cmd = [b.exe_path(run.get("exe", "plain")), run["mode"]]
    for f in run["libs"]:
        cmd += ["--lib", f + "=" + b.lib_path(f)]
    cmd += ["--cases", str(n), "--seed", str(seed), "--jobs", str(run.get("jobs", 8)), "--out", outp,
            "--hang", str(run.get("hang", 60) * (5 if tier == "thorough" else 1)), "--tier", tier]
    if only is not None:
        cmd += ["--only", str(only)]
    if verbose:
        cmd.append("-v")
        print(" ".join(cmd), flush=True)
    p = subprocess.Popen(cmd, env=ENV, start_new_session=True,
                         stdout=None if verbose else subprocess.DEVNULL, stderr=None if verbose else subprocess.PIPE)
    try:
        _, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return None, "harness exceeded %d s" % timeout
    finally:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
    if p.returncode != 0:
        return None, "harness exit %d: %s" % (p.returncode, (err or b"").decode(errors="replace")[-800:])
    return parse(outp), ""


def parse(outp):
    r = dict(done=0, inconclusive=0, harness=0, viol=[], evals=0, counters={}, samples=[], sigs=set())
    with open(outp + ".res", errors="replace") as f:
        for line in f:
            t = line.rstrip("\n").split(" ", 3)
            if t[0] == "DONE":
                r["done"] = int(t[1])
            elif t[0] == "INCONCLUSIVE":
                r["inconclusive"] = int(t[1])
            elif t[0] == "HARNESS":
                r["harness"] = int(t[1])
            elif t[0] == "V":
                r["viol"].append((int(t[1]), t[2], t[3] if len(t) > 3 else ""))
    d, base = os.path.dirname(outp), os.path.basename(outp)
    for f in sorted(os.listdir(d)):
        if not f.startswith(base + ".w"):
            continue
        p = os.path.join(d, f)
        if f.endswith(".txt"):
            for line in open(p, errors="replace"):
                t = line.rstrip("\n").split(" ", 2)
                if t[0] == "E":
                    r["evals"] += int(t[1])
                elif t[0] == "C":
                    r["counters"][t[2]] = r["counters"].get(t[2], 0) + int(t[1])
                elif t[0] == "S":
                    r["samples"].append(line.rstrip("\n")[2:])
        elif f.endswith(".sig"):
            raw = open(p, "rb").read()
            r["sigs"].update(struct.unpack("<%dQ" % (len(raw) // 8), raw[:len(raw) // 8 * 8]))
        if f.endswith(".log") and r["harness"]:
            r.setdefault("log", "")
            r["log"] += open(p, errors="replace").read()[:2000]
    return r


def load_findings():
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p))["findings"]]


def check(pid, tier):
    t0 = time.time()
    P = plan.CHECKS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    b = Builder()
    flavs, exes = [], []
    for r in P["runs"]:
        flavs += [f for f in r["libs"] if f not in flavs]
        e = r.get("exe", "plain")
        if e not in exes:
            exes.append(e)
    with Lock():
        b.build(flavs, exes)
    tbuild = time.time() - t0
    work = os.path.join(BUILD, "run-%s-%d" % (pid, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    evals, counters, samples, sigs, viols, errors, per = 0, {}, [], set(), [], [], []
    limit = 800 if tier == "quick" else 6 * 3600
    try:
        for i, r in enumerate(P["runs"]):
            if not r.get(tier):
                continue
            t1 = time.time()
            res, err = run_harness(b, r, seed, tier, os.path.join(work, "r%d" % i),
                                   timeout=max(30, limit - (time.time() - t0)))
            name = r["mode"] + "/" + "+".join(r["libs"])
            if res is None:
                errors.append(name + ": " + err)
                continue
            if res["harness"]:
                errors.append(name + ": harness problem: " + res.get("log", ""))
            if res["inconclusive"]:
                errors.append(name + ": a case was slow once and could not be judged")
            evals += res["evals"]
            tag = hashlib.sha256(r["mode"].encode()).digest()[:8]
            tag = struct.unpack("<Q", tag)[0]
            sigs.update(s ^ tag for s in res["sigs"])
            for k, v in res["counters"].items():
                counters[k] = counters.get(k, 0) + v
            for s in res["samples"]:
                if len([x for x in samples if x.startswith(r["mode"] + ": ")]) < 3:
                    samples.append(r["mode"] + ": " + s)
            if not res["viol"]:
                if res["done"] < r[tier]:
                    errors.append("%s: only %d of %d cases ran" % (name, res["done"], r[tier]))
                if not res["evals"] or not res["sigs"]:
                    errors.append(name + ": nothing was observed")
                for n in r.get("need", []):
                    if not res["counters"].get(n):
                        errors.append("%s: no event '%s' was observed" % (name, n))
            viols += [(i, c, k, m) for c, k, m in res["viol"]]
            per.append(dict(run=name, cases=res["done"], evaluations=res["evals"], distinct=len(res["sigs"]),
                            seconds=round(time.time() - t1, 2)))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    finds = [f for f in load_findings() if f["property"] == pid and f.get("status") == "known"]
    new, seen = [], {}
    for i, c, k, m in viols:
        f = next((f for f in finds if f["mode"] == P["runs"][i]["mode"] and f["key"] == k), None)
        if f:
            seen[f["id"]] = f
        else:
            new.append((i, c, k, m))
    for f in finds:
        if f["id"] in seen or f["mode"] in [r["mode"] for r in P["runs"]]:
            print("KNOWN-FINDING: property=%s %s" % (pid, f["what"]), flush=True)
    keys, shown = set(), []
    for i, c, k, m in sorted(new, key=lambda x: (x[0], x[1])):
        if (i, k) in keys or len(shown) >= 8:
            continue
        keys.add((i, k))
        rp = os.path.join(EVID, "replay", "%s-%d-%s.sh" % (pid, i, re.sub(r"[^\w.-]", "_", k)[:60]))
        with open(rp, "w") as f:
            f.write("#!/bin/sh\n# %s: %s\n# %s\nexec python3 %s replay %s %d %d %d %s\n" %
                    (pid, k, m.replace("\n", " "), os.path.join(HERE, "bin/check.py"), pid, i, c, seed, tier))
        os.chmod(rp, 0o755)
        shown.append((k, m, rp))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        print("  [%s case %d] %s: %s" % (P["runs"][i]["mode"], c, k, m), flush=True)
    ev = dict(property=pid, tier=tier, seed=seed, level=P["level"],
              coverage=dict(evaluations=evals, distinct_nontrivial=len(sigs), rule=P["rule"], samples=samples[:12],
                            events=counters, runs=per, build_seconds=round(tbuild, 2)),
              assumptions=P.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(new))
    if P.get("exhaustive"):
        ev["coverage"]["exhaustive"] = True
    with open(os.path.join(EVID, pid + ".json.tmp"), "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(os.path.join(EVID, pid + ".json.tmp"), os.path.join(EVID, pid + ".json"))
    if new:
        sys.exit(1)
    if errors:
        for e in errors:
            print("ERROR: " + e)
        sys.exit(2)
    print("OK %s %s: %d evaluations, %d distinct behaviours, %.1f s" % (pid, tier, evals, len(sigs), time.time() - t0))
    sys.exit(0)


def main():
    a = sys.argv[1:]
    if a == ["setup"]:
        b = Builder()
        fl = sorted({f for P in plan.CHECKS.values() for r in P["runs"] for f in r["libs"]})
        ex = sorted({r.get("exe", "plain") for P in plan.CHECKS.values() for r in P["runs"]})
        with Lock():
            b.build(fl, ex)
        print("built", fl, ex)
        return
    if len(a) == 6 and a[0] == "replay":
        pid, i, c, seed, tier = a[1], int(a[2]), int(a[3]), int(a[4]), a[5]
        r = plan.CHECKS[pid]["runs"][i]
        b = Builder()
        with Lock():
            b.build(r["libs"], [r.get("exe", "plain")])
        work = os.path.join(BUILD, "replay-%d" % os.getpid())
        os.makedirs(work, exist_ok=True)
        res, err = run_harness(b, r, seed, tier, os.path.join(work, "r"), only=c, verbose=True)
        shutil.rmtree(work, ignore_errors=True)
        if res is None:
            die(err)
        for v in res["viol"]:
            print("VIOLATION", v)
        sys.exit(1 if res["viol"] else 0)
    if len(a) != 2 or a[0] not in plan.CHECKS or a[1] not in ("quick", "thorough"):
        die("usage: check.py <property> quick|thorough | setup | replay ...")
    check(a[0], a[1])


main()
