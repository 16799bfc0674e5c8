#!/usr/bin/env python3
"""check.py ID                 run the check of one property (tier and seed from VERIF_TIER / VERIF_SEED)
check.py ID --replay FILE   replay one saved case (or campaign) against /repo's current tree
check.py --build            build every harness (used by setup_cmd as a smoke test)

Builds the library from /repo's working tree, runs every sub-property of the property as independent
generator processes, confirms each failure by three fresh replays, writes evidence/<ID>.json.
Exit 0: held on everything explored.  Exit 1: a VIOLATION line was printed.  Exit 3: could not run."""
import concurrent.futures as cf, fcntl, glob, hashlib, json, os, shutil, signal, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(HERE, "bin"))
from registry import CHECKS, ASSUMPTIONS  # noqa: E402

HARNESS = os.path.join(HERE, "harness")
BUILD = os.path.join(HERE, ".build")
NPROC = 8
CONFIRM = 3


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def environment():
    e = dict(os.environ)
    e.update(OMPI_CC="gcc", OMPI_CXX="g++", OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1",
             OMPI_MCA_btl="self,vader", OMPI_MCA_plm_rsh_agent="/bin/false", OMPI_MCA_btl_vader_single_copy_mechanism="none",
             OMPI_MCA_rmaps_base_oversubscribe="1", OMPI_MCA_hwloc_base_binding_policy="none", OMPI_MCA_mpi_yield_when_idle="1",
             OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:handle_abort=0:detect_stack_use_after_return=0",
             UBSAN_OPTIONS="halt_on_error=1:abort_on_error=1:print_stacktrace=1", LC_ALL="C", MALLOC_PERTURB_="165")
    e.pop("RC_PARAMS", None)
    return e


ENV = environment()
MODES = {
    "plain": ["-O1", "-g1", "-DNDEBUG"],
    "asan": ["-O1", "-g1", "-DNDEBUG", "-fsanitize=address,undefined", "-fno-sanitize=vptr", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"],
}
COMMON = ["-std=c++20", "-DUSE_PETSC", "-include", os.path.join(HARNESS, "shim.hpp"), "-fpermissive", "-w",
          "-I" + os.path.join(REPO, "src"), "-I/usr/lib/petsc/include", "-I" + HARNESS]
LIBS = ["-L/usr/lib/petsc/lib", "-lpetsc", "-lp4est", "-lsc", "-lz", "-llapack", "-lblas", "-lrapidcheck"]


def sources():
    s = sorted(glob.glob(os.path.join(REPO, "src", "**", "*"), recursive=True))
    return [f for f in s if f.endswith((".cpp", ".hpp", ".h", ".c")) and os.path.isfile(f)]


def digest(files, extra=""):
    h = hashlib.sha256(extra.encode())
    for f in files:
        h.update(f.encode() + b"\0")
        with open(f, "rb") as g:
            h.update(g.read())
        h.update(b"\0")
    return h.hexdigest()[:20]


class BuildError(Exception):
    pass


def compile_one(cmd):
    p = subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout[-6000:])


def build(harnesses, modes):
    """Compiles library + rig + shim + the harnesses; returns {(harness, mode): binary}."""
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    out = {}
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        src = sources()
        jobs, links = [], []
        for mode in modes:
            flags = MODES[mode] + COMMON
            key = digest(src + [os.path.join(HARNESS, f) for f in ("shim.hpp", "shim.cpp", "rig.hpp", "rig.cpp")], repr(flags))
            d = os.path.join(BUILD, f"{mode}-{key}")
            os.makedirs(d, exist_ok=True)
            os.utime(d)
            objs = []
            for f in [x for x in src if x.endswith(".cpp")] + [os.path.join(HARNESS, "shim.cpp"), os.path.join(HARNESS, "rig.cpp")]:
                o = os.path.join(d, os.path.relpath(f, "/").replace("/", "_") + ".o")
                objs.append(o)
                if not os.path.exists(o):
                    jobs.append((0 if f.endswith("rig.cpp") else 1, ["mpicxx"] + flags + ["-c", f, "-o", o + ".tmp"], o))
            for h in harnesses:
                hs = [os.path.join(HARNESS, h + ".cpp")] + sorted(glob.glob(os.path.join(HARNESS, "*.hpp")))
                hk = digest(hs)
                o = os.path.join(d, f"{h}-{hk}.o")
                b = os.path.join(d, f"{h}-{hk}")
                out[(h, mode)] = b
                if not os.path.exists(b):
                    if not os.path.exists(o):
                        jobs.append((-1, ["mpicxx"] + flags + ["-c", hs[0], "-o", o + ".tmp"], o))
                    links.append((["mpicxx"] + MODES[mode] + ["-o", b + ".tmp", o] + objs + LIBS, b))
        jobs.sort(key=lambda j: j[0])

        def go(j):
            compile_one(j[1])
            os.rename(j[2] + ".tmp", j[2])
        with cf.ThreadPoolExecutor(NPROC) as ex:
            list(ex.map(go, jobs))

        def ln(j):
            compile_one(j[0])
            os.rename(j[1] + ".tmp", j[1])
        with cf.ThreadPoolExecutor(NPROC) as ex:
            list(ex.map(ln, links))
        old = sorted([x for x in glob.glob(os.path.join(BUILD, "*-*")) if os.path.isdir(x)], key=os.path.getmtime)
        for x in old[:-8]:
            shutil.rmtree(x, ignore_errors=True)
    finally:
        lock.close()
    log(f"[build] {len(jobs)} compiled, {time.time() - t0:.1f} s")
    return out


def command(binary, np_):
    return [binary] if np_ == 1 else ["mpirun", "--oversubscribe", "--bind-to", "none", "-np", str(np_), binary]


def launch(binary, np_, args, rc, cwd, logf):
    env = dict(ENV)
    if rc:
        env["RC_PARAMS"] = rc
    env["VERIF_SCRATCH"] = cwd
    return subprocess.Popen(command(binary, np_) + args, env=env, cwd=cwd, stdin=subprocess.DEVNULL,
                            stdout=subprocess.DEVNULL, stderr=open(logf, "w"), start_new_session=True)


def watch(sub):
    return ["--watch", sub["watch"]] if "watch" in sub else []


def label(sub):
    return sub["name"] + "".join(f"@{x}" for x in (f"np{sub['np']}" if sub.get("np", 1) > 1 else "", "asan" if sub.get("mode") == "asan" else "", sub.get("watch", "")) if x)


def clip(text):
    """The lines of a log that say what happened."""
    out = [l for l in text.splitlines() if any(w in l for w in ("ERROR: Address", "SUMMARY:", "runtime error:", "Assertion", "PETSC ERROR: Caught", "PETSC ERROR: #1", "terminate called", "what():"))]
    return "\n".join(out[:12]) if out else text[-1500:]


def stop(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    p.wait()


def tail(path, n=2500):
    try:
        with open(path, errors="replace") as f:
            return f.read()[-n:]
    except OSError:
        return ""


class Run:
    def __init__(self, pid, tier, seed, binaries):
        self.pid, self.tier, self.seed, self.bin = pid, tier, seed, binaries
        self.scratch = os.path.join(HERE, ".scratch", f"{pid}-{os.getpid()}")
        shutil.rmtree(self.scratch, ignore_errors=True)
        os.makedirs(self.scratch)
        self.known = self.load_known()
        self.n = 0
        self.lock = threading.Lock()

    def load_known(self):
        k = {}
        try:
            for line in open(os.path.join(HERE, "known_findings.txt")):
                w = line.strip().split(None, 3)
                if len(w) == 4 and w[0] == "known:" and w[1] == "property=" + self.pid and w[2].startswith("key="):
                    k[w[2][4:]] = w[3]
        except OSError:
            pass
        return k

    def tmp(self, tag):
        with self.lock:
            self.n += 1
            d = os.path.join(self.scratch, f"{self.n:04d}-{tag}")
        os.makedirs(d)
        return d

    def replay(self, sub, path, timeout):
        """One fresh process.  Returns (verdict, text): verdict in pass, fail, crash, hang."""
        d = self.tmp("replay")
        lf = os.path.join(d, "log")
        of = os.path.join(d, "out")
        p = launch(self.bin[(sub["harness"], sub.get("mode", "plain"))], sub.get("np", 1), ["--replay", path, "--out", of, "--known", ",".join(self.known)] + watch(sub), None, d, lf)
        try:
            rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            stop(p)
            return "hang", f"no answer within {timeout} s\n" + tail(lf)
        txt = tail(of) or clip(tail(lf, 200000))
        stop(p)
        shutil.rmtree(d, ignore_errors=True)
        return ("pass" if rc == 0 else "fail" if rc == 1 and os.path.exists(of) is not None and "key " in txt else "crash"), txt

    def replays(self, sub, path, timeout, n=CONFIRM):
        with cf.ThreadPoolExecutor(n) as ex:
            return list(ex.map(lambda _: self.replay(sub, path, timeout), range(n)))

    def shrink_crash(self, sub, path, budget):
        """Shrinks a crashing choice sequence by replaying candidates in fresh processes."""
        t0 = time.time()
        vals = []
        for line in open(path):
            if line.startswith("choices"):
                vals = [int(x) for x in line.split()[1:]]
        while vals and vals[-1] == 0:
            vals.pop()
        d = self.tmp("shrink")

        def crashes(v):
            f = os.path.join(d, "cand")
            open(f, "w").write(f"sub {sub['name']}\nchoices {' '.join(map(str, v))}\n")
            return self.replay(sub, f, 60)[0] == "crash"
        step = max(1, len(vals) // 2)
        while step >= 1 and time.time() - t0 < budget:
            i = 0
            while i < len(vals) and time.time() - t0 < budget:
                c = vals[:i] + vals[i + step:]
                if crashes(c):
                    vals = c
                    continue
                if any(vals[i:i + step]):
                    c = vals[:i] + [0] * len(vals[i:i + step]) + vals[i + step:]
                    if crashes(c):
                        vals = c
                i += step
            step //= 2
        f = path + ".min"
        open(f, "w").write(f"sub {sub['name']}\nchoices {' '.join(map(str, vals))}\n")
        return f

    def job(self, sub, shard, cases, cap, deadline):
        """One generator process.  Returns (stats or None, finding or None)."""
        d = self.tmp(f"{sub['name']}.{shard}")
        h = hashlib.sha256(f"{self.seed}/{self.pid}/{sub['name']}/{sub.get('np', 1)}/{shard}".encode()).digest()
        rcseed = int.from_bytes(h[:8], "big") >> 1
        rc = f"seed={rcseed} max_success={cases} max_size=100 noshrink=1"
        out, ff, cur, lf = (os.path.join(d, x) for x in ("stats.json", "fail.txt", "cur.txt", "log"))
        args = ["--sub", sub["name"], "--out", out, "--fail", ff, "--cur", cur, "--cap", str(cap), "--known", ",".join(self.known)]
        args += watch(sub)
        if "shrink" in sub:
            args += ["--shrink", str(sub["shrink"])]
        campaign = f"campaign sub={label(sub)} rc={rc}\n"
        p = launch(self.bin[(sub["harness"], sub.get("mode", "plain"))], sub.get("np", 1), args, rc, d, lf)
        hang = False
        with self.lock:
            self.procs.add(p)
            if self.stopping:
                stop(p)
        try:
            code = p.wait(max(30.0, min(cap + 150, deadline - time.time())))
        except subprocess.TimeoutExpired:
            hang = True
            code = -1
        stop(p)
        if self.stopping:
            return None, None
        stats = None
        if os.path.exists(out):
            try:
                stats = json.load(open(out))
            except ValueError:
                stats = None
        if not hang and code == 0 and stats and stats["ok"]:
            shutil.rmtree(d, ignore_errors=True)
            return stats, None
        finding = {"sub": sub, "stats": stats, "dir": d, "campaign": campaign, "log": tail(lf), "rc": rc, "cases": cases, "cap": cap, "code": code}
        if os.path.exists(ff) and code == 1:
            finding.update(kind="fail", path=ff)
        else:
            try:
                txt = open(cur, "rb").read().split(b"\0")[0].decode()
            except OSError:
                txt = ""
            path = os.path.join(d, "case.txt")
            open(path, "w").write(txt)
            finding.update(kind="hang" if hang else "crash", path=path if txt else None)
        return stats, finding

    stopping = False
    procs = set()

    def confirm(self, f):
        """Three fresh replays.  Returns (True, replay file, text) for a confirmed violation."""
        sub = f["sub"]
        rd = os.path.join(HERE, "evidence", "replays")
        os.makedirs(rd, exist_ok=True)
        dst = os.path.join(rd, f"{self.pid}-{label(sub)}.case")
        if f["path"]:
            tmo = 90 if f["kind"] != "hang" else 100
            rs = self.replays(sub, f["path"], tmo)
            bad = [r for r in rs if r[0] != "pass"]
            if len(bad) == CONFIRM:
                path = f["path"]
                if all(r[0] == "crash" for r in rs):
                    m = self.shrink_crash(sub, path, 45)
                    rs2 = self.replays(sub, m, 60)
                    if all(r[0] == "crash" for r in rs2):
                        path, bad = m, rs2
                txt = open(path).read()
                open(dst, "w").write(f"# property {self.pid} harness {sub['harness']} label {label(sub)}\n" + txt +
                                     "".join("# " + l + "\n" for l in (bad[0][0] + ": " + bad[0][1]).splitlines()))
                return True, dst, bad[0][0] + ": " + bad[0][1][:1500]
        if f["kind"] == "hang":
            return False, None, "hang not confirmed on replay"
        # the case may depend on the cases before it in the same process: repeat the whole campaign
        def again(i):
            d = self.tmp("again")
            out, ff = os.path.join(d, "stats.json"), os.path.join(d, "fail.txt")
            p = launch(self.bin[(sub["harness"], sub.get("mode", "plain"))], sub.get("np", 1),
                       ["--sub", sub["name"], "--out", out, "--fail", ff, "--cap", str(f["cap"]*2), "--shrink", "0", "--known", ",".join(self.known)] + watch(sub), f["rc"], d, os.path.join(d, "log"))
            try:
                rc = p.wait(f["cap"] * 2 + 60)
            except subprocess.TimeoutExpired:
                stop(p)
                return False
            stop(p)
            return rc != 0 and (rc != 1 or os.path.exists(ff))
        with cf.ThreadPoolExecutor(CONFIRM) as ex:
            ok = list(ex.map(again, range(CONFIRM)))
        if all(ok):
            open(dst, "w").write(f"# property {self.pid} harness {sub['harness']}\n# the failure depends on earlier cases of the same run\n" + f["campaign"] +
                                 "".join("# " + l + "\n" for l in f["log"].splitlines()))
            return True, dst, "campaign fails each time: " + f["log"][-800:]
        return False, None, "not reproducible"

    def run(self, subs, budget):
        t0 = time.time()
        jobs = []
        for s in subs:
            t = s[self.tier] if self.tier in s else s["quick"]
            cases, shards, cap = t
            for k in range(shards):
                jobs.append((s, k, cases, cap))
        # longest first; np>1 jobs use several slots
        jobs.sort(key=lambda j: -j[3] * j[0].get("np", 1))
        slots = NPROC
        cond = threading.Condition()
        free = [slots]
        stats, findings, notes = [], [], []
        self.violation = None

        def worker(j):
            s, k, cases, cap = j
            need = min(slots, s.get("np", 1))
            with cond:
                while free[0] < need:
                    cond.wait()
                free[0] -= need
            try:
                if self.stopping or time.time() - t0 > budget:
                    notes.append(f"{s['name']}.{k}: not run")
                    return
                st, f = self.job(s, k, cases, cap, t0 + budget)
                with self.lock:
                    if st:
                        stats.append((s, st))
                if f:
                    with self.lock:
                        if self.stopping:
                            return
                    ok, path, text = self.confirm(f)
                    with self.lock:
                        if ok and not self.stopping:
                            self.stopping = True
                            self.violation = (path, text, s["name"])
                            for p in list(self.procs):
                                if p.poll() is None:
                                    try:
                                        os.killpg(p.pid, signal.SIGKILL)
                                    except OSError:
                                        pass
                        elif not ok:
                            notes.append(f"{s['name']}.{k}: {f['kind']} (exit {f['code']}) {text}; log: {f['log'][-400:]}")
                            self.unconfirmed = getattr(self, "unconfirmed", 0) + 1
            except Exception as e:  # an error of the check itself
                notes.append(f"{s['name']}.{k}: driver error {e!r}")
                self.broken = True
            finally:
                with cond:
                    free[0] += need
                    cond.notify_all()
        with cf.ThreadPoolExecutor(len(jobs) or 1) as ex:
            list(ex.map(worker, jobs))
        return stats, notes


def evidence(pid, tier, seed, stats, notes, wall, violations, known_lines, runner):
    subs = {}
    for s, st in stats:
        a = subs.setdefault(label(s), dict(evaluations=0, nontrivial=0, distinct_nontrivial=0, skipped_by_time_cap=0, tags={}, maxima={}, rule=st["rule"], seconds=0.0, shards=0))
        for k in ("evaluations", "nontrivial", "distinct_nontrivial", "skipped_by_time_cap", "seconds"):
            a[k] += st[k]
        a["shards"] += 1
        for k, n in st["tags"].items():
            a["tags"][k] = a["tags"].get(k, 0) + n
        for k, x in st["maxima"].items():
            if not isinstance(x, str) and (k not in a["maxima"] or x > a["maxima"][k]):
                a["maxima"][k] = x
    samples = []
    seen = {}
    for s, st in stats:
        for x in st["samples"]:
            if seen.get(st["sub"], 0) < 3:
                seen[st["sub"]] = seen.get(st["sub"], 0) + 1
                samples.append(x)
    rule = "Each case is a sequence of 32-bit choices drawn by rapidcheck and decoded into structured arguments. Non-trivial, per sub-property: " + "; ".join(f"{k}: {v['rule']}" for k, v in sorted(subs.items()))
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=sum(v["evaluations"] for v in subs.values()), distinct_nontrivial=sum(v["distinct_nontrivial"] for v in subs.values()),
                            rule=rule, samples=samples, sub_properties=subs, notes=notes, known_findings=known_lines),
              assumptions=ASSUMPTIONS, wall_s=round(wall, 2), violations=violations)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 3
    if a[0] == "--build":
        hs = sorted({(s["harness"], s.get("mode", "plain")) for c in CHECKS.values() for s in c})
        for mode in ("plain", "asan"):
            build([h for h, m in hs if m == mode], [mode])
        return 0
    pid = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    subs = CHECKS[pid]
    only = None
    if "--sub" in a:
        only = a[a.index("--sub") + 1]
        subs = [s for s in subs if s["name"] == only]
    t0 = time.time()
    try:
        binaries = {}
        for mode in sorted({s.get("mode", "plain") for s in subs}):
            binaries.update(build(sorted({s["harness"] for s in subs if s.get("mode", "plain") == mode}), [mode]))
    except BuildError as e:
        log("build failed\n" + str(e))
        return 3
    r = Run(pid, tier, seed, binaries)
    try:
        if "--replay" in a:
            path = os.path.abspath(a[a.index("--replay") + 1])
            txt = open(path).read()
            lab = txt.split(" label ", 1)[1].split()[0] if " label " in txt.split("\n", 1)[0] else None
            for line in txt.splitlines():
                if line.startswith("campaign "):
                    name = line.split("sub=", 1)[1].split()[0]
                    s = next(s for s in subs if label(s) == name)
                    d = r.tmp("campaign")
                    p = launch(binaries[(s["harness"], s.get("mode", "plain"))], s.get("np", 1), ["--sub", s["name"], "--out", os.path.join(d, "o"), "--fail", os.path.join(d, "f")] + watch(s), line.split("rc=", 1)[1], d, os.path.join(d, "log"))
                    rc = p.wait()
                    print(tail(os.path.join(d, "f")) or tail(os.path.join(d, "log")))
                    return 0 if rc == 0 else 1
                if line.startswith("sub "):
                    name = line.split()[1]
                    s = next(s for s in subs if s["name"] == name and lab in (None, label(s)))
                    v, t = r.replay(s, path, 300)
                    print(v, t)
                    return 0 if v == "pass" else 1
            return 3
        budget = 780 if tier == "quick" else 6 * 3600
        stats, notes = r.run(subs, budget)
        hits = {}
        for s, st in stats:
            for k, (n, sample) in st["known"].items():
                c = hits.setdefault(k, [0, sample])
                c[0] += n
        known_lines = []
        for k, text in r.known.items():
            if k in hits:
                line = f"KNOWN-FINDING: property={pid} {text}"
                known_lines.append(dict(key=k, hits=hits[k][0], sample=hits[k][1], text=text))
                print(line, flush=True)
        nviol = 1 if r.violation else 0
        if only is None:
            evidence(pid, tier, seed, stats, notes, time.time() - t0, nviol, known_lines, r)
        for n in notes:
            log("[note] " + n)
        tot = sum(st["evaluations"] for _, st in stats)
        nt = sum(st["distinct_nontrivial"] for _, st in stats)
        log(f"[{pid}] {tier} seed={seed}: {tot} cases, {nt} distinct non-trivial, {time.time() - t0:.1f} s")
        if r.violation:
            path, text, name = r.violation
            log(text)
            print(f"VIOLATION property={pid} replay={path}", flush=True)
            return 1
        if getattr(r, "broken", False):
            return 3
        return 0
    finally:
        shutil.rmtree(r.scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
