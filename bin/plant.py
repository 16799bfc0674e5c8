#!/usr/bin/env python3
"""plant.py DIR...   verify planted bugs: patch applies, touches only lines of the base commit, builds, stable tests pass, demo 0/nonzero; then run the check of its property.
Works in a scratch copy /tmp/plant (removed at the end)."""
import json, os, re, shutil, subprocess, sys
V = "/verif"; BASE = "09d4936"; W = "/tmp/plant"
def sh(c, **k): return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def fixed_lines():
    """lines (file -> set of line texts' numbers at HEAD) added since the base commit, by blame"""
    cache = {}
    def f(path):
        if path not in cache:
            o = sh(f"git -C /repo blame -s --abbrev=7 {path}").stdout.splitlines()
            cache[path] = {i + 1 for i, l in enumerate(o) if not (l.startswith("^") or l.startswith(BASE))}
        return cache[path]
    return f
def touched(patch):
    out = {}; cur = None
    for l in open(patch):
        if l.startswith("--- a/"): cur = l[6:].strip()
        m = re.match(r"@@ -(\d+)", l)
        if m: n = int(m.group(1)); continue
        if l.startswith("-") and not l.startswith("---"): out.setdefault(cur, set()).add(n); n += 1
        elif l.startswith(" "): n += 1
    return out
def main():
    fl = fixed_lines(); check = "--nocheck" not in sys.argv
    for d in [a for a in sys.argv[1:] if not a.startswith("--")]:
        d = os.path.abspath(d); patch = d + "/patch.diff"; meta = json.load(open(d + "/meta.json")); res = []
        shutil.rmtree(W, ignore_errors=True); shutil.copytree("/repo", W, symlinks=True)
        t = touched(patch)
        res.append("base-lines " + ("ok" if t and all(not (v & fl(k)) for k, v in t.items()) else f"TOUCHES FIX LINES OR NOTHING {t}"))
        dm = shutil.copytree(d, "/tmp/plantdemo", dirs_exist_ok=True)
        for x in ("patch.diff", "meta.json"): os.remove(f"{dm}/{x}")
        clean = sh(f"bash {dm}/demo.sh", cwd=W); a = sh(f"git apply {patch}", cwd=W); res.append("apply " + ("ok" if a.returncode == 0 else "FAIL " + a.stdout))
        demo = sh(f"bash {dm}/demo.sh", cwd=W); shutil.rmtree(dm)
        res.append(f"demo clean {clean.returncode} bug {demo.returncode} " + ("ok" if clean.returncode == 0 and demo.returncode != 0 else "BAD " + clean.stdout[-1500:] + demo.stdout[-800:]))
        if demo.returncode: res.append("  " + " / ".join([l for l in demo.stdout.splitlines() if "FAILED" in l][:2])[:300])
        # the build folder names /repo, so build and test in place: apply, build, test, revert
        sh(f"git -C /repo apply {patch}")
        try:
            b = sh("bash /opt/vp/build.sh"); res.append("build " + ("ok" if b.returncode == 0 else "FAIL " + b.stdout[-1500:]))
            if b.returncode == 0:
                sh("bash /opt/vp/test.sh /tmp/plant.json"); r = json.load(open("/tmp/plant.json")); base = json.load(open("/opt/vp/BASELINE.json")); want = base.get("passed", base.get("stable", base.get("tests", [])))
                miss = [x for x in want if x not in r["passed"]]; res.append("tests " + ("ok" if want and not miss else f"FAIL {miss}"))
            if check:
                import time; t0 = time.time(); c = sh(f"VERIF_SEED=1 VERIF_TIER=quick python3 bin/check.py {meta['property']}", cwd=V); v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
                res.append(f"check {meta['property']} exit {c.returncode} {'CAUGHT' if c.returncode == 1 and v else 'MISSED'} {time.time()-t0:.0f} s"); open("/tmp/plant-" + os.path.basename(d) + ".log", "w").write(c.stdout)
        finally:
            sh("git -C /repo checkout -- .")
        print(f"== {os.path.basename(d)} [{meta['property']}]", *res, sep="\n   ", flush=True)
    shutil.rmtree(W, ignore_errors=True)
    sh("bash /opt/vp/build.sh")
main()
