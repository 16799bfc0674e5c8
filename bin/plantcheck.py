#!/usr/bin/env python3
"""plantcheck.py [--all-checks] [--tier=T] DIR...   run the check of each planted bug's property against a scratch copy of /repo's HEAD with the patch applied
(from a copy of /verif, so that both trees can be edited meanwhile)."""
import json, os, shutil, subprocess, sys, time
P = f"/tmp/pc{os.getpid()}"; V = P + "/verif"; R = P + "/repo"
def sh(c, **k): return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
os.makedirs(P); tier = next((a[7:] for a in sys.argv if a.startswith("--tier=")), "quick")
sh(f"mkdir -p {V} && cd /verif && tar cf - --exclude=.build --exclude=seeded --exclude=.git . | tar xf - -C {V}")
dirs = [os.path.abspath(a) for a in sys.argv[1:] if not a.startswith("--")]
try:
    for d in dirs:
        shutil.rmtree(R, ignore_errors=True); sh(f"mkdir -p {R} && git -C /repo archive HEAD | tar xf - -C {R}")
        a = sh(f"git apply --directory= {d}/patch.diff", cwd=R, env={**os.environ, "GIT_CEILING_DIRECTORIES": P})
        if a.returncode: print("==", os.path.basename(d), "APPLY", a.stdout, flush=True); continue
        m = json.load(open(d + "/meta.json"))
        ids = [f"C{i:02d}" for i in range(1, 28)] if "--all-checks" in sys.argv else [m["property"]]
        for i in ids:
            t0 = time.time(); c = sh(f"python3 bin/check.py {i}", cwd=V, env={**os.environ, "VERIF_REPO": R, "VERIF_SEED": os.environ.get("VERIF_SEED", "1"), "VERIF_TIER": tier})
            v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
            print(f"== {os.path.basename(d)} {i} exit {c.returncode} {'CAUGHT' if c.returncode == 1 and v else 'MISSED' if c.returncode == 0 else 'ERROR'} {time.time()-t0:.0f} s {' '.join(sorted({x.split('replay=')[1].split('/')[-1] for x in v}))[:100]}", flush=True)
            open(f"/tmp/plant-{os.path.basename(d)}-{i}.log", "w").write(c.stdout)
        sh(f"rm -rf {V}/.build")
finally:
    shutil.rmtree(P, ignore_errors=True)
