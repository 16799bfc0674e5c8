#!/usr/bin/env python3
"""mutants.py --count N --seed S --out FILE [--files REGEX] [--workers K]
Mutation campaign (a development tool, not a registered check): samples small changes of /repo/src, compiles the
harnesses against them in a scratch directory and runs the sub-properties that exercise the changed file with small
budgets.  Each line of FILE: verdict (killed / survived / nobuild), file:line, operator, old line, new line, killer."""
import argparse, concurrent.futures as cf, glob, json, os, random, re, shutil, subprocess, sys, threading
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "bin"))
import check  # noqa: E402
REPO = "/repo"
TMP = "/tmp/mut"
FLAGS = ["-O1", "-g0", "-DNDEBUG", "-std=c++20", "-DUSE_PETSC", "-include", os.path.join(check.HARNESS, "shim.hpp"), "-fpermissive", "-w", "-I/usr/lib/petsc/include", "-I" + check.HARNESS]
CPPS = ["EllipticForestApp", "InputParser", "Interpolation", "MPI", "Options", "P4est", "Timer", "VTK", "XMLTree", "Logger", "Patches/FiniteVolume/FiniteVolumeGrid", "Patches/FiniteVolume/FiniteVolumeNodeFactory", "Patches/FiniteVolume/FiniteVolumePatch", "Patches/FiniteVolume/FiniteVolumeSolver"]
# file pattern -> harness: [(sub, np, cases, watch)]
MAP = [
    (r"Vector\.hpp", [("alg_props", [("vec_sequence", 1, 4000), ("vec_index", 1, 6000), ("reject", 1, 4000), ("mat_algebra", 1, 800), ("vec_sequence", 1, 800, "fill")]), ("misc_props", [("print", 1, 2000)]), ("mpi_props", [("par_vec", 2, 1500), ("par_vec", 3, 1500), ("messages", 2, 1500)])]),
    (r"/Matrix\.hpp", [("alg_props", [("mat_index", 1, 6000), ("mat_algebra", 1, 1500), ("mat_solve", 1, 3000), ("reject", 1, 4000), ("mat_index", 1, 800, "fill")]), ("misc_props", [("print", 1, 2000)]), ("mpi_props", [("par_mat", 2, 1500), ("par_mat", 3, 1500), ("messages", 2, 1500)])]),
    (r"SpecialMatrices|Interpolation", [("alg_props", [("interp_ops", 1, 2000), ("interpolant", 1, 6000), ("mat_index", 1, 2000)]), ("hps_props", [("a_ref", 1, 40)]), ("mpi_props", [("par_mat", 2, 1500)])]),
    (r"HPSAlgorithm", [("hps_props", [("a_ref", 1, 120), ("b_ref", 1, 120), ("u_ref", 1, 60), ("h_history", 1, 100), ("o_options", 1, 100), ("f_global", 1, 40), ("b_eq", 1, 60), ("m_sym", 1, 50)]), ("mpi_props", [("np_solve", 2, 120), ("np_solve", 4, 120)]), ("res_props", [("growth", 1, 60), ("growth", 2, 40)])]),
    (r"FiniteVolumeSolver", [("patch_props", [("p_solve", 1, 400), ("f_patch", 1, 300)]), ("hps_props", [("u_ref", 1, 30), ("f_global", 1, 30)]), ("res_props", [("growth", 1, 60)])]),
    (r"FiniteVolume(Grid|Patch|NodeFactory)|PatchGrid|/Patch\.hpp|PatchSolver", [("patch_props", [("g_family", 1, 5000), ("g_family", 1, 800, "fill")]), ("mesh_props", [("refine", 1, 300)]), ("mpi_props", [("messages", 2, 2500), ("messages", 3, 2000), ("np_tree", 2, 200), ("np_solve", 2, 80)]), ("hps_props", [("a_ref", 1, 40), ("h_history", 1, 40)]), ("misc_props", [("print", 1, 2000)])]),
    (r"Mesh\.hpp", [("mesh_props", [("refine", 1, 500), ("vtk", 1, 400)]), ("mpi_props", [("np_vtk", 2, 200), ("np_tree", 2, 200)]), ("res_props", [("growth", 1, 60)])]),
    (r"Quadtree|QuadNode|NodeFactory|P4est", [("mesh_props", [("tree", 1, 1500), ("refine", 1, 200)]), ("mpi_props", [("np_tree", 2, 300), ("np_tree", 4, 300), ("np_solve", 3, 60), ("messages", 2, 1500)]), ("res_props", [("growth", 2, 50)])]),
    (r"MPI\.", [("mpi_props", [("messages", 2, 3000), ("messages", 3, 3000), ("messages", 4, 2000)])]),
    (r"Options|InputParser", [("misc_props", [("options", 1, 3000), ("options", 1, 400, "fill"), ("print", 1, 1500)]), ("life_props", [("life", 1, 25)])]),
    (r"VTK|XMLTree", [("misc_props", [("xml_tree", 1, 2000), ("vtk_rect", 1, 1500), ("vtk_unstr", 1, 1500)]), ("mpi_props", [("np_pvtu", 2, 800), ("np_pvtu", 4, 500)]), ("mesh_props", [("vtk", 1, 150)]), ("res_props", [("growth", 1, 60)])]),
    (r"Timer|DataCache|EllipticForestApp|Logger|GenericSingleton", [("misc_props", [("cache", 1, 2000), ("timer", 1, 200), ("app", 1, 1000)]), ("mpi_props", [("np_log", 1, 300), ("np_log", 3, 300)]), ("life_props", [("life", 1, 30)])]),
]
SWAPS = ["i:j", "x:y", "nx:ny", "dx:dy", "nx():ny()", "dx():dy()", "xLower():yLower()", "xUpper():yUpper()", "xLower():xUpper()", "yLower():yUpper()", "alpha:beta", "beta:gamma", "gamma:omega", "alpha:omega", "WEST:EAST", "SOUTH:NORTH", "EAST:NORTH", "nrows_:ncols_", "nrows():ncols()", "nRows():nCols()", "nrows:ncols", "pfirst:plast", "row_index:col_index", "INSERT_VALUES:ADD_VALUES", "min:max", "push_back:insert", "first:last", "continue:break", "size_t:int", "lhs:rhs", "A:B", "m:n", "a:b", "localRows:globalRows", "matrixT:matrixX", "rowSizes:colSizes"]


def strip(text):
    """Comments, strings, preprocessor lines and regions never compiled blanked, same positions."""
    out = list(text)
    for m in re.finditer(r'^[ \t]*#\s*if(?:def)?\s+(?:0|DTN_OPTIMIZE|USE_MATPLOTLIBCPP)\b.*?^[ \t]*#\s*(?:else|endif)', text, re.S | re.M):
        for k in range(m.start(), m.end()):
            if out[k] != "\n":
                out[k] = " "
    for m in re.finditer(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])\'|^[ \t]*#[^\n]*(?:\\\n[^\n]*)*', text, re.S | re.M):
        for k in range(m.start(), m.end()):
            if out[k] != "\n":
                out[k] = " "
    return "".join(out)


def mutants(path):
    text = open(path).read()
    s = strip(text)
    res = []

    def add(a, b, new, op):
        res.append((path, a, b, new, op))
    ops = {"<=": ["<"], ">=": [">"], "==": ["!="], "!=": ["=="], "&&": ["||"], "||": ["&&"], "+=": ["-=", "="], "-=": ["+="], "*=": ["="], "++": ["--"]}
    for m in re.finditer(r"<=|>=|==|!=|&&|\|\||\+=|-=|\*=|\+\+", s):
        for n in ops[m.group()]:
            add(m.start(), m.end(), n, m.group() + " -> " + n)
    for m in re.finditer(r"(?<=[\w\)\]] )([-+*/<>])(?= [\w\(\-])", s):
        o = m.group(1)
        for n in {"+": ["-"], "-": ["+"], "*": ["/"], "/": ["*"], "<": ["<=", ">"], ">": [">=", "<"]}[o]:
            add(m.start(), m.end(), n, o + " -> " + n)
    for m in re.finditer(r"(?<=[\w\)\]])([-+*/])(?=[\w\(])(?!>)", s):
        o = m.group(1)
        for n in {"+": ["-"], "-": ["+"], "*": ["/"], "/": ["*"]}[o]:
            add(m.start(), m.end(), n, o + " -> " + n)
    for m in re.finditer(r"(?<![\w.])(\d+\.\d*|\d+)(?![\w.])", s):
        t = m.group()
        if re.fullmatch(r"\d+", t):
            v = int(t)
            for n in {str(v + 1), str(v - 1) if v > 0 else "1"}:
                add(m.start(), m.end(), n, t + " -> " + n)
        else:
            add(m.start(), m.end(), str(float(t) * 0.5 if float(t) else 1.0), t + " halved")
    for m in re.finditer(r"\b(true|false)\b", s):
        add(m.start(), m.end(), "false" if m.group() == "true" else "true", "flip " + m.group())
    for m in re.finditer(r"\bif \(", s):
        # negate or drop the condition
        d, k = 0, m.end() - 1
        while k < len(s):
            d += (s[k] == "(") - (s[k] == ")")
            if d == 0:
                break
            k += 1
        add(m.end(), k, "!(" + text[m.end():k] + ")", "negate condition")
        add(m.end(), k, "true || (" + text[m.end():k] + ")", "condition true")
        add(m.end(), k, "false && (" + text[m.end():k] + ")", "condition false")
    for p in SWAPS:
        a, b = p.split(":")
        for u, v in ((a, b), (b, a)):
            for m in re.finditer(r"(?<![\w])" + re.escape(u) + (r"(?!\w)" if u[-1] not in ")" else ""), s):
                add(m.start(), m.end(), v, u + " -> " + v)
    # statement deletion: single-line statements
    for m in re.finditer(r"^[ \t]+([^\n;{}]*[\w\)\]]);[ \t]*$", s, re.M):
        st = m.group(1)
        if re.match(r"(return|using|typedef|typename|template|class|struct|private|public|virtual|static|throw|friend|auto\b|int\b|double\b|bool\b|const\b|std::\w+(<.*>)? \w+$)", st.strip()):
            continue
        if "(" in st or "=" in st:
            add(m.start(1), m.end(1), "", "delete statement")
    # two neighbouring arguments exchanged
    for m in re.finditer(r"\(([\w\.\[\]\-> ]+), ([\w\.\[\]\-> ]+)\)", s):
        a, b = m.group(1), m.group(2)
        if a != b:
            add(m.start(1), m.end(2), b + ", " + a, "exchange arguments")
    keep = []
    for r in res:
        l0 = s.rfind("\n", 0, r[1]) + 1
        l1 = s.find("\n", r[1])
        line, raw = s[l0:l1], text[l0:l1]
        if re.search(r"\b(app\.log|cout|cerr|logHead|printf|timers|addTimer|template|typename|throw|std::string errorMessage|assert)\b", raw) or not line.strip():
            continue
        if re.match(r"\s*(class|struct|namespace|#|enum|public|private)", line):
            continue
        keep.append(r)
    return keep


lock = threading.Lock()


def sh(cmd, t, **kw):
    try:
        p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL, start_new_session=True, **kw)
        return p.wait(t)
    except subprocess.TimeoutExpired:
        check.stop(p)
        return -99


def compile_(d, src, out):
    return sh(["mpicxx"] + FLAGS + ["-I" + d + "/src", "-c", src, "-o", out], 300, env=check.ENV)


def trial(d, mut):
    if isinstance(mut, dict):
        return trial_edits(d, mut)
    path, a, b, new, op = mut
    rel = os.path.relpath(path, REPO)
    text = open(path).read()
    line = text.count("\n", 0, a) + 1
    old = text.splitlines()[line - 1].strip()
    body = text[:a] + new + text[b:]
    now = body.splitlines()[line - 1].strip()
    info = dict(file=rel, line=line, op=op, old=old, new=now, a=a, b=b, text=new)
    dst = os.path.join(d, rel)
    open(dst, "w").write(body)
    try:
        return judge(d, info, next(p for r, p in MAP if re.search(r, "/" + rel)))
    finally:
        shutil.copy(path, dst)


def trial_edits(d, mut):
    """mut: {"id":..., "edits": [[file under src, old text, new text], ...]} written by hand."""
    info = dict(id=mut["id"], file=mut["edits"][0][0], line=0, op="edit", old=mut["edits"][0][1], new=mut["edits"][0][2], a=0, b=0, text="")
    try:
        plan = []
        for f, old, new in mut["edits"]:
            p = os.path.join(d, "src", f)
            t = open(p).read()
            if t.count(old) != 1:
                return dict(info, verdict=f"text occurs {t.count(old)} times in {f}")
            open(p, "w").write(t.replace(old, new))
            plan += [x for x in next(p for r, p in MAP if re.search(r, "/src/" + f)) if x not in plan]
        return judge(d, info, plan)
    finally:
        for f, _, _ in mut["edits"]:
            shutil.copy(os.path.join(REPO, "src", f), os.path.join(d, "src", f))


def judge(d, info, plan):
    unity = os.path.join(d, "unity.cpp")
    open(unity, "w").write("".join(f'#include "{d}/src/{c}.cpp"\n' for c in CPPS))
    if compile_(d, unity, d + "/unity.o"):
        return dict(info, verdict="nobuild")
    for harness, subs in plan:
        if compile_(d, os.path.join(check.HARNESS, harness + ".cpp"), d + "/h.o"):
            return dict(info, verdict="nobuild")
        if sh(["mpicxx", "-o", d + "/bin", d + "/h.o", d + "/unity.o", TMP + "/rig.o", TMP + "/shim.o"] + check.LIBS, 120, env=check.ENV):
            return dict(info, verdict="nobuild")
        for t in subs:
            name, np_, cases = t[:3]
            w = ["--watch", t[3]] if len(t) > 3 else []
            run = os.path.join(d, "run")
            shutil.rmtree(run, ignore_errors=True)
            os.makedirs(run)
            env = dict(check.ENV, RC_PARAMS=f"seed=77 max_success={cases} max_size=100 noshrink=1", VERIF_SCRATCH=run)
            rc = sh(check.command(d + "/bin", np_) + ["--sub", name, "--out", run + "/o", "--fail", run + "/f", "--cur", run + "/c", "--cap", "12", "--known", "", "--shrink", "0"] + w, 120, cwd=run, env=env)
            ok = False
            try:
                ok = json.load(open(run + "/o"))["ok"]
            except Exception:
                pass
            if rc != 0 or not ok:
                return dict(info, verdict="killed", by=f"{harness}.{name}@{np_}{w and '@fill' or ''}", rc=rc)
    return dict(info, verdict="survived")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--count", type=int, default=50)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--out", default="/tmp/mut/out.jsonl")
    ap.add_argument("--files", default=".")
    ap.add_argument("--workers", type=int, default=6)
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--edits", help="file with hand-written changes, one JSON object per line")
    ap.add_argument("--control", action="store_true", help="unchanged code: every plan has to survive")
    o = ap.parse_args()
    os.makedirs(TMP, exist_ok=True)
    files = [f for f in check.sources() if re.search(o.files, f) and "PlotUtils" not in f]
    rnd = random.Random(o.seed)
    groups = {f: mutants(f) for f in files}
    if o.list:
        for f in files:
            print(len(groups[f]), f)
        return
    # stratified: files weighted by the square root of their number of mutants
    pick, done = [], set()
    try:
        for l in open(o.out):
            r = json.loads(l)
            done.add((r["file"], r["a"], r["b"], r["text"]))
    except OSError:
        pass
    pool = {f: [m for m in g if (os.path.relpath(m[0], REPO), m[1], m[2], m[3]) not in done] for f, g in groups.items()}
    for g in pool.values():
        rnd.shuffle(g)
    while len(pick) < o.count and any(pool.values()):
        fs = [f for f in files if pool[f]]
        w = [len(groups[f]) ** 0.6 for f in fs]
        f = rnd.choices(fs, w)[0]
        pick.append(pool[f].pop())
    if o.edits:
        pick = [json.loads(l) for l in open(o.edits)]
    if o.control:
        pick = [(next(f for f in files if re.search(r, f)), 0, 0, "", "control") for r, _ in MAP]
    for n in ("rig", "shim"):
        if sh(["mpicxx"] + FLAGS + ["-I/repo/src", "-c", os.path.join(check.HARNESS, n + ".cpp"), "-o", f"{TMP}/{n}.o"], 300, env=check.ENV):
            sys.exit("cannot compile " + n)
    dirs = []
    for k in range(o.workers):
        d = f"{TMP}/w{k}-{os.getpid()}"
        os.makedirs(d, exist_ok=True)
        shutil.copytree(REPO + "/src", d + "/src")
        dirs.append(d)

    def go(m):
        with lock:
            d = dirs.pop()
        try:
            r = trial(d, m)
        except Exception as e:
            r = dict(verdict="error", error=repr(e), file=str(m)) if isinstance(m, dict) else dict(verdict="error", file=m[0], line=0, op=m[4], old=repr(e), new="", a=m[1], b=m[2], text=m[3])
        with lock:
            dirs.append(d)
            with open(o.out, "a") as f:
                f.write(json.dumps(r) + "\n")
    with cf.ThreadPoolExecutor(o.workers) as ex:
        list(ex.map(go, pick))
    for d in dirs:
        shutil.rmtree(d, ignore_errors=True)


main()
