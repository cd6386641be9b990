#!/usr/bin/env python3
"""Mutation runs (not a registered check): small changes of one function each, on a scratch copy of /repo/src; first the
concrete layer, then the whole check; prints the mutants that no check of the function's properties reports.
Usage: mutate.py [-j N] [-n PER_FUNCTION] [-s SEED] [--deep] [FUNCTION ...]"""
import ast, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "/repo/src/pymech/"
FUNCS = {
    "core.py": {"DataLims": "C18 C19", "Elem.__init__": "C19 C01 C11 C20", "smallest_edge": "C19", "face_center": "C19", "HexaData.__init__": "C20 C11 C01", "check_connectivity": "C15", "check_bcs_present": "C15",
                "merge": "C12", "get_points": "C19", "update_ncurv": "C13 C20", "offset_connectivity": "C12 C10"},
    "meshtools.py": {"extrude": "C09 C10", "extrude_refine": "C24", "extrude_mid": "C24", "edge_mid": "C19 C17", "edge_circle": "C19", "delete_internal_bcs": "C14", "generate_internal_bcs": "C14",
                     "keep_elements": "C13", "exponential_refinement_parameter": "C25", "rotate_2d": "C16", "gen_box": "C11", "gen_circle": "C25", "map2D": "C17"},
    "neksuite/field.py": {"Header": "C05", "read_header": "C05 C03", "readnek": "C03 C04 C01", "writenek": "C02 C01"},
    "neksuite/map.py": {"readma2": "C21"},
    "neksuite/mesh.py": {"readre2": "C06", "writere2": "C06", "readrea": "C07", "writerea": "C07"},
    "simsonsuite.py": {"readdns": "C22", "readplane": "C22"},
    "dataset.py": {"": "C23"},
}


def spans(tree, src):
    """name -> node"""
    out = {}
    for x in tree.body:
        if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
            out[x.name] = x
        if isinstance(x, ast.ClassDef):
            for y in x.body:
                if isinstance(y, ast.FunctionDef):
                    out.setdefault(y.name, y)
                    out[x.name + "." + y.name] = y
    out[""] = tree
    return out


def edits(node, src, off):
    """(start, end, text) replacements"""
    out = []
    seg = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    skip = set()
    for x in ast.walk(node):
        if isinstance(x, ast.Call) and "logger" in ast.unparse(x.func) or isinstance(x, (ast.Raise, ast.JoinedStr)) or isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant) or isinstance(x, ast.arguments) and False:
            for y in ast.walk(x):
                skip.add(id(y))
    for x in ast.walk(node):
        if id(x) in skip:
            continue
        if isinstance(x, ast.Compare) and len(x.ops) == 1:
            m = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "=="}.get(type(x.ops[0]))
            if m:
                a, b = seg(x.left)[1], seg(x.comparators[0])[0]
                out.append((a, b, f" {m} "))
        elif isinstance(x, ast.BinOp):
            m = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "/", ast.Mod: "//"}.get(type(x.op))
            a, b = seg(x.left)[1], seg(x.right)[0]
            if m and "(" not in src[a:b] and ")" not in src[a:b]:
                out.append((a, b, f" {m} "))
        elif isinstance(x, ast.Constant) and not isinstance(x.value, bool):
            a, b = seg(x)
            if isinstance(x.value, int):
                out.append((a, b, str(x.value + 1)))
                if x.value > 0:
                    out.append((a, b, str(x.value - 1)))
            elif isinstance(x.value, float):
                out.append((a, b, repr(x.value * 1.5 + 0.5)))
            elif isinstance(x.value, str) and len(x.value) <= 3 and src[a] in "'\"":
                out.append((a, b, repr({"E": "P", "P": "E", "m": "C", "C": "s", "": "E"}.get(x.value, x.value + "x"))))
        elif isinstance(x, ast.BoolOp):
            a, b = seg(x.values[0])[1], seg(x.values[1])[0]
            if "(" not in src[a:b] and ")" not in src[a:b]:
                out.append((a, b, " or " if isinstance(x.op, ast.And) else " and "))
        elif isinstance(x, ast.If):
            a, b = seg(x.test)
            out += [(a, b, f"not ({src[a:b]})"), (a, b, "True"), (a, b, "False")]
        elif isinstance(x, (ast.Assign, ast.AugAssign)) or isinstance(x, ast.Expr) and not isinstance(x.value, ast.Constant):
            out.append((*seg(x), "pass"))
        elif isinstance(x, ast.Call) and len(x.args) >= 2 and not x.keywords:
            p, q = seg(x.args[0]), seg(x.args[1])
            out.append((p[0], q[1], src[q[0]:q[1]] + src[p[1]:q[0]] + src[p[0]:p[1]]))
        elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
            sw = {"x0": "y0", "ix": "iy", "iel1": "iel2", "iface1": "iface2", "iel0": "iel1", "x1": "x2", "lx": "ly", "nx": "ny", "ni": "nj", "i": "j", "j": "i"}
            if x.id in sw:
                out.append((*seg(x), sw[x.id]))
        elif isinstance(x, ast.Break):
            out.append((*seg(x), "pass"))
    return out


def test(job):
    f, fn, props, (a, b, t), src, deep = job
    tmp = tempfile.mkdtemp(prefix="mut_", dir="/tmp/w/mut")
    line = src[:a].count("\n") + 1
    tag = f"{f}:{line} {fn}: {' '.join(src[max(0, src.rfind(chr(10), 0, a)):a].split())[-60:]} [{' '.join(src[a:b].split())[:60]}] -> [{' '.join(t.split())[:60]}]"
    try:
        shutil.copytree("/repo/src", tmp + "/src")
        s = src[:a] + t + src[b:]
        try:
            compile(s, f, "exec")
        except SyntaxError:
            return None
        open(tmp + "/src/pymech/" + f, "w").write(s)
        env = dict(os.environ, PYMECH_SRC=tmp + "/src", VERIF_SEED="1", VERIF_JOBS="2", OMP_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1")
        for pid in props.split():
            out = tmp + "/o.json"
            try:
                r = subprocess.run(["/opt/venv/bin/python", "-B", HERE + "/replay/run.py", pid, "--tier", "quick", "--seed", "1", "--out", out, "--budget", "30"], env=env, timeout=120, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            except subprocess.TimeoutExpired:
                return "hangs", tag
            if not os.path.exists(out):
                return "crash", tag
            import json

            if json.load(open(out))["violations"]:
                return "concrete", tag
        if not deep:
            return "alive", tag
        shutil.copytree(HERE, tmp + "/verif", ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "__pycache__"))
        said = []
        for pid in props.split():
            r = subprocess.run(["python3", "check.py", pid], cwd=tmp + "/verif", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode == 1:
                return "proof" if "no-failing-input-found" in r.stdout else "check", tag
            said += [l for l in r.stdout.splitlines() if l.startswith(pid)]
        return "SURVIVES", tag + " " + " ".join(said)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    args = sys.argv[1:]
    j, n, seed, deep, names = 4, 6, 1, False, []
    while args:
        x = args.pop(0)
        if x == "-j": j = int(args.pop(0))
        elif x == "-n": n = int(args.pop(0))
        elif x == "-s": seed = int(args.pop(0))
        elif x == "--deep": deep = True
        else: names.append(x)
    rng, jobs = random.Random(seed), []
    for f, fns in FUNCS.items():
        src = open(SRC + f).read()
        off = [0]
        for l in src.splitlines(True):
            off.append(off[-1] + len(l))
        nodes = spans(ast.parse(src), src)
        for fn, props in fns.items():
            if names and fn not in names and f not in names:
                continue
            if fn not in nodes:
                print("no function", f, fn)
                continue
            es = sorted(set(edits(nodes[fn], src, off)))
            rng.shuffle(es)
            jobs += [(f, fn, props, e, src, deep) for e in es[:n]]
    print(len(jobs), "mutants")
    count = {}
    with ThreadPoolExecutor(j) as ex:
        for r in ex.map(test, jobs):
            if r is None:
                continue
            count[r[0]] = count.get(r[0], 0) + 1
            if r[0] not in ("concrete",):
                print(r[0], r[1], flush=True)
    print(count)


main()
