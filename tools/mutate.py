"""Mutation campaign (development tool, not a check): generated one-place changes of /repo's source in scratch copies,
each judged by the quick checks of the properties its module belongs to; prints the survivors.

usage: tools/mutate.py [--n 200] [--seed 1] [--scale 0.25] [--jobs 8] [--mod regex] [--out FILE]
"""
import argparse, ast, copy, json, os, random, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "/repo/src/dg_commons"
PROPS = [
    (r"seq/sequence", "C02 C01"), (r"seq/seq_op", "C03"), (r"^geo", "C04"),
    (r"sim/models/(vehicle_ligths)", "C26"), (r"sim/models/.*structures|vehicle_utils|obstacles_dyn_str", "C07 C08 C06 C09"),
    (r"sim/models/", "C06 C07 C08 C05 C09"), (r"dynamics/", "C06 C23"), (r"sim/collision_utils|sim/collision_structures", "C10 C09 C13"),
    (r"sim/collision\.py", "C09 C10 C13"), (r"sim/simulator\.py", "C11 C14 C13 C12"), (r"sim/simulator_structures", "C11 C12 C14"),
    (r"perception/|sim_perception", "C15"), (r"maps/lanes", "C16 C18"), (r"maps/road_bounds", "C17"), (r"maps/shapes_gen", "C27"),
    (r"sim/scenarios/structures", "C17"), (r"sim/scenarios/", "C28 C17"), (r"sim/goals", "C18"), (r"controllers/(pid|steer)", "C19"),
    (r"controllers/speed", "C21 C19"), (r"controllers/pure", "C20"), (r"sim/agents", "C22"), (r"planning/(commands|motion|trajectory_gen)", "C23"),
    (r"planning/trajectory", "C24"), (r"eval/safety|eval/comfort|eval/efficiency", "C25"), (r"utils_toolz|^time|game_types", "C27"),
    (r"sim/simulator_animation|sim/simulator_vis|shapely_viz|log_vis", "C29 C26"),
]
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "/", ast.Mod: "*", ast.Pow: "*", ast.MatMult: "@"}
NAMES = dict(min="max", max="min", sin="cos", cos="sin", any="all", all="any", floor="ceil", ceil="floor", lf="lr", lr="lf", vx="vy", vy="vx",
             left_vertices="right_vertices", right_vertices="left_vertices", bisect_left="bisect_right", bisect_right="bisect_left", contains="intersects",
             intersects="contains", append="remove", deepcopy="copy")
SKIPFUN = {"__repr__", "__str__", "plot", "plot_commands", "default_color", "type"}


def mutants(path):
    src = open(path).read()
    tree = ast.parse(src)
    lines = src.split("\n")
    offs = [0]
    for l in src.encode().split(b"\n"):
        offs.append(offs[-1] + len(l) + 1)
    b = src.encode()

    def pos(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

    def seg(n):
        s, e = pos(n)
        return b[s:e].decode()
    out = []

    def put(n, new, what):
        s, e = pos(n)
        out.append((s, e, new, what, n.lineno))

    def walk(n):
        if isinstance(n, (ast.FunctionDef,)) and n.name in SKIPFUN:
            return
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            kids = n.body
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        elif isinstance(n, (ast.Raise, ast.Import, ast.ImportFrom, ast.Assert)):
            return
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and seg(n).startswith(("logger.", "warn", "print", "logging")):
            return
        elif isinstance(n, ast.AnnAssign):
            kids = [n.value] if n.value else []
        else:
            kids = list(ast.iter_child_nodes(n))
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            put(n, f"{seg(n.left)} {CMP[type(n.ops[0])]} {seg(n.comparators[0])}", "cmp")
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            new = f"({seg(n.right)} @ {seg(n.left)})" if isinstance(n.op, ast.MatMult) else f"({seg(n.left)} {BIN[type(n.op)]} {seg(n.right)})"
            if not (isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant)):
                put(n, new, "bin")
        if isinstance(n, ast.BoolOp):
            put(n, "(" + (" or " if isinstance(n.op, ast.And) else " and ").join(f"({seg(v)})" for v in n.values) + ")", "bool")
            for k in range(len(n.values)):
                rest = [v for i, v in enumerate(n.values) if i != k]
                put(n, "(" + (" and " if isinstance(n.op, ast.And) else " or ").join(f"({seg(v)})" for v in rest) + ")", "drop")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            put(n, f"({seg(n.operand)})", "unary")
        if isinstance(n, (ast.If, ast.IfExp, ast.While)):
            put(n.test, f"(not ({seg(n.test)}))", "negate")
            if not isinstance(n, ast.While):
                put(n.test, "True", "true")
                put(n.test, "False", "false")
        if isinstance(n, ast.Constant) and not isinstance(n.value, (str, bytes)) and n.value is not None and n.value is not Ellipsis:
            v = n.value
            put(n, str(not v) if isinstance(v, bool) else str(v + 1) if isinstance(v, int) else repr(v * 1.25 if v else 0.01), "const")
        if isinstance(n, ast.Attribute) and n.attr in NAMES:
            s, e = pos(n)
            out.append((e - len(n.attr), e, NAMES[n.attr], "name", n.lineno))
        if isinstance(n, ast.Name) and n.id in NAMES and isinstance(n.ctx, ast.Load):
            put(n, NAMES[n.id], "name")
        if isinstance(n, ast.Call) and len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
            a, c = n.args[0], n.args[1]
            s, _ = pos(a)
            _, e = pos(c)
            mid = b[pos(a)[1]:pos(c)[0]].decode()
            out.append((s, e, seg(c) + mid + seg(a), "swap", n.lineno))
        if isinstance(n, (ast.AugAssign, ast.Continue, ast.Break)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            put(n, "pass", "delete")
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            put(n, "pass", "delete")
        if isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            pass
        for k in kids:
            walk(k)
    walk(tree)
    for s, e, new, what, line in out:
        m = b[:s] + new.encode() + b[e:]
        try:
            ast.parse(m)
        except SyntaxError:
            continue
        yield dict(file=os.path.relpath(path, SRC), line=line, what=what, old=b[s:e].decode()[:120], new=new[:120], body=m.decode())


def props_of(f):
    for rx, p in PROPS:
        if re.search(rx, f):
            return [x for x in p.split() if os.path.exists(f"{HERE}/pbt/props/{x.lower()}.py")]
    return []


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--n", type=int, default=100)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--scale", default="0.3")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--mod", default=".")
    ap.add_argument("--props", default=None)
    ap.add_argument("--out", default="/tmp/mutants.jsonl")
    ap.add_argument("--list", action="store_true")
    a = ap.parse_args()
    allm = []
    for d, _, fs in os.walk(SRC):
        for f in sorted(fs):
            p = os.path.join(d, f)
            rel = os.path.relpath(p, SRC)
            if f.endswith(".py") and re.search(a.mod, rel) and props_of(rel):
                allm += list(mutants(p))
    rnd = random.Random(a.seed)
    allm.sort(key=lambda m: (m["file"], m["line"], m["what"], m["new"]))
    pick = rnd.sample(allm, min(a.n, len(allm)))
    print(len(allm), "mutants,", len(pick), "picked", flush=True)
    if a.list:
        return
    slots = Queue()
    for k in range(a.jobs):
        w = f"/tmp/mut{k}"
        shutil.rmtree(w, ignore_errors=True)
        os.makedirs(w)
        subprocess.run(["cp", "-a", "/repo/src", w + "/src"], check=True)
        slots.put(w)
    log = open(a.out, "a")

    def run(m):
        w = slots.get()
        dst = f"{w}/src/dg_commons/{m['file']}"
        try:
            open(dst, "w").write(m["body"])
            env = dict(os.environ, VERIF_REPO=w, VERIF_FAST="1", VERIF_SEED="1", PYTHONDONTWRITEBYTECODE="1", VERIF_EVDIR=w)
            res = "SURVIVED"
            for p in (a.props.split() if a.props else props_of(m["file"])):
                try:
                    r = subprocess.run([HERE + "/check.sh", p, "quick", "--scale", a.scale, "-j", "1"], env=env, capture_output=True, text=True, timeout=600)
                except subprocess.TimeoutExpired:
                    res = f"timeout {p}"
                    break
                if r.returncode == 1:
                    res = "caught " + (r.stdout.strip().splitlines() or ["?"])[-1][:160]
                    break
                if r.returncode != 0:
                    res = f"rc{r.returncode} {p} {(r.stderr.strip().splitlines() or [''])[-1][:160]}"
                    break
        finally:
            shutil.copy(f"{SRC}/{m['file']}", dst)
            slots.put(w)
        rec = {k: v for k, v in m.items() if k != "body"} | dict(result=res)
        log.write(json.dumps(rec) + "\n")
        log.flush()
        if not res.startswith("caught"):
            print(f"{res[:60]:10s} {m['file']}:{m['line']} [{m['what']}] {m['old']!r} -> {m['new']!r}", flush=True)
        return res

    with ThreadPoolExecutor(a.jobs) as ex:
        rs = list(ex.map(run, pick))
    print("caught", sum(r.startswith("caught") for r in rs), "of", len(rs))
    for k in range(a.jobs):
        shutil.rmtree(f"/tmp/mut{k}", ignore_errors=True)


if __name__ == "__main__":
    main()
