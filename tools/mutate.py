"""Development aid: small mutations of covered lines of /repo, and which checks notice them.

usage: mutate.py list FILE [N SEED]           print mutants of openms/FILE
       mutate.py run N SEED JOBS OUT FILE...  try N random mutants per FILE, append results to OUT (jsonl)
Environment: SRC (tree to mutate, default /repo), COV (all.json of line coverage by property), VF (copy of /verif to run)
"""
import ast, json, os, random, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

SRC = os.environ.get("SRC", "/repo")
VF = os.environ.get("VF", "/verif")
SCALE = os.environ.get("SCALE", "0.5")
SKIPCALL = re.compile(r"wt_|logger|print|time\.|warn|log\.|debug|info|timer|process_clock")


def mutants(f, cov):
    """-> list of (line, kind, start, end, new text)"""
    src = open(f"{SRC}/openms/{f}").read()
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    raw = src.encode()
    pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    text = lambda n: raw[slice(*pos(n))].decode()
    out = []

    def add(node, kind, new, span=None):
        a, b = span or pos(node)
        if raw[a:b].decode() != new:
            out.append((node.lineno, kind, a, b, new))

    def walk(node, names):
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            names = {n.id for n in ast.walk(node) if isinstance(n, ast.Name)} | {n.attr for n in ast.walk(node) if isinstance(n, ast.Attribute)}
            for s in node.body:
                if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                    walk(s, names)
            return
        if isinstance(node, (ast.Raise, ast.Assert, ast.Import, ast.ImportFrom, ast.JoinedStr)):
            return
        if isinstance(node, ast.Expr) and isinstance(node.value, ast.Call):
            if SKIPCALL.search(text(node.value.func)):
                return
            add(node, "drop call", "pass")
        if isinstance(node, (ast.Assign, ast.AugAssign)) and SKIPCALL.search(text(node)[:60]):
            return
        if isinstance(node, (ast.Assign, ast.AugAssign)):
            tg = node.targets[0] if isinstance(node, ast.Assign) else node.target
            if isinstance(node, ast.AugAssign):
                t = text(node)
                for a, b in (("+=", "-="), ("-=", "+="), ("*=", "/="), ("/=", "*=")):
                    if a in t[: t.index("=") + 1]:
                        add(node, "aug", t.replace(a, b, 1))
                        if a in ("+=", "-="):
                            add(node, "aug=", t.replace(a, "=", 1))
                add(node, "drop aug", "pass")
            elif isinstance(tg, (ast.Attribute, ast.Subscript)):
                add(node, "drop assign", "pass")
        if isinstance(node, ast.BinOp):
            o = type(node.op)
            sw = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "/"}.get(o)
            if sw and not isinstance(node.left, ast.Constant) or sw and not isinstance(getattr(node.left, "value", None), str):
                a, b = pos(node.left)[1], pos(node.right)[0]
                mid = raw[a:b].decode()
                sym = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//"}[o]
                if mid.count(sym) == 1 and not (isinstance(node.left, ast.List) or isinstance(node.right, ast.List)):
                    add(node, "op", mid.replace(sym, sw), (a, b))
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub) and not isinstance(node.operand, ast.Constant):
            add(node, "usub", text(node.operand))
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            add(node, "not", f"({text(node.operand)})")
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            a, b = pos(node.left)[1], pos(node.comparators[0])[0]
            sw = {ast.Lt: ["<=", ">"], ast.LtE: ["<", ">"], ast.Gt: [">=", "<"], ast.GtE: [">", "<"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.Is: ["is not"], ast.IsNot: ["is"]}.get(type(node.ops[0]), [])
            for s in sw:
                add(node, "cmp", f" {s} ", (a, b))
        if isinstance(node, ast.BoolOp):
            a, b = pos(node.values[0])[1], pos(node.values[1])[0]
            add(node, "bool", " or " if isinstance(node.op, ast.And) else " and ", (a, b))
        if isinstance(node, ast.Constant):
            v = node.value
            if v is True or v is False:
                add(node, "const", str(not v))
            elif isinstance(v, int):
                add(node, "const", str(v + 1))
                if v > 0:
                    add(node, "const", str(v - 1))
            elif isinstance(v, float) and v == 0:
                add(node, "const", "1.0")
            elif isinstance(v, float):
                add(node, "const", repr(v * 2))
                add(node, "const", f"(-{v!r})")
            elif isinstance(v, str) and "->" in v and len(v) < 60:
                ins, o = v.split("->")
                for k, op in enumerate(ins.split(",")):
                    st = op.strip()
                    for i in range(len(st) - 1):
                        if st[i].isalpha() and st[i + 1].isalpha() and st[i] != st[i + 1]:
                            n2 = st[:i] + st[i + 1] + st[i] + st[i + 2:]
                            parts = ins.split(",")
                            parts[k] = parts[k].replace(st, n2)
                            add(node, "einsum", json.dumps(",".join(parts) + "->" + o))
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and not node.args:
            if node.func.attr in ("conj", "conjugate", "copy", "real"):
                add(node, "drop ." + node.func.attr, text(node.func.value))
        if isinstance(node, ast.Attribute) and node.attr in ("T", "real") and isinstance(node.ctx, ast.Load):
            add(node, "drop ." + node.attr, text(node.value))
        if isinstance(node, ast.Call) and text(node.func).split(".")[-1] in ("sqrt", "abs", "real", "conj", "exp", "array", "asarray") and len(node.args) == 1:
            add(node, "drop fn", f"({text(node.args[0])})")
        if isinstance(node, ast.Call) and len(node.args) >= 2 and "einsum" not in text(node.func):
            a, b = node.args[0], node.args[1]
            if not isinstance(a, ast.Constant) and not isinstance(b, (ast.Constant, ast.Starred)) and not isinstance(a, ast.Starred):
                add(node, "swap args", text(b) + ", " + text(a), (pos(a)[0], pos(b)[1]))
        if isinstance(node, (ast.Name, ast.Attribute)) and isinstance(getattr(node, "ctx", None), ast.Load):
            nm = node.id if isinstance(node, ast.Name) else node.attr
            for m in (re.sub("a$", "b", nm), re.sub("b$", "a", nm), nm.replace("alpha", "beta"), nm.replace("beta", "alpha"), nm.replace("_a", "_b"), nm.replace("_b", "_a")):
                if m != nm and m in names:
                    add(node, "a/b", text(node)[: len(text(node)) - len(nm)] + m)
        if isinstance(node, ast.Subscript):
            sl = node.slice
            el = sl.elts if isinstance(sl, ast.Tuple) else [sl]
            nm = [e for e in el if isinstance(e, ast.Name)]
            for e in nm:
                add(e, "index 0", "0")
            if isinstance(sl, ast.Tuple) and len(nm) >= 2 and nm[0].id != nm[1].id:
                add(node, "index swap", nm[1].id + raw[pos(nm[0])[1]:pos(nm[1])[0]].decode() + nm[0].id, (pos(nm[0])[0], pos(nm[1])[1]))
            for e in el:
                if isinstance(e, ast.Slice) and (e.lower or e.upper):
                    if e.lower:
                        add(e, "slice", raw[pos(e.lower)[1]:pos(e)[1]].decode(), pos(e))
                    if e.upper and not e.step:
                        add(e, "slice", (text(e.lower) if e.lower else "") + ":", pos(e))
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id == "range":
            if len(node.args) == 1:
                add(node, "range", f"range(1, {text(node.args[0])})")
                add(node, "range", f"range({text(node.args[0])} - 1)")
            elif len(node.args) == 2:
                add(node, "range", f"range({text(node.args[0])} + 1, {text(node.args[1])})")
        if isinstance(node, ast.Call) and node.keywords and "einsum" not in text(node.func):
            k = node.keywords[-1]
            rest = list(node.args) + node.keywords[:-1]
            if rest and k.arg:
                end = max(pos(x)[1] for x in rest)
                add(node, "drop kw", "", (end, pos(k.value)[1]))
        if isinstance(node, ast.If):
            add(node.test, "if true", "True")
            add(node.test, "if false", "False")
        for ch in ast.iter_child_nodes(node):
            walk(ch, names)

    walk(tree, set())
    out = [m for m in sorted(set(out)) if str(m[0]) in cov]
    return raw, out


def props_for(f, line, cov, anchors):
    ps = cov[str(line)]
    first = [p for p in ps if f"openms/{f}" in anchors[p]]
    rest = [p for p in ps if p not in first]
    return first + rest if len(first) < 3 else first


def main():
    allcov = json.load(open(os.environ.get("COV", "/tmp/cov/all.json")))
    anchors = {d["id"]: set(d["anchors"]["files"] if "anchors" in d else []) for d in map(json.loads, open(f"{VF}/properties.jsonl"))}
    if not any(anchors.values()):
        anchors = {d["id"]: set(re.findall(r"openms/[\w/]+\.py", json.dumps(d))) for d in map(json.loads, open(f"{VF}/properties.jsonl"))}
    if sys.argv[1] == "list":
        raw, m = mutants(sys.argv[2], allcov.get(sys.argv[2], {}))
        print(len(m))
        if len(sys.argv) > 3:
            for x in random.Random(int(sys.argv[4])).sample(m, int(sys.argv[3])):
                print(x[0], x[1], raw[x[2]:x[3]].decode(), "->", x[4])
        return
    n, seed, jobs, outf = int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]), sys.argv[5]
    done = set()
    if os.path.exists(outf):
        done = {(d["file"], d["a"], d["b"], d["new"]) for d in map(json.loads, open(outf))}
    todo = []
    for f in sys.argv[6:]:
        raw, m = mutants(f, allcov.get(f, {}))
        for x in random.Random(seed).sample(m, min(n, len(m))):
            if (f, x[2], x[3], x[4]) not in done:
                todo.append((f, raw, x))
    random.Random(seed).shuffle(todo)

    def one(item):
        f, raw, (line, kind, a, b, new) = item
        mutated = raw[:a] + new.encode() + raw[b:]
        try:
            compile(mutated, f, "exec")
        except SyntaxError:
            return
        w = f"/tmp/mut/{os.getpid()}_{abs(hash((f, a, b, new)))}"
        shutil.rmtree(w, ignore_errors=True)
        os.makedirs(w)
        shutil.copytree(f"{SRC}/openms", w + "/openms", ignore=shutil.ignore_patterns("__pycache__", "*.so", "build"))
        open(f"{w}/openms/{f}", "wb").write(mutated)
        res = dict(file=f, line=line, kind=kind, a=a, b=b, old=raw[a:b].decode(), new=new, src=raw.decode().splitlines()[line - 1].strip(), ran=[], killed=None)
        for p in props_for(f, line, allcov[f], anchors):
            r = subprocess.run(["./check.sh", p, "quick", "--scale", SCALE, "--jobs", "3"], cwd=VF, capture_output=True, text=True,
                               env=dict(os.environ, VERIF_REPO=w))
            res["ran"].append(f"{p}:{r.returncode}" + ("U" if "UNAVAILABLE" in r.stdout else ""))
            if r.returncode == 1:
                res["killed"] = p
                break
        shutil.rmtree(w, ignore_errors=True)
        with open(outf, "a") as o:
            o.write(json.dumps(res) + "\n")

    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(one, todo))


main()
