"""Systematic mutation of the Python sources, judged by the quick workloads in forked processes.

mutate.py LINESDIR OUT.jsonl [--files a.py,b.py] [--seed N] [--jobs N] [--limit N]
LINESDIR: output of runs with VERIF_LINES (which property reaches which line).
Not a registered check: used to find out what the checks miss.
"""
import argparse, ast, glob, json, os, random, signal, subprocess, sys, tempfile, time, traceback
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
PKG = "/repo/skbeam"
FACTOR = int(os.environ.get("FACTOR", "1"))

CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<"], ast.Gt: [">=", "<"], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="],
       ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Mod: "//", ast.FloorDiv: "/", ast.Pow: "*"}


def mutants(path):
    src = open(path).read()
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    b = src.encode()

    def span(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        s, e = span(n)
        return b[s:e].decode()
    out = []

    def add(n, s, e, new, kind):
        old = b[s:e].decode()
        if old != new:
            out.append({"line": n.lineno, "end": getattr(n, "end_lineno", n.lineno), "kind": kind, "old": old[:80],
                        "new": new[:80], "s": s, "e": e, "rep": new})

    def visit(n, infunc, indec=False):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            body = n.body
            if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
                body = body[1:]
            if isinstance(n, ast.FunctionDef):
                for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
                    visit(d, True)
            for x in body:
                visit(x, infunc or isinstance(n, ast.FunctionDef))
            return
        if isinstance(n, ast.Raise):
            return
        if not infunc and not isinstance(n, (ast.Module, ast.stmt, ast.expr)):
            pass
        if infunc:
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                l, r = n.left, n.comparators[0]
                for o in CMP.get(type(n.ops[0]), []):
                    s, e = span(n)
                    add(n, s, e, "%s %s %s" % (text(l), o, text(r)), "cmp")
                if isinstance(r, ast.Constant) and r.value is None:
                    s, e = span(n)
                    add(n, s, e, ("(not (%s))" if isinstance(n.ops[0], ast.Is) else "bool(%s)") % text(l), "falsy")
                if isinstance(n.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
                    s, e = span(n)
                    op = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">="}[type(n.ops[0])]
                    add(n, s, e, "abs(%s) %s %s" % (text(l), op, text(r)), "abs")
                    add(n, s, e, "%s %s abs(%s)" % (text(l), op, text(r)), "abs")
            elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
                s, e = span(n)
                add(n, span(n.left)[1], span(n.right)[0], b[span(n.left)[1]:span(n.right)[0]].decode().replace(
                    {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.Mod: "%", ast.FloorDiv: "//", ast.Pow: "**"}[type(n.op)], BIN[type(n.op)], 1), "bin")
            elif isinstance(n, ast.Attribute) and n.attr in ("float64", "int64", "float", "int"):
                s, e = span(n)
                add(n, s, e, text(n.value) + ("." + {"float64": "float32", "float": "float32", "int64": "int16", "int": "int16"}[n.attr]), "dtype")
            elif isinstance(n, ast.keyword) and n.arg == "dtype" and isinstance(n.value, ast.Name) and n.value.id in ("float", "int", "complex"):
                s, e = span(n.value)
                add(n.value, s, e, {"float": "'float32'", "int": "'int16'", "complex": "'complex64'"}[n.value.id], "dtype")
            elif isinstance(n, ast.BoolOp):
                s, e = span(n)
                add(n, s, e, "(" + (" or " if isinstance(n.op, ast.And) else " and ").join("(" + text(x) + ")" for x in n.values) + ")", "andor")
                for k in range(len(n.values)):
                    rest = n.values[:k] + n.values[k + 1:]
                    add(n, s, e, "(" + (" and " if isinstance(n.op, ast.And) else " or ").join("(" + text(x) + ")" for x in rest) + ")", "drop-cond")
            elif isinstance(n, ast.UnaryOp):
                s, e = span(n)
                if isinstance(n.op, (ast.Not, ast.USub, ast.Invert)):
                    add(n, s, e, "(" + text(n.operand) + ")", "unary")
            elif isinstance(n, ast.Constant) and not isinstance(n.value, str) and n.value is not None and n.value is not Ellipsis:
                s, e = span(n)
                if n.value is True or n.value is False:
                    add(n, s, e, str(not n.value), "const")
                elif isinstance(n.value, int):
                    add(n, s, e, str(n.value + 1), "const")
                    if n.value:
                        add(n, s, e, str(n.value - 1), "const")
                elif isinstance(n.value, float):
                    add(n, s, e, repr(n.value * 1.01 if n.value else 1.0), "const")
            elif isinstance(n, ast.Call):
                f = n.func
                s, e = span(n)
                if isinstance(f, ast.Attribute) and f.attr == "astype" and n.args and isinstance(n.args[0], ast.Name) and n.args[0].id in ("float", "int"):
                    s1, e1 = span(n.args[0])
                    add(n, s1, e1, {"float": "'float32'", "int": "'int16'"}[n.args[0].id], "dtype")
                if isinstance(f, ast.Attribute) and f.attr in ("copy", "ravel", "flatten", "astype", "squeeze", "T"):
                    add(n, s, e, text(f.value), "drop-" + f.attr)
                elif isinstance(f, (ast.Attribute, ast.Name)):
                    nm = f.attr if isinstance(f, ast.Attribute) else f.id
                    alt = {"floor": "ceil", "ceil": "floor", "round": "floor", "rint": "floor", "min": "max", "max": "min", "ones": "zeros", "zeros": "ones",
                           "array": "asarray", "sum": "mean", "mean": "median", "any": "all", "all": "any", "sin": "cos", "cos": "sin", "searchsorted": None,
                           "deepcopy": "copy", "argmax": "argmin", "argmin": "argmax", "nanmean": "mean", "maximum": "minimum", "minimum": "maximum", "append": None}.get(nm)
                    if alt:
                        fs, fe = span(f)
                        add(n, fe - len(nm), fe, alt, "call")
                    for kw in n.keywords:
                        if kw.arg and len(n.keywords) + len(n.args) > 1:
                            ks, ke = span(kw.value)
                            ks -= len(kw.arg) + 1
                            # drop with the neighbouring comma
                            pre = b[:ks].rstrip()
                            if pre.endswith(b","):
                                add(kw.value, len(pre) - 1, ke, "", "drop-kw")
                    if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args[:2]) and text(n.args[0]) != text(n.args[1]):
                        a0, a1 = n.args[:2]
                        add(n, span(a0)[0], span(a1)[1], text(a1) + b[span(a0)[1]:span(a1)[0]].decode() + text(a0), "swap-args")
            elif isinstance(n, (ast.AugAssign,)):
                s, e = span(n)
                add(n, s, e, "pass", "drop-stmt")
                add(n, s, e, text(n.target) + " = " + text(n.value), "aug")
            elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
                s, e = span(n)
                if "logg" not in text(n) and "warn" not in text(n):
                    add(n, s, e, "pass", "drop-stmt")
            elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Subscript, ast.Attribute, ast.Name)):
                s, e = span(n)
                add(n, s, e, "pass", "drop-stmt")
            elif isinstance(n, (ast.Continue, ast.Break)):
                s, e = span(n)
                add(n, s, e, "pass", "drop-stmt")
            elif isinstance(n, ast.If):
                s, e = span(n.test)
                add(n, s, e, "True", "if")
                add(n, s, e, "False", "if")
            elif isinstance(n, (ast.For, ast.While)) and infunc:
                s, e = span(n.body[-1])
                first = n.body[0]
                ind = " " * n.body[-1].col_offset
                add(n.body[-1], e, e, "\n" + ind + "break", "loop-once")
                if isinstance(n, ast.For):
                    s, e = span(n.iter)
                    add(n, s, e, "list(%s)[1:]" % text(n.iter), "loop-skip")
                    add(n, s, e, "list(%s)[:-1]" % text(n.iter), "loop-skip")
                    add(n, s, e, "list(%s)[::-1]" % text(n.iter), "loop-order")
            elif isinstance(n, ast.Return) and n.value is not None and isinstance(n.value, ast.Tuple) and len(n.value.elts) == 2:
                a0, a1 = n.value.elts
                add(n, span(a0)[0], span(a1)[1], text(a1) + ", " + text(a0), "swap-ret")
            elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
                for part in (n.slice.lower, n.slice.upper):
                    if part is not None and not isinstance(part, ast.Constant):
                        s, e = span(part)
                        add(n, s, e, "(" + text(part) + ") + 1", "slice")
                        add(n, s, e, "(" + text(part) + ") - 1", "slice")
        for c in ast.iter_child_nodes(n):
            if isinstance(n, ast.If) and False:
                continue
            visit(c, infunc)
    for n in tree.body:
        visit(n, False)
    for m in out:
        m["src"] = (b[:m["s"]] + m["rep"].encode() + b[m["e"]:]).decode()
    good = []
    for m in out:
        try:
            compile(m["src"], path, "exec")
            good.append(m)
        except SyntaxError:
            pass
    return good


def run_one(path, m, props, seed, budget=150):
    """In a forked process: import the changed package, run the workloads, report the first violation."""
    import importlib.machinery as im
    orig = im.SourceFileLoader.get_data
    cache = im.SourceFileLoader.get_code

    def get_code(self, name):
        p = self.get_filename(name)
        if os.path.realpath(p) == os.path.realpath(path):
            return compile(m["src"], p, "exec")
        return cache(self, name)
    im.SourceFileLoader.get_code = get_code
    from rt import core, native, child, fresh
    core.quiet()
    try:
        native.inject("plain")
        child.load_workloads()
    except BaseException as e:
        return "import", repr(e)[:200]
    t0 = time.time()
    signal.signal(signal.SIGALRM, child._alarm)
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, resource.RLIM_INFINITY))
    slow = False
    for prop in props:
        watch = prop == "P24"
        if watch and m["kind"] not in ("hand", "drop-copy", "call", "drop-astype", "aug", "drop-stmt", "drop-kw", "drop-ravel", "drop-flatten", "const"):
            continue
        wls = [w for w in core.WORKLOADS if w.mode == "plain" and (w.pure and (w.prop in props or props == ["P24"]) if watch else w.prop == prop)]
        clean = fresh.Fresh(core.lazy.names) if watch else None
        for w in wls:
            n = max(1, w.quick // 3) if watch else w.quick * FACTOR
            for i in range(n):
                c = core.Ctx(w, seed, i, "quick", watch=watch)
                c.fresh = clean
                signal.alarm(40)
                try:
                    w.fn(c)
                    if watch:
                        c.finish()
                except core.Violation as v:
                    return prop, "%s %d %s: %s" % (w.name, i, v.mechanism, str(v.detail)[:160])
                except core.Skip:
                    pass
                except child.Hang:
                    return prop, "hang %s %d" % (w.name, i)
                except core.Inconclusive as e:
                    return "error", "%s %s %d %s" % (prop, w.name, i, str(e)[:160])
                except Exception:
                    tb = traceback.format_exc()
                    if watch:
                        continue
                    if child._from_repo_result(tb):
                        return prop, "%s %d malformed %s" % (w.name, i, tb[-160:])
                    if child._inside_package(tb):
                        return prop, "%s %d raises %s" % (w.name, i, tb[-160:])
                    return "error", "%s %s %d %s" % (prop, w.name, i, tb[-200:])
                finally:
                    signal.alarm(0)
                if time.time() - t0 > budget:
                    return "timeout", prop
    return "survived", ""


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("lines"); ap.add_argument("out")
    ap.add_argument("--files", default=""); ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--jobs", type=int, default=8); ap.add_argument("--limit", type=int, default=0)
    ap.add_argument("--skip", default="")
    ap.add_argument("--kinds", default="")
    ap.add_argument("--hand", default="", help="a Python file with HAND = [(props, file, [(old, new), ...]), ...]")
    ap.add_argument("--redo", default="", help="a former OUT.jsonl: only its survivors again")
    a = ap.parse_args()
    from rt import core, native, main as rtmain
    hit = {}
    for f in glob.glob(a.lines + "/*.lines"):
        for l in open(f).read().split():
            n, k = l.rsplit(":", 1)
            hit.setdefault((n, int(k)), []).append(os.path.basename(f)[:3])
    todo = []
    redo = None
    if a.redo:
        redo = set()
        for l in open(a.redo):
            d = json.loads(l)
            if d["verdict"] in ("survived", "error", "timeout"):
                redo.add((d["file"], d["s"], d["old"], d["new"]))
    for r, d, fs in os.walk(PKG):
        if "tests" in r:
            continue
        for fn in sorted(fs):
            p = os.path.join(r, fn)
            rel = os.path.relpath(p, PKG)
            if not fn.endswith(".py") or fn in ("_version.py", "__init__.py") or (a.files and not any(x in rel for x in a.files.split(","))):
                continue
            if a.skip and any(x in rel for x in a.skip.split(",")):
                continue
            for m in mutants(p):
                m["file"] = rel
                props = set()
                for l in range(m["line"], m["end"] + 1):
                    props.update(hit.get((rel, l), []))
                    if props:
                        break
                if not props:   # a default value, a line which no workload reaches, or an inner expression
                    for l in range(m["line"], max(1, m["line"] - 12), -1):
                        if (rel, l) in hit:
                            props.update(hit[(rel, l)])
                            break
                if a.kinds and m["kind"] not in a.kinds.split(","):
                    continue
                m["props"] = sorted(props - {"P24"}) + (["P24"] if "P24" in props else [])
                if redo is not None and (rel, m["s"], m["old"], m["new"]) not in redo:
                    continue
                todo.append((p, m))
    if a.hand:
        todo, ns = [], {}
        exec(open(a.hand).read(), ns)
        for n, (props, rel, edits) in enumerate(ns["HAND"]):
            p = os.path.join(PKG, rel)
            src = open(p).read()
            for old, new in edits:
                if src.count(old) != 1:
                    print("entry", n, rel, "text occurs", src.count(old), "times:", old[:60])
                src = src.replace(old, new, 1)
            todo.append((p, {"src": src, "file": rel, "line": n, "end": n, "kind": "hand", "old": edits[0][0][-60:],
                             "new": edits[0][1][-60:], "s": n, "e": n, "rep": "", "props": props.split()}))
    if a.limit and len(todo) > a.limit:
        todo = random.Random(a.seed).sample(todo, a.limit)
    print(len(todo), "mutants", flush=True)
    scratch = tempfile.mkdtemp(prefix="mutate-")
    native.build_all({("ctrans", "plain"), ("histogram", "plain")}, scratch)
    env = rtmain.base_env()
    native.child_env(env, "plain", scratch)
    os.environ.update(env)
    os.environ["OMP_NUM_THREADS"] = "1"
    sys.path.insert(0, "/repo")
    import numpy, scipy.optimize, scipy.signal, scipy.interpolate, scipy.ndimage, scipy.stats, scipy.special, lmfit, skimage, skimage.draw, skimage.measure, xraylib, matplotlib  # noqa
    running = {}
    f = open(a.out, "w")
    k = done = 0
    count = {}
    t0 = time.time()
    while k < len(todo) or running:
        while k < len(todo) and len(running) < a.jobs:
            p, m = todo[k]
            k += 1
            rfd, wfd = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(rfd)
                os.setsid()
                dn = os.open(os.devnull, os.O_RDWR)
                for x in (0, 1, 2):
                    os.dup2(dn, x)
                tmp = tempfile.mkdtemp(dir=scratch)
                os.chdir(tmp)
                os.environ["TMPDIR"] = os.environ["VERIF_TMP"] = tmp
                tempfile.tempdir = None
                try:
                    r = run_one(p, m, m["props"], a.seed)
                except BaseException as e:
                    r = ("error", repr(e)[:300])
                os.write(wfd, json.dumps(r).encode()[:60000])
                os._exit(0)
            os.close(wfd)
            running[pid] = (rfd, m, time.time())
        time.sleep(0.02)
        for pid in list(running):
            rfd, m, ts = running[pid]
            q, st = os.waitpid(pid, os.WNOHANG)
            if q == 0:
                if time.time() - ts > 300:
                    os.killpg(pid, 9)
                continue
            data = b""
            while True:
                x = os.read(rfd, 65536)
                if not x:
                    break
                data += x
            os.close(rfd)
            try:
                os.killpg(pid, 9)
            except OSError:
                pass
            del running[pid]
            r = json.loads(data) if data else ["died", "status %d" % st]
            d = {x: m[x] for x in ("file", "line", "kind", "old", "new", "s", "e", "rep", "props")}
            d.update(verdict=r[0], detail=r[1], t=round(time.time() - ts, 1))
            f.write(json.dumps(d) + "\n")
            f.flush()
            v = "killed" if r[0].startswith("P") and len(r[0]) == 3 else r[0]
            count[v] = count.get(v, 0) + 1
            done += 1
            if done % 200 == 0:
                print(done, round(time.time() - t0), count, flush=True)
    print(count, round(time.time() - t0))
    import shutil
    shutil.rmtree(scratch)


if __name__ == "__main__":
    main()
