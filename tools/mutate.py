"""Look for blind spots: random small edits of the library, kept if the repository's tests still pass, against a small sample of
   every family.  Not a registered check.   mutate.py OUT.jsonl [count] [seed] [path substring]"""
import ast
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
out, count, seed, only = "", 0, 0, ""
if __name__ == "__main__":
    out, count, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    only = sys.argv[4] if len(sys.argv) > 4 else ""
SRC = "/repo/src/quocslib"
SKIP = ("Legacy", "Template", "test_", "optimalcontrolproblems", "__init__", "noiseprocesses", "timeevolution", "AD_", "logger.py",
        "linearalgebra", "partial_trace", "fidelities", "operations", "pulsetools", "FunctionMap")
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*"}


def sites():
    for d, _, fs in os.walk(SRC):
        for f in sorted(fs):
            p = os.path.join(d, f)
            if not f.endswith(".py") or any(s in p for s in SKIP) or only not in p:
                continue
            text = open(p).read()
            for n in ast.walk(ast.parse(text)):
                yield from at(p, text, n)


def seg(text, n):
    return ast.get_source_segment(text, n)


def put(text, n, new):
    ls = text.splitlines(True)
    a = sum(len(x.encode()) for x in ls[:n.lineno - 1]) + n.col_offset
    b = sum(len(x.encode()) for x in ls[:n.end_lineno - 1]) + n.end_col_offset
    t = text.encode()
    return (t[:a] + new.encode() + t[b:]).decode()


def at(p, text, n):
    if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
        yield p, n.lineno, "cmp", lambda: put(text, n, "%s %s %s" % (seg(text, n.left), CMP[type(n.ops[0])], seg(text, n.comparators[0])))
    if isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, ast.Constant):
        yield p, n.lineno, "bin", lambda: put(text, n, "(%s %s %s)" % (seg(text, n.left), BIN[type(n.op)], seg(text, n.right)))
    if isinstance(n, ast.BoolOp):
        o = " and " if isinstance(n.op, ast.Or) else " or "
        yield p, n.lineno, "bool", lambda: put(text, n, "(" + o.join(seg(text, v) for v in n.values) + ")")
    if isinstance(n, ast.Constant) and type(n.value) in (int, float) and n.value not in (10**10,):
        yield p, n.lineno, "const", lambda: put(text, n, repr(n.value + 1))
    if isinstance(n, ast.Constant) and type(n.value) is bool:
        yield p, n.lineno, "flag", lambda: put(text, n, repr(not n.value))
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
        yield p, n.lineno, "un", lambda: put(text, n, "(" + seg(text, n.operand) + ")")
    if isinstance(n, ast.stmt) and re.match(r"(self\.)?(comm_obj\.print_logger|logger\.\w+|message\b|print)", seg(text, n) or ""):
        return
    if isinstance(n, (ast.Assign, ast.AugAssign)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
        yield p, n.lineno, "del", lambda: put(text, n, "pass")
    if isinstance(n, ast.If):
        yield p, n.lineno, "if", lambda: put(text, n.test, "True")
        yield p, n.lineno, "if", lambda: put(text, n.test, "False")
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "copy" and not n.args:
        yield p, n.lineno, "alias", lambda: put(text, n, seg(text, n.func.value))
    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and n.attr in ("lower_limit", "upper_limit"):
        yield p, n.lineno, "attr", lambda: put(text, n, seg(text, n.value) + "." + {"lower_limit": "upper_limit",
                                                                                    "upper_limit": "lower_limit"}[n.attr])


def tests(src):
    t = open("/opt/vp/test.sh").read().replace("PYTHONPATH=/opt/vp/lib", "PYTHONPATH=%s:/opt/vp/lib" % src)
    root = os.path.dirname(src)
    t = t.replace("/repo", root)
    o = os.path.join(root, "o.json")
    with open(os.path.join(root, "t.sh"), "w") as f:
        f.write(t)
    try:
        subprocess.run(["bash", os.path.join(root, "t.sh"), o], capture_output=True, timeout=400)
        return len(json.load(open(o))["passed"]) >= 46 and not json.load(open(o))["failed"]
    except Exception:
        return False


def main():
    r = random.Random(seed)
    all_ = list(sites())
    print(len(all_), "sites", flush=True)
    r.shuffle(all_)
    done = set()
    if os.path.exists(out):
        done = {(x["file"], x["line"], x["kind"], x["new"]) for x in map(json.loads, open(out))}
    for p, line, kind, f in all_[:count]:
        text = open(p).read()
        try:
            new = f()
            compile(new, p, "exec")
        except Exception:
            continue
        if new == text:
            continue
        diff = [x for x in new.splitlines() if x not in text.splitlines()]
        rel = os.path.relpath(p, SRC)
        key = (rel, line, kind, (diff or [""])[0].strip())
        if key in done:
            continue
        root = tempfile.mkdtemp(prefix="mut_")
        try:
            subprocess.run(["cp", "-a", "/repo/.", root], check=True)
            shutil.rmtree(os.path.join(root, "QuOCS_Results"), ignore_errors=True)
            src = os.path.join(root, "src")
            with open(os.path.join(src, "quocslib", rel), "w") as g:
                g.write(new)
            rec = {"file": rel, "line": line, "kind": kind, "old": text.splitlines()[line - 1].strip(), "new": key[3]}
            if not tests(src):
                rec["result"] = "test"
            else:
                q = subprocess.run([sys.executable, os.path.join(HERE, "allfast.py"), "1"], capture_output=True, text=True,
                                   env=dict(os.environ, VERIF_REPO_SRC=src), timeout=3000)
                try:
                    b = json.loads(q.stdout.strip().splitlines()[-1])
                    rec["result"] = "found" if b["broken"] else "MISSED"
                    rec["broken"] = b["broken"]
                except Exception:
                    rec["result"] = "machinery"
                    rec["broken"] = {"tail": (q.stdout + q.stderr)[-300:]}
            with open(out, "a") as g:
                g.write(json.dumps(rec) + "\n")
            print(rec["result"], rel, line, kind, "|", rec["old"], "=>", rec["new"], list(rec.get("broken", {}))[:6], flush=True)
        finally:
            shutil.rmtree(root, ignore_errors=True)


if __name__ == "__main__":
    main()
