"""Like mutate.py, for the parts of the library with one family each: the family is run first, the tests only for what it misses.
   mutate2.py OUT.jsonl COUNT SEED FAMILY PROPERTY path-substring..."""
import importlib
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mutate  # noqa: E402

if sys.argv[1] == "-":
    sys.path.insert(0, os.path.join(mutate.HERE, "..", "harness"))
    v = importlib.import_module(sys.argv[2]).run(sys.argv[3], "quick", 1).violations
    print(json.dumps(sorted({x["clause"] for x in (v.values() if isinstance(v, dict) else v)})))
    sys.exit()
out, count, seed, fam, prop = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4], sys.argv[5]
mutate.SKIP = ("Legacy", "Template", "test_", "__init__", "FunctionMap")
allsites = []
for s in sys.argv[6:]:
    mutate.only = s
    allsites += list(mutate.sites())
random.Random(seed).shuffle(allsites)
print(len(allsites), "sites", flush=True)
for p, line, kind, f in allsites[:count]:
    text = open(p).read()
    try:
        new = f()
        compile(new, p, "exec")
    except Exception:
        continue
    diff = [x.strip() for x in new.splitlines() if x not in text.splitlines()]
    if new == text:
        continue
    rel = os.path.relpath(p, mutate.SRC)
    root = tempfile.mkdtemp(prefix="mut_")
    try:
        shutil.copytree("/repo/src", root + "/src")
        with open(os.path.join(root, "src", "quocslib", rel), "w") as g:
            g.write(new)
        q = subprocess.run([sys.executable, __file__, "-", fam, prop], capture_output=True, text=True, timeout=3000,
                           env=dict(os.environ, VERIF_REPO_SRC=root + "/src"))
        try:
            b = json.loads(q.stdout.strip().splitlines()[-1])
        except Exception:
            b = ["machinery: " + (q.stdout + q.stderr)[-200:]]
        res = "found" if b else "MISSED"
        if not b:
            shutil.rmtree(root)
            shutil.copytree("/repo", root, symlinks=True, ignore=shutil.ignore_patterns("QuOCS_Results"))
            with open(os.path.join(root, "src", "quocslib", rel), "w") as g:
                g.write(new)
            if not mutate.tests(root + "/src"):
                res = "test"
        line_ = "%s %s %d %s | %s => %s %s" % (res, rel, line, kind, text.splitlines()[line - 1].strip(), (diff or [""])[0], b[:4])
        print(line_, flush=True)
        with open(out, "a") as g:
            g.write(line_ + "\n")
    finally:
        shutil.rmtree(root, ignore_errors=True)
