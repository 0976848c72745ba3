"""Run many scenarios in parallel worker processes, each in its own scratch directory."""
import os
import sys
import json
import shutil
import subprocess
import tempfile
import threading

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"


class HarnessError(Exception):
    pass


def run(scenarios, fn="qh.execute", procs=8, timeout=700):
    """fn: "module.function" called as function(scenario, workdir) inside the workers."""
    root = tempfile.mkdtemp(prefix="verif_run_")
    procs = max(1, min(procs, len(scenarios)))
    results, errors = [], []

    def one(k):
        part = scenarios[k::procs]
        inp, outp, wd = [os.path.join(root, "%s%d" % (x, k)) for x in ("in", "out", "w")]
        os.mkdir(wd)
        with open(inp, "w") as f:
            json.dump(part, f)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
        try:
            p = subprocess.run([PY, os.path.join(HERE, "worker.py"), fn, inp, outp, wd], env=env, cwd=wd, timeout=timeout,
                               stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
        except subprocess.TimeoutExpired:
            errors.append("worker %d timed out" % k)
            return
        if p.returncode != 0 or not os.path.exists(outp):
            errors.append("worker %d: rc %s %s" % (k, p.returncode, p.stderr[-3000:]))
            return
        with open(outp) as f:
            results.extend(json.load(f))

    ths = [threading.Thread(target=one, args=(k,)) for k in range(procs)]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    shutil.rmtree(root, ignore_errors=True)
    if errors:
        raise HarnessError("; ".join(errors))
    for r in results:
        if "machinery" in r:
            raise HarnessError(r["machinery"])
    results.sort(key=lambda r: r.get("id", 0))
    return results
