"""Run TLC and read its output."""
import os
import re
import json
import shutil
import subprocess
import tempfile
import time

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar"


class TlcError(Exception):
    pass


def tlc(module, cfg=None, env=None, workers=4, timeout=800, extra=(), heap="6g"):
    meta = tempfile.mkdtemp(prefix="verif_tlc_")
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    cp = JAR
    d = os.path.dirname(JAR)
    for f in sorted(os.listdir(d)):
        if f.startswith("CommunityModules") and f.endswith(".jar"):
            cp += ":" + os.path.join(d, f)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Djava.io.tmpdir=" + meta, "-cp", cp, "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE",
           "-workers", str(workers), "-config", cfg or module + ".cfg"] + list(extra) + [module + ".tla"]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                           text=True)
    except subprocess.TimeoutExpired as ex:
        raise TlcError("TLC timed out: %s" % module) from ex
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, p.stdout


def stats(out):
    g = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    if not g:
        return 0, 0
    return int(g[-1][0]), int(g[-1][1])


DONE = re.compile(r'<<\s*"DONE",\s*(-?\d+),\s*(TRUE|FALSE),\s*\{(.*?)\}\s*>>', re.S)


EVAL = re.compile("Overflow when|Attempted to|exception was a java.lang.(Arith|Number|Class|Runtime)|is not in the domain|not a legal value"
                  "|outside the domain|out of bounds")


def validate(module, traces, workers=4, timeout=800):
    """Trace validation.  Returns ({id: (dead, [(clause, event)])}, generated, distinct).

    A trace on which the specification cannot even be evaluated (absurd numbers, missing parts) while it can on the others
    is not a behaviour of the specification: verdict X_eval.
    """
    try:
        return batch(module, traces, workers, timeout)
    except TlcError as ex:
        if not EVAL.search(str(ex)):
            raise
    res, stat, bad, good, t0 = {}, [0, 0], [], 0, time.time()
    todo = [traces]
    while todo:
        part = todo.pop()
        if bad and (good and len(bad) >= 2 or time.time() - t0 > 120):
            for t in part:
                res[t["id"]] = (False, [])          # not looked at: the verdict is a violation anyway
            continue
        try:
            r, g, d = batch(module, part, workers, timeout)
            res.update(r)
            stat[0], stat[1], good = stat[0] + g, stat[1] + d, good + len(part)
        except TlcError as ex:
            if not EVAL.search(str(ex)):
                raise
            if len(part) == 1:
                bad.append(part[0]["id"])
                res[part[0]["id"]] = (False, [("X_eval", len(part[0]["ev"]))])
            else:
                todo += [part[len(part) // 2:], part[:len(part) // 2]]
    return res, stat[0], stat[1]


def batch(module, traces, workers, timeout):
    fd, path = tempfile.mkstemp(prefix="verif_tr_", suffix=".json")
    with os.fdopen(fd, "w") as f:
        json.dump(traces, f)
    try:
        rc, out = tlc(module, env={"TRACE_FILE": path}, workers=workers, timeout=timeout)
    finally:
        os.unlink(path)
    res = {}
    for m in DONE.finditer(out):
        cl = [(a, int(b)) for a, b in re.findall(r'<<"([^"]+)",\s*(-?\d+)>>', m.group(3))]
        res[int(m.group(1))] = (m.group(2) == "TRUE", sorted(cl, key=lambda x: x[1]))
    if rc != 0 or len(res) != len(traces):
        raise TlcError("trace validation with %s failed (rc %s, %d of %d verdicts)\n%s" % (
            module, rc, len(res), len(traces), out[out.find("Error"):][:3000] + "\n...\n" + out[-1500:]))
    g, d = stats(out)
    return res, g, d
