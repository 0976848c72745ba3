"""Create and run real optimizations that compete for results folders, and look at the disk after every step."""
import contextlib
import glob
import io
import json
import logging
import os
import shutil
import signal
import sys
import tempfile
import zlib

import qh
import numpy as np
from qh import CLOCK, Hang, Runaway
from quocslib.Optimizer import Optimizer
from quocslib.gradientfreemethods.DirectSearchMethod import DirectSearchMethod
from quocslib.handleexit.HandleExit import HandleExit
from quocslib.stoppingcriteria.NelderMeadStoppingCriteria import NelderMeadStoppingCriteria

ROOT = os.path.join(qh.REPO_SRC, "quocslib")


class Three(DirectSearchMethod):
    callback = None

    def __init__(self, settings, stopping_criteria, callback=None, **kw):
        super().__init__()
        self.sc_obj = NelderMeadStoppingCriteria(stopping_criteria)

    def run_dsm(self, func, x0, initial_simplex=None, sigma_v=None, **kw):
        for k in range(3):
            x = np.asarray(x0) + 0.125 * (k + 1)
            func(x, k)
        return {"F_min_val": 0.0, "X_opti_vec": x, "NitUsed": k, "NfunevalsUsed": k + 1, "terminate_reason": "done"}


def crc(path):
    with open(path, "rb") as f:
        return zlib.crc32(f.read()) & 0x3FFFFFFF


def mix(items):
    return zlib.crc32(repr(sorted(items)).encode()) & 0x3FFFFFFF


class World:
    def __init__(self, sc, root):
        self.sc, self.root, self.ev, self.opts, self.n, self.cur = sc, root, [], {}, {}, {}
        self.tb, self.lines = "", 0
        for k in range(3):
            os.mkdir(os.path.join(root, "cwd%d" % k))
            with open(os.path.join(root, "cwd%d" % k, "notes.txt"), "w") as f:
                f.write("mine")

    def tree(self):
        t, out = [], []
        for d in sorted(os.listdir(self.root)):
            p = os.path.join(self.root, d)
            if not os.path.isdir(p):
                out.append((d, crc(p)))
                continue
            for sub, dirs, files in os.walk(p):
                rel = os.path.relpath(sub, self.root)
                parts = rel.split(os.sep)
                if len(parts) >= 2 and parts[1] == "QuOCS_Results":
                    if len(parts) == 2:
                        out += [(rel, f) for f in files]
                        for x in sorted(dirs):
                            t.append(self.folder(rel, x))
                else:
                    if len(parts) > 1:
                        out.append((rel, "dir"))
                    out += [(rel, f, crc(os.path.join(sub, f))) for f in files]
        return t, mix(out)

    def folder(self, rel, x):
        logs, rest = [], []
        base = os.path.join(self.root, rel, x)
        for sub, dirs, files in os.walk(base):
            for f in files:
                q = os.path.join(sub, f)
                (logs if f.endswith(".log") else rest).append((os.path.relpath(q, base), crc(q)))
        return {"f": os.path.join(rel, x), "d": mix(rest), "l": mix(logs)}

    def add(self, e, who, **kw):
        t, out = self.tree()
        self.ev.append(dict({"e": e, "who": who, "tree": t, "out": out}, **kw))

    # -- the optimization of one actor
    def settings(self, op):
        al = {"algorithm_name": op["alg"],
              "dsm_settings": {"general_settings": {"dsm_algorithm_module": "fold", "dsm_algorithm_class": "Three"},
                               "stopping_criteria": {"max_eval": 10**6}}}
        pulses = []
        if op["alg"] == "dCRAB":
            al["super_iteration_number"] = 2
            pulses = [{"pulse_name": "P", "bins_number": 3, "time_name": "T", "lower_limit": -5.0, "upper_limit": 5.0,
                       "amplitude_variation": 1.0, "basis": {"basis_name": "PiecewiseBasis", "bins_number": 3}}]
        od = {"optimization_client_name": op["name"], "console_info": False, "create_logfile": bool(op["log"]),
              "use_microsecond_name": bool(op["us"]), "dump_format": op["fmt"], "algorithm_settings": al, "pulses": pulses,
              "parameters": [{"parameter_name": "actor", "initial_value": float(100 * op["a"]), "lower_limit": 0.0,
                              "upper_limit": 1e4, "amplitude_variation": 1.0}],
              "times": [{"time_name": "T", "initial_value": 3.0}], "marker": "actor %d" % op["a"]}
        return od

    def create(self, op):
        a = op["a"]
        self.cur[a] = op
        CLOCK.t += op["dt"]
        os.chdir(os.path.join(self.root, "cwd%d" % op["cwd"]))
        dirname = os.path.relpath(os.getcwd(), self.root)
        import datetime
        now = datetime.datetime.now()
        stamp = now.strftime("%Y%m%d_%H%M%S_%f" if op["us"] else "%Y%m%d_%H%M%S")
        self.n[a] = 0
        world = self

        class Rec:
            sc = {}

            def evaluate(self, pulses, parameters, timegrids):
                return world.evaluate(a)

        before = list(logging.getLogger("oc_logger").handlers)
        ok, path = 1, os.path.join(dirname, "QuOCS_Results", stamp + "_" + op["name"])
        try:
            opt = self.interrupted(op, lambda: Optimizer(self.settings(op), qh.FoM(Rec()), handle_exit_obj=HandleExit()))
            path = os.path.relpath(opt.results_path, self.root)
            self.opts[a] = (opt, op)
        except Exception as ex:
            ok = 0
            self.tb += "actor %d: %r\n" % (a, ex)
        logged = int(before != list(logging.getLogger("oc_logger").handlers))
        self.add("create", a, ok=ok, path=path, dir=dirname, base=os.path.basename(path), stamp=stamp, name=op["name"],
                 logged=logged)

    def interrupted(self, op, make):
        """Calls make, with the actors of op["pre"] acting in other processes at the given traced lines of the library."""
        pre = list(op.get("pre", []))
        if not pre:
            return make()
        cnt = [0]

        def local(frame, event, arg):
            if event == "line":
                cnt[0] += 1
                while pre and cnt[0] == pre[0]["at"]:
                    p = pre.pop(0)
                    self.add("pause", op["a"])
                    self.elsewhere(p["ops"])
            return local if pre else None

        def glob_(frame, event, arg):
            return local if pre and frame.f_code.co_filename.startswith(ROOT) else None

        sys.settrace(glob_)
        try:
            return make()
        finally:
            sys.settrace(None)
            self.lines = max(self.lines, cnt[0])
            # interruptions after the end of the creation
            for p in pre:
                self.late.append(p)

    def elsewhere(self, ops):
        """Another process acts."""
        r, w = os.pipe()
        n = len(self.ev)
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            try:
                sys.settrace(None)
                for op in ops:
                    self.do(op)
                for h in logging.getLogger("oc_logger").handlers:
                    h.flush()
                data = json.dumps({"ev": self.ev[n:], "tb": self.tb})
                with os.fdopen(w, "w") as f:
                    f.write(data)
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r) as f:
            data = f.read()
        os.waitpid(pid, 0)
        if not data:
            raise RuntimeError("no answer from the other process")
        d = json.loads(data)
        self.ev += d["ev"]
        self.tb = d["tb"]

    def evaluate(self, a):
        self.n[a] += 1
        if self.n[a] > 40:
            raise Runaway()
        opt, op = self.opts[a]
        nest = self.nest.pop((a, self.n[a]), None)
        if nest:
            self.report(a, part=1)
            for o in nest:
                self.do(o)
        return {"FoM": float(1000 * a - self.n[a])}

    def report(self, a, part):
        opt, op = self.opts[a]
        p = opt.results_path
        lg, res = 0, 0
        for h in logging.getLogger("oc_logger").handlers:
            h.flush()
        for f in glob.glob(os.path.join(p, "*.log")):
            with open(f) as h:
                lg += sum("FoM: %.1f" % (1000 * a - k) in x and "valuation number" in x for x in h for k in
                          range(1, self.n[a] + 1))
        if not part:
            try:
                with open(glob.glob(os.path.join(p, "*optimization_dictionary.json"))[0]) as h:
                    assert json.load(h)["marker"] == "actor %d" % a
                with open(glob.glob(os.path.join(p, "*optimized_parameters.json"))[0]) as h:
                    assert json.load(h)["Figure of merit"] == 1000 * a - self.n[a]
                f = glob.glob(os.path.join(p, "*best_controls.*"))[0]
                if f.endswith("json"):
                    with open(f) as h:
                        d = json.load(h)
                else:
                    with np.load(f) as z:
                        d = {k: z[k] for k in z.files}
                assert abs(float(d["actor"]) - 100 * a) < 50 and float(d["FoM"]) == 1000 * a - self.n[a]
                res = 1
            except Exception as ex:
                self.tb += "results of %d: %r\n" % (a, ex)
        self.add("run", a, res=res, lg=lg, ev=self.n[a], log=int(op["log"]), part=part, nested=int(a in self.wasnested))

    def do(self, op):
        k = op["op"]
        if k == "create":
            self.create(op)
        elif k == "put":
            p = os.path.join(self.root, "cwd%d" % op["cwd"], "QuOCS_Results")
            os.makedirs(p, exist_ok=True)
            import datetime
            os.makedirs(os.path.join(p, datetime.datetime.now().strftime("%Y%m%d_%H%M%S") + "_" + op["name"]), exist_ok=True)
            self.add("put", 1)
        elif k == "run":
            a = op["a"]
            if a not in self.opts or a in self.ran:
                return
            self.ran.add(a)
            os.chdir(os.path.join(self.root, "cwd%d" % op["cwd"]))
            for at, ops in op.get("nest", []):
                self.nest[a, at] = ops
                self.wasnested.add(a)
            try:
                self.opts[a][0].execute()
                self.report(a, part=0)
            except (Runaway, Hang):
                raise
            except Exception as ex:
                import traceback
                self.tb += traceback.format_exc()
                self.report(a, part=0)


def execute(sc, workdir):
    CLOCK.reset()
    CLOCK.t = 50.0
    d = tempfile.mkdtemp(prefix="f", dir=workdir)
    old = os.getcwd()
    w = World(sc, d)
    w.nest, w.wasnested, w.ran, w.late = {}, set(), set(), []
    oldh = signal.getsignal(signal.SIGINT)
    signal.signal(signal.SIGALRM, qh._hang)
    signal.setitimer(signal.ITIMER_REAL, qh.HANG_SECONDS)
    hang = False
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            w.add("init", 1)
            for op in sc["ops"]:
                w.do(op)
                for p in w.late:
                    w.elsewhere(p["ops"])
                w.late = []
    except Hang:
        hang = True
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGINT, oldh)
        os.chdir(old)
        for h in list(logging.getLogger("oc_logger").handlers):
            h.close()
        logging.getLogger("oc_logger").handlers = []
        shutil.rmtree(d, ignore_errors=True)
    return {"id": sc["id"], "ev": w.ev, "tb": w.tb, "hang": hang, "cfg": {}, "lines": w.lines}
