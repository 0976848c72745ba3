"""Drive the real FilesUpdateFoM, alone or inside a whole optimization, with an outside world that acts while it waits."""
import contextlib
import glob
import io
import json
import logging
import os
import shutil
import signal
import sys
import tempfile

import qh
import numpy as np
from qh import CLOCK, Hang, Runaway
import quocslib
from quocslib.Optimizer import Optimizer
from quocslib.gradientfreemethods.DirectSearchMethod import DirectSearchMethod
from quocslib.handleexit.HandleExit import HandleExit
from quocslib.stoppingcriteria.NelderMeadStoppingCriteria import NelderMeadStoppingCriteria
from quocslib.utils.FilesUpdateFom import FilesUpdateFoM

CUR = None
LIB = os.path.dirname(quocslib.__file__)
GOOD = ["%s", "%s\n", "  %s  \n", "%s\nsecond line\n", "%se0\n"]
BAD = ["", "\n", "abc\n", "1,5\n", "--\n", "None\n"]


class Twist(DirectSearchMethod):
    callback = None

    def __init__(self, settings, stopping_criteria, callback=None, **kw):
        super().__init__()
        self.sc_obj = NelderMeadStoppingCriteria(stopping_criteria)
        self.cb = callback

    def run_dsm(self, func, x0, initial_simplex=None, sigma_v=None, **kw):
        v, x = 0.0, np.asarray(x0)
        for k in range(len(CUR.sc["reqs"])):
            if self.cb is not None and not self.cb():
                break
            x = np.asarray(x0) + CUR.rs.randint(-8, 9, len(x0)) / 8 * CUR.sc.get("amp", 1.0)
            v = func(x, k)
        return {"F_min_val": v, "X_opti_vec": x, "NitUsed": k, "NfunevalsUsed": k + 1, "terminate_reason": "done"}


class Exchange(FilesUpdateFoM):
    """Reports the requests; everything else is the library's."""

    def get_FoM(self, pulses=[], parameters=[], timegrids=[]):
        w = CUR
        w.request([np.array(p, dtype=float) for p in pulses], [np.array(t, dtype=float) for t in timegrids],
                  [float(p) for p in parameters])
        sys.settrace(w.trace)
        try:
            r = super().get_FoM(pulses=pulses, parameters=parameters, timegrids=timegrids)
        finally:
            sys.settrace(None)
        ok = int(r.get("status_code", 0) == 0)
        v = r.get("FoM")
        w.add("ret", ok=ok, v=int(round(v * 100)) if ok and v is not None and np.isfinite(v) else 0)
        if ok:
            w.got.append(int(round(v * 100)))
        return r


class W:
    def __init__(self, sc, root):
        self.sc, self.root, self.ev, self.n, self.got, self.todo, self.c, self.fast = sc, root, [], 0, [], [], None, []
        self.rs = np.random.RandomState(sc["seed"] % 2**32)
        self.cf = os.path.join(root, "controls." + sc["ext"])
        self.ff = os.path.join(root, "fom" if sc["split"] else "", "FoM.txt")
        if sc["split"]:
            os.mkdir(os.path.join(root, "fom"))

    def now(self):
        return int(round(CLOCK.t * 100))

    def add(self, e, **kw):
        self.ev.append(dict({"e": e, "t": self.now()}, **kw))

    def write(self, op, v, form):
        if op == 0:
            if os.path.exists(self.ff):
                os.remove(self.ff)
            return
        text = (GOOD if op == 1 else BAD)[form % (len(GOOD) if op == 1 else len(BAD))]
        with open(self.ff, "w") as f:
            f.write(text % ("%.2f" % (v / 100)) if op == 1 else text)

    def act(self, a):
        op, v, form = a
        self.add("env", op=op, v=v if op == 1 else 0, seen=self.seen())
        self.write(op, v, form)

    def request(self, ps, ts, qs):
        if self.n >= len(self.sc["reqs"]) + 40:
            raise Runaway()
        q = self.sc["reqs"][self.n % len(self.sc["reqs"])]
        for a in q["before"]:
            self.act(a)
        self.n += 1
        self.c = (ps, ts, qs)
        if os.path.exists(self.cf):             # equal controls may follow each other: mark the old file
            os.utime(self.cf, (1, 1))
        self.add("req", c=self.n)
        self.todo = sorted((self.now() + t, i, a) for i, (t, a) in enumerate(q["during"]) if t >= 0)
        self.fast = [a for t, a in q["during"] if t < 0]

    def trace(self, frame, event, arg):
        """Between any two lines of the library: the outside world may have seen the controls and answered already."""
        if not self.fast or LIB not in frame.f_code.co_filename:
            return None
        if os.path.exists(self.cf) and os.stat(self.cf).st_mtime > 2 and self.seen() == self.n:
            fast, self.fast = self.fast, []
            for a in fast:
                self.act(a)
        return self.trace

    def seen(self):
        """The number of the request whose controls are completely in the exchange folder."""
        if self.c is None:
            return 0
        ps, ts, qs = self.c
        try:
            if self.sc["ext"] == "json":
                with open(self.cf) as f:
                    d = json.load(f)
                want = {}
                for i, (p, t) in enumerate(zip(ps, ts)):
                    want["pulse%d" % (i + 1)], want["time_grid%d" % (i + 1)] = p, t
                for j, q in enumerate(qs):
                    want["parameter%d" % (j + 1)] = q
                if set(d) != set(want) or not all(np.array_equal(np.asarray(d[k], dtype=float), want[k]) for k in want):
                    return 0
            else:
                with open(self.cf) as f:
                    rows = [[float(x) for x in line.split()] for line in f if line.strip()]
                want = []
                for p, t in zip(ps, ts):
                    want += [p, t]
                want += [[q] for q in qs]
                if len(rows) != len(want) or not all(len(a) == len(b) and np.allclose(a, b, atol=0, rtol=1e-9) for a, b in
                                                     zip(rows, want)):
                    return 0
            return self.n
        except Exception:
            return 0

    def sleep(self, s):
        self.add("look", seen=self.seen())
        if len(self.ev) > 3000:
            raise Runaway()
        end = CLOCK.t + s
        while self.todo and self.todo[0][0] <= round(end * 100):
            t, _, a = self.todo.pop(0)
            CLOCK.t = max(CLOCK.t, t / 100)
            self.act(a)
        CLOCK.t = max(CLOCK.t, end)


def execute(sc, workdir):
    global CUR
    CLOCK.reset()
    CLOCK.t = 50.0
    np.random.seed(sc["seed"] % 2**32)
    d = tempfile.mkdtemp(prefix="x", dir=workdir)
    old = os.getcwd()
    os.chdir(d)
    w = CUR = W(sc, os.path.join(d, ""))
    CLOCK.on_sleep = w.sleep
    oldh = signal.getsignal(signal.SIGINT)
    signal.signal(signal.SIGALRM, qh._hang)
    signal.setitimer(signal.ITIMER_REAL, qh.HANG_SECONDS)
    exc, tb, hang, best, fom, whole = 0, "", False, 0, 0, int(sc["alg"] != "")
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            x = Exchange(controls_folder=d, file_extension=sc["ext"], FoM_folder=os.path.dirname(w.ff), max_time=sc["max"] / 100)
            if not whole:
                for k in range(len(sc["reqs"])):
                    n, m = sc["np"], sc["nq"]
    
            else:
                al = {"algorithm_name": sc["alg"],
                      "dsm_settings": {"general_settings": {"dsm_algorithm_module": "exch", "dsm_algorithm_class": "Twist"},
                                       "stopping_criteria": {"max_eval": 10**6}}}
                if sc["alg"] == "dCRAB":
                    al["super_iteration_number"] = 1
                L, a, t = sc.get("len", 3), sc.get("amp", 1.0), sc.get("tim", 1.0)
                pulses = [{"pulse_name": "P%d" % i, "bins_number": L + i, "time_name": "T", "lower_limit": -5.0 * a,
                           "upper_limit": 5.0 * a, "amplitude_variation": a,
                           "basis": {"basis_name": "PiecewiseBasis", "bins_number": L + i}}
                          for i in range(sc["np"] if sc["alg"] == "dCRAB" else 0)]
                pars = [{"parameter_name": "Q%d" % i, "initial_value": 1.0 * i, "lower_limit": -50.0, "upper_limit": 50.0,
                         "amplitude_variation": 1.0} for i in range(max(sc["nq"], int(sc["alg"] != "dCRAB")))]
                od = {"optimization_client_name": "x", "console_info": False, "create_logfile": False, "algorithm_settings": al,
                      "pulses": pulses, "parameters": pars, "times": [{"time_name": "T", "initial_value": 3.0 * t}]}
                opt = Optimizer(od, x, handle_exit_obj=HandleExit())
                logging.getLogger("oc_logger").handlers = [logging.NullHandler()]
                opt.execute()
                best = min(w.got) if w.got else 0
                with open(glob.glob(os.path.join(opt.results_path, "*optimized_parameters.json"))[0]) as f:
                    v = json.load(f)["Figure of merit"]
                fom = int(round(v * 100)) if abs(v) < 1e7 else 0
                if not w.got:
                    fom = 0
    except Runaway:
        exc = 1
    except Hang:
        exc, hang = 1, True
    except Exception:
        import traceback
        tb, exc = traceback.format_exc(), 1
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGINT, oldh)
        CLOCK.on_sleep = None
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)
    w.add("end", exc=exc, whole=whole, best=best, fom=fom)
    CUR = None
    return {"id": sc["id"], "ev": w.ev, "tb": tb, "hang": hang, "cfg": {"max": sc["max"]}}
