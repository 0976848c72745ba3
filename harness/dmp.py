"""Run the real optimizer with chosen names of the controls and read the files of the run after every evaluation."""
import contextlib
import glob
import io
import json
import logging
import os
import shutil
import signal
import tempfile

import qh
import numpy as np
from qh import CLOCK, Hang, Runaway
from quocslib.Optimizer import Optimizer
from quocslib.gradientfreemethods.DirectSearchMethod import DirectSearchMethod
from quocslib.handleexit.HandleExit import HandleExit
from quocslib.stoppingcriteria.NelderMeadStoppingCriteria import NelderMeadStoppingCriteria

CUR = None


class Steps(DirectSearchMethod):
    callback = None

    def __init__(self, settings, stopping_criteria, callback=None, **kw):
        super().__init__()
        self.sc_obj = NelderMeadStoppingCriteria(stopping_criteria)

    def run_dsm(self, func, x0, initial_simplex=None, sigma_v=None, **kw):
        for k in range(CUR.sc["steps"]):
            x = np.asarray(x0) + CUR.rs.rand(len(x0))
            func(x, k)
        return {"F_min_val": 0.0, "X_opti_vec": x, "NitUsed": k, "NfunevalsUsed": k + 1, "terminate_reason": "done"}


def same(a, b, tol):
    a, b = np.asarray(a), np.asarray(b)
    if a.dtype.kind not in "fcib" or b.dtype.kind not in "fcib" or a.shape != b.shape:
        return False
    return bool(np.array_equal(a, b) if tol == 0 else np.allclose(a, b, atol=tol, rtol=tol))


def num(v):
    try:
        v = float(np.real(v))
        return int(round(v)) if abs(v) < 2e9 and abs(v - round(v)) < 1e-6 else -777777
    except Exception:
        return -999999


def strs(v):
    try:
        return [str(x) for x in np.asarray(v).tolist()]
    except Exception:
        return ["?"]


def flat(d, pre=""):
    out = []
    if isinstance(d, dict):
        for k, v in d.items():
            out += flat(v, pre + "/" + str(k))
        return out or [pre + "={}"]
    if isinstance(d, (list, tuple, np.ndarray)):
        for k, v in enumerate(d):
            out += flat(v, pre + "/%d" % k)
        return out or [pre + "=[]"]
    if isinstance(d, (bool, np.bool_)):
        return [pre + "=" + str(bool(d))]
    if isinstance(d, (int, float, np.number)):
        return [pre + "=%.9g" % float(d)]
    return [pre + "=" + str(d)]


class R:
    def __init__(self, sc):
        self.sc, self.ev, self.n, self.hist, self.path = sc, [], 0, [], None
        self.rs = np.random.RandomState(sc["seed"] % 2**32)

    def value(self, n):
        return 5000 - n if not self.sc["max"] else 5000 + n

    def look(self):
        if self.n == 0 or self.path is None:
            return
        fs = sorted(p for p in os.listdir(self.path) if "best_controls" in p)
        want = ".json" if self.sc["fmt"] == "json" else ".npz"
        e = {"e": "file", "ok": 0, "n": self.n, "ent": [], "f": self.value(self.n), "others": max(0, len(fs) - 1),
             "meta": {"fom": -1, "it": -1, "st": -1, "pn": [], "qn": []}}
        self.ev.append(e)
        try:
            f = os.path.join(self.path, [p for p in fs if p.endswith(want)][0])
            if want == ".json":
                with open(f) as h:
                    d = json.load(h)
            else:
                with np.load(f, allow_pickle=False) as z:
                    d = {k: z[k] for k in z.files}
        except Exception as ex:
            e["why"] = repr(ex)[:200]
            return
        e["ok"] = 1
        tol = 1e-5 if self.sc["alg"] == "AD" else 0
        for k, v in d.items():
            e["ent"] += [{"k": k, "v": i} for i in self.ident(v, tol)]
        e["meta"] = {"fom": num(d.get("FoM")), "it": num(d.get("iteration_number")), "st": num(d.get("status_code")),
                     "pn": strs(d.get("pulse_names", [])), "qn": strs(d.get("parameter_names", []))}

    def ident(self, v, tol):
        """Every control the value can be; those of older evaluations only if it is none of the current one."""
        for n in range(self.n, max(0, self.n - 3), -1):
            ps, gs, qs = self.hist[n - 1]
            out = [100 * n + i + 1 for i, p in enumerate(ps) if same(v, p, tol)]
            out += [100 * n + 50 + j + 1 for j, q in enumerate(qs) if same(v, q, tol)]
            out += [-(i + 1) for i, g in enumerate(gs) if same(v, g, tol)]
            if out:
                return out
        return [0]

    def evaluate(self, pulses, parameters, timegrids):
        if self.n > 60:
            raise Runaway()
        self.look()
        self.n += 1
        self.hist.append(([np.array(np.real(p)) for p in pulses], [np.array(np.real(t)) for t in timegrids],
                          [np.array(np.real(q)) for q in parameters]))
        return {"FoM": float(self.value(self.n))}


NP = {"int64": np.int64, "float32": np.float32, "float64": np.float64, "bool": np.bool_, "longdouble": np.longdouble}


def typed(v):
    """{"$np": [type, value]} stands for a numpy scalar, {"$arr": [...]} for an array, {"$tuple": ...} for a tuple."""
    if isinstance(v, dict):
        if "$np" in v:
            return NP[v["$np"][0]](v["$np"][1])
        if "$arr" in v:
            return np.array(v["$arr"])
        if "$tuple" in v:
            return tuple(v["$tuple"])
        return {k: typed(x) for k, x in v.items()}
    if isinstance(v, list):
        return [typed(x) for x in v]
    return v


def settings(sc):
    bins = {"GRAPE": [4], "AD": [4] * 9}.get(sc["alg"], [3, 4, 5, 6])
    pulses = []
    for i, nm in enumerate(sc["pn"]):
        b = bins[i % len(bins)]
        pulses.append({"pulse_name": nm, "bins_number": b, "time_name": "T%d" % i, "lower_limit": -50.0, "upper_limit": 50.0,
                       "amplitude_variation": 1.0, "initial_guess": {"function_type": "lambda_function",
                                                                     "lambda_function": "lambda t: %d.25 + 0*t" % (i + 1)},
                       "basis": {"basis_name": "PiecewiseBasis", "bins_number": b}})
    pars = [{"parameter_name": nm, "initial_value": 0.5 + 0.125 * j, "lower_limit": -50.0, "upper_limit": 50.0,
             "amplitude_variation": 0.5} for j, nm in enumerate(sc["qn"])]
    al = {"algorithm_name": {"dCRAB": "dCRAB", "DS": "DirectSearch", "GRAPE": "GRAPE", "AD": "AD"}[sc["alg"]],
          "optimization_direction": "maximization" if sc["max"] else "minimization"}
    if sc["alg"] in ("dCRAB", "AD"):
        al["super_iteration_number"] = 2
    if sc["alg"] in ("dCRAB", "DS"):
        al["dsm_settings"] = {"general_settings": {"dsm_algorithm_module": "dmp", "dsm_algorithm_class": "Steps"},
                              "stopping_criteria": {"max_eval": 10**6}}
    else:
        al["stopping_criteria"] = {"max_eval_total": 4}
        al["max_eval_total"] = 6
    od = {"optimization_client_name": "d", "console_info": False, "create_logfile": False, "dump_format": sc["fmt"],
          "algorithm_settings": al, "pulses": pulses, "parameters": pars,
          "times": [{"time_name": "T%d" % i, "initial_value": 3.0 + i} for i in range(len(pulses))]}
    od.update(typed(sc.get("extra", {})))
    if pulses:
        pulses[0].update(typed(sc.get("pextra", {})))
    return od


def execute(sc, workdir):
    global CUR
    CLOCK.reset()
    CLOCK.t = 50.0
    np.random.seed(sc["seed"] % 2**32)
    d = tempfile.mkdtemp(prefix="d", dir=workdir)
    old = os.getcwd()
    os.chdir(d)
    r = CUR = R(sc)
    od = settings(sc)
    given = flat(od)
    fom = {"GRAPE": qh.GrapeFoM, "AD": qh.AdFoM}.get(sc["alg"], qh.FoM)(r)
    oldh = signal.getsignal(signal.SIGINT)
    signal.signal(signal.SIGALRM, qh._hang)
    signal.setitimer(signal.ITIMER_REAL, qh.HANG_SECONDS)
    exc, tb, hang = 0, "", False
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            opt = Optimizer(od, fom, handle_exit_obj=HandleExit())
            logging.getLogger("oc_logger").handlers = [logging.NullHandler()]
            r.path = opt.results_path
            opt.execute()
            r.look()
    except Runaway:
        exc = 1
    except Hang:
        exc, hang = 1, True
    except Exception:
        import traceback
        tb, exc = traceback.format_exc(), 1
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGINT, oldh)
    if r.path:
        e = {"e": "settings", "ok": 0, "given": given, "read": []}
        try:
            with open(glob.glob(os.path.join(r.path, "*optimization_dictionary.json"))[0]) as f:
                e["read"] = flat(json.load(f))
            e["ok"] = 1
        except Exception as ex:
            e["why"] = repr(ex)[:200]
        r.ev.append(e)
        if exc == 0:
            e = {"e": "results", "ok": 0, "fom": 0, "best": r.value(r.n)}
            try:
                with open(glob.glob(os.path.join(r.path, "*optimized_parameters.json"))[0]) as f:
                    e["fom"] = num(json.load(f)["Figure of merit"])
                e["ok"] = 1
            except Exception as ex:
                e["why"] = repr(ex)[:200]
            r.ev.append(e)
    os.chdir(old)
    shutil.rmtree(d, ignore_errors=True)
    r.ev.append({"e": "end", "exc": exc})
    CUR = None
    return {"id": sc["id"], "ev": r.ev, "tb": tb, "hang": hang, "cfg": {"pn": sc["pn"], "qn": sc["qn"]}}
