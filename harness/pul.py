"""Run the real optimizer with a walking search and integer-valued controls, and record every evaluated set of controls."""
import contextlib
import glob
import io
import json
import logging
import os
import shutil
import signal
import tempfile

import qh
import numpy as np
from qh import CLOCK, Hang, Runaway
from quocslib.Optimizer import Optimizer
from quocslib.gradientfreemethods.DirectSearchMethod import DirectSearchMethod
from quocslib.handleexit.HandleExit import HandleExit
from quocslib.pulses.basis.ChoppedBasis import ChoppedBasis
from quocslib.stoppingcriteria.NelderMeadStoppingCriteria import NelderMeadStoppingCriteria

CUR = None


AMP, TIM = [1.0], [1.0]        # units of the amplitudes and of the times of the run in progress (powers of two)


def hun(v, unit=AMP):
    v = float(np.real(v)) / unit[0]
    if not np.isfinite(v) or abs(v) > 9e6:
        return 2 * 10**9 // 2
    return int(round(v * 100))


def excess(v, lo, up):
    """How far the values are outside the limits, in 10^-9."""
    lo, up = min(lo, up), max(lo, up)
    v = np.real(np.atleast_1d(np.asarray(v, dtype=complex))) / AMP[0]
    e = max(float(np.max(v)) - up, lo - float(np.min(v)), 0.0) if v.size and np.all(np.isfinite(v)) else 1.0
    return int(min(1.0, e) * 1e9 + 0.999)


class Ramp(ChoppedBasis):
    """A user-defined chopped basis with integer values; it may change its number of coefficients at every selection."""

    def __init__(self, map_index, pulse_dictionary, rng=None, is_AD=False):
        b = pulse_dictionary["basis"]
        self.super_parameter_number = b["basis_vector_number"]
        self.grow, self.sel = b.get("grow", 0), 0
        self.control_parameters_number = self.super_parameter_number
        super().__init__(map_index=map_index, rng=rng, is_AD=is_AD, **pulse_dictionary)
        self._coeff()
        CUR.ramps.append((pulse_dictionary["pulse_name"], self))

    def _coeff(self):
        self.scale_coefficients = self.amplitude_variation * np.ones(self.control_parameters_number)
        self.offset_coefficients = np.zeros(self.control_parameters_number)

    def update_chopped_basis(self):
        self.sel += 1
        if self.grow:
            self.control_parameters_number = self.super_parameter_number + self.sel % 2
            self._coeff()

    def w0(self):
        return int(np.floor(self.super_parameter_distribution_obj.w[0]))

    def _get_shaped_pulse(self):
        x = self.optimized_control_parameters
        b = np.arange(1, self.bins_number + 1)
        out = np.zeros(self.bins_number)
        for i in range(len(x)):
            out += x[i] * ((b + i + 1 + self.w0()) % 3)
        return out


class Walker(DirectSearchMethod):
    callback = None

    def __init__(self, settings, stopping_criteria, callback=None, **kw):
        super().__init__()
        self.sc_obj = NelderMeadStoppingCriteria(stopping_criteria)

    def run_dsm(self, func, x0, initial_simplex=None, sigma_v=None, **kw):
        r = CUR
        r.g += 1
        r.ev.append({"e": "si", "g": r.g, "x0": [hun(v) for v in x0], "sig": [hun(v) for v in sigma_v], "w": r.ws()})
        sc = r.sc
        n, npar = len(x0), len(sc["cparams"])
        seen = [np.array(x0, dtype=float)]
        for k in range(len(sc["xlist"]) if "xlist" in sc else sc["steps"]):
            u = r.rs.rand()
            if "xlist" in sc:
                x = np.array(sc["xlist"][k], dtype=float) * AMP[0]
            elif k == 0 and u < 0.7:
                x = np.array(x0, dtype=float)
            elif u < 0.15:
                x = seen[r.rs.randint(len(seen))].copy()
            else:
                x = np.concatenate([r.rs.randint(-6, 7, n - npar), r.rs.randint(-90, 91, npar)]).astype(float) * AMP[0]
                if u < 0.5:
                    old = seen[r.rs.randint(len(seen))]
                    m = r.rs.rand(n) < 0.6
                    a = r.rs.randint(0, n + 1)
                    m = (np.arange(n) < a) if u < 0.4 else m
                    x[m] = old[m]
            seen.append(x.copy())
            r.x = x.copy()
            v = func(x, k)
            r.x = None
        return {"F_min_val": v, "X_opti_vec": x, "NitUsed": k, "NfunevalsUsed": k + 1, "terminate_reason": "done"}


class R:
    def __init__(self, sc):
        self.sc, self.ev, self.ramps, self.g, self.x, self.n = sc, [], [], 0, None, 0
        self.rs = np.random.RandomState(sc["seed"] % 2**32)
        self.names = [p["pulse_name"] for p in sc["opulses"]]

    def ws(self):
        d = {}
        for nm, o in self.ramps:
            d[nm] = o.w0()
        return [d.get(nm, 0) for nm in self.names]

    def evaluate(self, pulses, parameters, timegrids):
        if self.n > 300:
            raise Runaway()
        sc = self.sc
        f = sc["vals"][self.n % len(sc["vals"])]
        self.n += 1
        if sc["alg"] == "AD":
            pulses = [np.asarray(p)[:q["bins"]] for p, q in zip(pulses, sc["cpulses"])]
            timegrids = [np.asarray(p)[:q["bins"]] for p, q in zip(timegrids, sc["cpulses"])]
        if self.g == 0 and sc["alg"] in ("dCRAB", "DS"):
            pass
        self.ev.append({"e": "eval", "x": [] if self.x is None else [hun(v) for v in self.x],
                        "pulses": [[hun(v) for v in p] for p in pulses], "grids": [[hun(v, TIM) for v in p] for p in timegrids],
                        "params": [hun(v) for v in parameters], "f": f, "w": self.ws(),
                        "ex": [excess(p, q["lo"], q["up"]) for p, q in zip(pulses, sc["cpulses"])],
                        "exq": [excess(v, q["lo"], q["up"]) for v, q in zip(parameters, sc["cparams"])]})
        return {"FoM": float(f)}


class FoM(qh.FoM):
    pass


def execute(sc, workdir):
    global CUR
    CLOCK.reset()
    CLOCK.t = 50.0
    np.random.seed(sc["seed"] % 2**32)
    d = tempfile.mkdtemp(prefix="p", dir=workdir)
    old = os.getcwd()
    os.chdir(d)
    for name, text in sc.get("files", {}).items():
        os.makedirs(os.path.dirname(os.path.join(d, name)), exist_ok=True)
        with open(os.path.join(d, name), "w") as f:
            f.write(text)
    with open(os.path.join(d, "nobody.py"), "w") as f:
        f.write("def fun(t):\n    return 55.0 + 0*t\n")
    r = CUR = R(sc)
    AMP[0], TIM[0] = float(sc.get("amp", 1)), float(sc.get("tim", 1))
    for p in sc["opulses"]:
        for k in ("initial_guess", "scaling_function"):
            if p.get(k, {}).get("path_mode") == "absolute":
                p[k]["file_path"] = os.path.join(d, p[k]["file_path"])
        if p["basis"].get("basis_class") == "Ramp":
            p["basis"]["basis_module"] = "pul"
    al = {"algorithm_name": {"dCRAB": "dCRAB", "DS": "DirectSearch", "GRAPE": "GRAPE", "AD": "AD"}[sc["alg"]]}
    if sc["alg"] in ("dCRAB", "AD"):
        al["super_iteration_number"] = sc["nsi"]
    if sc["alg"] in ("dCRAB", "DS"):
        al["dsm_settings"] = {"general_settings": {"dsm_algorithm_module": "pul", "dsm_algorithm_class": "Walker"},
                              "stopping_criteria": {"max_eval": 10**6}}
    else:
        al["stopping_criteria"] = {"max_eval_total": 5}
        al["max_eval_total"] = 12
    if sc.get("rng") is not None:
        al["random_number_generator"] = {"seed_number": sc["rng"]}
    od = {"optimization_client_name": "p", "console_info": False, "create_logfile": False, "algorithm_settings": al,
          "pulses": sc["opulses"], "parameters": sc["oparams"], "times": sc["otimes"]}
    fom = {"GRAPE": qh.GrapeFoM, "AD": qh.AdFoM}.get(sc["alg"], qh.FoM)(r)
    oldh = signal.getsignal(signal.SIGINT)
    signal.signal(signal.SIGALRM, qh._hang)
    signal.setitimer(signal.ITIMER_REAL, qh.HANG_SECONDS)
    exc, tb, bare, hang, out, rp = 0, "", [], False, [], []
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            opt = Optimizer(od, fom, handle_exit_obj=HandleExit())
            logging.getLogger("oc_logger").handlers = [logging.NullHandler()]
            opt.execute()
            if sc["alg"] in ("dCRAB", "DS"):
                b = opt.get_optimization_algorithm().get_best_bare_controls()["bare_pulses"]
                bare = [[hun(v) for v in p] for p in b]
            b = opt.get_optimization_algorithm().get_best_controls()
            out = [{"pulses": [[hun(v) for v in np.asarray(p)[:q["bins"]]] for p, q in zip(b["pulses"], sc["cpulses"])],
                    "params": [hun(v) for v in b["parameters"]],
                    "ex": [excess(np.asarray(p)[:q["bins"]], q["lo"], q["up"]) for p, q in zip(b["pulses"], sc["cpulses"])],
                    "exq": [excess(v, q["lo"], q["up"]) for v, q in zip(b["parameters"], sc["cparams"])]}]
            for name in glob.glob(os.path.join(d, "QuOCS_Results", "*", "*optimized_parameters.json")):
                with open(name) as f:
                    rp = [hun(v) for v in json.load(f).get("parameters", [])]
    except Runaway:
        exc = 1
    except Hang:
        exc, hang = 1, True
    except Exception:
        import traceback
        tb, exc = traceback.format_exc(), 1
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGINT, oldh)
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)
    r.ev.append({"e": "end", "exc": exc, "bare": bare, "out": out, "rp": rp})
    CUR = None
    return {"id": sc["id"], "ev": r.ev, "tb": tb, "hang": hang, "cfg": {"pulses": sc["cpulses"], "params": sc["cparams"]}}
