"""Run the real dCRAB with chosen super-parameters (a distribution class of the user's) and a search that evaluates chosen
coefficients; record the pulses that are sent to the figure of merit."""
import contextlib
import io
import logging
import os
import shutil
import signal
import tempfile

import qh
import numpy as np
from fam_basis import ncoef
from qh import CLOCK, Hang, Runaway
from quocslib.Optimizer import Optimizer
from quocslib.gradientfreemethods.DirectSearchMethod import DirectSearchMethod
from quocslib.handleexit.HandleExit import HandleExit
from quocslib.pulses.superparameter.SuperParameterDistribution import SuperParameterDistribution
from quocslib.stoppingcriteria.NelderMeadStoppingCriteria import NelderMeadStoppingCriteria

CUR = None


class Chosen(SuperParameterDistribution):
    """The user's own distribution of super-parameters."""

    def __init__(self, basis_vectors_number, dictionary, rng=None):
        self.basis_vectors_number = basis_vectors_number
        self.rng = rng
        self.table = dictionary["table"]
        self.draws = 0
        super().__init__(**dictionary)

    def set_random_super_parameter(self):
        self.w = np.array(self.table[self.draws % len(self.table)], dtype=float)
        self.draws += 1


def radians(p, part):
    """The second coefficient of a Chebyshev vector is a phase: in units of 30 degrees in the specification."""
    return [c * np.pi / 6 if p["basis"] == "Chebyshev" and k % 2 else c for k, c in enumerate(part)]


def project(p, v):
    out = []
    for a in v:
        a = float(a) * (np.pi / 6 if p["basis"] == "Sinc" else 1.0) * 1e4
        out.append(int(round(a)) if np.isfinite(a) and abs(a) < 1e9 else 999999999)
    return out


class Prober(DirectSearchMethod):
    callback = None

    def __init__(self, settings, stopping_criteria, callback=None, **kw):
        super().__init__()
        self.sc_obj = NelderMeadStoppingCriteria(stopping_criteria)

    def run_dsm(self, func, x0, initial_simplex=None, sigma_v=None, **kw):
        r = CUR
        sc = r.sc
        k = r.si
        r.si += 1
        r.ev.append({"e": "si", "w": [p["ws"][k] for p in sc["pulses"]]})
        n = len(x0)
        r.ev.append({"e": "start", "n": n, "zero": int(np.count_nonzero(x0))})
        x = np.zeros(n)
        if n == sum(ncoef(p) for p in sc["pulses"]):
            func(np.zeros(n), 0)
            zero = r.got
            for vec in sc["vecs"][k]:
                func(np.array([c for p, part in zip(sc["pulses"], vec) for c in radians(p, part)], dtype=float), 0)
                for i, p in enumerate(sc["pulses"]):
                    v = np.asarray(r.got[i], dtype=float) - zero[i]
                    r.ev.append({"e": "val", "p": i + 1, "x": vec[i], "v": project(p, v)})
        return {"F_min_val": 0.0, "X_opti_vec": x, "NitUsed": 1, "NfunevalsUsed": 1, "terminate_reason": "done"}


class R:
    def __init__(self, sc):
        self.sc, self.ev, self.si, self.n, self.got = sc, [], 0, 0, None

    def evaluate(self, pulses, parameters, timegrids):
        if self.n > 390:
            raise Runaway()
        self.n += 1
        self.got = [np.array(p) for p in pulses]
        return {"FoM": float(self.sc["foms"][self.n % len(self.sc["foms"])])}


def settings(sc):
    pulses = []
    for i, p in enumerate(sc["pulses"]):
        h = p["h"]
        T = h * (p["N"] - 1)
        if p["basis"] == "Sinc":
            table = [[w * h for w in ws] for ws in p["ws"]]
        elif p["basis"] in ("Fourier", "Chebyshev"):
            table = [[w * p["wu"] for w in ws] for ws in p["ws"]]
        else:
            table = [[w * h for w in ws] for ws in p["ws"]]
        b = {"basis_name": p["basis"], "basis_vector_number": p["n"],
             "random_super_parameter_distribution": {"distribution_module": "bas", "distribution_class": "Chosen",
                                                     "table": table}}
        if p["basis"] == "Sinc":
            b["basis_max"] = p["q"] * (p["N"] - 1) / 12
        if p["basis"].startswith("Sigmoid"):
            if not p["dflt"]:
                b["sigma"] = (p["S"] or 1e-6) * h
                b["offset"] = p["O"] * h
            if p["basis"] == "SigmoidTimeDep" or p["basis"] == "SigmoidAllParas" and p["tv"]:
                b["tau_variation"] = p["tv"] * h * p["av"]
            if p["basis"] == "SigmoidSigmas":
                b["sigma_variation"] = p["sv"] * h
            elif p["basis"] == "SigmoidAllParas" and p["sv"]:
                b["sigma_variation"] = p["sv"] * h * p["av"]
        d = {"pulse_name": "P%d" % i, "bins_number": p["N"], "time_name": "T%d" % i, "lower_limit": -1e9, "upper_limit": 1e9,
             "amplitude_variation": p["av"], "basis": b}
        if p["ow"]:
            d["overwrite_base_pulse"] = True
        pulses.append(d)
    al = {"algorithm_name": "dCRAB", "super_iteration_number": len(sc["vecs"]),
          "dsm_settings": {"general_settings": {"dsm_algorithm_module": "bas", "dsm_algorithm_class": "Prober"},
                           "stopping_criteria": {"max_eval": 10**6}}}
    return {"optimization_client_name": "b", "console_info": False, "create_logfile": False, "algorithm_settings": al,
            "pulses": pulses, "parameters": [],
            "times": [{"time_name": "T%d" % i, "initial_value": float(p["h"] * (p["N"] - 1))}
                      for i, p in enumerate(sc["pulses"])]}


def execute(sc, workdir):
    global CUR
    CLOCK.reset()
    d = tempfile.mkdtemp(prefix="b", dir=workdir)
    old = os.getcwd()
    os.chdir(d)
    oldh = signal.getsignal(signal.SIGINT)
    signal.signal(signal.SIGALRM, qh._hang)
    signal.setitimer(signal.ITIMER_REAL, qh.HANG_SECONDS)
    tb, hang, exc = "", False, 0
    r = CUR = R(sc)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            opt = Optimizer(settings(sc), qh.FoM(r), handle_exit_obj=HandleExit())
            logging.getLogger("oc_logger").handlers = [logging.NullHandler()]
            opt.execute()
    except (Runaway, Hang) as ex:
        hang, exc = isinstance(ex, Hang), 1
    except Exception:
        import traceback
        tb, exc = traceback.format_exc(), 1
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGINT, oldh)
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)
    CUR = None
    ps = [{k: p[k] for k in ("basis", "N", "n", "q", "S", "O", "tv", "sv")} for p in sc["pulses"]]
    return {"id": sc["id"], "ev": r.ev + [{"e": "end", "exc": exc}], "tb": tb, "hang": hang, "cfg": {"p": ps}}
