"""Run the real dCRAB with random bases; a search evaluates single coefficients, and the super-parameters are read off the
shapes of the pulses."""
import contextlib
import glob
import io
import json
import logging
import os
import shutil
import signal
import tempfile

import qh
import numpy as np
from math import erf
from qh import CLOCK, Hang, Runaway
from quocslib.Optimizer import Optimizer
from quocslib.gradientfreemethods.DirectSearchMethod import DirectSearchMethod
from quocslib.handleexit.HandleExit import HandleExit
from quocslib.stoppingcriteria.NelderMeadStoppingCriteria import NelderMeadStoppingCriteria

CUR = None
verf = np.vectorize(erf)


def sinc(y):
    y = np.where(np.abs(y) < 1e-12, 1e-12, y)
    return np.sin(y) / y


def shape(p, w, t):
    """The documented shape of one basis vector with coefficient one."""
    T, b = p["T"], p["basis"]
    if b == "Fourier":
        return np.sin(2 * np.pi * w * t / T)
    if b == "Chebyshev":
        return np.cos(w * np.arccos(-1 + 1e-10 + 2 * (1 - 1e-10) * t / T))
    if b == "Sinc":
        return sinc(2 * np.pi * p["bmax"] * (t - w) / T)
    s = np.sqrt(2) * p["sigma"]
    return 0.5 * (verf((t - w) / s) + 1) - 0.5 * (verf((t - (T - p["offset"])) / s) + 1)


def decode(p, q, t):
    """The super-parameter of the pulse q, None if there is none in or near the range."""
    t = np.asarray(t, dtype=float)
    d = (p["up"] - p["lo"]) * 0.25
    best = None
    for w in np.linspace(p["lo"] - d, p["up"] + d, 240):
        r = np.sum((shape(p, w, t) - q)**2)
        if best is None or r < best[0]:
            best = (r, w)
    r, w = best
    for _ in range(12):
        h = 1e-6 * max(1.0, abs(w))
        g = (shape(p, w + h, t) - shape(p, w - h, t)) / (2 * h)
        gg = np.dot(g, g)
        if gg < 1e-18:
            break
        step = np.dot(g, q - shape(p, w, t)) / gg
        w += step
        if abs(step) < 1e-12:
            break
    if p["basis"] == "Chebyshev":
        w = abs(w)                 # an even function of w
    if not np.max(np.abs(shape(p, w, t) - q)) < 1e-6:
        return None
    return w


def place(p, w):
    kb = (p["up"] - p["lo"]) / p["n"]
    u = (w - p["lo"]) / kb
    s = int(np.floor(u))
    return {"s": max(-1000, min(1000, s)), "f": min(10**9 - 1, int((u - s) * 1e9))}


class Prober(DirectSearchMethod):
    callback = None

    def __init__(self, settings, stopping_criteria, callback=None, **kw):
        super().__init__()
        self.sc_obj = NelderMeadStoppingCriteria(stopping_criteria)

    def run_dsm(self, func, x0, initial_simplex=None, sigma_v=None, **kw):
        r = CUR
        r.si += 1
        r.ev.append({"e": "si", "k": r.si})
        r.bests.append((None, None))
        n = len(x0)
        off, o = [], 0
        for p in r.ps:
            off.append(o + p["before"])
            o += p["nc"] + p["before"]

        def ev(x):
            f = func(x, 0)
            if r.f is not None and (r.record is None or r.f < r.record):
                r.record = r.f
                r.bests[-1] = (r.f, x.copy())
            r.f = None
            return [r.got[0][i] for i in r.index], [r.got[1][i] for i in r.index]

        zero = ev(np.zeros(n))
        todo = max(p["n"] for p in r.ps)
        shapes = [dict() for _ in r.ps]
        order = list(range(todo)) + [r.rs.randint(todo) for _ in range(2)]
        r.rs.shuffle(order)
        for v in order:
            x = np.zeros(n)
            for p, o in zip(r.ps, off):
                if v < p["n"]:
                    x[o + p["coef"](v)] = 1.0
            got = ev(x)
            for i, p in enumerate(r.ps):
                if v < p["n"]:
                    q = got[0][i] - zero[0][i]
                    w = decode(p, q, got[1][i])
                    shapes[i][v] = q
                    r.ev.append({"e": "dec", "p": i + 1, "v": v + 1, "ok": int(w is not None),
                                 "d": place(p, w) if w is not None else {"s": 0, "f": 0}})
        x = np.zeros(n)
        for p, o in zip(r.ps, off):
            for v in range(p["n"]):
                x[o + p["coef"](v)] = r.rs.randint(-4, 5)
        got = ev(x)
        for i, (p, o) in enumerate(zip(r.ps, off)):
            q = sum(x[o + p["coef"](v)] * shapes[i][v] for v in range(p["n"]))
            r.ev.append({"e": "lin", "p": i + 1, "ok": int(np.max(np.abs(got[0][i] - zero[0][i] - q)) < 1e-6)})
        return {"F_min_val": 0.0, "X_opti_vec": x, "NitUsed": 1, "NfunevalsUsed": 1, "terminate_reason": "done"}


class R:
    def __init__(self, sc, run):
        self.sc, self.ev, self.si, self.n, self.got, self.f, self.record = sc, [], 0, 0, None, None, None
        self.rs = np.random.RandomState((sc["seed"] + run) % 2**32)
        self.ps, self.bests = [], []
        for p in sc["pulses"]:
            p = dict(p)
            b = p["basis"]
            p["before"] = p.get("pw", 0)
            p["nc"] = {"Fourier": 2 * p["n"], "Chebyshev": 2 * p["n"], "Sinc": p["n"], "Sigmoid": p["n"] + 1}[b]
            p["coef"] = {"Fourier": lambda v: 2 * v, "Chebyshev": lambda v: 2 * v, "Sinc": lambda v: v,
                         "Sigmoid": lambda v: v + 1}[b]
            self.ps.append(p)
        self.vals = self.rs.permutation(400)
        # the places of the pulses with random bases among all pulses
        self.index, k = [], 0
        for p in self.ps:
            k += int(p["before"] > 0)
            self.index.append(k)
            k += 1

    def evaluate(self, pulses, parameters, timegrids):
        if self.n > 390:
            raise Runaway()
        self.n += 1
        self.got = ([np.array(p) for p in pulses], [np.array(t) for t in timegrids])
        self.f = float(self.vals[self.n])
        return {"FoM": self.f}


def execute(sc, workdir):
    global CUR
    CLOCK.reset()
    CLOCK.t = 50.0
    np.random.seed(sc["seed"] % 2**32)
    d = tempfile.mkdtemp(prefix="s", dir=workdir)
    old = os.getcwd()
    os.chdir(d)
    oldh = signal.getsignal(signal.SIGINT)
    signal.signal(signal.SIGALRM, qh._hang)
    signal.setitimer(signal.ITIMER_REAL, qh.HANG_SECONDS)
    evs, tb, hang = [], "", False
    try:
        for k, seed in enumerate(sc["runs"]):
            CLOCK.t += 100.0
            r = CUR = R(sc, k)
            pulses = []
            for i, p in enumerate(sc["pulses"]):
                b = {"basis_name": p["basis"], "basis_vector_number": p["n"],
                     "random_super_parameter_distribution": {"distribution_name": "Uniform", "lower_limit": p["lo"],
                                                             "upper_limit": p["up"]}}
                if p["basis"] == "Sigmoid":
                    b.update(sigma=p["sigma"], offset=p["offset"])
                if p["basis"] == "Sinc":
                    b.update(basis_max=p["bmax"])
                if p.get("pw"):
                    pulses.append({"pulse_name": "W%d" % i, "bins_number": p["pw"], "time_name": "T%d" % i, "lower_limit": -1e9,
                                   "upper_limit": 1e9, "amplitude_variation": 1.0, "basis": {"basis_name": "PiecewiseBasis",
                                                                                             "bins_number": p["pw"]}})
                more = {"overwrite_base_pulse": True} if p.get("ow") else {}
                if p.get("guess"):
                    more["initial_guess"] = {"function_type": "lambda_function", "lambda_function": "lambda t: 0.3 + 0.5 * t"}
                if p.get("shaping"):
                    more["shaping_options"] = p["shaping"]
                pulses.append({**more, "pulse_name": "P%d" % i, "bins_number": 101, "time_name": "T%d" % i, "lower_limit": -1e9,
                               "upper_limit": 1e9, "amplitude_variation": 1.0, "basis": b})
            al = {"algorithm_name": "dCRAB", "super_iteration_number": sc["nsi"],
                  "dsm_settings": {"general_settings": {"dsm_algorithm_module": "sup", "dsm_algorithm_class": "Prober"},
                                   "stopping_criteria": {"max_eval": 10**6}}}
            if seed:
                al["random_number_generator"] = {"seed_number": seed - 1}
            od = {"optimization_client_name": "s", "console_info": False, "create_logfile": False, "algorithm_settings": al,
                  "pulses": pulses, "parameters": [{"parameter_name": "a%d" % k, "initial_value": 0.0, "lower_limit": -1e9,
                                                    "upper_limit": 1e9, "amplitude_variation": 1.0}
                                                   for k in range(sc.get("npar", 0))],
                  "times": [{"time_name": "T%d" % i, "initial_value": float(p["T"])} for i, p in enumerate(sc["pulses"])]}
            res, exc = {}, 0
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    opt = Optimizer(od, qh.FoM(r), handle_exit_obj=HandleExit())
                    logging.getLogger("oc_logger").handlers = [logging.NullHandler()]
                    opt.execute()
                    with open(glob.glob(os.path.join(opt.results_path, "*optimized_parameters.json"))[0]) as f:
                        res = json.load(f)
            except (Runaway, Hang):
                raise
            except Exception:
                import traceback
                tb, exc = traceback.format_exc(), 1
            freq, par = res.get("dcrab_freq_list", []), res.get("dcrab_para_list", [])
            for e in r.ev:
                if e["e"] == "si":
                    draws = freq[e["k"] - 1] if e["k"] <= len(freq) else []
                    e["d"] = [[place(p, w) for w in dr] for p, dr in zip(r.ps, draws)]
            ok = []
            for x, (f, b) in zip(par, r.bests):
                ok.append(int(b is None and not np.any(x) or b is not None and len(x) == len(b) and np.allclose(x, b)))
            evs += [{"e": "run", "seed": seed}] + r.ev + [{"e": "end", "exc": exc, "rep": len(freq), "par": ok}]
    except (Runaway, Hang) as ex:
        hang = isinstance(ex, Hang)
        evs += [{"e": "end", "exc": 1, "rep": 0, "par": []}]
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGINT, oldh)
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)
    CUR = None
    return {"id": sc["id"], "ev": evs, "tb": tb, "hang": hang, "cfg": {"pulses": [{"n": p["n"]} for p in sc["pulses"]]}}
