"""Run the real GRAPE and AD algorithms with a scripted gradient search in the place of SciPy's."""
import contextlib
import io
import logging
import os
import shutil
import signal
import tempfile

import scipy.optimize

CUR = None
REAL = scipy.optimize.minimize


def minimize(fun, x0, args=(), method=None, jac=None, **kw):
    if CUR is None:
        return REAL(fun, x0, args=args, method=method, jac=jac, **kw)
    return CUR.search(fun, x0, jac, kw)


scipy.optimize.minimize = minimize

import qh  # noqa: E402
import numpy as np  # noqa: E402
from qh import CLOCK, Hang, Runaway  # noqa: E402
from quocslib.Optimizer import Optimizer  # noqa: E402
from quocslib.handleexit.HandleExit import HandleExit  # noqa: E402
from quocslib.utils.AbstractFoM import AbstractFoM  # noqa: E402


def near(v):
    v = np.asarray(v)
    v = np.real(v).astype(float)
    r = np.round(v)
    return [int(a) if abs(a - b) < 1e-3 * max(1.0, abs(a) * 1e-3) and abs(a) < 1e8 else qh.ODD for a, b in zip(r.ravel(), v.ravel())]


class R:
    def __init__(self, sc):
        self.sc, self.ev, self.si, self.k = sc, [], -1, 0

    def search(self, fun, x0, jac, kw):
        self.si += 1
        o = dict(kw.get("options") or {})
        if kw.get("tol") is not None:
            o = {"ftol": kw["tol"], "gtol": kw["tol"], **o}
        self.ev.append({"e": "si", "opt": [repr(float(o[k])) if o.get(k) is not None else "unset"
                                           for k in ("ftol", "gtol", "maxls", "maxfun")]})
        sc = self.sc
        for x, what in sc["asks"][self.si % len(sc["asks"])]:
            x = np.array(x, dtype=float)
            self.ev.append({"e": "ask", "x": near(x)})
            f = g = None
            if jac is True:
                f, g = fun(x)
            else:
                if what != "g":
                    f = fun(x)
                if what != "f" and callable(jac):
                    g = jac(x)
            e = {"e": "ret", "hf": int(f is not None), "f": 0, "hg": int(g is not None), "g": []}
            if f is not None:
                e["f"] = qh.proj(np.real(f))
            if g is not None:
                g = np.ravel(np.asarray(g))
                g = g / sc["dt"] if sc["alg"] == 0 else g
                e["g"] = [int(round(float(np.real(v)) * 1e4)) if np.isfinite(v) and abs(v) < 1e5 else qh.ODD for v in g]
                if sc["alg"] == 1:   # single precision controls, integer gradients
                    e["g"] = [h * 5000 if abs(h) < 10**8 else qh.ODD for h in near(2 * np.real(g))]   # halves: exactly at a limit
            self.ev.append(e)
        return scipy.optimize.OptimizeResult(x=x, fun=f, jac=g, success=True, message="done", nfev=self.k, nit=1, status=0)


def mat(m):
    m = np.array(m, dtype=float)
    return m[:, :, 0] + 1j * m[:, :, 1]


class Grape(AbstractFoM):
    def __init__(self, r):
        self.r = r

    def cast(self, m):
        m = mat(m)
        if self.r.sc["real"] and not np.any(m.imag):
            return m.real.astype(int) if self.r.sc["real"] == 2 else m.real
        return m

    def get_control_Hamiltonians(self):
        return self.cast(self.r.sc["B"])

    def get_drift_Hamiltonian(self):
        return np.zeros_like(self.cast(self.r.sc["B"]))

    def get_target_state(self):
        return self.cast(self.r.sc["target"])

    def get_initial_state(self):
        return self.cast(self.r.sc["rho"])

    def get_propagator(self, pulses_list=[], time_grids_list=[], parameters_list=[]):
        r = self.r
        us = r.sc["us"][r.k % len(r.sc["us"])]
        r.k += 1
        r.ev.append({"e": "prop", "p": [near(p) for p in pulses_list], "us": us})
        return [mat(u["m"]) / np.sqrt(2.0)**u["d"] for u in us]

    def get_FoM(self, pulses=[], parameters=[], timegrids=[]):
        r = self.r
        f = r.sc["vals"][r.k % len(r.sc["vals"])]
        r.ev.append({"e": "eval", "p": [near(p) for p in pulses], "r": near(parameters), "f": f})
        return {"FoM": float(f)}


class Ad(AbstractFoM):
    def __init__(self, r):
        self.r = r

    def get_FoM(self, pulses=None, parameters=None, timegrids=None):
        import jax
        import jax.numpy as jnp
        r, sc = self.r, self.r.sc
        P, Q = jnp.real(pulses), jnp.real(parameters)
        v = 0.0
        for i, p in enumerate(sc["pulses"]):
            for b in range(p["bins"]):
                c, q = sc["coef"][i][b]
                v = v + c * P[i, b] + q * P[i, b]**2
        for j in range(len(sc["par"])):
            c, q = sc["pcoef"][j]
            v = v + c * Q[j] + q * Q[j]**2
        if sc["par"]:
            v = v + sc["cross"] * P[0, 0] * Q[len(sc["par"]) - 1]
        if isinstance(pulses, jax.core.Tracer) or isinstance(parameters, jax.core.Tracer):
            return {"FoM": v}
        r.ev.append({"e": "eval", "p": [near(np.asarray(P)[i, :p["bins"]]) for i, p in enumerate(sc["pulses"])],
                     "r": near(np.asarray(Q)), "f": qh.proj(v)})
        return {"FoM": v}


def execute(sc, workdir):
    global CUR
    CLOCK.reset()
    CLOCK.t = 50.0
    qh.FU[0] = 1.0
    np.random.seed(sc["seed"] % 2**32)
    d = tempfile.mkdtemp(prefix="g", dir=workdir)
    old = os.getcwd()
    os.chdir(d)
    oldh = signal.getsignal(signal.SIGINT)
    r = R(sc)
    pulses = []
    for i, p in enumerate(sc["pulses"]):
        pulses.append({"pulse_name": "P%d" % i, "bins_number": p["bins"], "time_name": "T", "lower_limit": float(p["lo"]),
                       "upper_limit": float(p["hi"]), "amplitude_variation": 3.0,
                       "initial_guess": {"function_type": "list_function", "list_function": [float(v) for v in p["guess"]]},
                       "scaling_function": {"function_type": "lambda_function", "lambda_function": "lambda t: %d.0 + 0.0*t" % p["sc"]},
                       "basis": {"basis_name": "PiecewiseBasis", "bins_number": p["bins"]}})
    pars = [{"parameter_name": "Q%d" % j, "initial_value": float(v), "lower_limit": float(sc["plim"][j][0]),
             "upper_limit": float(sc["plim"][j][1]), "amplitude_variation": 1.0} for j, v in enumerate(sc["par"])]
    al = {"algorithm_name": ["GRAPE", "AD"][sc["alg"]], "optimization_direction": "maximization" if sc["fac"] < 0 else "minimization",
          "super_iteration_number": sc["nsi"], "stopping_criteria": dict({"max_eval_total": 10**6}, **sc["stop"])}
    bins = sc["pulses"][0]["bins"]
    T = sc["dt"] * bins
    od = {"optimization_client_name": "g", "console_info": False, "create_logfile": False, "algorithm_settings": al, "pulses": pulses,
          "parameters": pars, "times": [{"time_name": "T", "initial_value": T}]}
    exc, tb, hang = 0, "", False
    signal.signal(signal.SIGALRM, qh._hang)
    signal.setitimer(signal.ITIMER_REAL, qh.HANG_SECONDS)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            opt = Optimizer(od, [Grape, Ad][sc["alg"]](r), handle_exit_obj=HandleExit())
            logging.getLogger("oc_logger").handlers = [logging.NullHandler()]
            CUR = r
            opt.execute()
    except Runaway:
        exc = 1
    except Hang:
        exc, hang = 1, True
    except Exception:
        import traceback
        tb, exc = traceback.format_exc(), 1
    finally:
        CUR = None
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGINT, oldh)
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)
    r.ev.append({"e": "end", "exc": exc})
    cfg = {k: sc[k] for k in ("alg", "fac", "par", "plim", "pulses")}
    st = dict({"ftol": 1e-6, "gtol": 1e-6, "maxls": 20, "max_eval_total": 10**6}, **sc["stop"])
    cfg["opt"] = [repr(float(st[k])) for k in ("ftol", "gtol", "maxls", "max_eval_total")]
    cfg.update({k: sc[k] for k in (["rho", "target", "B"] if sc["alg"] == 0 else ["coef", "pcoef", "cross"])})
    return {"id": sc["id"], "ev": r.ev, "tb": tb, "hang": hang, "cfg": cfg}
