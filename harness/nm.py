"""Run the library's direct searches on scripted functions and record every call."""
import io
import contextlib
import logging
import signal

import qh
from qh import CLOCK, REASONS, code, Hang, Runaway
import numpy as np
from quocslib.gradientfreemethods.NelderMead import NelderMead

UNIT = 1000.0
LIMIT = 4_000_000


def units(x, cu=1.0):
    """a point in thousandths of the coordinate unit of the scenario (a power of two)"""
    r = [int(round(float(v) / cu * UNIT)) for v in np.ravel(x)]
    return r, all(abs(v) < LIMIT for v in r)


def execute(sc, workdir):
    CLOCK.reset()
    CLOCK.t = 100.0
    unit = qh.FU[0] = float(sc.get("unit", 1))
    np.random.seed(sc["seed"] % 2**32)
    d = len(sc["start"][0])
    cu = float(sc.get("cunit", 1))
    start = np.array(sc["start"], dtype=float) / UNIT * cu
    ev, n, oor = [], [0], [False]
    vals = sc["vals"]
    sc_dict = {}
    if sc.get("maxev"):
        sc_dict["max_eval"] = sc["maxev"]
    if sc.get("xatol"):
        sc_dict["xatol"] = sc["xatol"] / UNIT * cu
    if sc.get("fatol"):
        sc_dict["fatol"] = float(sc["fatol"]) * unit
    if sc.get("tlim"):
        sc_dict["time_lim"] = sc["tlim"] / 60.0
    settings = {"is_adaptive": True} if sc.get("adaptive") else {}

    def func(x, it=0, *rest):
        if n[0] > 300:
            raise Runaway()
        u, ok = units(x, cu)
        if not ok or oor[0]:
            if not oor[0]:
                ev.append({"e": "oor"})
            oor[0] = True
            raise Runaway()
        n[0] += 1
        if rest and rest[0] is not None:
            ev.append({"e": "call", "x": u, "it": int(it), "f": 0, "t": int(round(CLOCK.t - 100)), "note": 1,
                       "nv": qh.proj(rest[0])})
            return float(rest[0])
        k = func.k
        func.k += 1
        f = vals[k] if k < len(vals) else 1020 + 60 * (k - len(vals) + 1)
        CLOCK.advance(sc["durs"][k % len(sc["durs"])])
        ev.append({"e": "call", "x": u, "it": int(it), "f": f, "t": int(round(CLOCK.t - 100)), "note": 0, "nv": 0})
        return float("inf") if f == qh.BIG else float(f) * unit

    func.k = 0
    cb = None
    if sc.get("cbn"):
        def cb():
            return n[0] < sc["cbn"]
    elif sc.get("cbtrue"):
        def cb():
            return True
    exc, out, mut = 0, {}, 0
    x0 = start[0].copy()
    simplex = start.copy()
    signal.signal(signal.SIGALRM, qh._hang)
    signal.setitimer(signal.ITIMER_REAL, qh.HANG_SECONDS)
    tb = ""
    hang = False
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            logging.getLogger("oc_logger").handlers = [logging.NullHandler()]
            s = NelderMead(settings, sc_dict, callback=cb) if cb is not None else NelderMead(settings, sc_dict)
            kw = {}
            if not sc.get("default_start"):
                kw["initial_simplex"] = simplex
            if sc.get("dsec"):
                kw["drift_comp_minutes"] = sc["dsec"] / 60.0
                kw["drift_comp_num_average"] = sc["navg"]
            out = s.run_dsm(func, x0, **kw)
            mut = 0 if np.array_equal(x0, start[0]) and np.array_equal(simplex, start) else 1
    except Runaway:
        exc = 1
    except Hang:
        exc, hang = 1, True
    except Exception:
        import traceback
        tb = traceback.format_exc()
        exc = 1
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    if not oor[0]:
        if exc == 0:
            x, ok = units(out["X_opti_vec"], cu)
            ev.append({"e": "end", "exc": 0, "x": x, "f": qh.proj(out["F_min_val"]), "nit": int(out["NitUsed"]),
                       "n": int(out["NfunevalsUsed"]), "r": code(out["terminate_reason"], REASONS), "mut": mut,
                       "t": int(round(CLOCK.t - 100))})
        else:
            ev.append({"e": "end", "exc": 1, "x": [0] * d, "f": 0, "nit": 0, "n": 0, "r": 0, "mut": 0, "t": 0})
    return {"id": sc["id"], "ev": ev, "tb": tb, "hang": hang,
            "cfg": {"dim": d, "adaptive": 1 if sc.get("adaptive") else 0, "start": sc["start"],
                    "maxev": sc.get("maxev") or 10**9, "xatol": sc.get("xatol") or 0, "fatol": sc.get("fatol") or 0,
                    "tlim": sc.get("tlim") or 0, "cbn": sc.get("cbn") or 0, "dsec": sc.get("dsec") or 0,
                    "navg": sc.get("navg") or 1}}
