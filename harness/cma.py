"""Run the library's CMA-ES search on scripted functions and scripted random numbers, and record every call."""
import io
import contextlib
import logging
import signal

import qh
from qh import CLOCK, REASONS, code, Hang, Runaway
import numpy as np
from quocslib.gradientfreemethods.CMAES import CMAES

UNIT = 10.0
LIMIT = 40000


def units(x, cu=1.0):
    """a point in tenths of the coordinate unit of the scenario (a power of two)"""
    x = np.ravel(np.asarray(x, dtype=float)) / cu
    if not np.all(np.isfinite(x)):
        return [0] * len(x), False
    r = [int(round(float(v) * UNIT)) for v in x]
    return r, all(abs(v) < LIMIT for v in r)


def execute(sc, workdir):
    CLOCK.reset()
    CLOCK.t = 100.0
    unit = qh.FU[0] = float(sc.get("unit", 1))
    d = len(sc["x0"])
    rs = np.random.RandomState(sc["seed"] % 2**32)
    cu = float(sc.get("cunit", 1))
    x0 = np.array(sc["x0"], dtype=float) / UNIT * cu
    sv = np.array(sc["sv"], dtype=float) / UNIT * cu
    ev, zs, oor = [], [], [False]
    vals = sc["vals"]
    draws = [0]

    def scripted(*size):
        """standard normal numbers in quarters; every pop-th vector is zero"""
        n = int(np.prod(size)) if size else 1
        if n != d:
            return real["randn"](*size)
        k = draws[0]
        draws[0] += 1
        if sc.get("z") is not None and k < len(sc["z"]):
            z = np.full(d, float(sc["z"][k]))
        elif sc.get("line") and (k % sc["zper"]) != sc["zoff"]:
            z = np.full(d, float(rs.randint(-12, 13)) / 4)
        elif (k % sc["zper"]) == sc["zoff"]:
            z = np.zeros(d)
        else:
            z = np.round(rs.randn(d) * 4) / 4
        zs.append([int(round(4 * v)) for v in z])
        return z.reshape(size)

    real = {k: getattr(np.random, k) for k in ("randn", "standard_normal", "normal")}
    patched = {"randn": scripted,
               "standard_normal": lambda size=None: scripted(*np.atleast_1d(size if size is not None else 1)),
               "normal": lambda loc=0.0, scale=1.0, size=None:
                   loc + scale * scripted(*np.atleast_1d(size if size is not None else 1))}

    def func(x, it=0, *rest):
        if func.k > 300:
            raise Runaway()
        u, ok = units(x, cu)
        if not ok:
            ev.append({"e": "oor"})
            oor[0] = True
            raise Runaway()
        k = func.k
        func.k += 1
        f = vals[k] if k < len(vals) else -1020 - 60 * (k - len(vals) + 1)
        CLOCK.advance(sc["durs"][k % len(sc["durs"])])
        ev.append({"e": "call", "x": u, "it": int(it), "f": f, "t": int(round(CLOCK.t - 100)), "z": []})
        return float("inf") if f == qh.BIG else float(f) * unit

    func.k = 0
    cb = None
    if sc.get("cbn"):
        def cb():
            return func.k < sc["cbn"]
    elif sc.get("cbtrue"):
        def cb():
            return True
    st = {}
    if sc.get("maxev"):
        st["max_eval"] = sc["maxev"]
    if sc.get("fatol"):
        st["fatol"] = float(sc["fatol"]) * unit
    if sc.get("tlim"):
        st["time_lim"] = sc["tlim"] / 60.0
    settings = {"population": sc["pop"]} if sc.get("pop") else {}
    exc, out, mut, tb, hang = 0, {}, 0, "", False
    given = x0.copy(), sv.copy()
    signal.signal(signal.SIGALRM, qh._hang)
    signal.setitimer(signal.ITIMER_REAL, qh.HANG_SECONDS)
    try:
        for k, v in patched.items():
            setattr(np.random, k, v)
        with contextlib.redirect_stdout(io.StringIO()), np.errstate(all="ignore"):
            logging.getLogger("oc_logger").handlers = [logging.NullHandler()]
            s = CMAES(settings, st, callback=cb) if cb is not None else CMAES(settings, st)
            out = s.run_dsm(func, given[0], sigma_v=given[1])
            mut = 0 if np.array_equal(x0, given[0]) and np.array_equal(sv, given[1]) else 1
    except Runaway:
        exc = 1
    except Hang:
        exc, hang = 1, True
    except Exception:
        import traceback
        tb = traceback.format_exc()
        exc = 1
        if ev and not np.all(np.isfinite(sv)):
            oor[0] = True
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        for k, v in real.items():
            setattr(np.random, k, v)
    if not oor[0]:
        e = {"e": "end", "exc": exc, "x": [0] * d, "f": 0, "nit": 0, "n": 0, "r": 0, "mut": 0, "t": 0}
        if exc == 0:
            e.update(x=units(out["X_opti_vec"], cu)[0], f=qh.proj(out["F_min_val"]), nit=int(out["NitUsed"]),
                     n=int(out["NfunevalsUsed"]), r=code(out["terminate_reason"], REASONS), mut=mut,
                     t=int(round(CLOCK.t - 100)))
        ev.append(e)
    # the k-th point belongs to the k-th drawn vector (drawn just before it or with the whole generation)
    calls = [e for e in ev if e["e"] == "call"]
    if len(zs) in (len(calls), len(calls) + (1 if oor[0] else 0)):
        for e, z in zip(calls, zs):
            e["z"] = z
    return {"id": sc["id"], "ev": ev, "tb": tb, "hang": hang,
            "cfg": {"dim": d, "pop": sc.get("pop") or 0, "x0": sc["x0"], "sv": sc["sv"], "maxev": sc.get("maxev") or 10**9,
                    "fatol": sc.get("fatol") or 0, "tlim": sc.get("tlim") or 0, "cbn": sc.get("cbn") or 0}}
