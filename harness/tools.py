"""Run the library's state and signal tools on inputs whose exact result the specification knows."""
import signal

import qh
from qh import Hang
import numpy as np
import jax
jax.config.update("jax_enable_x64", True)
import jax.numpy as jnp
from quocslib.tools import fidelities, operations, linearalgebra, pulsetools, partial_trace
from quocslib.tools.randomgenerator import RandomNumberGenerator
from quocslib.noiseprocesses.ornsteinuhlenbeckprocess import OrnsteinUhlenbeck


def cm(m):
    return np.array([[complex(*z) for z in row] for row in m], dtype=complex)


def out(u, unit):
    """matrix in multiples of the unit, [] if it is none"""
    u = np.asarray(u)
    if u.ndim != 2 or not np.all(np.isfinite(u)) or u.size and np.max(np.abs(u)) * unit > 1e9:
        return []
    return [[[int(round(float(z.real) * unit)), int(round(float(z.imag) * unit))] for z in row] for row in u]


def num(x, unit):
    x = np.asarray(x)
    if x.shape != () or not np.isfinite(x) or abs(x) * unit > 2e9:
        return 2**31 - 1
    return int(round(float(np.real(x)) * unit))


def nums(x, unit):
    return [num(v, unit) for v in np.asarray(x)]


def rotator(q):
    u = np.eye(len(q["perm"]), dtype=complex)[q["perm"]] * np.array([1j**k for k in q["ph"]])[:, None]
    if q["had"] and len(q["perm"]) == 2:
        u = np.array([[1, 1], [1, -1]]) / np.sqrt(2) @ u
    return u


def one(c, ev):
    k = c["kind"]
    if k == "ptrace":
        m = cm(c["m"])
        dims = (tuple if c["tuple"] else list)(c["dims"])
        f = partial_trace.jax_partial_trace_transform(dims, c["out"])
        for _ in range(2):
            ev.append({"e": "ptrace", "dims": c["dims"], "out": c["out"], "m": c["m"], "got": out(f(jnp.asarray(m)), 1)})
    elif k == "badtrace":
        try:
            partial_trace.jax_partial_trace_transform(c["dims"], c["out"])
            bad = 0
        except ValueError:
            bad = 1
        ev.append({"e": "badtrace", "refused": bad})
    elif k == "dm":
        ev.append({"e": "dm", "v": c["v"], "got": out(operations.state_to_dm(jnp.asarray([complex(*z) for z in c["v"]])), 1)})
    elif k == "comm":
        a, b = cm(c["a"]), cm(c["b"])
        ev.append({"e": "comm", "a": c["a"], "b": c["b"], "got": out(linearalgebra.commutator(a, b), 1)})
        ev.append({"e": "kept", "ok": int(np.array_equal(a, cm(c["a"])) and np.array_equal(b, cm(c["b"])))})
    elif k == "sqrt":
        g = cm(c["g"])
        s = g.conj().T @ g
        ev.append({"e": "sqrt", "g": c["g"], "got": out(operations._sqrtm(jnp.asarray(s @ s)), 1000)})
    elif k == "fid":
        u = rotator(c["rot"])
        rho, sig = [u @ np.diag(np.array(c[x], dtype=float)**2) @ u.conj().T for x in ("p", "q")]
        root = u @ np.diag(np.array(c["p"], dtype=float)) @ u.conj().T
        ev.append({"e": "fid", "p": c["p"], "q": c["q"], "root": 0,
                   "got": num(fidelities.fidelity_AD(jnp.asarray(root), jnp.asarray(sig)), 1000)})
        if min(c["p"] + c["q"]) > 0:
            ev.append({"e": "fid", "p": c["p"], "q": c["q"], "root": 1,
                       "got": num(fidelities.fidelity_not_diff_due_to_sqrtm(jnp.asarray(rho), jnp.asarray(sig)), 1000)})
    elif k == "pure":
        v = np.array([complex(*z) for z in c["v"]])
        w = np.array([complex(*z) for z in c["w"]])
        rho = operations.state_to_dm(jnp.asarray(v))
        f = fidelities.fidelity_AD(operations._sqrtm(rho), operations.state_to_dm(jnp.asarray(w)))
        ev.append({"e": "pure", "v": c["v"], "w": c["w"], "got": num(f, 1000)})
    elif k == "disp":
        a = np.kron(np.eye(c["left"]), np.array([[0, 1], [0, 0]], dtype=complex))
        alpha = c["k"] * (np.pi / 4 if c["dir"] % 2 == 0 else np.pi / 2) * np.exp(1j * np.pi / 4 * c["dir"])
        ev.append({"e": "disp", "left": c["left"], "k": c["k"], "dir": c["dir"],
                   "got": out(operations._displace(jnp.asarray(a), alpha), 10**6)})
    elif k == "gs":
        o, r = np.array(c["o"], dtype=float), np.array(c["r"], dtype=float)
        got = linearalgebra.gram_schmidt(o @ r)
        ev.append({"e": "gs", "o": c["o"], "got": out(got, 10**6)})
    elif k == "liou":
        h, rho = cm(c["h"]), cm(c["rho"])
        got = linearalgebra.to_sup_op(h) @ rho.flatten(order="F")
        ev.append({"e": "comm", "a": c["h"], "b": c["rho"], "got": out(got.reshape(h.shape, order="F"), 1)})
    elif k == "simplex":
        n = len(c["mean"])
        rng = RandomNumberGenerator(c["seed"]) if c["own"] else None
        mean, sig = np.array(c["mean"], dtype=float), np.array(c["sig"], dtype=float)
        np.random.seed(c["seed"])
        s = linearalgebra.simplex_creation(mean, sig, rng=rng)
        ev.append({"e": "simplex", "mean": c["mean"], "first": nums(s[0], 1000), "n": len(s),
                   "edges": [nums((v - s[0]) / sig, 10**4) for v in s[1:]]})
        ev.append({"e": "kept", "ok": int(np.array_equal(mean, c["mean"]) and np.array_equal(sig, c["sig"]))})
    elif k == "resample":
        p = np.array(c["vals"], dtype=float if c["float"] else int)
        t = [x * c["dt"] / c["per"] for x in c["times"]]
        got = pulsetools.resample_pulse(c["dt"], p, np.array(t) if c["arr"] else t)
        ev.append({"e": "resample", "vals": c["vals"], "per": c["per"], "times": c["times"],
                   "got": [nums(row, 1) for row in got]})
        ev.append({"e": "kept", "ok": int(np.array_equal(p, np.array(c["vals"])))})
    elif k == "ou":
        tau, dt = c["tau"], c["h"] * np.log(2) * c["tau"]
        ct = c["ct"] / tau
        T = dt * (c["ns"] + c["frac"] / 10)
        mk = lambda x0, s: OrnsteinUhlenbeck(tau=tau, c=s, x0=x0, dt=dt)
        ev.append({"e": "decay", "x0": c["x0"], "h": c["h"], "ns": c["ns"], "got": nums(mk(c["x0"], 0.0).get_noise_realization(T), 10**6)})
        np.random.seed(c["seed"])
        base = mk(0.0, ct).get_noise_realization(T)
        np.random.seed(c["seed"])
        ev.append({"e": "shift", "x0": c["x0"], "h": c["h"], "ns": c["ns"],
                   "got": nums(mk(c["x0"], ct).get_noise_realization(T) - base, 10**6)})
        np.random.seed(c["seed"])
        twice = mk(0.0, 4 * ct).get_noise_realization(T)
        ev.append({"e": "double", "a": nums(base, 10**4), "b": nums(twice, 10**4)})
        ens = mk(c["x0"], ct).get_ensemble_noise_realization(T, c["traj"])
        ev.append({"e": "ens", "x0": c["x0"], "ns": c["ns"], "traj": c["traj"], "shape": list(ens.shape),
                   "first": nums(ens[:, 0], 10**6), "equal": sum(1 for i in range(len(ens)) for j in range(i) if np.array_equal(ens[i][1:], ens[j][1:]))})
    elif k == "oustat":
        tau, dt = c["tau"], c["h"] * np.log(2) * c["tau"]
        np.random.seed(c["seed"])
        ou = OrnsteinUhlenbeck(tau=tau, c=c["ct"] / tau, x0=0.0, dt=dt)
        x = ou.get_ensemble_noise_realization(dt * (c["ns"] + 0.5), c["traj"])
        z = x[:, 1:] - 2.0**-c["h"] * x[:, :-1]
        q = float(np.var(z)) if np.var(z) > 0 else 1.0
        stat = {"mean": num(np.mean(z) / np.sqrt(q), 1000), "var": num(np.mean(z**2), 1000),
                "lag": num(np.mean(z[:, 1:] * z[:, :-1]) / q, 1000),
                "cross": num(np.mean(z[1:] * z[:-1]) / q, 1000),
                "kurt": num(np.mean(z**4) / q**2, 1000)}
        ev.append(dict(stat, e="oustat", h=c["h"], ct=c["ct"], n=int(z.size)))


def execute(sc, workdir):
    ev = []
    exc, tb, hang = 0, "", False
    signal.signal(signal.SIGALRM, qh._hang)
    signal.setitimer(signal.ITIMER_REAL, qh.HANG_SECONDS)
    try:
        for c in sc["cases"]:
            one(c, ev)
    except Hang:
        exc, hang = 1, True
    except Exception:
        import traceback
        tb, exc = traceback.format_exc(), 1
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    ev.append({"e": "end", "exc": exc})
    return {"id": sc["id"], "ev": ev, "tb": tb, "hang": hang, "cfg": {"x": 0}}
