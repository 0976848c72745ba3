"""Run the library's piecewise propagators on Hamiltonians whose evolution is an exact product of Pauli rotations."""
import signal

import qh
from qh import Hang
import numpy as np
from quocslib.timeevolution.piecewise_integrator import pw_evolution, pw_final_evolution

SIG = [np.eye(2, dtype=complex), np.array([[0, 1], [1, 0]], dtype=complex), np.array([[0, -1j], [1j, 0]]),
       np.array([[1, 0], [0, -1]], dtype=complex)]


def string(q):
    m = np.eye(1, dtype=complex)
    for p in q:
        m = np.kron(m, SIG[p])
    return m


def micro(u):
    u = np.asarray(u)
    if u.ndim != 2 or not np.all(np.isfinite(u)) or np.max(np.abs(u)) > 1e3:
        return []
    return [[[int(round(float(z.real) * 1e6)), int(round(float(z.imag) * 1e6))] for z in row] for row in u]


def rotation(ops, d):
    u = np.eye(d, dtype=complex)
    for q, k in ops:
        P = string(q)
        u = u @ (np.cos(k * np.pi / 4) * np.eye(d) - 1j * np.sin(k * np.pi / 4) * P)
    return u


def execute(sc, workdir):
    n, d = sc["n"], 2**sc["n"]
    dt = sc["dt"]
    cs, ws = sc["ctrl"], sc["w"]
    ev = []
    A = np.zeros((d, d), dtype=complex)
    if sc["drift"]:
        unit = np.pi / (2 * np.sqrt(2)) if sc["tilted"] else np.pi / 4
        A = A + sc["drift"][1] * unit / dt * string(sc["drift"][0])
    B = [w * string(c) for c, w in zip(cs, ws)]
    ns = len(sc["slices"])
    drive = np.zeros((len(cs), ns + sc["extra"]))
    drive[:, ns:] = 0.7
    ev.append({"e": "first", "ops": sc["first"]})
    for i, sl in enumerate(sc["slices"]):
        for j, k in sl["set"]:
            unit = np.pi / (2 * np.sqrt(2)) if sl["tilt"] else np.pi / 4
            drive[j, i] += k * unit / dt / ws[j]
        ev.append({"e": "slice", "ops": sl["ops"], "tilt": sl["tilt"], "s": sl["s"]})
    U0 = rotation(sc["first"], d)
    exc, tb, hang = 0, "", False
    signal.signal(signal.SIGALRM, qh._hang)
    signal.setitimer(signal.ITIMER_REAL, qh.HANG_SECONDS)
    try:
        if sc["ad"]:
            import jax
            jax.config.update("jax_enable_x64", True)
            import jax.numpy as jnp
            from quocslib.timeevolution import piecewise_integrator_AD as pa
            a, b, dr, u0 = jnp.asarray(A), [jnp.asarray(x) for x in B], jnp.asarray(drive), jnp.asarray(U0)
            for _ in range(2 if sc["store"] == 1 else 1):
                if sc["store"]:
                    got = pa.pw_evolution_AD(jnp.zeros((ns + sc["room"], d, d), dtype=complex), dr, a, b, ns, dt)
                    ev.append({"e": "store", "fn": 1, "tol": 5, "list": [micro(u) for u in got]})
                got = pa.pw_final_evolution_AD(dr, a, b, ns, dt, u0)
                ev.append({"e": "final", "fn": 1, "tol": 5, "nf": 1, "u": micro(got)})
        else:
            if sc["matrix"]:
                A, B, U0 = np.matrix(A), [np.matrix(x) for x in B], np.matrix(U0)
            copy = [A.copy(), [x.copy() for x in B], drive.copy(), U0.copy()]
            store = np.zeros((ns + sc["room"], d, d), dtype=complex)
            store = list(store) if sc["store"] == 1 else store
            for _ in range(2):
                got = pw_evolution(store, drive, A, B, ns, dt)
                ev.append({"e": "store", "fn": 0, "tol": 5, "list": [micro(u) for u in got]})
                ev.append({"e": "store", "fn": 0, "tol": 5, "list": [micro(u) for u in store]})
                got = pw_final_evolution(drive, A, B, ns, dt, U0)
                ev.append({"e": "final", "fn": 0, "tol": 5, "nf": 1, "u": micro(got)})
            same = (np.array_equal(copy[0], A) and all(np.array_equal(x, y) for x, y in zip(copy[1], B))
                    and np.array_equal(copy[2], drive) and np.array_equal(copy[3], U0))
            ev.append({"e": "kept", "ok": int(same)})
    except Hang:
        exc, hang = 1, True
    except Exception:
        import traceback
        tb, exc = traceback.format_exc(), 1
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    ev.append({"e": "end", "exc": exc})
    return {"id": sc["id"], "ev": ev, "tb": tb, "hang": hang, "cfg": {"n": n}}
