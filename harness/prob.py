"""Run the library's example problems on controls for which the specification knows the exact figure of merit."""
import os
import signal

import qh
from qh import Hang
import numpy as np

Q = np.pi / 4
T = np.pi / (2 * np.sqrt(2))


def num(x, unit=10**6):
    x = np.asarray(x)
    if x.shape != () or not np.isfinite(x) or abs(x) * unit > 2e9 or np.iscomplexobj(x) and abs(x.imag) > 1e-6:
        return 2**31 - 1
    return int(round(float(np.real(x)) * unit))


def ints(m):
    m = np.asarray(m)
    return [[[int(round(float(z.real) * 1000)), int(round(float(z.imag) * 1000))] for z in row] for row in m]


def text(v, how):
    if how:
        return "np.array([%s])" % ",".join("%d%+dj" % tuple(z) for z in v)
    return "[%s]" % ", ".join("%d%+dj" % tuple(z) for z in v)


def qubit(sc, ev, wd):
    dt = sc["dt"]
    two = sc["prob"] == "two"
    if two:
        from quocslib.optimalcontrolproblems.OneQubitProblem_2fields import OneQubit2Fields as P
    else:
        from quocslib.optimalcontrolproblems.OneQubitProblem import OneQubit as P
    unit = T if sc["tilted"] else Q
    a = {"initial_state": text(sc["psi0"], sc["how"]), "target_state": text(sc["target"], not sc["how"]),
         "delta1": sc["d1"] * unit * 2 / dt, "delta2": sc["d2"]}
    if not two and sc["fac"]:
        a["optimization_factor"] = float(sc["fac"])
    if not two and sc["drift"]:
        a.update(include_drift=True, linear_drift_val_over_iteration=sc["drift"] / 100)
    if sc["noise"]:
        a.update(is_noisy=True, noise_factor=sc["noise"] / 100)
    p = P(args_dict=a)
    np.random.seed(sc["seed"])
    for call in sc["calls"]:
        n = len(call["slices"])
        grid = np.arange(n + (1 if n == 1 else 0)) * dt
        if sc["off"]:
            grid = grid + 3 * dt
        par = [call["par"] * unit * 2 / dt] if call["par"] is not None else []
        x = np.array([s["k"] for s in call["slices"]], dtype=float)
        if two:
            pulses = [x * unit / dt / (1 + sc["d2"]), np.array([s["dir"] * np.pi / 4 for s in call["slices"]])]
        else:
            pulses = [x * unit * 2 / dt - sc["d2"]]
        keep = [q.copy() for q in pulses]
        r = p.get_FoM(pulses=pulses, parameters=par, timegrids=[grid] * len(pulses))
        ev.append({"e": "fom", "ops": [s["op"] for s in call["slices"]], "f": num(r["FoM"]), "std": num(r["std"], 10**6)})
        ev.append({"e": "kept", "ok": int(all(np.array_equal(a, b) for a, b in zip(keep, pulses)))})
    ev.append({"e": "noise"})
    if not two:
        p.set_save_path(wd)
        p.save_FoM()
        ev.append({"e": "saved", "list": [num(v) for v in np.atleast_1d(np.loadtxt(os.path.join(wd, "FoM.txt")))]})
        os.unlink(os.path.join(wd, "FoM.txt"))


def ising(sc, ev, wd):
    ad = sc["prob"] == "isingad"
    if ad:
        import jax
        jax.config.update("jax_enable_x64", True)
        import jax.numpy as jnp
        from quocslib.optimalcontrolproblems.IsingModelADProblem import IsingModel as P
    else:
        from quocslib.optimalcontrolproblems.IsingModelProblem import IsingModel as P
    n, dt = sc["n"], sc["dt"]
    a = {"n_qubits": n, "J": sc["J"], "g": sc["g"], "n_slices": sc["ns"]}
    if not ad and sc["max"] is not None:
        a["is_maximization"] = bool(sc["max"])
    p = P(args_dict=a)
    if sc["J"] or sc["g"]:
        ev.append({"e": "drift", "J": sc["J"], "g": sc["g"], "m": ints(p.get_drift_Hamiltonian())})
    ev.append({"e": "control", "m": ints(p.get_control_Hamiltonians())})
    ev.append({"e": "states", "first": ints(p.get_initial_state()), "last": ints(p.get_target_state())})
    for call in sc["calls"]:
        u = np.array(call["k"], dtype=float) * Q / dt
        grid = np.linspace(0, dt * sc["ns"], sc["ns"])
        pulses, grids = [u], [grid]
        if ad:
            pulses, grids = jnp.asarray(np.array(pulses)), jnp.asarray(np.array(grids))
        if call["ask"] and not ad:
            got = p.get_propagator(pulses_list=pulses, time_grids_list=grids, parameters_list=[])
            ev.append({"e": "props", "k": call["k"], "drift": sc["J"] + 7 * sc["g"],
                       "list": [[[num(z.real), num(z.imag)] for z in np.asarray(m)[0]] for m in got]})
        r = p.get_FoM(pulses=pulses, parameters=[], timegrids=grids)
        ev.append({"e": "ising", "k": call["k"], "drift": int(bool(sc["J"] or sc["g"])), "f": num(r["FoM"])})


def rosen(sc, ev, wd):
    from quocslib.optimalcontrolproblems.RosenbrockProblem import Rosenbrock
    p = Rosenbrock({"is_noisy": True, "noise_factor": sc["noise"] / 100} if sc["noise"] else {})
    np.random.seed(sc["seed"])
    for x in sc["xs"]:
        r = p.get_FoM(parameters=[v / 2 for v in x] if sc["how"] else np.array(x) / 2)
        ev.append({"e": "rosen", "x": x, "f": num(r["FoM"], 1000), "std": num(r["std"], 10**6)})


def execute(sc, workdir):
    ev = []
    exc, tb, hang = 0, "", False
    signal.signal(signal.SIGALRM, qh._hang)
    signal.setitimer(signal.ITIMER_REAL, qh.HANG_SECONDS)
    try:
        {"one": qubit, "two": qubit, "ising": ising, "isingad": ising, "rosen": rosen}[sc["prob"]](sc, ev, workdir)
    except Hang:
        exc, hang = 1, True
    except Exception:
        import traceback
        tb, exc = traceback.format_exc(), 1
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    ev.append({"e": "end", "exc": exc})
    cfg = {"psi0": sc.get("psi0", []), "target": sc.get("target", []), "fac": sc.get("fac") or -1, "drift": sc.get("drift", 0),
           "noise": sc.get("noise", 0), "two": int(sc["prob"] == "two"), "n": sc.get("n", 1), "max": int(bool(sc.get("max"))),
           "ad": int(sc["prob"] == "isingad"), "J": sc.get("J", 0), "g": sc.get("g", 0)}
    return {"id": sc["id"], "ev": ev, "tb": tb, "hang": hang, "cfg": cfg}
