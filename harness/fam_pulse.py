"""Family: controls of whole optimizations, validated against spec/Pulse.tla (PulseTrace)."""
import collections
import json
import random

import pool
import tlc
from result import Result

TAGS = {"C18": {"L_limits", "L_param", "L_shrink", "L_cut", "A_param"},
        "C19": {"A_pulse", "B_bare"},
        "C20": {"I_dim", "I_start", "I_width", "I_number", "I_bins", "I_grid", "I_couple", "A_pulse", "A_param"},
        "C21": {"W_constant"},
        "C11": {"A_pulse"},
        "C03": {"B_bare", "B_best"}}
LETTERS = "abcdefghijklmnopqrstuvwxyz"
OPS = ["add_initial_guess", "add_base_pulse", "add_new_update_pulse", "scale_pulse", "limit_pulse"]


def function(r, what, i, bins, files, sc, plain):
    """A guess or scaling in every form the settings offer.  Returns (library form or None, specification form)."""
    none = {"k": "none", "a": 0, "b": 0, "l": []}
    kinds = ["absent", "lambda", "lambda", "list", "relative", "absolute", "unknown", "missing"]
    if what == "scale" and not plain:
        kinds.append("two")
    k = r.choice(kinds)
    if plain and k not in ("absent", "lambda", "list"):
        k = "lambda"
    if k == "absent":
        return None, none
    if k == "unknown":
        return {"function_type": "something_else"}, none
    if k == "missing":
        return {"function_type": "python_file", "file_path": "not_there.py", "function_name": "f"}, none
    if k == "list":
        v = [r.randint(-25, 25) if what == "guess" else r.choice([-1, 0, 1, 2, 3]) for _ in range(bins)]
        return {"function_type": "list_function", "list_function": [x * sc["amp"] for x in v] if what == "guess" else v}, {"k": "list", "a": 0, "b": 0, "l": v}
    if k == "two":
        a, b = r.choice([-1, 1, 2]), r.choice([-2, 1, 2])
        return ({"function_type": "lambda_function", "lambda_function": "lambda t, p: %d*p + %d*%r*t" % (a, b, sc["amp"] / sc["tim"])},
                {"k": "two", "a": a, "b": b, "l": []})
    if what == "guess":
        a, b = r.randint(-25, 25), r.choice([-2, -1, 1, 2])
        spec = {"k": "lin", "a": a, "b": b, "l": []}
        text = "%d + %d*t" % (a, b) if sc["amp"] == sc["tim"] == 1 else "%r + %r*t" % (a * sc["amp"], b * sc["amp"] / sc["tim"])
    else:
        a, b = r.choice([-1, 0, 1, 2, 3]), r.choice([-1, 0, 1, 2, 3])
        spec = {"k": "step", "a": a, "b": b, "l": []}
        text = "%s.where(t < %r, %.1f, %.1f)" % ("jnp" if sc["alg"] == "AD" else "np", 6 * sc["tim"], a, b)
        if sc["alg"] == "AD":
            spec = {"k": "step", "a": a, "b": a, "l": []}
            text = "%.1f + 0.0*t" % a
    if k == "lambda":
        return {"function_type": "lambda_function", "lambda_function": "lambda t: " + text}, spec
    if r.random() < 0.1:      # no function is named: as if there were none
        return ({"function_type": "python_file", "file_path": "nobody.py", "path_mode": k, **r.choice([{}, {"function_name": ""}])},
                none)
    # files of the same name in different folders, names with dots
    name = r.choice(["%s%d", "%s%d", "%s%d/f", "v.%s.%d", "%s%d/mod.py.d/np"]) % (what, i)
    files[name + ".py"] = "import numpy as np\n\n\ndef other(t):\n    return 77.0 + 0*t\n\n\ndef fun(t):\n    return %s\n" % text
    return ({"function_type": "python_file", "file_path": name + r.choice(["", ".py"]), "function_name": "fun",
             "path_mode": k}, spec)


def scenario(r, i, prop, alg=None):
    sc = {"id": i, "seed": r.randrange(2**31), "alg": alg or r.choice(["dCRAB"] * 6 + ["DS"]), "nsi": r.choice([1, 2, 3, 3]),
          "steps": r.randint(2, 6), "rng": r.choice([None, 0, 5]), "opulses": [], "oparams": [], "otimes": [], "cpulses": [],
          "cparams": [], "files": {}}
    grad = sc["alg"] in ("GRAPE", "AD")
    # units of amplitudes and times: the controls are made the same way whatever they are
    sc["amp"], sc["tim"] = 1.0, 1.0
    if not grad and r.random() < 0.5:
        sc["amp"] = 2.0 ** r.choice([-24, -10, -3, 0, 14])
    if not grad and r.random() < 0.5:
        sc["tim"] = 2.0 ** r.choice([-30, -20, -10, 0, 9])
    A = sc["amp"]
    times = {"T%d" % k: r.choice([12, 24]) for k in range(r.choice([1, 2, 2]))}
    sc["otimes"] = [{"time_name": k, "initial_value": v * sc["tim"]} for k, v in times.items()]
    many = r.random() < 0.02 and not grad
    names = r.sample(LETTERS, 26)
    sc["otimes"] += [{"time_name": "unused", "initial_value": 5.0 * sc["tim"]}] if r.random() < 0.2 else []
    r.shuffle(sc["otimes"])
    npul = {"GRAPE": 1, "DS": 0}.get(sc["alg"], r.choice([1, 1, 2, 2, 3]) if not many else 11)
    for k in range(npul):
        tn = r.choice(sorted(times))
        kind = 1 if grad else r.choice([1, 1, 2, 2, 3])
        bins = r.choice([1, 2, 3, 4, 5, 7])
        if grad:
            bins = r.choice([3, 4, 5])
        g, gs = function(r, "guess", k, bins, sc["files"], sc, grad)
        s, ss = function(r, "scale", k, bins, sc["files"], sc, grad)
        lo, up = sorted([r.randint(-60, 60), r.randint(-60, 60)])
        if r.random() < 0.15:
            lo, up = up, lo
        if r.random() < 0.2:
            lo, up = -900, 900
        shrink = r.random() < 0.3 and sc["alg"] != "AD"
        ops = None
        if r.random() < 0.5 and not grad:
            ops = r.sample(OPS, r.randint(1, 5)) if r.random() < 0.6 else r.sample(OPS, 5)
            if r.random() < 0.2:
                ops.insert(r.randint(0, len(ops)), r.choice(["limit_pulse", "add_base_pulse", "nothing_known"]))
        nv, av = r.randint(1, 3), r.randint(1, 9)
        p = {"pulse_name": names[k] + r.choice(["", "1", "_x"]), "bins_number": bins, "time_name": tn, "lower_limit": lo * A, "upper_limit": up * A,
             "amplitude_variation": av * A}
        if g is not None:
            p["initial_guess"] = g
        if s is not None:
            p["scaling_function"] = s
        if shrink:
            p["shrink_ampl_lim"] = True
        if ops is not None:
            p["shaping_options"] = ops
        over = r.random() < 0.25
        if over:
            p["overwrite_base_pulse"] = True
        dist = {"distribution_name": "Uniform", "lower_limit": 0.0, "upper_limit": 3.0}
        basis, grow = "", 0
        if kind == 1:
            p["basis"] = {"basis_name": "PiecewiseBasis", "bins_number": bins}
        elif kind == 2:
            grow = 1 if sc["alg"] == "dCRAB" and r.random() < 0.5 else 0
            p["basis"] = {"basis_class": "Ramp", "basis_module": "pul", "basis_vector_number": nv, "grow": grow,
                          "random_super_parameter_distribution": dist}
        else:
            basis = r.choice(["Fourier", "Chebyshev", "Sigmoid", "Sinc", "Walsh", "SigmoidTimeDep", "SigmoidSigmas", "SigmoidAllParas"])
            p["basis"] = {"basis_name": basis, "basis_vector_number": nv, "random_super_parameter_distribution": dist}
            if basis.startswith("Sigmoid"):
                if r.random() < 0.6:
                    p["basis"].update(sigma=r.choice([0.1, 0.5]) * sc["tim"], offset=r.choice([0.5, 1.0]) * sc["tim"])
                dist["upper_limit"] = 10.0 * sc["tim"]
            if basis == "SigmoidAllParas":
                # which of the optional coefficients there are
                tv, sv = r.random() < 0.5, r.random() < 0.5
                if tv:
                    p["basis"]["tau_variation"] = 0.1
                if sv:
                    p["basis"]["sigma_variation"] = 0.1
                basis = "Sigmoid%d" % (tv + sv)
        sc["opulses"].append(p)
        sc["cpulses"].append({"bins": bins, "T": times[tn], "lo": lo, "up": up, "shrink": int(shrink),
                              "ops": ["default"] if ops is None else ops, "guess": gs, "scale": ss, "kind": kind, "nv": nv,
                              "av": av, "over": int(over), "grow": grow, "basis": basis})
    for j in range({"GRAPE": 0, "DS": r.randint(1, 4) if not many else 11}.get(
            sc["alg"], r.choice([0, 1, 1, 2]) if not many else 11)):
        lo, up = sorted([r.randint(-60, 60), r.randint(-60, 60)])
        v0 = r.randint(lo, up) if r.random() < 0.8 else r.randint(-80, 80)
        av = r.randint(1, 9)
        sc["oparams"].append({"parameter_name": names[12 + j] + r.choice(["", "1", "_x"]), "initial_value": v0 * A, "lower_limit": lo * A,
                              "upper_limit": up * A, "amplitude_variation": av * A})
        sc["cparams"].append({"lo": lo, "up": up, "v0": v0, "av": av})
    v = list(range(60))
    r.shuffle(v)
    sc["vals"] = v
    return sc


def run(prop, tier, seed):
    r = random.Random(seed * 4001 + int(prop[1:]))
    n, m = {"quick": (2500, 30), "thorough": (40000, 300)}[tier]
    if prop in ("C11", "C21"):
        n, m = n // 2, 0
    scs = [scenario(r, i, prop) for i in range(n)]
    scs += [scenario(r, n + i, prop, alg=["GRAPE", "AD"][i % 2]) for i in range(m)]
    return bind(prop, scs, "Controls, trace validation")


def bind(prop, scs, name):
    res = Result(name)
    tags = TAGS[prop]
    algs, chunk = collections.Counter(), 6000
    for c in range(0, len(scs), chunk):
        part = scs[c:c + chunk]
        trs = pool.run(part, "pul.execute")
        verdict, g, d = tlc.validate("PulseTrace", [{k: t[k] for k in ("id", "cfg", "ev")} for t in trs], workers=8)
        by = {s["id"]: s for s in part}
        res.states += d
        res.transitions += g
        res.traces += len(trs)
        for tr in trs:
            res.events += len(tr["ev"])
            algs[by[tr["id"]]["alg"]] += 1
            for clause, k in verdict[tr["id"]][1]:
                if clause in tags or clause in ("X_crash", "X_eval"):
                    res.add(clause, "event %d %s" % (k, json.dumps(tr["ev"][k - 1])[:400]),
                            {"family": "pulse", "scenario": by[tr["id"]], "clause": clause, "event": k, "trace": tr["ev"],
                             "cfg": tr["cfg"], "traceback": tr["tb"]})
        if not res.samples:
            res.samples.append({"cfg": trs[0]["cfg"], "events": trs[0]["ev"][:3]})
    res.notes = {"runs by algorithm": dict(algs)}
    return res
