"""Random scenarios for the optimizer family.  Every choice comes from the given random.Random."""
import random

U = 60
BIG = 999999999    # an infinitely bad figure of merit


def foms(r, n, style):
    if style == "walk":
        v, out = r.randint(-20, 40) * U, []
        for _ in range(n):
            v += r.randint(-6, 5) * U
            out.append(v)
        return out
    if style == "down":
        v, out = r.randint(0, 40) * U, []
        for _ in range(n):
            v -= r.choice([0, 1, 1, 2]) * U
            out.append(v)
        return out
    if style == "ties":
        return [r.randint(-2, 2) * U for _ in range(n)]
    if style == "distinct":
        pool = list(range(-3 * n, 3 * n))
        r.shuffle(pool)
        return [x * U for x in pool[:n]]
    return [r.randint(-30, 30) * U for _ in range(n)]


def name(r):
    """names in no particular order"""
    return "%s%d" % (r.choice("aqzPT"), r.randrange(10**6))


def pulse(r, i, piecewise=False, bins=None, times=("T",)):
    p = {"pulse_name": name(r), "upper_limit": 1000.0, "lower_limit": -1000.0, "time_name": r.choice(times),
         "amplitude_variation": r.choice([1.0, 4.0, 8.0])}
    kind = "PiecewiseBasis" if piecewise else r.choice(["PiecewiseBasis", "PiecewiseBasis", "Fourier", "Chebyshev"])
    p["bins_number"] = bins or r.choice([2, 3, 5])
    if kind == "PiecewiseBasis":
        p["basis"] = {"basis_name": kind, "bins_number": p["bins_number"]}
        bdim = p["bins_number"]
    else:
        nv = r.choice([1, 2])
        p["basis"] = {"basis_name": kind, "basis_vector_number": nv,
                      "random_super_parameter_distribution": {"distribution_name": "Uniform", "lower_limit": 0.1,
                                                              "upper_limit": 3.0}}
        bdim = 2 * nv if kind == "Fourier" else nv
        p["bins_number"] = max(4, p["bins_number"])
    if r.random() < 0.5:
        p["initial_guess"] = {"function_type": "lambda_function",
                              "lambda_function": "lambda t: %d.0 + %d.0*t" % (r.randint(-5, 5), r.randint(-3, 3))}
    if r.random() < 0.3:
        p["scaling_function"] = {"function_type": "lambda_function", "lambda_function": "lambda t: 0.5 + t"}
    return p, bdim


def bystander(r):
    """settings of another optimization, as different as possible"""
    al = {"algorithm_name": "dCRAB", "super_iteration_number": 1, "max_eval_total": r.choice([1, 10**6]),
          "FoM_goal": r.choice([-1e9, 1e9]), "optimization_direction": r.choice(["minimization", "maximization"]),
          "dsm_settings": {"general_settings": {"dsm_algorithm_name": r.choice(["NelderMead", "CMAES"])},
                           "stopping_criteria": {"max_eval": r.choice([1, 10**6]), "xatol": 1e9, "time_lim": 1e-9}}}
    if r.random() < 0.5:
        al["random_number_generator"] = {"seed_number": 5}
    if r.random() < 0.5:
        al["re_evaluation"] = {"re_evaluation_steps": [0.0, 0.0]}
    return {"optimization_client_name": "w", "console_info": False, "create_logfile": False, "dump_format": "json",
            "algorithm_settings": al, "parameters": [], "times": [{"time_name": "T", "initial_value": 77.0}],
            "pulses": [{"pulse_name": "P0", "time_name": "T", "bins_number": 3, "lower_limit": -0.001, "upper_limit": 0.001,
                        "amplitude_variation": 1e-6, "basis": {
                            "basis_name": "Fourier", "basis_vector_number": 1, "random_super_parameter_distribution": {
                                "distribution_name": "Uniform", "lower_limit": 50.0, "upper_limit": 51.0}}}]}


def scenario(r, i, focus=""):
    sc = {"id": i, "seed": r.randrange(2**31), "focus": focus}
    alg = r.choice(["dCRAB"] * 6 + ["DS"] * 3 + ["GRAPE"] + ["PLAIN"])
    if focus in ("re", "siw", "drift", "dsi"):
        alg = r.choice(["dCRAB"] * 3 + ["DS"]) if focus in ("re", "drift") else "dCRAB"
    if focus in ("grape",):
        alg = "GRAPE"
    if focus == "ad":
        alg = "AD"
    if focus == "ds":
        alg = "DS"
    plain = alg == "PLAIN"
    sc["alg"] = "dCRAB" if plain else alg
    sc["dir"] = r.choice(["min", "max"])
    sc["nsi"] = r.choice([1, 2, 3]) if focus not in ("siw", "dsi") else r.choice([2, 3, 4])
    dsm = r.choice(["NM", "NM", "NM", "CMAES", "CMAES", "DUMB"])
    if focus in ("drift",):
        dsm = "NM"
    sc["dsm"] = r.choice(["PNM", "PCMAES"]) if plain else dsm
    n = 60
    style = r.choice(["walk", "down", "distinct", "rand", "ties"])
    sc["ties"] = style in ("ties", "down", "rand", "walk")
    fs = foms(r, n, style)
    sc["times"] = [{"time_name": "T", "initial_value": r.choice([1.0, 2.0, 0.5])}]
    if r.random() < 0.3:
        sc["times"].append({"time_name": "T2", "initial_value": 3.0})
    tn = [t["time_name"] for t in sc["times"]]
    sc["pulses"], sc["params"], sc["bdim"] = [], [], []
    if sc["alg"] == "DS":
        npar = r.choice([1, 2, 3, 4])
    elif sc["alg"] in ("GRAPE",):
        npar = 0
        p, b = pulse(r, 0, True, r.choice([2, 3]), ("T",))
        sc["pulses"].append(p)
        sc["bdim"].append(b)
    elif sc["alg"] == "AD":
        npar = r.choice([0, 1])
        for k in range(r.choice([1, 2])):
            p, b = pulse(r, k, True, None, ("T",))
            for key in ("initial_guess", "scaling_function"):
                p.pop(key, None)
            sc["pulses"].append(p)
            sc["bdim"].append(b)
    else:
        npar = r.choice([0, 0, 1, 2])
        for k in range(r.choice([1, 1, 2])):
            p, b = pulse(r, k, False, None, tn)
            sc["pulses"].append(p)
            sc["bdim"].append(b)
    for k in range(npar):
        sc["params"].append({"parameter_name": name(r), "initial_value": float(r.randint(-3, 3)),
                             "lower_limit": -500.0 if r.random() < 0.7 else -4.0, "upper_limit": 500.0,
                             "amplitude_variation": r.choice([0.5, 1.0, 2.0])})
    sds = None
    if r.random() < (0.25 if focus != "re" else 1.0) and sc["alg"] in ("dCRAB", "DS") and focus not in ("dsi",):
        if r.random() < 0.2:
            sc["reev"], sc["redef"] = [[-21, 40], [0, 1], [1, 400]], True
        else:
            k = r.choice([1, 2, 3, 4])
            sc["reev"] = [[r.choice([-2, -1, 0, 0, 1, 2]), r.choice([2, 4])] for _ in range(k)]
        sds = r.choice([None, [60], [0], [60, 120, 300], [0, 60, 240, 600]])
        if r.random() < 0.5:
            fs = [x // U // 4 * U for x in fs]
    if sc["alg"] == "dCRAB" and not plain and (focus in ("drift", "dsi") or r.random() < 0.2):
        sc["drift"] = {"si": True, "navg": r.choice([1, 1, 2, 3]), "sec": 0}
    if dsm == "NM" and not plain and sc["alg"] in ("dCRAB", "DS") and (focus == "drift" or (focus != "dsi" and r.random() < 0.15)):
        sc["drift"] = {"si": r.random() < 0.3 and sc["alg"] == "dCRAB", "navg": r.choice([1, 2, 3]),
                       "sec": r.choice([3, 9, 15, 31])}
    # limits
    maxev = r.choice([3, 5, 8, 12, 18])
    if sc["alg"] in ("dCRAB", "DS"):
        sc["maxev"] = maxev
        sc["adaptive"] = r.random() < 0.2
        if "CMAES" in sc["dsm"] and r.random() < 0.5:
            sc["pop"] = r.choice([4, 5, 6])
    else:
        sc["maxev"] = r.choice([4, 8, 15])
    if sc["dsm"] == "DUMB":
        sc["dumb_n"], sc["careless"] = r.choice([3, 6, 10]), r.random() < 0.4
    p = r.random
    if p() < (0.35 if focus != "budget" else 1.0):
        sc["maxtot"] = r.choice([1, 2, 3, 4, 6, 9, 13, 20])
    if p() < (0.25 if focus != "goal" else 1.0):
        best = (max if sc["dir"] == "max" else min)(fs[:25])
        med = sorted(fs[:25])[12]
        sc["goal"] = r.choice([best, med, fs[r.randrange(12)], (best + med) // 2, fs[r.randrange(12)] + r.choice([-1, 1])])
    durs = [r.choice([0, 2, 2, 4, 10, 30]) for _ in range(n)] if p() < 0.7 else [2] * n
    if p() < (0.2 if focus != "time" else 0.7):
        sc["tlim"] = r.choice([1, 5, 11, 25, 45, 91])
    if sc["alg"] in ("dCRAB", "DS") and p() < (0.2 if focus != "time" else 0.7):
        sc["stlim"] = r.choice([1, 5, 11, 25, 45])
    if sc["alg"] in ("dCRAB", "DS") and p() < (0.15 if focus != "cbs" else 1.0):
        sc["cbs"] = [r.choice([2, 3, 4, 5, 8]), r.choice([7, 97, 211, 601, 1201])]
    if focus == "cbs":
        sc.pop("reev", None)
        sc.pop("redef", None)
        sds = None
        sc["maxev"] = r.choice([8, 18, 30])
    if sc["alg"] in ("dCRAB", "DS") and p() < 0.1:
        sc[r.choice(["xatol", "fatol"])] = r.choice([1.0, 100.0, 500.0])
    if sc.get("reev") is not None and sc.get("drift"):      # means of means stay integers
        fs = [x * 6 for x in fs]
        if sc.get("goal") is not None:
            sc["goal"] *= 6
    acts = [""] * n
    sts = [0] * n
    if p() < (0.25 if focus != "stop" else 1.0):
        acts[r.randrange(min(n, 20))] = r.choice(["stop", "stop", "sigint"])
    if p() < (0.2 if focus != "fail" else 1.0):
        k = r.randrange(20)
        sts[k] = r.choice([-1, 1, -2, 7])
        if p() < 0.6:      # a failed evaluation that looks excellent
            fs[k] = (1 if sc["dir"] == "max" else -1) * 5000 * U
        sc["nonefom"] = p() < 0.2
    sc["script"] = [[fs[k], None if sds is None else sds[r.randrange(len(sds))], sts[k], durs[k], acts[k]]
                    for k in range(n)]
    sc["explicit_status"] = p() < 0.3
    sc["cached"] = p() < 0.15 and not sc.get("nonefom")
    sc["fmt"] = r.choice(["npz", "npz", "json"])
    sc["signals"] = p() < (0.4 if focus != "signals" else 1.0)
    if sc["signals"] and focus in ("stop", "signals") and p() < 0.3:
        sc["sigstop"] = [r.choice(["plot", "ctl"]), r.randint(1, 12)]
    elif focus == "line":
        sc["linestop"] = r.randint(1, 3000)
        sc["signals"] = False
        acts = None
    sc["rng"] = r.choice([None, 0, 1, 77, 123456789]) if sc["alg"] != "dCRAB" or p() < 0.5 else r.choice([0, 5])
    sc["tstart"] = r.choice([0, 2, 100])
    sc["tgap"] = r.choice([0, 0, 20, 200])
    if p() < 0.25:
        # long experiments: hours or days per evaluation
        k = r.choice([601, 7201, 40001])
        for x in ("tlim", "stlim", "tgap"):
            if sc.get(x):
                sc[x] *= k
        if sc.get("drift"):
            sc["drift"]["sec"] *= k
        for s in sc["script"]:
            s[3] *= k
    if sc["dsm"] == "DUMB" and sc.get("drift", {}).get("sec"):
        sc["drift"]["sec"] = 0
    if focus == "stop" and p() < 0.05:
        sc["prestop"] = True       # the stop request comes before the optimization has started
    if p() < (0.5 if focus == "stop" else 0.1):
        sc["bystander"] = bystander(r)
        if p() < 0.5:
            sc["bystop"] = r.choice([0, 1, 3])
    if p() < (0.3 if focus == "stop" else 0.08) and not sc.get("linestop") and focus != "look" and sc["alg"] != "AD" \
            and not any(row[4] == "sigint" for row in sc["script"]):
        # (the newest optimization of a process takes over its signal handler)
        sc["bystander"] = bystander(r)
        at = [i for i, row in enumerate(sc["script"]) if row[4]] or [r.choice([0, 1, 2, 4, 7])]
        sc["neighbour"] = [at[0] if p() < 0.7 else r.choice([0, 1, 2, 4, 7]), r.choice(["before", "after"]),
                           r.choice(["", "run", "fail"])]
    elif not sc.get("linestop") and not sc.get("sigstop") and not sc.get("prestop"):
        if p() < 0.1:
            sc["thread"] = r.choice([1, 2])
            for s in sc["script"]:
                s[4] = "stop" if s[4] else ""
        elif p() < (0.3 if focus == "stop" else 0.1):
            sc["nohe"] = True
    if focus == "look":
        sc.pop("thread", None)
        sc["look"] = True
    if p() < 0.1:
        sc["chdir"] = r.choice([0, 1, 4])
    if p() < 0.15:
        # large figures of merit whose differences are relatively small
        off = r.choice([-1, 1]) * 100000 * U
        for row in sc["script"]:
            row[0] += off
        if sc.get("goal") is not None:
            sc["goal"] += off
    # the unit and the number type of the figures of merit: no decision may depend on them
    if (sc.get("reev") is None or sds is not None and 0 not in sds) and p() < 0.5:
        sc["unit"] = 2.0 ** r.choice([-30, -20, -7, 7, 24, 40])
    if sc["alg"] in ("dCRAB", "DS") and not sc.get("drift") and p() < (0.08 if focus != "re" else 0.3):
        # some controls have an infinitely bad figure of merit
        for _ in range(r.choice([1, 1, 2, 5])):
            k = r.choice([0, 1, 2, 3, 5, 8, 13])
            if sc["script"][k][2] == 0:
                sc["script"][k][0] = (-1 if sc["dir"] == "max" else 1) * BIG
        sc["inf"] = True
        sc["cached"] = False
    if p() < 0.3 and not sc.get("inf"):
        sc["ftype"] = r.choice(["np64", "np32", "int", "0d", "buf"])
    return sc


FOCI = ["", "", "", "re", "siw", "drift", "dsi", "budget", "goal", "time", "cbs", "stop", "fail", "signals", "ds", "grape"]


def batch(seed, count, foci=None, base=0):
    r = random.Random(seed)
    foci = foci or FOCI
    return [scenario(r, base + i, foci[i % len(foci)]) for i in range(count)]
