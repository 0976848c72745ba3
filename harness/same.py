"""Pairs of runs whose settings are written differently but mean the same, for the lockstep specification."""
import copy
import json
import math
import os
import random

import qh
import numpy as np
from quocslib.utils.dynamicimport import dynamic_import
from quocslib.utils.inputoutput import readjson, writejsonfile

LAM = "lambda_function"
ZERO = {"function_type": LAM, LAM: "lambda t: 0.0*t"}
ONE = {"function_type": LAM, LAM: "lambda t: 1.0 + 0.0*t"}
SHAPING = ["add_initial_guess", "add_base_pulse", "add_new_update_pulse", "scale_pulse", "limit_pulse"]
# the documented defaults
PULSE = {"pulse_name": "pulse", "upper_limit": 1.0, "lower_limit": 0.0, "bins_number": 101, "time_name": "time",
         "amplitude_variation": 1.0, "shrink_ampl_lim": False, "scaling_function": ONE, "initial_guess": ZERO,
         "shaping_options": SHAPING}
BASIS = {"Fourier": {"basis_vector_number": 1}, "Chebyshev": {"basis_vector_number": 1},
         "Sinc": {"basis_vector_number": 1, "basis_max": 1.0},
         "Sigmoid": {"basis_vector_number": 1, "sigma": 0.1, "offset": 0.1}, "PiecewiseBasis": {},
         "SigmoidTimeDep": {}, "SigmoidSigmas": {}, "SigmoidAllParas": {}}
PARAM = {"parameter_name": "parameter", "lower_limit": 0.1, "upper_limit": 1.1, "initial_value": 1.0, "amplitude_variation": 0.1}
TIME = {"time_name": "time", "initial_value": 1.0}
MODULES = {"dCRAB": "quocslib.optimizationalgorithms.dCRABAlgorithm/dCRABAlgorithm",
           "DirectSearch": "quocslib.optimizationalgorithms.DirectSearchAlgorithm/DirectSearchAlgorithm",
           "GRAPE": "quocslib.optimizationalgorithms.GRAPEAlgorithm/GRAPEAlgorithm",
           "AD": "quocslib.optimizationalgorithms.ADAlgorithm/ADAlgorithm",
           "NelderMead": "quocslib.gradientfreemethods.NelderMead/NelderMead",
           "CMAES": "quocslib.gradientfreemethods.CMAES/CMAES",
           "Uniform": "quocslib.pulses.superparameter.Uniform/Uniform"}
for _b in ("Chebyshev", "Fourier", "PiecewiseBasis", "Sigmoid", "Sinc", "SigmoidTimeDep", "SigmoidSigmas", "SigmoidAllParas"):
    MODULES[_b] = "quocslib.pulses.basis.%s/%s" % (_b, _b)


def dim(od):
    """number of coefficients searched for"""
    n = len(od["parameters"])
    for p in od["pulses"]:
        k = p["basis"]["basis_name"]
        v = p["basis"].get("basis_vector_number", 1)
        n += {"PiecewiseBasis": p.get("bins_number", 101), "Fourier": 2 * v, "Chebyshev": 2 * v, "Sinc": v,
              "Sigmoid": v + 1, "SigmoidTimeDep": 2 * v + 1, "SigmoidSigmas": 2 * v + 1, "SigmoidAllParas": 3 * v + 1}[k]
    return n


# ---------------------------------------------------------------------- the variants: each changes a (and b) in place
def rename_time(od, old, new):
    for t in od["times"]:
        if t.get("time_name") == old:
            t["time_name"] = new
    for p in od["pulses"]:
        if p.get("time_name") == old:
            p["time_name"] = new


def settle(od, r):
    """Give some settings their default value, so that they can be left out."""
    for p in od["pulses"]:
        for k in ("upper_limit", "lower_limit", "bins_number", "amplitude_variation"):
            if r.random() < (0.15 if k == "bins_number" else 0.35):
                p[k] = PULSE[k]
                if k == "bins_number" and p["basis"]["basis_name"] == "PiecewiseBasis":
                    p["basis"][k] = PULSE[k]
        for k in ("initial_guess", "scaling_function"):
            if r.random() < 0.3:
                p.pop(k, None)
        if p["lower_limit"] >= p["upper_limit"]:
            p["lower_limit"], p["upper_limit"] = -1000.0, 1000.0
        if r.random() < 0.4 and "basis_vector_number" in p["basis"]:
            p["basis"]["basis_vector_number"] = 1
    if od["pulses"] and r.random() < 0.5:
        r.choice(od["pulses"])["pulse_name"] = "pulse"
    if od["parameters"] and r.random() < 0.5:
        r.choice(od["parameters"])["parameter_name"] = "parameter"
    for q in od["parameters"]:
        for k in ("lower_limit", "upper_limit", "initial_value", "amplitude_variation"):
            if r.random() < 0.4:
                q[k] = PARAM[k]
        if not q["lower_limit"] <= q["initial_value"] <= q["upper_limit"]:
            q["initial_value"] = max(min(q["initial_value"], q["upper_limit"]), q["lower_limit"])
    for t in od["times"]:
        if r.random() < 0.5:
            t["initial_value"] = 1.0
    if r.random() < 0.6:
        rename_time(od, r.choice(od["times"])["time_name"], "time")
    g = od["algorithm_settings"].get("dsm_settings")
    if g:
        for k in ("max_eval", "xatol", "fatol"):
            if r.random() < 0.2 and (k != "max_eval" or "max_eval_total" in od["algorithm_settings"]):
                g["stopping_criteria"].pop(k, None)
        if r.random() < 0.3:
            g["general_settings"].pop("population", None)


def either(d, e, k, v, r):
    """d and e are the two versions of a part of the settings; v is the default of k."""
    if k not in d:
        if r.random() < 0.5:
            e[k] = copy.deepcopy(v)
            if r.random() < 0.5:
                d[k], _ = e.pop(k), None
    elif d[k] == v:
        if r.random() < 0.7:
            (e if r.random() < 0.6 else d).pop(k)


def default(a, b, r, tmp):
    for p, q in zip(a["pulses"], b["pulses"]):
        for k, v in PULSE.items():
            if k == "bins_number" and r.random() < 0.1:
                continue
            either(p, q, k, v, r)
        for k, v in BASIS[p["basis"]["basis_name"]].items():
            either(p["basis"], q["basis"], k, v, r)
    for p, q in zip(a["parameters"], b["parameters"]):
        for k, v in PARAM.items():
            either(p, q, k, v, r)
    for p, q in zip(a["times"], b["times"]):
        for k, v in TIME.items():
            either(p, q, k, v, r)
    al, bl = a["algorithm_settings"], b["algorithm_settings"]
    either(al, bl, "optimization_direction", "minimization", r)
    either(a, b, "dump_format", "npz", r)
    either(a, b, "use_microsecond_name", False, r)
    if "dsm_settings" in al:
        either(al, bl, "max_eval_total", 10e10, r)
        g, h = al["dsm_settings"]["general_settings"], bl["dsm_settings"]["general_settings"]
        which = str(g.get("dsm_algorithm_name", "")) + str(g.get("dsm_algorithm_class", ""))
        if "CMAES" in which:
            either(g, h, "population", 4 + int(3 * math.log(dim(a))), r)
        elif "NelderMead" in which or "NM" in which:
            either(g, h, "is_adaptive", False, r)
        g, h = al["dsm_settings"]["stopping_criteria"], bl["dsm_settings"]["stopping_criteria"]
        for k, v in (("max_eval", 10e10), ("xatol", 1e-14), ("fatol", 1e-100)):
            either(g, h, k, v, r)
        if "compensate_drift" in al:
            either(al["compensate_drift"], bl["compensate_drift"], "num_average", 1, r)


def pick(d, pre, r):
    """name, module and class, or the class itself"""
    name = d.get(pre + "_name")
    if name not in MODULES:
        return
    m, c = MODULES[name].split("/")
    how = r.choice(["module", "module", "attribute", "none"])
    if pre == "dsm_algorithm" and how == "attribute":
        how = "module"
    if how == "none":
        d[pre + "_module"] = d[pre + "_class"] = None
        return
    d.pop(pre + "_name")
    if r.random() < 0.3:
        d[pre + "_name"] = None
    if how == "module":
        d[pre + "_module"], d[pre + "_class"] = m, c
    else:
        d[pre + "_attribute"] = dynamic_import(module_name=m, class_name=c)


def select(a, b, r, tmp):
    al = b["algorithm_settings"]
    pick(al, "algorithm", r)
    if "dsm_settings" in al:
        pick(al["dsm_settings"]["general_settings"], "dsm_algorithm", r)
    for p in b["pulses"]:
        if "random_super_parameter_distribution" in p["basis"]:
            pick(p["basis"]["random_super_parameter_distribution"], "distribution", r)
        pick(p["basis"], "basis", r)


def order(a, b, r, tmp):
    def mix(x):
        if isinstance(x, dict):
            ks = list(x)
            r.shuffle(ks)
            return {k: mix(x[k]) for k in ks}
        return [mix(y) for y in x] if isinstance(x, list) else x
    m = mix(dict(b))
    b.clear()
    b.update(m)


def extra(a, b, r, tmp):
    for k, v in (("comment", "a note"), ("author", {"name": "x", "pulses": [1]}), ("history", [1, 2, {"a": None}]), ("version", 3.5)):
        if r.random() < 0.6:
            b[k] = v
    ks = list(b)
    r.shuffle(ks)
    m = {k: b[k] for k in ks}
    b.clear()
    b.update(m)


def output(a, b, r, tmp):
    if r.random() < 0.6:
        b["optimization_client_name"] = r.choice(["u", "Another name", "x-1.2", "Run_7", "run of " + "xyz-_.09" * r.randint(1, 9)])
    if r.random() < 0.5:
        b["create_logfile"] = not b["create_logfile"]
    if r.random() < 0.5:
        b["dump_format"] = "json" if b.get("dump_format", "npz") == "npz" else "npz"
    if r.random() < 0.5:
        b["use_microsecond_name"] = True


COUNT = [0]


def function(a, b, r, tmp):
    """lambda, list or function in a file"""
    dur = {t.get("time_name", "time"): t.get("initial_value", 1.0) for t in b["times"]}
    for p in b["pulses"]:
        for k in ("initial_guess", "scaling_function"):
            if k not in p or p[k]["function_type"] != LAM or r.random() < 0.3:
                continue
            text = p[k][LAM]
            if r.random() < 0.4:
                t = np.linspace(0, dur[p.get("time_name", "time")], p.get("bins_number", 101))
                v = eval(text)(t)
                p[k] = {"function_type": "list_function",
                        "list_function": v if r.random() < 0.3 else tuple(v.tolist()) if r.random() < 0.3 else v.tolist()}
                continue
            COUNT[0] += 1
            # (files of the same name in different folders)
            fn = "g%d_%d" % (os.getpid(), COUNT[0] % 16)
            os.makedirs(os.path.join(tmp, fn), exist_ok=True)
            fn = os.path.join(fn, "shapes")
            with open(os.path.join(tmp, fn + ".py"), "w") as f:
                f.write("import numpy as np\n\n\ndef other(t):\n    return 77.0 + 0.0*t\n\n\n"
                        "def shape(%s):\n    return (%s)(t)\n" % ("t", text))
            p[k] = {"function_type": "python_file", "function_name": "shape"}
            # the run's working directory is a direct subfolder of tmp
            how = r.choice(["absolute", "relative", "default"])
            p[k]["file_path"] = os.path.join(tmp if how == "absolute" else "..", fn + r.choice(["", ".py"]))
            if how != "default":
                p[k]["path_mode"] = how


def through_json(a, b, r, tmp):
    f = os.path.join(tmp, "s%d.json" % os.getpid())
    writejsonfile(f, b)
    m = readjson(f)
    os.remove(f)
    b.clear()
    b.update(m)


def numbers(a, b, r, tmp):
    """1 for 1.0, and numpy's numbers for Python's"""
    kind = r.choice(["int", "np", "both"])

    def conv(x, key=""):
        if isinstance(x, dict):
            return {k: conv(v, k) for k, v in x.items()}
        if isinstance(x, list):
            return [conv(v) for v in x]
        if isinstance(x, float) and x == int(x) and abs(x) < 1e9 and kind != "np":
            return int(x)
        if isinstance(x, bool) or key == "seed_number":
            return x
        if isinstance(x, float) and kind != "int":
            return np.float64(x)
        if isinstance(x, int) and kind != "int":
            return np.int64(x)
        return x
    m = conv(dict(b))
    b.clear()
    b.update(m)


def times(a, b, r, tmp):
    b["times"].append({"time_name": "unused", "initial_value": 123.0})
    r.shuffle(b["times"])


def names(a, b, r, tmp):
    for i, p in enumerate(b["pulses"]):
        p["pulse_name"] = r.choice(["A pulse", "x", "pulse-", "ein_Puls", "9", "long" * r.randint(1, 12)]) + str(i)
    for i, p in enumerate(b["parameters"]):
        p["parameter_name"] = r.choice(["offset", "Delta", "p q", "0"]) + "par" + str(i)
    for i, t in enumerate(b["times"]):
        old, new = t.get("time_name", "time"), "t%d%d" % (r.randrange(10), i)
        t["time_name"] = new
        for p in b["pulses"]:
            if p.get("time_name", "time") == old and not p.get("_done"):
                p["time_name"], p["_done"] = new, True
    for p in b["pulses"]:
        p.pop("_done", None)


VARIANTS = {"default": default, "select": select, "order": order, "extra": extra, "output": output, "function": function,
            "json": through_json, "numbers": numbers, "times": times, "names": names}


def execute(sc, workdir):
    sc["dseed"] = sc["seed"]
    ids = (qh.Ids(1e-4 if sc["alg"] == "AD" else 1e-8), qh.Ids(1e-9))
    r = random.Random(sc["vseed"])
    sa, sb = copy.deepcopy(sc), copy.deepcopy(sc)
    a = qh.optimization_dict(sa)
    for i, p in enumerate(a["pulses"]):
        if p["basis"]["basis_name"] == "Fourier" and r.random() < 0.4:
            k = p["basis"]["basis_name"] = r.choice(["Sinc", "Sigmoid", "Sinc", "Sigmoid", "SigmoidTimeDep", "SigmoidSigmas",
                                                     "SigmoidAllParas"])
            if len(k) > 7:
                p["basis"].update(sigma=0.05, offset=0.1, tau_variation=0.02, sigma_variation=0.01)
            if k == "Sinc" and r.random() < 0.3:
                p["basis"]["basis_max"] = 2.5
            for key in ("sigma", "offset") if k == "Sigmoid" else ():
                if r.random() < 0.4:
                    p["basis"][key] = r.choice([0.02, 0.15])
    if "default" in sc["variants"]:
        settle(a, r)
    b = copy.deepcopy(a)
    for v in sc["variants"]:
        if v != "stored":
            VARIANTS[v](a, b, r, workdir)
    stored = []

    def keep(rec):
        if not stored:
            fs = [f for f in os.listdir(rec.results_path) if f.endswith("optimization_dictionary.json")]
            with open(os.path.join(rec.results_path, fs[0])) as f:
                stored.append(json.load(f))
    ra = qh.execute(sa, workdir, ids=ids, od=a, hook=keep if "stored" in sc["variants"] else None)
    if stored:
        b = stored[0]
    rb = qh.execute(sb, workdir, ids=ids, od=b)
    for x in (ra, rb):
        x["ev"][-1]["intact"] = x["intact"]
    n = max(len(ra["ev"]), len(rb["ev"]))
    none = {"e": "none"}
    ev = [{"a": ra["ev"][k] if k < len(ra["ev"]) else none, "b": rb["ev"][k] if k < len(rb["ev"]) else none}
          for k in range(n)]
    return {"id": sc["id"], "cfg": {"rel": 1}, "ev": ev, "tb": ra["tb"] + rb["tb"], "hang": ra["hang"] or rb["hang"]}
