"""Family: whole optimizations of the real library, validated against spec/Optim.tla (OptimTrace)."""
import collections
import json

import gen
import pool
import tlc
from result import Result

K = {"K_missing", "K_unreadable", "K_fom", "K_controls", "K_iteration", "K_si", "K_phantom", "K_crash"}
D = {"D_unexpected", "D_toomany", "D_controls", "D_missed", "D_average", "D_samepoint", "D_early", "D_aftersi"}
W = {"W_first", "W_warm"}
G = {"G_ctl", "G_plot", "G_plotit", "G_plotfom", "G_plotsign", "G_start"}
X = {"X_maxev", "X_tol", "X_sitime", "X_change", "X_user", "X_unknown", "X_hidden", "X_calls"}
H = {"H_budget", "H_goal", "H_time", "H_user", "H_unknown", "H_none", "H_run", "H_norun"}
F_VAL = {"F_fom", "F_nofom"}
ALWAYS = {"X_eval", "E_before", "E_after", "F_result", "F_crash", "F_runaway"}


def failing(sc):
    return any(x[2] for x in sc["script"])


def stopping(sc):
    return bool(sc.get("linestop") or sc.get("sigstop") or sc.get("prestop") or any(x[4] for x in sc["script"]))


def num(*names):
    return lambda sc: any(sc.get(n) is not None for n in names)


def true(sc):
    return True


# property -> list of (condition on the scenario, clauses)
TAGS = {
    "C01": [(true, F_VAL | {"F_result"})],
    "C02": [(true, K)],
    "C03": [(true, {"F_best", "F_params", "F_bare"})],
    "C04": [(true, {"E_budget", "F_count", "H_budget"}),
            (num("maxtot"), {"F_crash_limit", "F_runaway", "S_refused", "F_result"})],
    "C05": [(true, {"E_user", "F_crash_user", "S_stopped", "B_userstop", "H_user"}),
            (stopping, {"F_result", "F_runaway", "F_fom", "H_run", "X_hidden", "F_crash", "S_refused"})],
    "C06": [(true, {"E_goal", "H_goal"}),
            (num("goal"), {"F_crash_limit", "F_result", "F_early", "R_refused", "H_none", "S_refused"})],
    "C07": [(true, {"E_fail", "F_crash_fail"}),
            (failing, F_VAL | K | {"L_fom", "L_iter", "F_best", "F_params", "R_value", "F_result", "G_plot", "G_plotit",
                                   "S_stopped", "B_userstop", "D_average", "F_runaway"})],
    "C08": [(true, {"B_maxev", "B_sitime", "X_maxev", "X_sitime", "E_time", "H_time"}),
            (num("tlim"), {"F_crash_limit", "R_refused", "F_early", "F_result"}),
            (num("stlim"), {"F_early", "S_refused"})],
    "C09": [(true, {"B_change", "X_change", "X_tol"})],
    "C10": [(true, {"R_refused", "R_short", "F_early", "F_reason"} | X | H)],
    "C11": [(true, {"S_count", "S_nested", "S_refused", "F_lists", "A_outside"} | W),
            (lambda sc: sc.get("nsi", 1) > 1, {"F_early", "F_best", "K_si"})],
    "C12": [(num("reev"), {"E_repeatctl", "E_extra", "R_short", "R_value", "F_std", "L_fom", "G_plotfom"} | F_VAL | K)],
    "C13": [(true, D), (num("drift"), F_VAL | K | {"R_value", "F_best"})],
    "C14": [(lambda sc: sc["dir"] == "max", {"G_plotsign", "K_fom", "F_fom", "L_fom", "E_goal", "R_value"})],
    "C25": [(true, {"L_fom", "L_iter", "F_count"} | G)],
}

FOCI = {
    "C01": gen.FOCI + ["re", "drift", "fail"],
    "C02": gen.FOCI + ["re", "drift", "fail", "dsi"],
    "C03": gen.FOCI + ["siw", "ds", "grape", "stop"],
    "C04": ["budget"] * 6 + ["", "re", "drift", "dsi", "siw", "signals"],
    "C05": ["stop"] * 8 + ["line"] * 3 + ["", "grape", "signals"],
    "C06": ["goal"] * 8 + ["", "re", "drift", "dsi"],
    "C07": ["fail"] * 8 + ["", "re"],
    "C08": ["time"] * 8 + ["", "siw", "budget"],
    "C09": ["cbs"] * 6 + ["", "ds", "siw"],
    "C10": gen.FOCI + ["time", "cbs", "stop", "budget", "goal"],
    "C11": ["siw"] * 6 + ["", "re", "dsi"],
    "C12": ["re"] * 10 + [""],
    "C13": ["drift"] * 5 + ["dsi"] * 5 + [""],
    "C14": gen.FOCI,
    "C25": ["signals"] * 6 + ["re", "drift", "dsi", "fail", "", "grape", "ds"],
}


FEATURE = {"C12": num("reev"), "C13": num("drift"), "C11": lambda sc: sc.get("nsi", 1) > 1, "C25": lambda sc: sc["signals"],
           "C02": true, "C04": num("maxtot"), "C05": stopping, "C06": num("goal"), "C07": failing,
           "C08": num("tlim", "stlim"), "C09": num("cbs")}


def never(sc):
    return False


def mine(prop, clause, sc):
    if clause in ALWAYS:
        # an optimization that dies or gives no result breaks whatever was promised about its result
        return prop in ("C01", "C10") or FEATURE.get(prop, never)(sc) or any(clause in c and f(sc) for f, c in TAGS[prop])
    return any(clause in c and f(sc) for f, c in TAGS[prop])


def scenarios(prop, tier, seed):
    n = 4000 if tier == "quick" else 60000
    out = gen.batch(seed * 1000 + int(prop[1:]), n, FOCI[prop])
    if prop in ("C01", "C02", "C03", "C05", "C07", "C10", "C11", "C14", "C25"):
        out += gen.batch(seed * 1000 + 500 + int(prop[1:]), 40 if tier == "quick" else 400, ["ad"], base=10**6)
    if prop == "C02":
        out += gen.batch(seed * 1000 + 700, 120 if tier == "quick" else 1200, ["look"], base=2 * 10**6)
    return out


def run(prop, tier, seed, clauses=None):
    return bind(prop, scenarios(prop, tier, seed), "random scripts")


def bind(prop, scs, name, chunk=8000):
    """Run the scenarios on the real code and validate the traces."""
    res = Result("Optim trace validation, " + name)
    hist, kinds, reasons = collections.Counter(), collections.Counter(), collections.Counter()
    other = collections.Counter()
    undecided = 0
    for c in range(0, len(scs), chunk):
        part = scs[c:c + chunk]
        trs = pool.run(part)
        by = {t["id"]: t for t in trs}
        verdict, g, d = tlc.validate("OptimTrace", [{k: t[k] for k in ("id", "cfg", "ev")} for t in trs])
        res.states += d
        res.transitions += g
        res.traces += len(trs)
        if len(trs) < len(part) and not any(t["hang"] for t in trs):
            raise pool.HarnessError("%d of %d traces" % (len(trs), len(part)))
        for sc in part:
            if sc["id"] not in by:
                continue
            tr = by[sc["id"]]
            dead, bad = verdict[sc["id"]]
            undecided += dead
            res.events += len(tr["ev"])
            for e in tr["ev"]:
                kinds[e["e"]] += 1
            hist["%s/%s" % (sc["alg"], sc["dsm"] if sc["alg"] in ("dCRAB", "DS") else "-")] += 1
            end = tr["ev"][-1]
            reasons["search reason %d, run reason %d" % (end["r"], end["hr"])] += 1
            for clause, k in bad:
                if mine(prop, clause, sc):
                    res.add(clause, "event %d %s" % (k, json.dumps(tr["ev"][k - 1])[:300]),
                            {"family": "optim", "scenario": sc, "clause": clause, "event": k, "trace": tr["ev"],
                             "cfg": tr["cfg"], "traceback": tr.get("tb", "")})
                else:
                    other[clause] += 1
        if len(res.samples) < 2:
            t = trs[len(trs) // 2]
            res.samples.append({"cfg": t["cfg"], "events": t["ev"][:6] + ["..."] + t["ev"][-1:]})
    res.notes = {"algorithms": dict(hist), "events": dict(kinds), "endings": dict(reasons), "undecided_traces": undecided}
    if other:
        res.notes["clauses_of_other_properties_broken"] = dict(other)
    return res
