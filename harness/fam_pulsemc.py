"""Design model of the assembly of a pulse (PulseMC), explored exhaustively; each of its pulses is optimized by the real code,
with every vector of coefficients in every super-iteration."""
import itertools
import os
import random
import re
import tempfile

import fam_pulse
import tlc
from result import Result

INV = "Limited Fits CutFix Order Twice Continuous Partition".split()
LIMS = [-4, 0, 3, 20]
OPSETS = [["default"], ["add_base_pulse", "add_new_update_pulse", "limit_pulse"],
          ["limit_pulse", "add_new_update_pulse", "scale_pulse"], ["add_initial_guess", "nothing", "limit_pulse"]]


def explore(k, sis):
    fd, path = tempfile.mkstemp(prefix="verif_cfg_", suffix=".cfg")
    with os.fdopen(fd, "w") as f:
        f.write("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n K = %d\n SIS = %d\n" % (k, sis))
        f.write("".join("INVARIANT %s\n" % i for i in INV))
    try:
        rc, out = tlc.tlc("PulseMC", cfg=path, workers=8)
    finally:
        os.unlink(path)
    if rc != 0:
        raise tlc.TlcError("PulseMC: " + out[-3000:])
    g, d = tlc.stats(out)
    return g, d, int(re.findall(r"initial states: (\d+) distinct", out)[-1])


def run(prop, tier, seed):
    k, sis = 5, 1 if tier == "quick" else 2
    m = Result("Pulse assembly design model")
    m.transitions, m.states, initial = explore(k, sis)
    xs = [list(v) for v in itertools.product([-k, 0, 1, k], repeat=2)]
    scs = []
    r = random.Random(seed)
    for lo, up, sh, ops, g, s, over in itertools.product(LIMS, LIMS, [0, 1], OPSETS, [-3, 0], [-1, 2], [0, 1]):
        gs = {"k": "lin", "a": g, "b": 1, "l": []}
        ss = {"k": "step", "a": s, "b": 1, "l": []}
        p = {"pulse_name": "P0", "bins_number": 2, "time_name": "T", "lower_limit": float(lo), "upper_limit": float(up),
             "amplitude_variation": 1.0, "basis": {"basis_name": "PiecewiseBasis", "bins_number": 2},
             "initial_guess": {"function_type": "lambda_function", "lambda_function": "lambda t: %d + t" % g},
             "scaling_function": {"function_type": "lambda_function",
                                  "lambda_function": "lambda t: np.where(t < 6, %d.0, 1.0)" % s}}
        if sh:
            p["shrink_ampl_lim"] = True
        if over:
            p["overwrite_base_pulse"] = True
        if ops != ["default"]:
            p["shaping_options"] = ops
        c = {"bins": 2, "T": 12, "lo": lo, "up": up, "shrink": sh, "ops": ops, "guess": gs, "scale": ss, "kind": 1, "nv": 1,
             "av": 1, "over": over, "grow": 0, "basis": ""}
        bests = range(16) if tier == "thorough" else [r.randrange(16)]
        for b in bests:
            vals = [i + 40 for i in range(49)]
            vals[b] = 30
            vals[16 + (b * 7 + 3) % 16] = 20
            scs.append({"id": len(scs), "seed": 1, "alg": "dCRAB", "nsi": 2, "rng": 1, "xlist": xs, "steps": 0, "opulses": [p],
                        "cpulses": [c], "oparams": [], "cparams": [], "files": {},
                        "otimes": [{"time_name": "T", "initial_value": 12.0}], "vals": vals})
    n = len(scs) // (16 if tier == "thorough" else 1)
    if n != initial:
        raise tlc.TlcError("PulseMC has %d initial states, the replay %d" % (initial, n))
    m.notes = {"pulses": initial, "coefficient vectors per super-iteration": 16, "super-iterations": sis}
    m.samples.append({"pulse of the design model": scs[len(scs) // 2]["cpulses"]})
    return [m, fam_pulse.bind(prop, scs, "pulses of the design model")]
