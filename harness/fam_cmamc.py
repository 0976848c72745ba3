"""Design model of the CMA-ES protocol (CmaesMC), explored exhaustively; its behaviours are replayed into the real search."""
import json
import os
import re
import tempfile

import tlc
import fam_cma
from result import Result

INV = "Whole Budget Reason Prompt ResultIsLast Enabled".split()


def explore(pop, k, n, cbn, fatol):
    fd, path = tempfile.mkstemp(prefix="verif_cfg_", suffix=".cfg")
    with os.fdopen(fd, "w") as f:
        f.write("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n POP = %d\n K = %d\n N = %d\n CBN = %d\n FATOL = %d\n"
                % (pop, k, n, cbn, fatol))
        f.write("".join("INVARIANT %s\n" % i for i in INV))
    try:
        rc, out = tlc.tlc("CmaesMC", cfg=path, workers=8)
    finally:
        os.unlink(path)
    if rc != 0:
        raise tlc.TlcError("CmaesMC: " + out[-3000:])
    g, d = tlc.stats(out)
    scripts = {m.replace("\\", "") for m in re.findall(r'SCRIPT (\{.*?\})"', out)}
    return g, d, [json.loads(x) for x in sorted(scripts)]


def run(prop, tier, seed):
    confs = [(2, 2, 4, 0, 0), (2, 1, 5, 3, 0), (3, 1, 4, 0, 0), (2, 2, 4, 0, 1)]
    if tier == "thorough":
        confs = [(2, 2, 6, 0, 0), (2, 2, 6, 3, 0), (3, 2, 4, 0, 0), (3, 1, 7, 4, 0), (4, 1, 8, 0, 0), (2, 3, 4, 0, 1)]
    scs = []
    m = Result("CMA-ES design model")
    for pop, k, n, cbn, fatol in confs:
        g, d, scripts = explore(pop, k, n, cbn, fatol)
        m.states += d
        m.transitions += g
        m.notes["population %d, values 0..%d, limit %d, stop at %d, fatol %d" % (pop, k, n, cbn, fatol)] = {
            "states": d, "behaviours": len(scripts)}
        for v in scripts:
            scs.append({"id": len(scs), "seed": 1, "pop": pop, "x0": [40], "sv": [40], "zper": 2, "zoff": 1,
                        "z": [x / 4 for x in v["z"]], "vals": v["f"], "durs": [0], "maxev": n, "cbn": cbn,
                        "fatol": fatol})
    m.samples.append({"behaviour of the design model": scs[len(scs) // 2]})
    return [m, fam_cma.bind(prop, scs, "behaviours of the design model")]
