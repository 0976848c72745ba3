"""Design model of the simplex method (NMMC), explored exhaustively; every behaviour it prints is replayed into the real
search and the resulting trace is validated."""
import json
import os
import re
import tempfile

import tlc
import fam_nm
from result import Result

START = {d: [[(84000 + 9000 * (j + 1) if i == j + 1 else 20000 * (j + 1) - 50000) for j in range(d)]
             for i in range(d + 1)] for d in (1, 2, 3)}
INV = "BestKept SortedInv Agree OnePhase Progress NonEmpty CanGoOn".split()


def explore(dim, adapt, k, n):
    fd, path = tempfile.mkstemp(prefix="verif_cfg_", suffix=".cfg")
    with os.fdopen(fd, "w") as f:
        f.write("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n DIM = %d\n ADAPT = %d\n K = %d\n N = %d\n" % (
            dim, adapt, k, n))
        f.write("".join("INVARIANT %s\n" % i for i in INV))
    try:
        rc, out = tlc.tlc("NMMC", cfg=path, workers=8)
    finally:
        os.unlink(path)
    if rc != 0:
        raise tlc.TlcError("NMMC: " + out[-3000:])
    g, d = tlc.stats(out)
    scripts = {tuple(json.loads(m)) for m in re.findall(r'"?SCRIPT (\[[^\]]*\])', out)}
    return g, d, sorted(scripts)


def run(prop, tier, seed):
    confs = [(1, 0, 2, 6), (1, 1, 2, 6), (2, 0, 2, 6), (2, 1, 2, 6)]
    if tier == "thorough":
        confs = [(1, 0, 3, 8), (1, 1, 3, 8), (2, 0, 3, 8), (2, 1, 3, 8), (3, 0, 2, 9), (3, 1, 2, 9)]
    out, scs = [], []
    m = Result("Nelder-Mead design model")
    for dim, adapt, k, n in confs:
        g, d, scripts = explore(dim, adapt, k, n)
        m.states += d
        m.transitions += g
        m.notes["dim %d adaptive %d, values 0..%d, limit %d" % (dim, adapt, k, n)] = {"states": d, "behaviours": len(scripts)}
        for v in scripts:
            scs.append({"id": len(scs), "seed": 1, "start": START[dim], "vals": [6 * x for x in v], "durs": [0],
                        "adaptive": bool(adapt), "maxev": n})
    m.samples.append({"behaviour of the design model": scs[len(scs) // 2]})
    return [m, fam_nm.bind(prop, scs, "behaviours of the design model")]
