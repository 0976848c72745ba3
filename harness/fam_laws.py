"""Design models of the exact oracles (EvolutionMC, GradientMC, ToolsMC, ProblemsMC, BasisMC), explored exhaustively against laws that do not mention
the oracles; every behaviour of the models is replayed by the real code."""
import itertools
import os
import random
import tempfile

import fam_basis
import fam_evo
import fam_grad
import fam_prob
import fam_tools
import tlc
from result import Result

INV = {"EvolutionMC": "UnitaryAll Cut Product2 Undo First Additive Algebra Diagonal Mixed",
       "GradientMC": "Slope NoSlope Meet Unit Differences Flatness",
       "ToolsMC": "Factorwise AnyOrder Whole TwoSteps Digits Near1 Displace Pure",
       "ProblemsMC": "Range1 Complete Reverse Return Ray Ising FlipProb RosenMin",
       "BasisMC": "Nothing Own Wrong Odd Ends Level Symmetric Rising Moved Circle"}


def explore(module, consts):
    fd, path = tempfile.mkstemp(prefix="verif_cfg_", suffix=".cfg")
    with os.fdopen(fd, "w") as f:
        f.write("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n")
        f.write("".join(" %s = %d\n" % c for c in consts.items()))
        f.write("".join("INVARIANT %s\n" % i for i in INV[module].split()))
    try:
        rc, out = tlc.tlc(module, cfg=path, workers=8)
    finally:
        os.unlink(path)
    if rc != 0:
        raise tlc.TlcError(module + ": " + out[-3000:])
    return tlc.stats(out)


def evo_slices(n):
    if n == 1:
        cs = [[1], [2], [3]]
        strings, rest = cs, []
    else:
        cs = [[1, 0], [0, 2], [3, 3], [2, 1], [3, 0]]
        strings, rest = cs[:4], [0]
    out = [{"tilt": 0, "s": 1, "set": [[cs.index(q), k]], "ops": [[q, k]]} for q in strings for k in (-1, 1, 2, 3, 4, 6)]
    x, z = [1] + rest, [3] + rest
    out += [{"tilt": k, "s": s, "set": [[cs.index(x), k], [cs.index(z), s * k]], "ops": [[x, 0], [z, 0]]}
            for k in (1, -1, 2) for s in (1, -1)]
    if n == 2:
        out += [{"tilt": 0, "s": 1, "set": [[0, k], [1, j]], "ops": [[[1, 0], k], [[0, 2], j]]} for k in (1, 2) for j in (1, 2)]
    return cs, out


def evolution(prop, tier):
    res, scs = Result("Evolution design model"), []
    for n, length in [(1, 2), (2, 1)] if tier == "quick" else [(1, 3), (2, 2)]:
        g, d = explore("EvolutionMC", {"N": n, "LEN": length})
        res.transitions += g
        res.states += d
        cs, slices = evo_slices(n)
        if d != sum(len(slices)**k for k in range(length + 1)):
            raise tlc.TlcError("EvolutionMC has %d states, the replay %d slices" % (d, len(slices)))
        for i, q in enumerate(itertools.product(slices, repeat=length)):
            scs.append({"id": len(scs), "n": n, "dt": [1.0, 0.37, 1e-9][i % 3], "ctrl": cs, "w": [1.0] * len(cs), "drift": None,
                        "tilted": False, "slices": list(q), "first": [[cs[i % 3], 1]] if i % 2 else [], "extra": 0, "room": 0,
                        "ad": False, "store": 1 + i % 2, "matrix": False})
    res.notes = {"behaviours replayed": len(scs)}
    res.samples.append({"behaviour of the design model": scs[len(scs) // 2]["slices"]})
    return [res, fam_evo.bind(prop, scs, "behaviours of the design model")]


P1 = [[[[1, 0], [0, 0]], [[0, 0], [1, 0]]], [[[0, 0], [1, 0]], [[1, 0], [0, 0]]], [[[0, 0], [0, -1]], [[0, 1], [0, 0]]],
      [[[1, 0], [0, 0]], [[0, 0], [-1, 0]]]]


def lin(terms):
    return [[[sum(c * P1[p][i][j][k] for c, p in terms) for k in (0, 1)] for j in (0, 1)] for i in (0, 1)]


def imul(m):
    return [[[z[1], -z[0]] for z in row] for row in m]      # times -i


def turn(p, k):
    one, q = lin([(1, 0)]), imul(P1[p])
    add = [[[one[i][j][c] * (1 if k == 1 else -1) + q[i][j][c] for c in (0, 1)] for j in (0, 1)] for i in (0, 1)]
    return {1: {"m": add, "d": 1}, 2: {"m": q, "d": 0}, 3: {"m": add, "d": 1}}[k]


def gradient(prop, tier, seed):
    deep, length = (0, 2) if tier == "quick" else (1, 3)
    res = Result("Gradient design model")
    res.transitions, res.states = explore("GradientMC", {"LEN": length if not deep else 2, "DEEP": deep})
    sums = [(0, 1, 0), (1, 0, 0), (0, 0, -1), (1, -1, 2)] if deep else [(0, 1, 0), (1, -1, 2)]
    us = [turn(1, 1), turn(2, 1), turn(3, 2), {"m": imul(lin([(1, 1), (1, 3)])), "d": 1}]
    if deep:
        us += [turn(3, 1), turn(1, 3)]
    st = [lin([(1, 0)] + [(c, p + 1) for p, c in enumerate(s)]) for s in sums]
    r, scs = random.Random(seed), []
    for a, b, i in itertools.product(st, st, range(4)):
        qs = list(itertools.product(us, repeat=length))
        for q in qs if not deep else r.sample(qs, 100):
            scs.append({"id": len(scs), "alg": 0, "seed": 1, "fac": 1, "nsi": 1, "dt": [1.0, 0.1, 1e-9][len(scs) % 3], "par": [],
                        "plim": [], "stop": {}, "real": 0, "rho": a, "target": b, "B": P1[i], "us": [list(q)], "vals": [3, 2, 1],
                        "pulses": [{"bins": length, "guess": [0] * length, "sc": 1, "lo": -100000, "hi": 100000}],
                        "asks": [[[[1] * length, "fg"], [[2] * length, "fg"]]]})
    res.notes = {"behaviours replayed": len(scs)}
    res.samples.append({"propagators of the design model": scs[len(scs) // 2]["us"]})
    return [res, fam_grad.bind(prop, scs, "behaviours of the design model")]


FACTORS = [[[[1, 0], [0, 1]], [[0, -1], [2, 0]]], [[[3, 0], [1, 2]], [[0, 0], [-1, 0]]],
           [[[1, 0], [0, 0], [2, 1]], [[0, 1], [1, 0], [0, 0]], [[0, 0], [-1, 0], [1, 1]]],
           [[[2, 0]]], [[[0, 0], [1, 0]], [[1, 0], [0, 0]]]]


def tools(prop, tier):
    deep, parts = (0, 2) if tier == "quick" else (1, 3)
    fs = FACTORS if deep else FACTORS[:3]
    res = Result("Tools design model")
    res.transitions, res.states = explore("ToolsMC", {"PARTS": parts, "DEEP": deep})
    cases = []
    for n in range(1, parts + 1):
        for q in itertools.product(fs, repeat=n):
            m = [[[1, 0]]]
            for f in q:
                m = fam_grad.kron(m, f)
            for k in range(n + 1):
                for s in itertools.combinations(range(n), k):
                    cases.append({"kind": "ptrace", "dims": [len(f) for f in q], "out": list(s)[::-1 if len(m) % 2 else 1], "m": m,
                                  "tuple": k % 2 == 0})
    if res.states != sum(len(fs)**n for n in range(parts + 1)):
        raise tlc.TlcError("ToolsMC has %d states" % res.states)
    cases += [{"kind": "disp", "left": left, "k": k, "dir": d} for left in (1, 2) for k in range(8) for d in range(8)]
    for n in range(2, 5):
        for per in (1, 2, 3):
            t = [t for t in range(-3, 13) if (2 * t + per) % (2 * per)]      # ties are open
            cases.append({"kind": "resample", "vals": [[7 * i * i - 5] for i in range(n)], "per": per, "times": t, "dt": 1.0, "float": True,
                          "arr": True})
    scs = [{"id": i, "cases": cases[k:k + 6]} for i, k in enumerate(range(0, len(cases), 6))]
    res.notes = {"inputs replayed": len(cases)}
    res.samples.append({"input of the design model": cases[1]})
    return [res, fam_tools.bind(prop, scs, "inputs of the design model")]


STATES = [[[1, 0], [0, 0]], [[2, 0], [0, -2]], [[0, 0], [0, 3]], [[1, 1], [1, 0]]]


def problems(prop, tier, seed):
    length = 1 if tier == "quick" else 2
    res, scs = Result("Problems design model"), []
    res.transitions, res.states = explore("ProblemsMC", {"LEN": length, "NQ": 3})
    # a drive about x and y (two fields), about z (a detuning), about a tilted axis
    plane = [[{"k": k if p == 1 else -k, "dir": 0 if p == 1 else 6, "op": [0, p, k]} for k in (1, 2, -1)] for p in (1, 2)]
    plane = plane[0] + plane[1]
    base = {"prob": "two", "seed": seed, "how": False, "dt": 1.0, "tilted": False, "d1": 0, "d2": 0, "fac": 0, "drift": 0, "noise": 0,
            "off": False}
    for i, (a, b) in enumerate(itertools.product(STATES, STATES)):
        st = {"psi0": a, "target": b, "how": i % 2 == 0, "dt": [1.0, 0.37, 1e-9][i % 3]}
        scs.append({**base, **st, "d2": [0, 0.25][i % 2], "calls": [{"par": None, "slices": list(q)} for n in range(1, length + 2)
                                                                    for q in itertools.product(plane, repeat=n)]})
        scs.append({**base, **st, "prob": "one", "calls": [{"par": k, "slices": [{"k": 0, "dir": 0, "op": [0, 3, k]}] * n}
                                                           for n in (1, 2, 3) for k in (1, 2, -1)]})
        scs.append({**base, **st, "prob": "one", "tilted": True, "d1": 1, "calls": [
            {"par": k, "slices": [{"k": s * k, "dir": 0, "op": [1, 3, 1, s, k]} for s in q]}
            for k in (1, 2) for n in (1, 2, 3) for q in itertools.product((1, -1), repeat=n)]})
    ks = range(5)
    for n in (3, 4):
        for j, g in itertools.product(range(3), repeat=2):
            scs.append({"prob": "ising" if (j + g + n) % 2 else "isingad", "seed": 0, "how": False, "dt": 0.37, "n": n, "ns": 2,
                        "J": j, "g": g, "max": [None, 0, 1][j], "calls": [{"k": [a, b], "ask": True} for a, b in itertools.product(ks, ks)]
                        if j + g == 0 else [{"k": [0, 0], "ask": True}]})
    scs.append({"prob": "rosen", "seed": seed, "how": True, "dt": 1.0, "noise": 0,
                "xs": [list(x) for x in itertools.product(range(-3, 4), repeat=3)]})
    for i, s in enumerate(scs):
        s["id"] = i
    res.notes = {"behaviours replayed": sum(len(s.get("calls", s.get("xs"))) for s in scs)}
    res.samples.append({"behaviour of the design model": scs[0]["calls"][5]})
    return [res, fam_prob.bind(prop, scs, "behaviours of the design model")]


CASES = [("Fourier", 2, 0, 0, 0, 0, [1, 2]), ("Sinc", 2, 0, 0, 0, 0, [3, 7]), ("Sigmoid", 2, 0, 2, 0, 0, [4, 7]),
         ("Sigmoid", 2, 1, 0, 0, 0, [4, 7]), ("Sigmoid", 1, 0, 0, 0, 0, [6]), ("SigmoidTimeDep", 1, 0, 1, 1, 0, [6]),
         ("SigmoidAllParas", 1, 0, 1, 2, 0, [5])]


def basis(prop, tier):
    big = 1 if tier == "quick" else 2
    res, scs = Result("Basis design model"), []
    res.transitions, res.states = explore("BasisMC", {"R": big})
    total = 0
    for i, (b, n, S, O, tv, sv, w) in enumerate(CASES):
        p = {"basis": b, "N": 13, "n": n, "q": 1, "S": S, "O": O, "tv": tv, "sv": sv, "wu": 1.0, "dflt": False, "av": [1.0, 0.5, 8.0][i % 3],
             "h": [1.0, 0.5][i % 2], "ow": i % 2 == 0, "ws": [w, w]}
        xs = list(itertools.product(range(-big, big + 1), repeat=fam_basis.ncoef(p)))
        total += len(xs)
        for k in range(0, len(xs), 300):
            part = [[list(x)] for x in xs[k:k + 300]]
            # half of the behaviours in a second super-iteration
            h = len(part) // 2
            scs.append({"id": len(scs), "pulses": [p], "vecs": [part[:h], part[h:]], "foms": [3, 1, 4, 1, 5]})
    if res.states != total:
        raise tlc.TlcError("BasisMC has %d states, %d are replayed" % (res.states, total))
    res.notes = {"behaviours replayed": total}
    res.samples.append({"behaviour of the design model": {"pulse": scs[0]["pulses"][0], "coefficients": scs[0]["vecs"][0][5][0]}})
    return [res, fam_basis.bind(prop, scs, "behaviours of the design model")]


def run(prop, tier, seed):
    return {"C26": lambda: evolution(prop, tier), "C27": lambda: gradient(prop, tier, seed), "C28": lambda: tools(prop, tier),
            "C29": lambda: problems(prop, tier, seed), "C30": lambda: basis(prop, tier)}[prop]()
