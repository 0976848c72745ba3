#!/opt/veriftools/pyvenv/bin/python
"""check.py <property> [quick|thorough]: decides one property.  Exit 0: it held on everything explored; 1: VIOLATION."""
import os
import sys
import json
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(HERE, "harness"))
import families  # noqa: E402


def known(path):
    """Listed findings: lines 'known: property=<id> clause=<clause> key=<key> <what fails>'."""
    out = []
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("known:"):
                d = dict(w.split("=", 1) for w in line.split()[1:] if "=" in w)
                out.append((d["property"], d["clause"], d.get("key", ""), line.strip()))
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    ev = os.path.join(HERE, "evidence")
    os.makedirs(ev, exist_ok=True)
    for f in os.listdir(ev):
        if f.startswith("replay_%s_" % prop):
            os.unlink(os.path.join(ev, f))
    results = families.run(prop, tier, seed)
    listed = known(os.path.join(HERE, "known_findings.txt"))
    seen, rows, quiet = {}, [], set()
    for r in results:
        for v in r.violations:
            key = v["replay"].get("key", "") if isinstance(v["replay"], dict) else ""
            hit = [k for k in listed if k[0] == prop and k[1] == v["clause"] and k[2] == key]
            if hit:
                quiet.add(hit[0][3])
                continue
            seen[v["clause"]] = seen.get(v["clause"], 0) + 1
            if seen[v["clause"]] <= 3:
                p = os.path.join(ev, "replay_%s_%s_%d.json" % (prop, v["clause"], seen[v["clause"]]))
                with open(p, "w") as f:
                    json.dump(v["replay"], f, indent=1, default=str)
                rows.append((v["clause"], v["what"], p))
    for q in sorted(quiet):
        print("KNOWN-FINDING: property=%s %s" % (prop, q))
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": sum(r.states for r in results), "transitions": sum(r.transitions for r in results),
            "traces_validated_against_impl": sum(r.traces for r in results),
            "samples": [s for r in results for s in r.samples][:6],
            "families": [{"family": r.name, "states": r.states, "transitions": r.transitions, "traces": r.traces,
                          "events": r.events, **r.notes} for r in results]},
        "assumptions": families.ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 2), "violations": sum(seen.values())}
    with open(os.path.join(ev, prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1, default=str)
    for c, what, p in rows:
        print("  %s: %s" % (c, what))
        print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(p, HERE)))
    print("%s %s: %d traces, %d states, %d violations, %.1f s" % (
        prop, tier, evidence["coverage"]["traces_validated_against_impl"], evidence["coverage"]["states"],
        sum(seen.values()), time.time() - t0))
    return 1 if rows else 0


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
