"""Run a small sample of every family with all clauses (to look for blind spots; not a registered check).
   allfast.py [seed]: prints the clauses that are broken, as one line of JSON."""
import collections
import json
import os
import random
import sys
import time

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
import fam_cma, fam_dump, fam_exchange, fam_folder, fam_lock, fam_nm, fam_optim, fam_optimmc, fam_pulse, fam_super, gen, pool  # noqa

seed = int(sys.argv[1]) if len(sys.argv) > 1 else 1
every = float(os.environ.get("VERIF_SAMPLE", "0.3"))
real = pool.run


def sampled(scs, fn="qh.execute", **kw):
    if fn not in ("qh.execute", "lock.execute"):
        scs = random.Random(1).sample(scs, max(8, int(len(scs) * every)))
    return real(scs, fn, **kw)


pool.run = sampled
fam_optim.mine = lambda *a: True
foci = sorted({f for v in fam_optim.FOCI.values() for f in v} | set(gen.FOCI))
fam_optim.scenarios = lambda p, t, s: gen.batch(s, int(5000 * every), foci) + gen.batch(s, 24, ["ad"], base=10**6)
ls = fam_lock.scenarios
fam_lock.scenarios = lambda p, t, s: random.Random(2).sample(ls(p, t, s), int(1500 * every))


class Any:
    def __contains__(self, x):
        return True


class Every(dict):
    def __getitem__(self, k):
        return Any()


fam_optimmc.OWN = {"C01": {x for v in fam_optimmc.OWN.values() for x in v}}
for m in (fam_nm, fam_cma, fam_pulse, fam_super, fam_dump):
    m.TAGS = Every()
out, t0 = {}, time.time()
for f, p in ((fam_optim.run, "C01"), (fam_nm.run, "C16"), (fam_cma.run, "C17"), (fam_pulse.run, "C19"), (fam_super.run, "C21"),
             (fam_dump.run, "C22"), (fam_folder.run, "C23"), (fam_exchange.run, "C24"), (fam_lock.run, "C14"),
             (fam_lock.run, "C15"), (fam_optimmc.run, "C01")):
    try:
        r = f(p, "quick", seed)
    except Exception as ex:
        out.setdefault("MACHINERY", repr(ex)[:300])
        continue
    for x in r if isinstance(r, list) else [r]:
        for v in x.violations:
            k = f.__module__[4:] + ":" + v["clause"]
            out[k] = out.get(k, 0) + 1
print(json.dumps({"seconds": round(time.time() - t0), "broken": out}))
