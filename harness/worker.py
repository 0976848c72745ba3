import sys
import os
import json

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
fn, inp, outp, wd = sys.argv[1:5]
with open(inp) as f:
    scs = json.load(f)
import importlib  # noqa: E402
m, f = fn.rsplit(".", 1)
mod = importlib.import_module(m)
res = []
for sc in scs:
    os.chdir(wd)
    try:
        res.append(getattr(mod, f)(sc, wd))
        if res[-1].get("hang"):
            break
    except Exception as ex:
        import traceback
        res.append({"id": sc.get("id"), "machinery": repr(ex) + traceback.format_exc()})
with open(outp, "w") as f:
    json.dump(res, f)
os._exit(0)
