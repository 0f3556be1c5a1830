#!/usr/bin/env python3
"""Records, for the unchanged tree, the loop shapes of the extracted functions and the unreachable points. Run by hand when a unit changes."""
import json, os, sys
sys.argv = ["check.py", "-"]
src = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "check.py")).read().rsplit("\nmain()\n", 1)[0]
exec(compile(src.replace("__file__", repr(os.path.join(os.path.dirname(os.path.abspath(__file__)), "check.py"))), "check.py", "exec"))
work = f"{BUILD}/work/baseline"
os.makedirs(work, exist_ok=True)
path = f"{VERIF}/units/baseline.json"
if not os.path.exists(path):
    open(path, "w").write("{}")
print(build_extract()[0])
ex = expand(work)
out = {}
ok = True
runs = []
open(path, "w").write("{}")
for u in config.UNITS:
    x = Unit(u, work, ex).run()
    runs.append(x)
    out[u] = {k: {w: f[w] for w in ("loops", "closures") if f.get(w)} for k, f in x.fns.items() if f.get("loops") or f.get("closures")}
    out[u]["*unreachable"] = sorted(x.vacuous)
    print(u, x.verified, x.errors, "failed", list(x.failed), "undecided", {k: v for k, v in x.undecided.items() if "vacuous" not in v}, "unreachable", x.vacuous, x.vacuity)
inv = inventory(ex)
out["*inventory"] = sorted({f"{f} | {k} :: {n}" for f, k, n, _ in inv if " for " in k})
# functions under no contract
seen = {(f["file"], str(f["src_line"])) for x in runs for f in x.fns.values()}
exp = {(f[9:], k, n) for f, k, n, l in inv if f.startswith("expanded:") and (f, l) in seen}
out["*no_contract"] = sorted({f"{f} | {k} :: {n}" for f, k, n, l in inv if f.startswith("src/") and (f, l) not in seen and (f[4:-3], k, n) not in exp and not k.startswith("trait")})
out["*functions"] = len({(f, k, n) for f, k, n, l in inv if f.startswith("src/")})
print("no contract:", out["*no_contract"])
json.dump(out, open(path, "w"), indent=1, sort_keys=True)
