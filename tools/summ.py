"""Summarises worker output: number of runs per class and a few examples."""
import sys, json, collections
by = collections.OrderedDict(); n = 0
for l in sys.stdin:
    try: d = json.loads(l)
    except Exception: print("BAD", l[:200]); continue
    n += 1
    if d["cls"]:
        import re
        k = (d["cls"], re.sub(r"[0-9]+", "N", d.get("msg", ""))[:int(sys.argv[1]) if len(sys.argv) > 1 else 70])
        by.setdefault(k, []).append(d)
print("runs", n)
for k, v in sorted(by.items(), key=lambda x: -len(x[1])):
    d = v[0]
    kn = {a[0]: a[1] for a in d["knobs"] if a[0] in ("wtype", "s0.compress", "s0.atstop", "s0.prestart", "nses","s0.pretrig")}
    print(len(v), k[0], "seeds", [x["seed"] for x in v[:4]], d["stage"], "|", d["msg"][:260], kn, d.get("faults"))
