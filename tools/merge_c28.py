"""merge_c28.py DIR TIER: one evidence file for C28 from those of the generators run on the sanitised build."""
import glob, json, os, sys
d, tier = sys.argv[1:3]
ev = {os.path.basename(f)[:-5]: json.load(open(f)) for f in sorted(glob.glob(d + "/C*.json"))}
cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": "the case is non-trivial for the property whose generator made it", "samples": [], "by_generator": {}}
for k, e in ev.items():
    c = e["coverage"]
    cov["evaluations"] += c["evaluations"]
    cov["distinct_nontrivial"] += c["distinct_nontrivial"]
    cov["samples"] += ["%s %s" % (k, s[:400]) for s in c["samples"][:1]]
    cov["by_generator"][k] = {"evaluations": c["evaluations"], "distinct_nontrivial": c["distinct_nontrivial"], "labels": c.get("labels", {})}
out = {"property": "C28", "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "exploration", "coverage": cov,
       "assumptions": ["accesses that stay inside one heap block (a slice store) are seen only where the store holds a single slice (C12, C13) or the contents are compared (C11..C15)",
                       "reads of uninitialised memory are not detected", "memory errors only; wrong results and panics are the other properties'"],
       "wall_s": round(sum(e["wall_s"] for e in ev.values()), 2), "violations": sum(e["violations"] for e in ev.values())}
os.makedirs("evidence", exist_ok=True)
json.dump(out, open("evidence/C28.json", "w"), indent=1)
