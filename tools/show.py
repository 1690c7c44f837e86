"""Summarises the replay files of a property: tools/show.py ID [n]"""
import json, glob, collections, sys, os
pid = sys.argv[1]; n = int(sys.argv[2]) if len(sys.argv) > 2 else 8
d = collections.defaultdict(list)
ev = json.load(open(os.path.join(os.path.dirname(__file__), "..", "evidence", pid + ".json")))
for k in range(ev["violations"]):
    f = os.path.join(os.path.dirname(__file__), "..", "evidence", "replay", "%s-%d.json" % (pid, k))
    if os.path.exists(f):
        j = json.load(open(f)); d[j["part"]].append(j)
for p, l in d.items():
    print("##", p, len(l))
    for x in l[::max(1, len(l) // n)]:
        print("  ", x["case"][-400:].replace("\n", "\\n")); print("      want", str(x["expected"])[:300], "| why", x["why"][:200]); print("      got ", str(x["observed"])[:300])
