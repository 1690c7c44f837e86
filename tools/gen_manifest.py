"""Regenerates MANIFEST.json from the checks that exist."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
T = {
 "N01": ("exploration", "exhaustive enumeration of operator applications over a boundary alphabet (all tuples, all depth-2 chains) on the real code; oracle: Python integers and fractions"),
 "N02": ("exploration", "exhaustive enumeration of division and bit operations over boundary alphabets on the real code; oracle: definitions over Python integers"),
}
exec(open(os.path.join(V, "tools", "techniques.py")).read()) if os.path.exists(os.path.join(V, "tools", "techniques.py")) else None
hooks_commits = open(os.path.join(V, "tools", "hook_commits.txt")).read().split() if os.path.exists(os.path.join(V, "tools", "hook_commits.txt")) else []
m = {"version": 1, "setup_cmd": "true",
     "hooks": {"guard": "MEEVAX_VERIFICATION", "enable": "compile with -DMEEVAX_VERIFICATION (done by lib/mvbuild.py, flavour hook)", "source_commits": hooks_commits},
     "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i + ".py")) and i in T:
        lv, te = T[i][:2]
        m["checks"].append({"property": i, "quick_cmd": "python3 checks/%s.py --tier quick" % i, "thorough_cmd": "python3 checks/%s.py --tier thorough" % i,
                            "evidence_file": "evidence/%s.json" % i, "technique": "model checking: " + te, "level": lv,
                            "level_note": T[i][2] if len(T[i]) > 2 else "exhaustive within the bounds listed in DESIGN.md and in the evidence file; nothing is said beyond them"})
    else:
        m["not_applicable"].append({"property": i, "reason": "check not built yet"})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
