#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the harnesses that exist."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NOTE = {}
checks, na = [], []
for p in props:
    i = p["id"]; cc = V + "/harness/%s.cc" % i; py = V + "/harness/%s.py" % i
    if os.path.exists(cc) or os.path.exists(py):
        src = open(cc if os.path.exists(cc) else py).read()
        n = len(re.findall(r"^FACET\(", src, re.M)) or len(re.findall(r'\("\w+", facet_\w+, \d+', src))
        tech = ("property-based testing: %d generated-input facet%s with explicit oracles (reference models, conservation and metamorphic relations), "
                "choice-sequence generation with shrinking to a replay file" % (n, "" if n == 1 else "s"))
        if "// vpt: san" in src[:4000]: tech += ", under AddressSanitizer and UndefinedBehaviorSanitizer"
        checks.append({"property": i, "quick_cmd": "python3 run_check.py %s" % i, "thorough_cmd": "python3 run_check.py %s --thorough" % i,
                       "technique": tech, "level": "exploration",
                       "level_note": NOTE.get(i, "randomised search over the generators described in DESIGN.md; floating-point comparisons use stated tolerances")})
    else:
        na.append({"property": i, "reason": "no harness built (yet); nothing is claimed for it"})
m = {"version": 1, "setup_cmd": "python3 run_check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "Every check rebuilds from /repo's working tree with content-hash-cached objects under build/ (git-ignored). VERIF_SEED selects the seed."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); print(len(checks), "checks,", len(na), "not claimed")
