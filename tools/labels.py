"""print the label counts of an evidence file"""
import json, sys
for p in sys.argv[1:]:
    d = json.load(open(p))
    cov = d["coverage"]
    print(d["property"], cov["evaluations"], cov["distinct_nontrivial"], json.dumps({k: v for k, v in cov.items() if k not in ("samples", "rule", "evaluations", "distinct_nontrivial")})[:1500])
