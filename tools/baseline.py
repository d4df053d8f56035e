"""Compares a result of /opt/vp/test.sh with the baseline:  baseline.py OUT.json"""
import json
import sys

r = json.load(open(sys.argv[1]))
b = json.load(open("/opt/vp/BASELINE.json"))["stable"]
p = r.get("passed", r)
p = set(p if isinstance(p, list) else [k for k, v in p.items() if v in (True, "passed", "PASS")])
miss = [t for t in b if t not in p]
print(len(b), "stable;", len(miss), "not passed:", miss[:20])
