#!/usr/bin/env python3
"""prints the table of DESIGN.md section 2 from evidence/*.json"""
import json, glob, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
print("| id | models | states | transitions | histories replayed | seconds |\n|---|---|---|---|---|---|")
for f in sorted(glob.glob(f"{root}/evidence/*.json")):
    d = json.load(open(f)); c = d["coverage"]
    ms = c["models"]
    deep = max(m["depth"] for m in ms)
    print(f"| {d['property']} | {len(ms)} ({sum(m['closed'] for m in ms)} closed, depth to {deep}) | {c['states']} | {c['transitions']} | {c['traces_validated_against_impl']} | {d['wall_s']:.1f} |")
