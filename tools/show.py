#!/usr/bin/env python3
"""prints what a replay file says"""
import json, re, sys
for f in sys.argv[1:]:
    d = json.load(open(f))
    i = d["info"] or {}
    print("==", f.split("/")[-1], {k: i.get(k) for k in ("fam", "kind", "B", "N", "M", "complex", "opt", "shapes", "roles")})
    for m in re.findall(r'<<(\d+), "([^"]+)", (-?\d+), (-?\d+)>>', d["detail"])[:6]:
        v = d["case"]["views"][int(m[0]) - 1]
        print("   ", m[1:], d["labels"][int(m[0]) - 1][:2], v.get("err", ""), v.get("clause", ""))
    print("   accepted:", [l[0] for n, l in enumerate(d["labels"]) if "<<%d," % (n + 1) not in d["detail"]][:4])
