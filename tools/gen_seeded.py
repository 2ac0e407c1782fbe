#!/usr/bin/env python3
"""Writes design_seeded.md: every planted bug and the check that catches it."""
import json, glob, os
here=os.path.dirname(os.path.abspath(__file__)); root=here+"/.."
missed=set(open(here+"/missed.txt").read().split()) if os.path.exists(here+"/missed.txt") else set()
o="""
## Planted bugs

Each lies in `seeded/<id>` with its demonstration and is caught by the quick check of the property it
breaks (a line `VIOLATION property=...` and exit 1) unless the last column says otherwise. They were
written in eight rounds from the statements and the code; those a round missed led to the families above.

| bug | property | needs | caught by |
|---|---|---|---|
"""
for m in sorted(glob.glob(root+"/seeded/*/meta.json"), key=lambda m:(json.load(open(m))["property"],m)):
    d=json.load(open(m)); i=m.split("/")[-2]
    o+=f"| {i} | {d['property']} | {d['needs']} | {'not caught' if i in missed else d['property']} |\n"
open(here+"/design_seeded.md","w").write(o)
