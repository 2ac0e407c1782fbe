#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from design_head.md, the harness and the other lists."""
import json, os, re, glob
here=os.path.dirname(os.path.abspath(__file__)); root=os.path.join(here,"..")
man={c["property"]:c for c in json.load(open(root+"/MANIFEST.json"))["checks"]}
cost=json.load(open(here+"/cost.json"))
out=open(here+"/design_head.md").read()
for l in open(root+"/properties.jsonl"):
    d=json.loads(l); i=d["id"]
    src=open(f"{root}/harness/src/props/{i.lower()}.rs").read()
    sp=re.search(r'space: "((?:[^"\\]|\\.|\\\n)*)"',src,re.S).group(1)
    sp=re.sub(r"\\\n\s*","",sp)
    ass=re.search(r"assumptions: &\[(.*?)\],\n",src,re.S).group(1)
    ass=re.findall(r'"((?:[^"\\]|\\.)*)"',ass)
    out+=f"### {i} {d['title']}\n\n{d['statement']}\n\n"
    out+=f"*Explored:* {sp}.\n\n*How decided:* {man[i]['technique'].split(': ',1)[1]}; {man[i]['level_note'].split('nothing is claimed. ')[1] or ''}\n\n"
    if ass: out+="*Assumes:* "+"; ".join(ass)+".\n\n"
    q,t=cost.get(i,["?","?"])
    out+=f"*Cost:* quick {q} s, thorough {t} s. *Beyond the tests:* {d['why_tests_cant']}\n\n"
out+=open(here+"/design_tail.md").read()
for p in ["design_seeded.md"]:
    if os.path.exists(here+"/"+p): out+=open(here+"/"+p).read()
open(root+"/DESIGN.md","w").write(out)
