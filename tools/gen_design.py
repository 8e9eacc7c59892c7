#!/usr/bin/env python3
"""DESIGN.md = design_head.md + one section per property (properties.jsonl, levels.json, rules and subs in
harness/src, design_notes.json) + design_tail.md + the table of planted bugs (seeded/*/meta.json)"""
import json, os, re, glob
V=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
lv=json.load(open(V+"/tools/levels.json")); notes=json.load(open(V+"/tools/design_notes.json"))
info={}
for f in glob.glob(V+"/harness/src/p_*.rs"):
    s=open(f).read()
    for m in re.finditer(r'id: "([BM]\d\d)",(.*?)(?=\n\s+Prop \{|\n\}\n|\nfn )',s,re.S):
        body=m.group(2); rule=re.search(r'rule: "(.*?)",\n',body,re.S)
        subs=re.findall(r'sub\("(\w+)", ([\d_]+), ([\d_]+)',body)
        info[m.group(1)]=(rule.group(1) if rule else "",subs,os.path.basename(f))
out=open(V+"/tools/design_head.md").read()
for l in open(V+"/properties.jsonl"):
    p=json.loads(l); i=p["id"]; rule,subs,f=info[i]
    out+=f"\n### {i} {p['title']}\n\n"
    out+=f"*Technique.* {lv[i]['technique']}. *Generator and non-triviality:* {rule}. "
    out+="*Generators (quick / thorough cases per variant):* "+", ".join(f"`{a}` {b.replace('_','')}/{c.replace('_','')}" for a,b,c in subs)+f" ({f}).\n\n"
    out+=f"*Oracle.* {notes[i]['oracle']}\n\n*Why beyond the tests.* {notes[i]['why']}\n\n*Bounds.* {lv[i]['note']}\n"
out+="\n"+open(V+"/tools/design_tail.md").read()
rows=[]
for d in sorted(glob.glob(V+"/seeded/*/meta.json")):
    m=json.load(open(d)); n=os.path.basename(os.path.dirname(d))
    rows.append(f"| {n} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {m.get('caught_by','')} |")
out+="\n| id | property | what it breaks | needs | caught by |\n|---|---|---|---|---|\n"+"\n".join(rows)+"\n"
open(V+"/DESIGN.md","w").write(out)
