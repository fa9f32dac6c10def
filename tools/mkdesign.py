#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from tools/design.md.in: fills in the table of planted bugs (seeded/*/meta.json),
the result of the last recheck (tools/recheck.txt, if present) and the list of repaired defects."""
import json,os,glob,re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src=open(V+'/tools/design.md.in').read()
caught={}
p=V+'/tools/recheck.txt'
if os.path.exists(p):
    for l in open(p):
        m=re.match(r'(\S+)\s+(C\d\d)\s+(\S.*)$',l.strip())
        if m: caught[m[1]]=m[3]
rows=[]
for d in sorted(glob.glob(V+'/seeded/*/')):
    i=os.path.basename(d[:-1]); m=json.load(open(d+'meta.json'))
    rows.append(f"| {i} | {m['needs']} | {caught.get(i,'')} |")
fixed=[]
for l in open(V+'/known-findings.txt'):
    m=re.match(r'fixed: property=(\S+) (\S+) (.*)',l.strip())
    if m: fixed.append(f"| {m[1]} | {m[2]} | {m[3]} |")
out=src.replace('@@SEEDED@@','\n'.join(rows)).replace('@@FIXED@@','\n'.join(fixed)).replace('@@NSEEDED@@',str(len(rows))).replace('@@NFIXED@@',str(len(fixed)))
open(V+'/DESIGN.md','w').write(out)
