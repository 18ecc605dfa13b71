#!/usr/bin/env python3
"""writes DESIGN.md"""
import json,os,re
V='/verif'
out=open(f'{V}/tools/design.head.md').read()
claims={}
for l in open(f'{V}/tools/claims.txt'):
    f=[x.strip() for x in l.split('|')]
    if len(f)>=3: claims[f[0]]=f
seeds={}
res={}
if os.path.exists(f'{V}/tools/seedresults.txt'):
    for l in open(f'{V}/tools/seedresults.txt'):
        a=l.split()
        if len(a)==2: res[a[0]]=a[1]
for i in sorted(os.listdir(f'{V}/seeded')):
    m=json.load(open(f'{V}/seeded/{i}/meta.json'))
    seeds.setdefault(m['property'],[]).append((i,m['needs']))
fixed={};known={}
for l in open(f'{V}/known-findings.txt'):
    m=re.match(r'fixed: property=(\S+) (\S+) (.*)',l)
    if m: fixed.setdefault(m[1],[]).append((m[2],m[3]))
    m=re.match(r'known: property=(\S+) case=("(?:[^"\\]|\\.)*") (.*)',l)
    if m: known.setdefault(m[1],[]).append((m[2],m[3]))
out+='## Properties\n\n'
for l in open(f'{V}/properties.jsonl'):
    p=json.loads(l); i=p['id']
    out+=f"### {i} {p['title']}\n\n"
    if i in claims: out+=f"Method: {claims[i][1]}. {claims[i][2].rstrip('.')}.\n\n"
    try: e=json.load(open(f'{V}/evidence/{i}.json'))
    except Exception: e=None
    if e:
        c=e['coverage']
        out+=f"Explored: {c['rule']}\n\nBounds: {c['bounds']}\n\n"
        if e['assumptions']: out+='Assumes: '+'; '.join(e['assumptions'])+'.\n\n'
        if e['tier']=='quick' and c.get('exhaustive'): out+=f"Quick run: {c['traces_validated_against_impl']} cases, {c['transitions']} compared steps, {c['states']} distinct states, {e['wall_s']:.0f} s.\n\n"
    out+='Beyond the tests: '+p['why_tests_cant']+'\n\n'
    if i in known: out+='Known findings: '+'; '.join(f'{b} (case {a})' for a,b in known[i])+'.\n\n'
    if i in fixed: out+='Defects found and repaired: '+'; '.join(f'{b} ({a})' for a,b in fixed[i])+'.\n\n'
    if i in seeds: out+='Planted bugs: '+'; '.join(f"`{a}` (needs {n}): {res.get(a,'?')}" for a,n in seeds[i])+'.\n\n'
open(f'{V}/DESIGN.md','w').write(out)
