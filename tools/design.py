#!/usr/bin/env python3
# Writes DESIGN.md from tools/design_*.md, MANIFEST.json, tools/notes.json and
# the seeds (tools/catches.json: which checks catch which planted bugs).
import json,os
os.chdir(os.path.dirname(os.path.abspath(__file__))+'/..')
m={c['property']:c for c in json.load(open('MANIFEST.json'))['checks']}
props=[json.loads(l) for l in open('properties.jsonl')]
notes=json.load(open('tools/notes.json'))
o=open('tools/design_head.md').read()
o+='## Properties\n\n'
o+='Cost is the wall time of the quick check on 8 cores; thorough is about 25 times that.\n\n'
for p in props:
    i=p['id']; c=m[i]
    o+='### %s %s\n\n%s\n\n'%(i,p['title'],p['statement'])
    o+='- Technique: %s.\n- Oracle and bounds: %s\n'%(c['technique'],c['level_note'])
    n=notes.get(i)
    if n: o+='- Workloads: %s\n- Beyond tests: %s\n- Cost: %s\n'%tuple(n)
    o+='\n'
o+='not_applicable: none; every property is decided by runtime monitoring.\n'
o+=open('tools/design_tail.md').read()
o+='\n## Planted bugs\n\nEach is in seeded/<id> with a demonstration. "caught by" lists quick checks that report it (seed 1).\n\n| id | property | needs | caught by |\n|---|---|---|---|\n'
cat=json.load(open('tools/catches.json')) if os.path.exists('tools/catches.json') else {}
for d in sorted(os.listdir('seeded')):
    j=json.load(open('seeded/%s/meta.json'%d))
    o+='| %s | %s | %s | %s |\n'%(d,j['property'],j['needs'].replace('|','\\|').replace('\n',' '),', '.join(cat.get(d,[])) or 'see below')
if os.path.exists('tools/design_mut.md'): o+=open('tools/design_mut.md').read()
open('DESIGN.md','w').write(o)
