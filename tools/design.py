#!/usr/bin/env python3
# design.py: DESIGN.md = design_head.md + the table of the planted bugs
import json,os
here=os.path.dirname(os.path.abspath(__file__)); root=os.path.dirname(here)
missed=json.load(open(here+'/missed.json'))
out=open(here+'/design_head.md').read()
out+="""## Planted bugs

Each is in `seeded/ID/` (patch, demonstration, meta.json). All were written from the property's text and the code,
kept when they compile, pass the existing tests and fail the demonstration. The check of the named property catches
each of them with the seeds 1 - 3 unless said otherwise. *First missed* tells what the check didn't do then and what it
has been strengthened with.

| bug | property | breaks | first missed |
|---|---|---|---|
"""
for i in sorted(os.listdir(root+'/seeded')):
    m=json.load(open(f'{root}/seeded/{i}/meta.json'))
    out+=f"| {i} | {m['property']} | {m['what_it_breaks'].replace('|','/')} ({m['needs'].replace('|','/')}) | {missed.get(i,'')} |\n"
open(root+'/DESIGN.md','w').write(out)
