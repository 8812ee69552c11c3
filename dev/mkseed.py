#!/usr/bin/env python3
"""dev/mkseed.py SPEC.py ... : write seeded/<id>/ from specs. A spec defines
SEEDS = [dict(id, property, needs, breaks, edits=[(file, old, new[, nth])], demo=js)]"""
import sys,json,os,subprocess,difflib,runpy
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for spec in sys.argv[1:]:
    for s in runpy.run_path(spec)['SEEDS']:
        d=f"{V}/seeded/{s['id']}"; os.makedirs(d,exist_ok=True)
        out="";files={}
        for e in s['edits']:
            f,old,new=e[:3]; nth=e[3] if len(e)>3 else None
            orig,cur=files.get(f,(None,None))
            if cur is None: orig=cur=open(f"/repo/{f}").read()
            n=cur.count(old)
            if n==0 or (nth is None and n!=1): sys.exit(f"{s['id']}: {n} matches of {old!r} in {f}")
            i=-1
            for _ in range((nth or 0)+1): i=cur.index(old,i+1)
            files[f]=(orig,cur[:i]+new+cur[i+len(old):])
        for f,(o,c) in files.items():
            out+=f"diff --git a/{f} b/{f}\n"+"".join(difflib.unified_diff(o.splitlines(True),c.splitlines(True),"a/"+f,"b/"+f))
        open(d+"/patch.diff","w").write(out)
        open(d+"/demo.mjs","w").write(s['demo'])
        open(d+"/demo.sh","w").write('#!/bin/bash\nexec node "$(dirname "$0")/demo.mjs"\n'); os.chmod(d+"/demo.sh",0o755)
        json.dump({"property":s['property'],"needs":s['needs'],"what_it_breaks":s['breaks']},open(d+"/meta.json","w"),indent=1)
        print(s['id'])
