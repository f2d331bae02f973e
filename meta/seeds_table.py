#!/usr/bin/env python3
"""Rewrites the planted-bug table of DESIGN.md from seeded/*/meta.json and meta/seed_results.json."""
import json,glob,os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res=json.load(open(root+'/meta/seed_results.json'))
rows=["| planted bug | property | needs | caught by |","|---|---|---|---|"]
for f in sorted(glob.glob(root+'/seeded/*/meta.json')):
    n=os.path.basename(os.path.dirname(f)); m=json.load(open(f))
    needs=' '.join(m['needs'].split())
    rows.append("| %s | %s | %s | %s |"%(n,m['property'],needs.replace('|','/'),res.get(n,'%s quick'%m['property'])))
p=root+'/DESIGN.md'; s=open(p).read()
a,b='<!-- seeds -->\n','<!-- /seeds -->'
i,j=s.index(a)+len(a),s.index(b)
open(p,'w').write(s[:i]+'\n'.join(rows)+'\n'+s[j:])
