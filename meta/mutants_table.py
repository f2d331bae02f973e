#!/usr/bin/env python3
"""Rewrites the mutant table of DESIGN.md from a mutrun log (default /tmp/mu/log.jsonl), keeping files the log does not name."""
import json,os,sys,re
from collections import Counter,defaultdict
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
store=root+'/meta/mutants.json'
tab=json.load(open(store)) if os.path.exists(store) else {}
last={}
for l in open(sys.argv[1] if len(sys.argv)>1 else '/tmp/mu/log.jsonl'):
    m=json.loads(l); last[m['file'],json.dumps(m['edits'])]=m
c=defaultdict(Counter)
for m in last.values(): c[m['file']][m['res']]+=1
for f,x in c.items(): tab[f]=dict(x)
json.dump(tab,open(store,'w'),indent=0,sort_keys=True)
rows=["| file | killed | do not build | survived |","|---|---|---|---|"]
for f in sorted(tab): rows.append("| %s | %d | %d | %d |"%(f,tab[f].get('killed',0),tab[f].get('nobuild',0),tab[f].get('survived',0)))
p=root+'/DESIGN.md'; s=open(p).read()
a,b='<!-- mutants -->\n','<!-- /mutants -->'
i,j=s.index(a)+len(a),s.index(b)
open(p,'w').write(s[:i]+'\n'.join(rows)+'\n'+s[j:])
