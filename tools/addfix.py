"""addfix.py PROP 'commit subject part' 'what failed': appends a fixed entry for the /repo commit"""
import json, subprocess, sys, os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p,s,w=sys.argv[1:]
h=[l.split()[0] for l in subprocess.check_output(['git','-C','/repo','log','--format=%h %s'],text=True).splitlines() if s in l]
assert len(h)==1,h
f=os.path.join(V,'known_findings.json');k=json.load(open(f));k['fixed'].append(f"fixed: property={p} {h[0]} {w}");json.dump(k,open(f,'w'),indent=1)
