import json,os,re,sys
sys.path[:0]=['/verif','/repo/src']; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import importlib,warnings; warnings.simplefilter('ignore')
from vc.engine import REGISTRY
def contracts_of(p):
    importlib.import_module('contracts.'+p.lower())
    n={'':{},'bounded: ':{}}
    for c in REGISTRY[p]:
        d=n['bounded: ' if c.mode=='bounded' else '']; b=c.name.split('[')[0]; d[b]=d.get(b,0)+1
    return '; '.join(k+', '.join(b if m==1 else f'{b}({m})' for b,m in d.items()) for k,d in n.items() if d)
# Writes DESIGN.md: design_head.md, the defects of known_findings.json, the planted bugs, design_tail.md
D=open('/verif/tools/design_head.md').read()
D=re.sub(r'^\| (C\d\d) \| .*? \| ',lambda m:f'| {m[1]} | {contracts_of(m[1])} | ',D,flags=re.M)
k=json.load(open('/verif/known_findings.json'))
out=[D.rstrip(),'','## 3. Defects found in /repo','',
'Every one was first reported by a check on the unchanged tree and reproduced on the real code; the small ones were repaired (`fix:` commits, existing',
'tests unedited and passing), the two others are recorded in `known_findings.json` and printed as KNOWN-FINDING.','','**Recorded:**','']
for f in k['findings']:
    out.append('* `%s` (%s): %s'%(f.get('id'),f.get('property'),' '.join((f.get('what') or f.get('description') or json.dumps(f)).split())))
out+=['',f'**Repaired ({len(k["fixed"])} commits):**','']
for f in k['fixed']:
    s=f if isinstance(f,str) else f.get('line') or json.dumps(f)
    m=re.match(r'fixed: property=(\S+) (\S+) (.*)',s,re.S)
    out.append(f'* {m[1]} {m[2][:9]}: {" ".join(m[3].split())}' if m else '* '+s)
out+=['','**Considered and left:**','',
'''Pinned by existing tests or a matter of design, so neither repaired nor specified as defects: `FluxObserver` announces ±psi_limit for the
angle entry; a callable `ConstraintMonitor` merge receives one list; `random_params[0] or ...` treats a mean of 0 as absent; the AC3 supply with a B6
bridge, finite three-phase control and the DFIM in `gem_controllers` are unsupported upstream; the ThreePoint current hysteresis is an upstream TODO;
the EESM feed-forward of the d/e rows is an approximation; PMSM look-up tables with `interpolate` give NaN at torques a surface machine cannot
reach; `GemController.make` draws its block diagram by default and then needs LaTeX; environment docstrings disagree with the code in several defaults.''']
out+=['','## 4. Planted bugs','','All seeds pass the 1151 tests; `tools/plant.py` confirmed the demonstration on both trees. A check named first is the one of the property.','',
'| bug | property | needs | caught by |','|---|---|---|---|']
caught=json.load(open('/verif/tools/caught.json'))
for d in sorted(os.listdir('/verif/seeded')):
    m=json.load(open(f'/verif/seeded/{d}/meta.json'))
    out.append(f"| {d} | {m['property']} | {' '.join(m['needs'].split())[:150]} | {caught.get(d,m['property'])} |")
out+=['',open('/verif/tools/design_tail.md').read().rstrip(),'']
open('/verif/DESIGN.md','w').write('\n'.join(out))
