import json,sys,os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0,here)
from checks import CHECKS
props=[json.loads(l) for l in open(here+'/properties.jsonl')]
TECH={}
try:
    from tech import TECH
except ImportError: pass
m={"version":1,"setup_cmd":"python3 -m py_compile run.py checks.py","checks":[],"not_applicable":[]}
for p in props:
    i=p['id']
    if i in CHECKS:
        t,n=TECH.get(i,("property-based testing against an explicit reference model","Randomised search with an oracle; bounds and case counts are in the evidence file."))
        m["checks"].append(dict(property=i,quick_cmd="python3 run.py %s"%i,thorough_cmd="python3 run.py %s --tier thorough"%i,evidence_file="evidence/%s.json"%i,technique=t,level="exploration",level_note=n))
    else:
        m["not_applicable"].append(dict(property=i,reason="No check is claimed yet: its harness is still being built."))
json.dump(m,open(here+'/MANIFEST.json','w'),indent=1)
