import json,sys,re
sys.path.insert(0,'/verif/tool')
import importlib; props=importlib.import_module('props')
P=[json.loads(l) for l in open('/verif/properties.jsonl')]
na={}
try: na=props.NOT_APPLICABLE
except AttributeError: pass
checks=[]
for d in P:
    i=d['id']
    if i in props.PROPS:
        m=props.PROPS[i]
        checks.append(dict(property=i, quick_cmd="python3 tool/check.py %s quick"%i, thorough_cmd="python3 tool/check.py %s thorough"%i,
            evidence_file="evidence/%s.json"%i, technique=m.get("technique","abstract interpretation of MIR (data-flow fixpoint, BDD and function-table domains)"),
            level=m["level"], level_note=m.get("note","Every rule is decided for the stated domain: "+m["domain"]+" Assumes: "+"; ".join(m["assumptions"])+". Trusted: rustc MIR, the analyser's transfer functions and container models, the client rules.")))
    else:
        na.setdefault(i,"no check yet")
m=dict(version=1,setup_cmd="python3 tool/check.py --setup",checks=checks,not_applicable=[dict(property=k,reason=v) for k,v in sorted(na.items())])
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); open('/verif/MANIFEST.json','a').write("\n")
