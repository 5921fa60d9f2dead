import json,sys; sys.path.insert(0,'/verif')
from engine.props import PROPS
ids=[json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
NA=json.load(open('/tmp/na.json')) if len(sys.argv)>1 else {}
m=dict(version=1,setup_cmd='python3 check.py --setup',checks=[],not_applicable=[],notes='One extraction of the whole crate is verified on every run; each check selects the obligations of its own property. See DESIGN.md.')
for i in ids:
    if i in PROPS:
        m['checks'].append(dict(property=i,quick_cmd='python3 check.py %s --tier quick'%i,thorough_cmd='python3 check.py %s --tier thorough'%i,
          technique=PROPS[i].get('technique','contract-based deductive verification (Verus) of the mechanically extracted functions, with replay of failing inputs on the real crate'),
          level=PROPS[i].get('level','proof'),
          level_note=PROPS[i].get('note','Every obligation of the listed functions is discharged by Verus/Z3 for all inputs on each run. Trusted: the verifier, the extraction rules, assumed contracts on std (listed in the evidence).')))
    else: m['not_applicable'].append(dict(property=i,reason=NA.get(i,'contracts for this part are not written yet')))
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
