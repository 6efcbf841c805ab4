import json,sys
NA={}
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
claimed=open('/verif/tools/claimed.txt').read().split('\n')
notes={}
for l in claimed:
    if l.strip():
        a,b=l.split('|',1); notes[a.strip()]=b.strip()
for l in open('/verif/tools/na.txt'):
    if l.strip():
        a,b=l.split('|',1); NA[a.strip()]=b.strip()
checks=[];na=[]
for p in props:
    i=p['id']
    if i in notes:
        checks.append(dict(property=i,quick_cmd=f'bash /verif/run.sh {i} quick',thorough_cmd=f'bash /verif/run.sh {i} thorough',
          technique='model checking: explicit-state exploration of the real code (execution trees with the prover, inputs, schedules as nondeterministic environment) against an independent reference model',
          level='model_checking',level_note=notes[i],evidence_file=f'evidence/{i}.json'))
    else:
        na.append(dict(property=i,reason=NA.get(i,'check not built yet')))
m=dict(version=1,setup_cmd='bash /verif/setup.sh',checks=checks,not_applicable=na,
  notes='All checks are subcommands of one Go program (/verif/mc) that run.sh rebuilds from /repo\'s working tree on every run.')
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
import jsonschema
jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(checks),'claimed',len(na),'n/a')
