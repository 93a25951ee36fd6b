#!/usr/bin/env python3
# regenerates MANIFEST.json
import json,subprocess,os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T=json.load(open(root+'/tools/techniques.json'))
claimed=T['claimed']
checks=[]
for p in sorted(claimed):
    t=claimed[p]
    checks.append(dict(property=p,quick_cmd=f"./check.sh {p} quick",thorough_cmd=f"./check.sh {p} thorough",
        evidence_file=f"evidence/{p}.json",technique=t['technique'],level="exploration",level_note=t['note']))
m=dict(version=1,setup_cmd="./build.sh",
  hooks=dict(guard="cfg(uflow_verif)",enable='RUSTFLAGS="--cfg uflow_verif" (see build.sh)',source_commits=T['hook_commits']),
  checks=checks,
  not_applicable=[dict(property=p,reason=r) for p,r in sorted(T.get('not_applicable',{}).items())],
  notes=T.get('notes',''))
json.dump(m,open(root+'/MANIFEST.json','w'),indent=1)
