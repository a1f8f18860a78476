#!/usr/bin/env python3
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS
from na import NA, NOTES
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
hooks = os.popen('git -C /repo log --format=%H --grep="^verif:"').read().split()
m = dict(version=1, setup_cmd='./check.py setup',
    hooks=dict(guard='cargo feature "verif" of crate y86-sim (off by default)', enable='the harness crates depend on /repo/sim with features = ["verif"] and set Y86_VERIF_RS to the generated harness file', source_commits=hooks),
    checks=[dict(property=i, quick_cmd=f'./check.py {i}', thorough_cmd=f'./check.py {i}', evidence_file=f'evidence/{i}.json',
        technique=PROPS[i].get('technique', 'contracts on the real code, discharged by a deductive verifier (symbolic execution of the compiled functions + SMT), all inputs, no bound'),
        level='proof', level_note=PROPS[i]['note']) for i in ids if i in PROPS],
    not_applicable=[dict(property=i, reason=NA.get(i, 'no check yet')) for i in ids if i not in PROPS],
    notes=NOTES)
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
