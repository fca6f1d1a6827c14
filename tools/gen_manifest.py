import json, sys, os
sys.path.insert(0, '/verif')
from vc import props
L = [json.loads(l) for l in open('/verif/properties.jsonl')]
NA = {}
checks = []
for x in L:
    i = x['id']
    if i not in props.PROPS: continue
    checks.append(dict(property=i, quick_cmd='python3-vt check.py %s quick' % i, thorough_cmd='python3-vt check.py %s thorough' % i,
        technique='contract-based deductive verification of MIR (VC generation + ring/SMT)', level='proof', evidence_file='evidence/%s.json' % i,
        level_note='Every obligation of the functions under contract is generated from the MIR of /repo on each run and discharged for all inputs over the reals; f64 rounding, the models of std/chrono functions, rustc MIR and the verifier itself are trusted (listed in the evidence).'))
m = dict(version=1, setup_cmd='bash setup.sh', checks=checks,
    not_applicable=[dict(property=x['id'], reason=NA.get(x['id'], 'contracts not finished yet')) for x in L if x['id'] not in props.PROPS],
    notes='No hooks in /repo: every function needed is public or executed in place by the verifier.')
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
