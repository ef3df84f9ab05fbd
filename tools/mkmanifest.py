"""writes MANIFEST.json from engine/units.py and properties.jsonl"""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R + '/engine')
import units
props = [json.loads(l) for l in open(R + '/properties.jsonl')]
NOTE = getattr(units, 'NOTES', {})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': [], 'not_applicable': []}
for p in props:
    i = p['id']
    if i in units.PROPS:
        m['checks'].append({
            'property': i, 'quick_cmd': './check %s' % i, 'thorough_cmd': './check %s --thorough' % i,
            'technique': 'contract-based deductive verification of the SSA of the real code (own VC generator, z3); failing obligations replayed by a concrete search',
            'level': 'proof', 'level_note': NOTE.get(i, 'all obligations of the contracts listed in the evidence are discharged on every run; a bounded concrete run is added and labelled bounded'),
        })
    else:
        m['not_applicable'].append({'property': i, 'reason': 'not yet brought under contract'})
json.dump(m, open(R + '/MANIFEST.json', 'w'), indent=1)
