"""Writes MANIFEST.json from the table of checks."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    'gen': 'TLA+ model checked with TLC; every explored behaviour replayed in the real assembler',
    'trace': 'TLA+ model; recorded executions validated as behaviours of it with TLC',
    'both': 'TLA+ model checked with TLC; explored behaviours replayed in, and recorded executions of, the real code validated against it',
    'table': 'TLA+ specification of the encodings enumerated with TLC and replayed in the real assembler',
}
NOTE = 'Exhaustive within the bounds reported in the evidence (all programs over an alphabet of statements up to a length), sampled beyond; '
C = {}
def c(p, tech, note): C[p] = (TECH[tech], note)
exec(open(os.path.join(V, 'tools', 'checks.table.py')).read())
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks = [dict(property=p, quick_cmd='python3 harness/check.py ' + p,
               thorough_cmd='VERIF_TIER=thorough python3 harness/check.py ' + p,
               technique=C[p][0], level='model_checking', level_note=C[p][1]) for p in props if p in C]
m = dict(version=1, setup_cmd='bash tools/setup.sh', checks=checks,
         not_applicable=[dict(property=p, reason=NA.get(p, 'no check yet: its specification module is still being written')) for p in props if p not in C],
         notes='No hooks: everything is observed through the public interface; /repo holds only fix: commits. See DESIGN.md.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed;', [x['property'] for x in m['not_applicable']])
