"""Write MANIFEST.json:  python3 tools/mkmanifest.py"""
import json, os
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
NOTE = open(H + '/tools/levelnotes.json').read()
NOTE = json.loads(NOTE)
NA = json.load(open(H + '/tools/na.json'))
m = {'version': 1, 'setup_cmd': 'mkdir -p evidence out && python3-vt -c "import z3" && clang --version >/dev/null', 'checks': [], 'not_applicable': []}
for p in props:
    i = p['id']
    if i in NA:
        m['not_applicable'].append({'property': i, 'reason': NA[i]})
        continue
    m['checks'].append({
        'property': i, 'quick_cmd': 'python3-vt check.py %s quick' % i, 'thorough_cmd': 'python3-vt check.py %s thorough' % i,
        'evidence_file': 'evidence/%s.json' % i,
        'technique': 'contract-based deductive verification of the C++ functions (own VC generator on the clang AST, loop invariants inferred and checked, z3)',
        'level': 'proof', 'level_note': NOTE[i]})
m['notes'] = 'See DESIGN.md. Known findings and repaired defects: known-findings.txt.'
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1)
open(H + '/MANIFEST.json', 'a').write('\n')
