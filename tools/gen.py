#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from checks/props.py and checks/units.py"""
import json, os, sys, importlib.util
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def load(n, **kw):
    s = importlib.util.spec_from_file_location(n, f'{V}/checks/{n}.py'); m = importlib.util.module_from_spec(s)
    m.__dict__.update(kw); s.loader.exec_module(m); return m
class U:
    def __init__(self, *a, **k): pass
props = load('props').P
units = load('units', Unit=U, TIER='thorough').PROPS
with open(V + '/properties.jsonl', 'w') as f:
    for p in props:
        a = dict(files=p['files'], mechanism=p['mech'])
        if p['state']: a['state'] = list(p['state'])
        if p['observe']: a['observe_at'] = list(p['observe'])
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['qtext']),
                                why_tests_cant=p['why'], anchors=a)) + '\n')
        assert len(p['title']) <= 80, p['id']
        assert len(p['statement'].replace('e.g.', '').split('. ')) <= 3, p['id']
m = dict(version=1, setup_cmd='python3 tools/vf.py setup', checks=[], not_applicable=[])
hooks = load('hooks').HOOKS if os.path.exists(V + '/checks/hooks.py') else None
if hooks: m['hooks'] = hooks
for p in props:
    if p['id'] in units and not p['na']:
        c = f'python3 tools/vf.py check {p["id"]}'
        m['checks'].append(dict(property=p['id'], quick_cmd=c, thorough_cmd='env VERIF_TIER=thorough ' + c, evidence_file=f'evidence/{p["id"]}.json',
            technique=p['technique'] or 'contract-based deductive verification: contracts on the real C functions (callees by contract, loops by invariant or complete unwinding), every obligation discharged by CBMC with SAT back ends',
            level=p['level'], level_note=p['note'] or 'Every obligation of the contracts is discharged from the current source for all inputs of the stated domain; trusted: CBMC, its C library models, the SAT solver, goto-cc. See DESIGN.md.'))
    else:
        m['not_applicable'].append(dict(property=p['id'], reason=p['na'] or 'contracts not built yet'))
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(m['checks']), 'checks', len(m['not_applicable']), 'n/a')
