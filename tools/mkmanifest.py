#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/bin')
import spec
props = [json.loads(l) for l in open(V + '/properties.jsonl') if l.strip()]
na = getattr(spec, 'NA', {})
checks = []
for p in props:
    i = p['id']
    if i not in spec.PROPS:
        na.setdefault(i, 'check not built yet')
        continue
    P = spec.PROPS[i]
    c = dict(property=i, quick_cmd='bin/check %s' % i, technique='symbolic execution of the LLVM IR of the real code, assertions decided by Z3',
             level='model_checking', level_note=('Holds for every input within the bounds: ' + P['bounds'] + '. Trusted: clang 18, the engine and library models (cross-checked by replaying paths on the g++ build), Z3.')[:1500])
    if P['thorough']:
        c['thorough_cmd'] = 'bin/check %s --thorough' % i
    checks.append(c)
m = dict(version=1, setup_cmd='bash engine/build.sh', checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in sorted(na.items())])
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
