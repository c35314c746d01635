#!/usr/bin/env python3-vt
"""Single source for properties.jsonl and MANIFEST.json (python3 tools/props.py)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
TESTS = 'The five stable tests cover UTF-8/UTF-16 conversion, the string builder and one live session; '


def prop(id, title, statement, over, qtext, why, files, mech, technique=None, note=None, na=None, observe=None, state=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if observe:
        a['observe_at'] = observe
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    a['hook_needed'] = None
    P.append(({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext},
               'why_tests_cant': why, 'anchors': a}, technique, note, na))


LIB = 'src/libwinpty/winpty.cc'
AG = 'src/agent/Agent.cc'
NP = 'src/agent/NamedPipe.cc'
AI = 'path-sensitive abstract interpretation of the LLVM IR (exceptional edges included) with a typestate monitor'
BASE = 'Sound up to the trusted base listed in DESIGN.md (clang IR for the mingw target, library models, no aliasing of distinct symbolic objects). '

exec(open(os.path.join(ROOT, 'tools', 'proplist.py')).read())

done = {f[:-3].upper() for f in os.listdir(os.path.join(ROOT, 'checks')) if f[0] == 'c' and f[1:3].isdigit()}
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p, t, n, na in P:
        f.write(json.dumps(p) + '\n')
checks, nas = [], []
for p, t, n, na in P:
    i = p['id']
    if i in done and not na:
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s' % i, 'thorough_cmd': 'python3 check.py %s --thorough' % i,
                       'technique': t or AI, 'level': 'other', 'level_note': BASE + (n or '')})
    else:
        nas.append({'property': i, 'reason': na or 'no check has been built for this property yet'})
m = {'version': 1, 'setup_cmd': 'python3 engine/vbuild.py', 'checks': checks, 'not_applicable': nas}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
import jsonschema
s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for p, _, _, _ in P:
    jsonschema.validate(p, s)
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(P), 'properties,', len(checks), 'claimed')
