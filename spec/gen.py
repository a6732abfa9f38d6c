#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables p_*.py of this folder.
P(id, title, statement, over, text, why, files, mechanism[(name, where)], technique, note)  -- claimed when checks/<id>.py exists
NA(id, title, statement, over, text, why, files, mechanism, reason)"""
import glob, json, os, re
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
PS, CH, NO = [], [], []
LEVEL = ('Decided on every run from LLVM IR of the current sources by abstract interpretation (no execution, no solver). Trusted: clang front end, the transfer functions of '
         'engine/models.py for the standard library, x86-64 Linux configuration. ')
def rec(id, title, st, over, text, why, files, mech):
    assert len(title) <= 80, title
    assert len(re.findall(r'[.!?](?:\s|$)', st)) <= 3, (id, st)
    PS.append({'id': id, 'title': title, 'statement': st, 'quantifier': {'over': sorted({{'faults': 'fault_sequences', 'interleavings': 'schedules', 'environment': 'inputs'}.get(x, x) for x in over.split()}), 'text': text}, 'why_tests_cant': why,
               'anchors': {'files': files.split(), 'mechanism': [{'name': a, 'where': b} for a, b in mech], 'hook_needed': None}})
def P(id, title, st, over, text, why, files, mech, technique, note):
    if not os.path.exists(os.path.join(ROOT, 'checks', id + '.py')):
        print('no check yet:', id)
        return
    rec(id, title, st, over, text, why, files, mech)
    CH.append({'property': id, 'quick_cmd': 'python3 checks/%s.py' % id, 'thorough_cmd': 'python3 checks/%s.py' % id, 'technique': technique, 'level': 'other', 'level_note': LEVEL + note})
def NA(id, title, st, over, text, why, files, mech, reason):
    rec(id, title, st, over, text, why, files, mech)
    NO.append({'property': id, 'reason': reason})
for f in sorted(glob.glob(os.path.join(HERE, 'p_*.py'))):
    exec(compile(open(f).read(), f, 'exec'))
PS.sort(key=lambda p: p['id'])
CH.sort(key=lambda p: p['property'])
assert len({p['id'] for p in PS}) == len(PS)
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in PS:
        f.write(json.dumps(p) + '\n')
json.dump({'version': 1, 'setup_cmd': 'python3 engine/setup.py', 'checks': CH, 'not_applicable': NO,
           'notes': 'No hooks: the checks compile the sources of /repo (and witness units of /verif/witness that include its headers) to LLVM IR in a temporary folder. FALCON_REPO overrides /repo for experiments.'},
          open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)

# DESIGN.md
exec(compile(open(os.path.join(HERE, 'how.py')).read(), 'how.py', 'exec'))
byid = {p['id']: p for p in PS}
def prop(c):
    p = byid[c['property']]
    note = c['level_note'][len(LEVEL):]
    return '### %s %s\n\n%s\n\n*Quantified over:* %s. *Why tests cannot:* %s\n\n*Technique:* %s.\n\n*Decision:* %s\n\n*Limits:* %s\n\n*Anchors:* %s\n' % (
        p['id'], p['title'], p['statement'], p['quantifier']['text'], p['why_tests_cant'], c['technique'], HOW[p['id']], note, '; '.join('%s (%s)' % (a['name'], a['where']) for a in p['anchors']['mechanism']))
seeded = []
for f in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json'))):
    j = json.load(open(f))
    seeded.append('| `%s` | %s | %s |' % (os.path.basename(os.path.dirname(f)), j['property'], j['what_it_breaks'].strip().replace('|', '/')))
fixed = []
for l in json.load(open(os.path.join(ROOT, 'known-findings.json')))['fixed']:
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
    fixed.append('| %s | `%s` | %s |' % m.groups())
text = open(os.path.join(HERE, 'design.md')).read()
for k, v in (('PROPERTIES', '\n'.join(prop(c) for c in CH)), ('NA', '\n'.join('* **%s %s**: %s' % (n['property'], byid[n['property']]['title'], n['reason']) for n in NO)),
             ('SEEDED', '| planted bug | caught by | what it breaks |\n|---|---|---|\n' + '\n'.join(seeded)), ('FIXED', '| property | commit | what failed |\n|---|---|---|\n' + '\n'.join(fixed))):
    text = text.replace('@@%s@@' % k, v)
open(os.path.join(ROOT, 'DESIGN.md'), 'w').write(text)
print(len(CH), 'claimed', len(NO), 'not applicable')
