"""Writes MANIFEST.json and the generated part of DESIGN.md from lib/plan.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path[:0] = [HERE, os.path.join(ROOT, 'proof')]
from plan import P
PR = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
MARK = '<!-- generated by lib/mkdocs.py from lib/plan.py -->'


def note(d):
    s = 'Proved for all inputs: ' + d['proved'] + '.' if d['level'] == 'proof' else (
        'Bounded: sampled inputs, no proof.' + ('' if d['proved'] == 'nothing yet' else ' Proved part: ' + d['proved'] + '.'))
    if d['assume']:
        s += ' Assumes: ' + '; '.join(d['assume']) + '.'
    if d['bounded']:
        s += ' Bounded only (run-time contracts on generated inputs): ' + '; '.join(d['bounded']) + '.'
    s += ' Arithmetic is mathematical in the proof; rounding is covered by the bounded part, which runs in every check.'
    return s


def manifest():
    ch = []
    for p in PR:
        d = P[p['id']]
        ch.append({'property': p['id'], 'quick_cmd': 'python3 lib/check.py ' + p['id'],
                   'thorough_cmd': 'VERIF_TIER=thorough python3 lib/check.py ' + p['id'],
                   'technique': d['technique'], 'level': d['level'], 'level_note': note(d)})
    return {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': ch, 'not_applicable': [],
            'notes': 'No hooks in /repo. Known findings and repaired defects: KNOWN-FINDINGS.txt.'}


def design():
    import ptable
    out = [MARK, '']
    for p in PR:
        d = P[p['id']]
        out += ['### %s %s' % (p['id'], p['title']), '', '- level: %s; %s' % (d['level'], d['technique']), '- proved: ' + d['proved']]
        u = ptable.PROPS.get(p['id'], [])
        if u:
            out.append('- units: ' + ', '.join(u))
        if d['assume']:
            out.append('- assumes: ' + '; '.join(d['assume']))
        if d['bounded']:
            out.append('- bounded only: ' + '; '.join(d['bounded']))
        out.append('')
    out += ['## Planted bugs', '',
            'Independent of the checks: each breaks a property, passes the existing tests, and needs something specific to manifest.',
            '`caught by` is the result of running the listed check with the patch applied. `seeded_f90/` holds changes of the Fortran kernel (not run by vcheck).', '',
            '| change | property | needs | caught by |', '|---|---|---|---|']
    rf = os.path.join(HERE, 'seedresults.json')
    res = json.load(open(rf)) if os.path.exists(rf) else {}
    for dd in ('seeded', 'seeded_f90'):
        for n in sorted(os.listdir(os.path.join(ROOT, dd))):
            mt = json.load(open(os.path.join(ROOT, dd, n, 'meta.json')))
            out.append('| %s | %s | %s | %s |' % (n, mt['property'], mt['needs'], res.get(n, '')))
    return '\n'.join(out) + '\n'


if __name__ == '__main__':
    json.dump(manifest(), open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
    f = os.path.join(ROOT, 'DESIGN.md')
    t = open(f).read().split(MARK)[0]
    open(f, 'w').write(t + design())
