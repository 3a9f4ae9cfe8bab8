"""Single source of properties.jsonl, MANIFEST.json and harness/meta.json.

    python3 tools/props.py     (re)writes the three files
"""
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = {}

EXACT = ('floating point numbers are treated as exact reals; float literals '
         'in the source stand for their shortest decimal')
TRIG = ('sin/cos/sqrt/atan2 are exact functions characterised by their '
        'algebraic identities')
ASCII = 'text inputs range over ASCII characters'
CTYPE = ('C extensions reached (lxml, numpy linear algebra, FreeType, '
         'HarfBuzz, ICU) are not encoded: they only see concrete values or '
         'are replaced by their mathematical contract')


def prop(id, title, statement, over, text, why, files, mech, bounds,
         assumptions=(), state=None):
    assert len(title) <= 80, (id, len(title))
    assert id not in [p['id'] for p in P], id
    P.append({'id': id, 'title': title, 'statement': statement,
              'over': over, 'text': text, 'why': why, 'files': files,
              'mech': mech, 'bounds': bounds,
              'assumptions': list(assumptions)})


from props_list import fill  # noqa: E402

fill(prop, NA, dict(EXACT=EXACT, TRIG=TRIG, ASCII=ASCII, CTYPE=CTYPE))


def claimed():
    out = {}
    d = os.path.join(ROOT, 'harness')
    for f in sorted(os.listdir(d)):
        if f.endswith('.py'):
            m = re.search(r'^PROPERTIES = \[(.*?)\]', open(
                os.path.join(d, f)).read(4000), re.M | re.S)
            if m:
                for i in re.findall(r"'(\w+)'", m.group(1)):
                    out[i] = f[:-3]
    return out


def design(have):
    d = os.path.join(ROOT, 'tools')
    out = []
    for p in P:
        i = p['id']
        out.append('### %s %s\n\n%s\n' % (i, p['title'], p['statement']))
        if i in NA or i not in have:
            out.append('Not applicable: %s\n' % NA.get(i, 'no check yet'))
            continue
        out.append('* Decided by: symbolic execution of %s; harnesses in '
                   '`harness/%s.py`.\n* Bounds: %s\n* Assumes: %s.\n'
                   '* Beyond tests: %s\n' % (
                       ', '.join('`%s`' % f for f in p['files']), have[i],
                       p['bounds'], '; '.join(p['assumptions']) or 'nothing '
                       'further', p['why']))
    find = []
    for line in open(os.path.join(ROOT, 'KNOWN_FINDINGS.txt')):
        line = line.strip()
        if line.startswith('known: '):
            j = json.loads(line[line.index('{'):])
            find.append('* known %s %s: %s' % (
                line.split('property=')[1].split()[0], j['id'], j['what']))
        elif line.startswith('fixed: '):
            find.append('* fixed ' + line.split('property=')[1])
    seeds = ['| bug | needs | result |', '|---|---|---|']
    sd = os.path.join(ROOT, 'seeded')
    res = {}
    rf = os.path.join(d, 'seed_results.json')
    if os.path.exists(rf):
        res = json.load(open(rf))
    for i in sorted(os.listdir(sd)):
        m = json.load(open(os.path.join(sd, i, 'meta.json')))
        seeds.append('| %s | %s | %s by %s |' % (
            i, m['needs'], res.get(i, 'not run'), m['property']))
    s = open(os.path.join(d, 'design.md')).read()
    for k, v in (('PROPERTIES', '\n'.join(out)), ('FINDINGS',
                 '\n'.join(find)), ('SEEDED', '\n'.join(seeds)),
                 ('NOTES', open(os.path.join(
                     d, 'design_notes.md')).read())):
        s = s.replace('@@%s@@' % k, v.strip())
    open(os.path.join(ROOT, 'DESIGN.md'), 'w').write(s)


def main():
    have = claimed()
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'],
                'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']},
                'why_tests_cant': p['why'],
                'anchors': {
                    'files': p['files'],
                    'mechanism': [{'name': n, 'where': w}
                                  for n, w in p['mech']],
                    'hook_needed': None,
                },
            }) + '\n')
    checks, na, meta = [], [], {}
    for p in P:
        i = p['id']
        if i in have and i not in NA:
            checks.append({
                'property': i,
                'quick_cmd': './check.sh %s --tier quick' % i,
                'thorough_cmd': './check.sh %s --tier thorough' % i,
                'technique': 'symbolic execution of the real Python code + '
                             'SMT (z3), counterexamples replayed',
                'level': 'model_checking',
                'level_note': (
                    'Every value within the bounds is decided by the solver '
                    'on the code as it stands in /repo. Bounds: %s Trusted: '
                    'the executor in symx/ (validated on each run by '
                    're-running path models on the real code), z3; %s.' % (
                        p['bounds'],
                        '; '.join(p['assumptions']) or 'nothing else')),
            })
        else:
            na.append({'property': i, 'reason': NA.get(
                i, 'no check built yet')})
        meta[i] = {'bounds': p['bounds'], 'assumptions': p['assumptions']}
    man = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks,
           'not_applicable': na,
           'notes': 'No hooks in /repo: the checks read its source as is.'}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')
    with open(os.path.join(ROOT, 'harness', 'meta.json'), 'w') as f:
        json.dump(meta, f, indent=1, sort_keys=True)
        f.write('\n')
    design(have)
    print('claimed', len(checks), 'not applicable', len(na))


main()
