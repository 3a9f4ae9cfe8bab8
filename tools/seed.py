"""Make and judge a planted bug.

    python3 tools/seed.py SPEC.py...        make seeded/<id> from a spec
    python3 tools/seed.py --recheck [ID...] apply, test, demo, check again

A spec sets PROP, EDITS = [(file, old, new)], DEMO (python text), NEEDS and
BREAKS; its file name is the id.  Everything happens in a scratch copy of
/repo under /tmp, which is removed.
"""
import fcntl
import json
import os
import re
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, 'seeded')
PY = '/opt/venv/bin/python'


def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
    e.update(env or {})
    p = subprocess.run(cmd, shell=isinstance(cmd, str), cwd=cwd, env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=timeout)
    return p.returncode, p.stdout.decode(errors='replace')


def stable_tests(work):
    """Names of the baseline tests that do not pass in work."""
    text = open('/opt/vp/test.sh').read().replace('/repo', work)
    s = work + '-test.sh'
    open(s, 'w').write(text)
    with open('/tmp/seed-tests.lock', 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        sh(['bash', s, work + '-out.json'])
    o = json.load(open(work + '-out.json'))
    os.remove(s)
    os.remove(work + '-out.json')
    b = json.load(open('/opt/vp/BASELINE.json'))

    def passed(d):
        for k in ('stable', 'passed', 'tests', 'pass'):
            if k in d:
                v = d[k]
                return set(v) if isinstance(v, list) else set(
                    x for x, y in v.items() if y in (True, 'passed', 'pass'))
        return set(d)
    return sorted(passed(b) - passed(o))


def note(id, text):
    f = os.path.join(ROOT, 'tools', 'seed_results.json')
    with open('/tmp/seed-results.lock', 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        d = json.load(open(f)) if os.path.exists(f) else {}
        d[id] = 'caught' if text == 'CAUGHT' else 'missed'
        json.dump(d, open(f, 'w'), indent=1, sort_keys=True)


def judge(id, work, tests=True, checks=True):
    d = os.path.join(SEEDED, id)
    meta = json.load(open(os.path.join(d, 'meta.json')))
    out = [id]
    ok = True
    r0, o0 = sh(['bash', os.path.join(d, 'demo.sh')], cwd='/repo')
    r1, o1 = sh(['bash', os.path.join(d, 'demo.sh')], cwd=work)
    out.append('demo %d/%d' % (r0, r1))
    if r0 or not r1:
        ok = False
        out += ['BAD DEMO', o0[-600:], o1[-600:]]
    else:
        out.append(o1.strip().splitlines()[-1][:110])
    if tests:
        m = stable_tests(work)
        if m:
            ok = False
            out.append('TESTS FAIL %s' % m[:5])
    if checks:
        r, o = sh(['bash', os.path.join(ROOT, 'check.sh'), meta['property']],
                  cwd=ROOT, env={'SYMX_REPO': work,
                                 'SYMX_OUT': work + '-evidence'})
        out.append('CAUGHT' if r == 1 and 'VIOLATION property=%s' %
                   meta['property'] in o else 'MISSED(%d)' % r)
        note(id, out[-1])
        if r not in (0, 1):
            out.append(o[-500:])
    return ok, out


def scratch(id):
    work = '/tmp/sw-' + id
    if os.path.exists(work):
        shutil.rmtree(work)
    sh(['cp', '-a', '/repo', work])
    for x in ('MANIFEST', ):
        pass
    return work


def make(spec):
    id = os.path.basename(spec)[:-3]
    ns = {}
    exec(open(spec).read(), ns)
    work = scratch(id)
    try:
        for f, a, b in ns['EDITS']:
            p = os.path.join(work, f)
            s = open(p).read()
            if s.count(a) != 1:
                return '%s: %d matches for %r' % (id, s.count(a), a)
            open(p, 'w').write(s.replace(a, b))
        r, diff = sh(['git', 'diff'], cwd=work)
        d = os.path.join(SEEDED, id)
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        open(os.path.join(d, 'demo.py'), 'w').write(
            'import os\nimport sys\nsys.path.insert(0, os.getcwd())\n'
            + ns['DEMO'].lstrip('\n'))
        open(os.path.join(d, 'demo.sh'), 'w').write(
            '#!/bin/bash\n# run with cwd = the repository\n'
            'export PYTHONDONTWRITEBYTECODE=1\n'
            'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        json.dump({'property': ns['PROP'], 'needs': ns['NEEDS'],
                   'what_it_breaks': ns['BREAKS']},
                  open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        ok, out = judge(id, work)
        if not ok:
            shutil.rmtree(d)
            out.append('DROPPED')
        return ' | '.join(out)
    finally:
        shutil.rmtree(work, ignore_errors=True)
        shutil.rmtree(work + '-evidence', ignore_errors=True)


def recheck(id, tests):
    work = scratch(id)
    try:
        r, o = sh(['git', 'apply', os.path.join(SEEDED, id, 'patch.diff')],
                  cwd=work)
        if r:
            return id + ' | does not apply: ' + o
        return ' | '.join(judge(id, work, tests)[1])
    finally:
        shutil.rmtree(work, ignore_errors=True)
        shutil.rmtree(work + '-evidence', ignore_errors=True)


if __name__ == '__main__':
    a = sys.argv[1:]
    if a and a[0] == '--recheck':
        for i in a[1:] or sorted(os.listdir(SEEDED)):
            print(recheck(i, '--tests' in a) if not i.startswith('-') else '',
                  flush=True)
    else:
        for s in a:
            print(make(s), flush=True)
