"""Explore harnesses, replay counterexamples, write evidence."""
import argparse
import importlib
import json
import multiprocessing
import os
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SYMX_REPO', '/repo')
OUT = os.environ.get('SYMX_OUT') or os.path.dirname(
    os.path.dirname(os.path.abspath(__file__)))
Z3_PATH = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
FINDINGS = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
QUICK_TOTAL = 600.0


def setup_paths():
    for p in (VERIF, REPO):
        if p not in sys.path:
            sys.path.insert(0, p)
    sys.setrecursionlimit(30000)


def read_findings():
    """[(property, id, harness, label, inputs, text)] of recorded findings."""
    out = []
    if not os.path.exists(FINDINGS):
        return out
    for line in open(FINDINGS):
        line = line.strip()
        if not line.startswith('known: '):
            continue
        head, _, js = line[len('known: '):].partition(' {')
        d = json.loads('{' + js)
        d['property'] = head.split('property=')[1].split()[0]
        out.append(d)
    return out


# ---------------------------------------------------------------- explore

from .api import Gap, check_gap  # noqa: E402


def explore(h, tier, deadline, findings):
    from . import core, symt
    from .core import Abort, Budget, Ctx, Stats, Unsupported, Violation
    stats = Stats()
    stack = [[]]
    res = {
        'harness': h.name, 'doc': h.doc, 'violations': [], 'undecided': [],
        'complete': True, 'samples': [], 'reached': set(), 'errors': [],
        'notes': set(), 'used_findings': set(),
    }
    t0 = time.time()
    max_paths = h.max_paths or 1000000
    vlabels = {}
    import random
    rnd = random.Random(int(os.environ.get('VERIF_SEED', '1')))
    kept = 0
    while stack:
        if time.time() > deadline or stats.paths >= max_paths:
            res['complete'] = False
            res['notes'].add('budget exhausted with %d pending branches'
                             % len(stack))
            break
        prefix = stack.pop()
        c = Ctx(prefix, stats, deadline)
        core.CURRENT = c
        t = symt.SymT(c, tier, findings)
        stats.paths += 1
        outcome = 'ok'
        try:
            h.fn(t, **h.kw)
        except Abort:
            stats.aborted += 1
            outcome = 'abort'
        except Violation as v:
            outcome = 'violation'
            n = vlabels.get(v.label, 0)
            vlabels[v.label] = n + 1
            if n < 6:
                res['violations'].append({
                    'harness': h.name, 'label': v.label, 'detail': v.detail,
                    'inputs': v.model})
        except symt.Inconclusive as e:
            outcome = 'undecided'
            _undecided(res, c, t, 'solver unknown at %s' % e)
        except Gap as e:
            outcome = 'undecided'
            _undecided(res, c, t, 'stub: %s' % e)
        except Unsupported as e:
            outcome = 'undecided'
            stats.concretised += 1
            _undecided(res, c, t, 'unsupported: %s' % e)
            if os.environ.get('SYMX_TRACE'):
                traceback.print_exc()
        except Budget:
            res['complete'] = False
            res['notes'].add('time budget exhausted')
            break
        except RecursionError:
            outcome = 'undecided'
            _undecided(res, c, t, 'recursion limit')
        except Exception as e:
            # an exception the harness does not allow
            try:
                check_gap(e)
            except Gap as g:
                _undecided(res, c, t, 'stub: %s' % g)
                stack.extend(c.pending)
                core.CURRENT = None
                continue
            outcome = 'exception'
            tb = traceback.extract_tb(e.__traceback__)
            where = [f for f in tb if '/svgpy/' in f.filename]
            loc = '%s:%s' % (os.path.basename(where[-1].filename),
                             where[-1].name) if where else 'harness'
            label = 'unexpected %s' % type(e).__name__
            if os.environ.get('SYMX_TRACE'):
                traceback.print_exc()
            core.CURRENT = c
            try:
                r, m = c.model([], nice=True)
            except Budget:
                res['complete'] = False
                break
            except Unsupported:
                r, m = None, None
            if m is not None:
                n = vlabels.get(label, 0)
                vlabels[label] = n + 1
                if n < 6:
                    res['violations'].append({
                        'harness': h.name, 'label': label,
                        'detail': '%s in %s' % (str(e)[:200], loc),
                        'inputs': t.inputs_of(m)})
            elif str(r) == 'unknown':
                _undecided(res, c, t, 'path feasibility unknown')
            else:
                stats.aborted += 1
        res['reached'] |= t.reached
        res['used_findings'] |= t.used_findings
        if outcome == 'ok':
            kept += 1
            # reservoir of path models replayed on the real code
            take = len(res['samples']) < 12 or rnd.random() < 12.0 / kept
            if take:
                try:
                    r, m = c.model([], nice=True)
                except (Budget, Unsupported):
                    r, m = None, None
                if m is not None:
                    try:
                        s = {'inputs': t.inputs_of(m),
                             'obs': t.eval_obs(m)}
                        if len(res['samples']) < 12:
                            res['samples'].append(s)
                        else:
                            res['samples'][rnd.randrange(12)] = s
                    except Exception as e:
                        res['notes'].add('sample: %s' % e)
        stack.extend(c.pending)
        core.CURRENT = None
        # enough counterexamples: stop early
        if sum(vlabels.values()) >= 12:
            res['complete'] = False
            res['notes'].add('stopped after 12 counterexamples')
            break
    core.CURRENT = None
    res['stats'] = stats.as_dict()
    res['wall'] = time.time() - t0
    return res


def _undecided(res, c, t, why):
    m = None
    try:
        r, m = c.model([], nice=True)
    except BaseException:
        pass
    if len(res['undecided']) < 40:
        res['undecided'].append({
            'why': why, 'inputs': t.inputs_of(m) if m is not None else None})
    else:
        res['complete'] = False


# functions of the code under test that were executed symbolically
def _profile_functions():
    seen = set()

    def prof(frame, event, arg):
        if event == 'call':
            co = frame.f_code
            fn = co.co_filename
            if fn.startswith(REPO + '/svgpy/') and frame.f_back is not None:
                seen.add('%s:%s' % (os.path.relpath(fn, REPO),
                                    co.co_qualname))
    return seen, prof


def job(args):
    idx, tier, deadline, findings = args
    from .api import HARNESSES
    h = HARNESSES[idx]
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    limit = h.budget or (240 if tier == 'quick' else 1500)
    if isinstance(limit, (tuple, list)):
        limit = limit[0 if tier == 'quick' else 1]
    dl = min(deadline, time.time() + limit)
    seen = set()
    try:
        # first path under a profiler to list the functions encoded
        seen, prof = _profile_functions()
        from . import core
        threading_prof(h, tier, findings, prof)
        r = explore(h, tier, dl, findings)
    except MemoryError:
        r = {'harness': h.name, 'doc': h.doc, 'violations': [],
             'undecided': [], 'complete': False, 'samples': [],
             'reached': set(), 'errors': ['out of memory'], 'notes': set(),
             'stats': core.Stats().as_dict(), 'wall': 0,
             'used_findings': set()}
    except BaseException as e:
        r = {'harness': h.name, 'doc': h.doc, 'violations': [],
             'undecided': [], 'complete': False, 'samples': [],
             'reached': set(),
             'errors': ['%s: %s\n%s' % (type(e).__name__, e,
                                        traceback.format_exc())],
             'notes': set(), 'stats': core.Stats().as_dict(), 'wall': 0,
             'used_findings': set()}
    r['functions'] = sorted(seen)
    r['idx'] = idx
    return r


def threading_prof(h, tier, findings, prof):
    """Run a few paths under sys.setprofile."""
    from . import core, symt
    stack = [[]]
    n = 0
    t0 = time.time()
    stats = core.Stats()
    while stack and n < 25 and time.time() - t0 < 4:
        c = core.Ctx(stack.pop(), stats, time.time() + 4)
        core.CURRENT = c
        t = symt.SymT(c, tier, findings)
        sys.setprofile(prof)
        try:
            h.fn(t, **h.kw)
        except BaseException:
            pass
        finally:
            sys.setprofile(None)
        stack[:0] = c.pending[::-1]
        core.CURRENT = None
        n += 1


# ------------------------------------------------------------------ replay

def replay_cases(cases, tier, timeout=300):
    """Run cases [(harness name, inputs)] on the unmodified code."""
    if not cases:
        return []
    env = dict(os.environ)
    env['PYTHONHASHSEED'] = '0'
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    p = subprocess.run(
        [sys.executable, '-m', 'symx.replay', '--tier', tier, '--batch', '-'],
        input=json.dumps(cases), capture_output=True, text=True,
        cwd=VERIF, env=env, timeout=timeout)
    lines = [x for x in p.stdout.splitlines() if x.startswith('REPLAY ')]
    out = [json.loads(x[7:]) for x in lines]
    if len(out) != len(cases):
        # the process died on case len(out): that is itself an outcome
        while len(out) < len(cases):
            out.append({'outcome': 'crash', 'detail': (p.stderr or '')[-500:],
                        'obs': [], 'label': 'process died'})
    return out


def obs_match(a, b):
    from .api import con_eq
    if len(a) != len(b):
        return 'observed %d values, encoding predicted %d' % (len(b), len(a))
    for (n1, x), (n2, y) in zip(a, b):
        if n1 != n2:
            return 'observation order differs (%s / %s)' % (n1, n2)
        if con_eq(x, y) is not None:
            return '%s: encoding %r, real code %r' % (n1, x, y)
    return None


# -------------------------------------------------------------------- main

def load_property(prop):
    from . import api
    mods = sorted(f[:-3] for f in os.listdir(os.path.join(VERIF, 'harness'))
                  if f.endswith('.py') and not f.startswith('_'))
    want = []
    for m in mods:
        with open(os.path.join(VERIF, 'harness', m + '.py')) as f:
            head = f.read(4000)
        for line in head.splitlines():
            if line.startswith('PROPERTIES'):
                if "'%s'" % prop in line:
                    want.append(m)
                break
    for m in want:
        importlib.import_module('harness.' + m)
    return want


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=None)
    ap.add_argument('--only', help='substring of harness names')
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args(argv)
    tier = a.tier or os.environ.get('VERIF_TIER', 'quick')
    if os.environ.get('PYTHONHASHSEED') != '0':
        os.environ['PYTHONHASHSEED'] = '0'
        os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
        args = sys.argv[1:] if argv is None else argv
        os.execv(sys.executable, [sys.executable, '-m', 'symx.run'] + args)
    t0 = time.time()
    setup_paths()
    sys.dont_write_bytecode = True
    if Z3_PATH not in sys.path:
        sys.path.append(Z3_PATH)
    import z3
    from . import loader
    loader.install({'harness': VERIF})
    from .api import HARNESSES
    os.makedirs(os.path.join(OUT, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(OUT, 'replays'), exist_ok=True)

    # the code must at least import
    mods = load_property(a.property)
    if not mods:
        print('no harness for', a.property)
        return 2
    sel = [i for i, h in enumerate(HARNESSES)
           if h.prop == a.property and tier in h.tiers
           and (not a.only or a.only in h.name)]
    if not sel:
        print('no harness selected')
        return 2
    findings = [f for f in read_findings() if f['property'] == a.property]
    kf = tuple(f['id'] for f in findings)

    total = QUICK_TOTAL if tier == 'quick' else 3300.0
    deadline = t0 + total
    results = []
    # long jobs first is unknown; keep declaration order
    work = [(i, tier, deadline, kf) for i in sel]
    with multiprocessing.get_context('fork').Pool(
            min(a.jobs, len(work)), maxtasksperchild=4) as pool:
        for r in pool.imap_unordered(job, work, chunksize=1):
            results.append(r)
            if a.v:
                s = r['stats']
                print('%-60s %6.1fs paths=%d aborted=%d queries=%d '
                      'solver=%.1fs checks=%d viol=%d undecided=%d %s %s' % (
                          r['harness'], r['wall'], s['paths'], s['aborted'],
                          s['queries'], s['solver_s'], s['checks'],
                          len(r['violations']), len(r['undecided']),
                          '' if r['complete'] else 'INCOMPLETE',
                          '; '.join(r['errors'] + sorted(r['notes']))),
                      flush=True)
                for u in r['undecided'][:3]:
                    print('     undecided:', u)
    results.sort(key=lambda r: r['idx'])

    # -- replays ------------------------------------------------------------
    cases, meta = [], []
    for r in results:
        for v in r['violations']:
            cases.append([v['harness'], v['inputs']])
            meta.append(('violation', r, v))
        for u in r['undecided']:
            if u['inputs'] is not None:
                cases.append([r['harness'], u['inputs']])
                meta.append(('undecided', r, u))
        for s in r['samples']:
            cases.append([r['harness'], s['inputs']])
            meta.append(('sample', r, s))
    kf_start = len(cases)
    for f in findings:
        cases.append([f['harness'], f['inputs'], True])
        meta.append(('finding', None, f))
    outs = replay_cases(cases, tier)
    confirmed, spurious, mismatches = [], [], []
    validated = 0
    known_seen = []
    for (kind, r, x), o in zip(meta, outs):
        failed = o['outcome'] in ('fail', 'exception', 'crash')
        if kind == 'finding':
            if failed:
                known_seen.append(x)
            continue
        if kind == 'violation':
            if failed:
                confirmed.append((r['harness'], x['inputs'], o))
            else:
                spurious.append((x, o))
        elif kind == 'undecided':
            if failed:
                confirmed.append((r['harness'], x['inputs'], o))
        else:
            if failed:
                confirmed.append((r['harness'], x['inputs'], o))
            elif o['outcome'] == 'skip':
                mismatches.append((r['harness'], x['inputs'],
                                   'assumption false on the real code'))
            else:
                why = obs_match(x['obs'], o['obs'])
                if why is None:
                    validated += 1
                else:
                    mismatches.append((r['harness'], x['inputs'], why))

    for f in known_seen:
        print('KNOWN-FINDING: property=%s %s' % (a.property, f['what']))

    tot = {}
    for r in results:
        for k, v in r['stats'].items():
            tot[k] = tot.get(k, 0) + v
    functions = sorted({f for r in results for f in r['functions']})
    undecided = sum(len(r['undecided']) for r in results)
    incomplete = [r['harness'] for r in results if not r['complete']]
    errors = [(r['harness'], e) for r in results for e in r['errors']]
    samples = []
    for r in results:
        for s in r['samples'][:2]:
            samples.append({'harness': r['harness'], 'inputs': s['inputs']})
    samples = samples[:40]
    unreached = [r['harness'] for r in results
                 if not r['reached'] and not r['violations']]

    info = load_meta(a.property)
    ev = {
        'property': a.property,
        'tier': tier,
        'seed': int(os.environ.get('VERIF_SEED', '1')),
        'level': 'model_checking',
        'coverage': {
            'states': tot.get('paths', 0) - tot.get('aborted', 0),
            'transitions': tot.get('decisions', 0),
            'traces_validated_against_impl': validated,
            'samples': samples,
            'exhaustive': False,
            'explanation': 'Symbolic execution of the current source in '
            + REPO + '. states = feasible symbolic paths (each stands for '
            'every input satisfying its path condition); transitions = '
            'branch decisions resolved by the solver; '
            'traces_validated_against_impl = path models re-run on the '
            'unmodified code whose observed values equal the encoding.',
            'functions_encoded': functions,
            'harnesses': [{
                'name': r['harness'], 'what': r['doc'],
                'paths': r['stats']['paths'],
                'queries': r['stats']['queries'],
                'assertion_queries': r['stats']['assert_queries'],
                'assertions': r['stats']['checks'],
                'undecided_paths': len(r['undecided']),
                'complete_within_bounds': bool(r['complete']
                                               and not r['undecided']
                                               and not r['errors']),
                'reached': sorted(r['reached']),
                'wall_s': round(r['wall'], 2),
            } for r in results],
            'solver_queries': tot.get('queries', 0),
            'assertion_queries': tot.get('assert_queries', 0),
            'assertions_evaluated': tot.get('checks', 0),
            'assertions_true_on_path_without_query':
                tot.get('trivial_checks', 0),
            'solver_seconds': round(tot.get('solver_s', 0.0), 3),
            'solver': 'z3 ' + z3.get_version_string(),
            'undecided_paths': undecided,
            'solver_unknown_feasibility': tot.get('unknown_feas', 0),
            'solver_unknown_assertions': tot.get('unknown_assert', 0),
            'incomplete_harnesses': incomplete,
            'encoding_mismatches': len(mismatches),
            'bounds': info.get('bounds', ''),
        },
        'assumptions': info.get('assumptions', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(confirmed),
    }
    with open(os.path.join(OUT, 'evidence', a.property + '.json'),
              'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write('\n')

    print('property=%s tier=%s harnesses=%d paths=%d queries=%d solver=%.1fs '
          'validated=%d undecided=%d incomplete=%d wall=%.1fs' % (
              a.property, tier, len(results), tot['paths'], tot['queries'],
              tot['solver_s'], validated, undecided, len(incomplete),
              time.time() - t0))
    for h in incomplete:
        print('INCOMPLETE: %s (bounds not exhausted)' % h)
    seen_u = set()
    for r in results:
        for u in r['undecided']:
            k = (r['harness'], u['why'])
            if k not in seen_u:
                seen_u.add(k)
                print('UNDECIDED: %s: %s' % k)
    if a.v:
        for h, i, w in mismatches:
            print('MISMATCH: %s %s: %s' % (h, json.dumps(i), w))
    elif mismatches:
        print('MISMATCH: %d (first: %s %s: %s)' % (
            len(mismatches), mismatches[0][0], json.dumps(mismatches[0][1]),
            mismatches[0][2]))
    if confirmed:
        done = set()
        for h, inputs, o in confirmed:
            key = (h, o['label'])
            if key in done:
                continue
            done.add(key)
            n = len(done)
            path = os.path.join(OUT, 'replays', '%s-%d.json' % (a.property,
                                                                  n))
            with open(path, 'w') as f:
                json.dump({'property': a.property, 'harness': h,
                           'inputs': inputs, 'label': o['label'],
                           'detail': o['detail'], 'tier': tier,
                           'run': '/opt/venv/bin/python -m symx.replay '
                           '--file ' + path}, f, indent=1)
                f.write('\n')
            print('  %s / %s: inputs=%s: %s' % (
                h, o['label'], json.dumps(inputs)[:400], o['detail'][:400]))
            print('VIOLATION property=%s replay=%s' % (a.property, path))
            if n >= 8:
                break
        return 1
    rc = 0
    if errors:
        for h, e in errors:
            print('ERROR: %s: %s' % (h, e[-1500:]))
        rc = 2
    if spurious:
        for x, o in spurious[:5]:
            print('SPURIOUS (not reproduced on the real code): %s / %s '
                  'inputs=%s %s -> %s' % (x['harness'], x['label'],
                                          json.dumps(x['inputs'])[:300],
                                          x['detail'], o['outcome']))
        rc = 2
    if unreached and not errors:
        dead = [r for r in results if not r['reached']
                and not r['violations']
                and r['complete'] and not r['undecided']]
        for r in dead:
            print('VACUOUS: %s reached no assertion' % r['harness'])
        if dead:
            rc = 2
    if mismatches and os.environ.get('SYMX_STRICT'):
        rc = 2
    return rc


def load_meta(prop):
    p = os.path.join(VERIF, 'harness', 'meta.json')
    if os.path.exists(p):
        return json.load(open(p)).get(prop, {})
    return {}


if __name__ == '__main__':
    sys.exit(main())
