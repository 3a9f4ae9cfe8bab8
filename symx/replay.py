"""Run harnesses concretely on the unmodified code.

  python -m symx.replay --file replays/P01-1.json
"""
import argparse
import importlib
import json
import os
import signal
import sys
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SYMX_REPO', '/repo')


def run_case(h, inputs, tier, findings=()):
    from .api import ConT, ConcreteFailure, Gap, Skip, check_gap
    t = ConT(inputs, tier, findings)

    def alarm(*a):
        raise TimeoutError('replay took longer than 20 s')
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(20)
    try:
        h.fn(t, **h.kw)
        out = {'outcome': 'ok', 'label': '', 'detail': ''}
    except Skip:
        out = {'outcome': 'skip', 'label': '', 'detail': ''}
    except ConcreteFailure as e:
        out = {'outcome': 'fail', 'label': e.label, 'detail': str(e.detail)}
    except Gap as e:
        out = {'outcome': 'skip', 'label': '', 'detail': str(e)}
    except Exception as e:
        try:
            check_gap(e)
            out = None
        except Gap as g:
            out = {'outcome': 'skip', 'label': '', 'detail': str(g)}
        out = out or {'outcome': 'exception',
               'label': 'unexpected %s' % type(e).__name__,
               'detail': ''.join(traceback.format_exception_only(e)).strip()
               + ' ' + ' <- '.join('%s:%d' % (os.path.basename(f.filename),
                                              f.lineno) for f in
                                   traceback.extract_tb(e.__traceback__)[-3:])}
    finally:
        signal.alarm(0)
    out['obs'] = t.obs
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--file')
    ap.add_argument('--batch')
    ap.add_argument('--tier', default='quick')
    a = ap.parse_args()
    for p in (VERIF, REPO):
        if p not in sys.path:
            sys.path.insert(0, p)
    sys.dont_write_bytecode = True
    from .api import HARNESSES
    from .run import read_findings
    kf = [f['id'] for f in read_findings()]
    for m in sorted(os.listdir(os.path.join(VERIF, 'harness'))):
        if m.endswith('.py') and not m.startswith('_'):
            importlib.import_module('harness.' + m[:-3])
    by = {h.name: h for h in HARNESSES}
    if a.file:
        d = json.load(open(a.file))
        o = run_case(by[d['harness']], d['inputs'], d.get('tier', 'quick'), kf)
        print(json.dumps(o, indent=1))
        sys.exit(0 if o['outcome'] in ('ok', 'skip') else 1)
    cases = json.load(sys.stdin)
    out = os.fdopen(os.dup(1), 'w')
    sys.stdout = sys.stderr
    for c in cases:
        probe = len(c) > 2
        o = run_case(by[c[0]], c[1], a.tier, () if probe else kf)
        try:
            s = json.dumps(o)
        except (TypeError, ValueError):
            o['obs'] = []
            s = json.dumps(o)
        out.write('REPLAY ' + s + '\n')
        out.flush()


if __name__ == '__main__':
    main()
