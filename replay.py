"""Runs harnesses on concrete inputs with the repository's own interpreter.

usage:  replay.py --serve            (JSON requests on stdin, one per line)
        replay.py FILE               (a replay file written by a check)
Executed by /opt/venv/bin/python with PYTHONPATH=/repo:/verif.
"""
import importlib, json, os, sys, traceback, warnings
warnings.simplefilter('ignore')
sys.dont_write_bytecode = True
import numpy as np
np.seterr(all='ignore')

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

CUR = [None]


def _rand(*a):
    c = CUR[0]
    if c is None:
        return _real_rand(*a)
    return c.rng(*a)


def _shuffle(x):
    c = CUR[0]
    if c is None:
        return _real_shuffle(x)
    return c.shuffle(x)


_real_rand, _real_shuffle = np.random.rand, np.random.shuffle
np.random.rand = _rand
np.random.shuffle = _shuffle
np.random.random = lambda size=None: _rand() if size is None else _rand(*([size] if isinstance(size, int) else size))
np.random.random_sample = np.random.random

from symx.ctx_conc import ConcCtx, AssumeFail
from symx import reg


class Quiet(object):
    def write(self, *a):
        return 0

    def flush(self):
        pass


def run_one(req):
    h = reg.HARNESSES[req['harness']]
    c = ConcCtx(req['inputs'])
    c.param = req.get('param')
    CUR[0] = c
    out = {'status': 'ok'}
    try:
        h.fn(c) if h.params['quick'] == [None] else h.fn(c, req.get('param'))
    except AssumeFail as e:
        out['status'] = 'assume'
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = ['%s:%d %s' % (f.filename, f.lineno, f.name) for f in tb][-6:]
        out['status'] = 'raised'
        out['error'] = '%s: %s' % (type(e).__name__, str(e)[:300])
        out['where'] = where
        out['in_repo'] = any('/pytracer/' in f.filename for f in tb)
    finally:
        CUR[0] = None
    out['checks'] = [[l, bool(ok), d] for (l, ok, d) in c.checks]
    out['obs'] = c.obs
    return out


def load(modname):
    importlib.import_module(modname)


def main():
    if sys.argv[1:2] == ['--serve']:
        real = sys.stdout
        sys.stdout = Quiet()
        for line in sys.stdin:
            line = line.strip()
            if not line:
                continue
            req = json.loads(line)
            try:
                if req.get('load'):
                    load(req['load'])
                    res = {'status': 'loaded'}
                else:
                    res = run_one(req)
            except Exception as e:
                res = {'status': 'error', 'error': traceback.format_exc()[-1500:]}
            real.write(json.dumps(res) + '\n')
            real.flush()
        return 0
    with open(sys.argv[1]) as f:
        req = json.load(f)
    load(req['module'])
    res = run_one(req)
    bad = [c for c in res['checks'] if not c[1]]
    print('harness %s  param %r' % (req['harness'], req.get('param')))
    print('inputs  %s' % json.dumps(req['inputs'], sort_keys=True))
    for l, ok, d in bad:
        print('FAILS   %s: %s' % (l, d))
    if res['status'] != 'ok':
        print('status  %s %s %s' % (res['status'], res.get('error', ''), res.get('where', '')))
    if bad or res['status'] == 'raised':
        print('the property is violated on these inputs')
        return 1
    print('no violation on these inputs')
    return 0


if __name__ == '__main__':
    sys.exit(main())
