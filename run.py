"""Decides one property: explores every harness of the property symbolically,
asks the solver about every claim on every path, replays counterexamples on the
real code and writes evidence/<id>.json.

usage: python3-vt run.py C01 [--tier quick|thorough] [--only HARNESS] [-v]
exit 0: held within the bounds; 1: VIOLATION (replayed); 2: no answer
"""
import select, argparse, json, multiprocessing as mp, os, subprocess, sys, time, traceback, hashlib, signal
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
REPO = os.environ.get('VERIF_REPO', '/repo')
PYPY = '/opt/venv/bin/python'


def log(*a):
    print(*a, flush=True)


# ---------------------------------------------------------------- workers
FUNCS = set()


def _monitor():
    mon = sys.monitoring
    tool = mon.DEBUGGER_ID
    try:
        mon.use_tool_id(tool, 'symx')
    except ValueError:
        return

    def start(code, off):
        fn = code.co_filename
        if '/pytracer/' in fn and not code.co_name.startswith('<'):
            FUNCS.add('%s:%s' % (os.path.relpath(fn, REPO), code.co_qualname))
        return mon.DISABLE
    mon.register_callback(tool, mon.events.PY_START, start)
    mon.set_events(tool, mon.events.PY_START)


def run_path(task):
    """execute one path of one harness; returns a picklable dict"""
    from symx import core, ctx_sym, reg, shimnp
    import numpy as np
    np.seterr(all='ignore')
    hname, param, prefix, want_witness, deadline, tier = task
    h = reg.HARNESSES[hname]
    opts = dict(h.opts)
    opts.update(opts.get(tier, {}) if isinstance(opts.get(tier), dict) else {})
    opts['deadline'] = deadline
    t0 = time.time()
    eng = core.Engine([tuple(x) for x in prefix], opts)
    base = core.ENG
    core.ENG = eng
    ctx = ctx_sym.SymCtx(eng, opts)
    ctx.param = param
    ctx.tier = tier
    out = {'harness': hname, 'param': param, 'prefix': prefix, 'unsupported': None, 'limit': None}
    finished = False
    nfun = len(FUNCS)
    try:
        try:
            if h.params['quick'] == [None]:
                h.fn(ctx)
            else:
                h.fn(ctx, param)
            finished = True
        except core.Abort:
            pass
        except core.PathLimit as e:
            out['limit'] = str(e)
        except core.Unsupported as e:
            tb = traceback.extract_tb(e.__traceback__)
            w = ['%s:%d %s' % (os.path.relpath(f.filename, HERE), f.lineno, f.name) for f in tb][-6:]
            out['unsupported'] = 'Unsupported: %s at %s' % (e, w)
        except RecursionError as e:
            out['unsupported'] = 'recursion'
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = ['%s:%d %s' % (f.filename, f.lineno, f.name) for f in tb][-8:]
            out['crash'] = '%s: %s' % (type(e).__name__, str(e)[:300])
            out['where'] = where
            try:
                ctx.crash(e)
            except core.Abort:
                pass
        if finished and want_witness:
            try:
                out['witness'] = ctx.witness()
            except Exception as e:
                out['witness'] = {'inputs': None, 'error': repr(e)}
        if finished and eng.poison is not None:
            finished = False
            if isinstance(eng.poison, core.PathLimit):
                out['limit'] = str(eng.poison)
            else:
                out['unsupported'] = 'Unsupported (swallowed): %s' % eng.poison
        if (out['limit'] or out['unsupported'] or ctx.inconclusive) and time.time() < deadline - 30:
            # no verdict here: an input of this path is tried on the real code all the same
            try:
                out['probe'] = ctx.probe()
            except Exception:
                pass
    finally:
        core.ENG = base
    out['finished'] = finished
    out['alts'] = [list(a) for a in eng.alts]
    out['candidates'] = ctx.candidates
    out['inconclusive'] = ctx.inconclusive
    out['nchecks'] = ctx.nchecks
    out['ndischarged'] = ctx.ndischarged
    out['nwithin'] = ctx.nwithin
    out['labels'] = ctx.check_log
    out['stats'] = eng.stats.as_dict()
    out['ndec'] = len(eng.decisions)
    out['names'] = len(ctx.names)
    out['funcs'] = sorted(FUNCS) if len(FUNCS) != nfun or not prefix else []
    out['wall'] = time.time() - t0
    return out


def _init_worker():
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    import faulthandler
    faulthandler.register(signal.SIGUSR1)
    try:
        import ctypes
        ctypes.CDLL('libc.so.6').prctl(1, 9)      # die with the parent
    except Exception:
        pass
    _monitor()


# ---------------------------------------------------------------- replay
class Replayer(object):
    def __init__(self, module):
        self.module = module
        self.start()

    def start(self):
        env = dict(os.environ)
        env.update(PYTHONPATH=REPO + ':' + HERE, LC_ALL='C.UTF-8', PYTHONHASHSEED='0',
                   PYTHONDONTWRITEBYTECODE='1', OPENBLAS_NUM_THREADS='1')
        self.p = subprocess.Popen([PYPY, '-W', 'ignore', os.path.join(HERE, 'replay.py'), '--serve'],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                  env=env, text=True, cwd=HERE)
        r = self.ask({'load': self.module}, 120)
        if r.get('status') != 'loaded':
            raise RuntimeError('the repository does not load under its own interpreter: %s' % r)

    def ask(self, req, patience=40):
        self.p.stdin.write(json.dumps(req) + '\n')
        self.p.stdin.flush()
        if not select.select([self.p.stdout], [], [], patience)[0]:
            # the real code hangs on this input
            self.p.kill()
            self.p.wait()
            self.start()
            return {'status': 'raised', 'error': 'no answer from the code within %d s' % patience, 'checks': [], 'obs': {}}
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError('replay process died')
        return json.loads(line)

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(5)
        except Exception:
            self.p.kill()


def corpus(prop):
    p = os.path.join(HERE, 'corpus', prop + '.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)


def run_corpus(prop, rep, kf, module, only=None):
    """solver-made inputs of earlier runs, through the real code: used only where the encoding gave no verdict;
    can find a violation, never counts as a discharge"""
    out = []
    for e in corpus(prop):
        if only is not None and (e['harness'], json.dumps(e['param'], default=str)) not in only:
            continue
        r = rep.ask(e)
        bad = [c for c in r['checks'] if not c[1]]
        if not bad and r['status'] != 'raised':
            continue
        what = [c[0] for c in bad] or ['raises %s' % r.get('error', '')]
        if any(k['harness'] == e['harness'] and (k.get('param') is None or k['param'] == e['param'])
               and all(any(w.startswith(l) for l in k['labels']) for w in what) for k in kf):
            continue
        out.append(dict(harness=e['harness'], param=e['param'], inputs=e['inputs'], label='stored witness',
                        module=module, failing=[list(b) for b in bad], status=r['status'],
                        error=r.get('error'), where=r.get('where')))
    return out


def report(prop, v):
    d = os.path.join(HERE, 'evidence', 'replays')
    os.makedirs(d, exist_ok=True)
    hsh = hashlib.sha1(json.dumps([v['harness'], v['param'], v['inputs']], sort_keys=True, default=str).encode()).hexdigest()[:10]
    path = os.path.join(d, '%s-%s.json' % (prop, hsh))
    with open(path, 'w') as f:
        json.dump(v, f, indent=1, default=str)
    log('harness %s param %s fails: %s' % (v['harness'], v['param'], (v['failing'] or v['error'])))
    log('inputs: %s' % json.dumps(v['inputs'], sort_keys=True))
    log('replay: cd %s && PYTHONPATH=%s %s replay.py %s' % (HERE, REPO, PYPY, path))
    log('VIOLATION property=%s replay=%s' % (prop, path))


def unencodable(prop, module, tier, seed, t0):
    rep = Replayer(module)
    vs = run_corpus(prop, rep, known_findings(prop), module)
    rep.close()
    cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': [{'note': 'nothing encoded'}],
           'rule': 'the code could not be loaded symbolically', 'no_answer': ['nothing was encoded on this run']}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump({'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov,
                   'assumptions': ASSUME, 'wall_s': round(time.time() - t0, 2), 'violations': len(vs)}, f, indent=1)
    if vs:
        report(prop, vs[0])
        return 1
    return 0


def known_findings(prop):
    """entries of known_findings.json that apply to this property"""
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        d = json.load(f)
    return [e for e in d['findings'] if e['property'] == prop]


class Queue(object):
    """paths still to run: depth first within a harness, turns shared out by time spent"""
    def __init__(self, per):
        self.per, self.q, self.n = per, {}, 0

    def append(self, t):
        self.q.setdefault(t[3], []).append(t)
        self.n += 1

    def pop(self):
        k = min((k for k in self.q if self.q[k]), key=lambda k: self.per[k]['wall'] + self.per[k]['turns'] * 0.02)
        self.per[k]['turns'] += 1
        self.n -= 1
        return self.q[k].pop()

    def __len__(self):
        return self.n


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=None)
    ap.add_argument('--only', default=None)
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--save', action='store_true', help='keep the confirmed witnesses in corpus/')
    a = ap.parse_args()
    import faulthandler
    faulthandler.register(signal.SIGUSR1)
    tier = a.tier or os.environ.get('VERIF_TIER') or 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    limit = 480 if tier == 'quick' else 3 * 3600
    deadline = t0 + limit
    prop = a.prop
    from symx import loader, core, reg
    loader.install()
    import importlib
    module = 'harness.' + prop.lower()
    rc = 2
    notes = []
    try:
        importlib.import_module(module)
    except Exception:
        # the package (or the harness) does not even import in the symbolic world
        log('UNDECIDED property=%s: %s' % (prop, traceback.format_exc()[-1500:]))
        return unencodable(prop, module, tier, seed, t0)
    hs = [h for h in reg.HARNESSES.values() if h.prop == prop and (not a.only or a.only in h.name)]
    rep = Replayer(module)
    # the runtime must import what the harness imports
    tot = core.Stats()
    funcs = set()
    per = {}
    samples = []
    violations = []
    known_hit = {}
    kf = known_findings(prop)
    noanswer = []
    paths = 0
    decs = 0
    nchecks = ndis = nwithin = 0
    validated = 0
    obs_compared = 0
    mismatches = []
    keep = []
    pool = mp.Pool(a.jobs, initializer=_init_worker, maxtasksperchild=400)
    globals()['POOL'] = pool          # collecting it would terminate it
    pending = []
    wit_left = {}
    queue = Queue(per)
    tick = t0
    for h in hs:
        for p in h.params[tier]:
            key = (h.name, json.dumps(p, default=str))
            per[key] = dict(paths=0, finished=0, checks=0, discharged=0, witnesses=0, reach=False, wall=0., turns=0, labels=set())
            wit_left[key] = h.opts.get('witnesses', 6 if tier == 'quick' else 20)
            queue.append((h.name, p, [], key))
    stop = False
    maxpaths = 20000

    def submit(t):
        hname, p, prefix, key = t
        w = wit_left[key] > 0
        pending.append((t, pool.apply_async(run_path, ((hname, p, prefix, w, deadline, tier),)), w, time.time()))

    def replay_cands(out, key, quiet=False):
        for label, inputs in out['candidates']:
            rec = None
            tried = []
            for inp in inputs:
                r = rep.ask({'harness': out['harness'], 'param': out['param'], 'inputs': inp})
                bad = [c for c in r['checks'] if not c[1]]
                if bad or r['status'] == 'raised':
                    rec = (inp, r, bad)
                    break
                tried.append((inp, r['status']))
            if rec is None and quiet:
                continue
            if rec is None:
                noanswer.append('%s %s: counterexample for %r does not reproduce (%s)%s' %
                                (key[0], key[1], label, tried[:2], ' ' + out.get('crash', '') + ' ' + str(out.get('where', ''))))
                continue
            inp, r, bad = rec
            what = [c[0] for c in bad] or ['raises %s' % r.get('error', '')]
            k = None
            for e in kf:
                if e['harness'] == out['harness'] and (e.get('param') is None or e['param'] == out['param']) \
                        and all(any(w.startswith(l) for l in e['labels']) for w in what):
                    k = e
                    break
            if k is not None:
                known_hit[k['id']] = k
                per[key]['reach'] = True
                continue
            violations.append(dict(harness=out['harness'], param=out['param'], inputs=inp, label=label,
                                   module=module, failing=[list(b) for b in bad], status=r['status'],
                                   error=r.get('error'), where=r.get('where')))

    try:
        while (queue or pending) and not stop:
            while queue and len(pending) < a.jobs * 2:
                submit(queue.pop())
            if a.v and time.time() > tick:
                tick = time.time() + 20
                log('... %d s, %d paths, %d queued; most: %s' % (time.time() - t0, paths, len(queue), sorted(
                    ((round(P['wall']), P['paths'], len(queue.q.get(k, ()))) + k for k, P in per.items()), reverse=True)[:4]))
            done = [x for x in pending if x[1].ready()]
            if not done:
                time.sleep(0.003)
                if time.time() > deadline + 60:
                    noanswer.append('time limit')
                    break
                continue
            for x in done:
                pending.remove(x)
                t, res, w, ts = x
                key = t[3]
                try:
                    out = res.get()
                except Exception as e:
                    noanswer.append('%s: worker: %r' % (key[0], e))
                    continue
                paths += 1
                P = per[key]
                P['paths'] += 1
                P['wall'] += out['wall']
                P['labels'].update(out['labels'])
                decs += out['ndec']
                for k, v in out['stats'].items():
                    setattr(tot, k, getattr(tot, k) + v)
                funcs.update(out['funcs'])
                nchecks += out['nchecks']
                ndis += out['ndischarged']
                nwithin += out['nwithin']
                P['checks'] += out['nchecks']
                P['discharged'] += out['ndischarged']
                if out['finished']:
                    P['finished'] += 1
                if out['unsupported']:
                    noanswer.append('%s %s: %s' % (key[0], key[1], out['unsupported']))
                if out['limit']:
                    noanswer.append('%s %s: path limit: %s' % (key[0], key[1], out['limit']))
                for l in out['inconclusive']:
                    noanswer.append('%s %s: solver undecided on %r' % (key[0], key[1], l))
                if out.get('probe'):
                    replay_cands({'harness': out['harness'], 'param': out['param'],
                                  'candidates': [('undecided path', out['probe'])]}, key, True)
                    if violations and not a.v:
                        stop = True
                for alt in out['alts']:
                    queue.append((t[0], t[1], alt, key))
                if out['candidates']:
                    replay_cands(out, key)
                    if violations and not a.v:
                        stop = True
                wit = out.get('witness')
                if wit and wit.get('inputs') is not None:
                    r = rep.ask({'harness': out['harness'], 'param': out['param'], 'inputs': wit['inputs']})
                    bad = [c for c in r['checks'] if not c[1]]
                    if r['status'] == 'ok' and not bad:
                        P['reach'] = True
                        cmpn, mism = 0, []
                        if wit['exact']:
                            for n, v in wit['obs'].items():
                                if n in r['obs']:
                                    o = r['obs'][n]
                                    cmpn += 1
                                    if not (abs(o - v) <= 1e-4 * (1 + abs(v)) or o == v or (o != o and v != v)):
                                        mism.append((n, v, o))
                        if mism:
                            mismatches.append((key[0], key[1], wit['inputs'], mism[:3], wit['delta']))
                        else:
                            validated += 1
                            obs_compared += cmpn
                            P['witnesses'] += 1
                            keep.append({'harness': key[0], 'param': out['param'], 'inputs': wit['inputs']})
                            wit_left[key] -= 1
                            if len(samples) < 12 and P['witnesses'] <= 2:
                                samples.append({'harness': key[0], 'param': out['param'], 'inputs': wit['inputs'],
                                                'observed': {k: wit['obs'][k] for k in list(wit['obs'])[:6]}})
                    elif bad or r['status'] == 'raised':
                        # a solver-made input on which the real code breaks the claim
                        out2 = {'harness': out['harness'], 'param': out['param'],
                                'candidates': [('witness', [wit['inputs']])]}
                        if wit['delta']:
                            replay_cands(out2, key)
                            if violations and not a.v:
                                stop = True
                        elif a.v:
                            log('boundary witness fails concretely', key, wit['inputs'], bad[:3], r.get('error'))
                if a.v and (out.get('crash') or out['inconclusive'] or out['candidates'] or P['paths'] <= 3 or out['wall'] > 5):
                    log('  %-34s %-14s path %d dec %d checks %d/%d %.2fs q=%d %s%s%s' % (
                        key[0], key[1][:14], P['paths'], out['ndec'], out['ndischarged'], out['nchecks'], out['wall'],
                        out['stats']['queries'], 'W' if wit and wit.get('inputs') else '',
                        ' CRASH ' + out.get('crash', '') + str(out['where'][-3:]) if out.get('crash') else '',
                        ' INC' + str(out['inconclusive']) if out['inconclusive'] else ''))
                if stop:
                    break
            if paths > maxpaths:
                noanswer.append('more than %d paths' % maxpaths)
                break
            if time.time() > deadline:
                noanswer.append('time limit')
                break
    except KeyboardInterrupt:
        os._exit(2)
    # (no pool.terminate: it can deadlock; workers die with this process)
    if noanswer and not violations:
        violations.extend(run_corpus(prop, rep, kf, module, set(per)))
    # every known finding that is listed must be re-observed to be printed; probe its input directly
    for e in kf:
        if e.get('inputs') is not None and e['id'] not in known_hit and not a.only:
            r = rep.ask({'harness': e['harness'], 'param': e.get('param'), 'inputs': e['inputs']})
            if [c for c in r['checks'] if not c[1]] or r['status'] == 'raised':
                known_hit[e['id']] = e
    rep.close()
    for key, P in per.items():
        if not stop and not P['reach']:
            noanswer.append('%s %s: no path witness was confirmed on the real code (vacuous?)' % key)
    for mm in mismatches:
        noanswer.append('encoding and real code disagree: %s' % (mm,))
    for e in known_hit.values():
        log('KNOWN-FINDING: property=%s %s' % (prop, e['what']))
    wall = time.time() - t0
    vio_paths = []
    if violations:
        rc = 1
        if a.v:
            shown = set()
            for v2 in violations[1:]:
                kk = (v2['harness'], str(v2['param']), v2['label'])
                if kk in shown:
                    continue
                shown.add(kk)
                log('also: %s %s %s %s\n     %s' % (v2['harness'], v2['param'], v2['failing'][:4], v2['error'],
                                           json.dumps(v2['inputs'], sort_keys=True)))
        report(prop, violations[0])
    else:
        for n in noanswer[:20]:
            log('UNDECIDED property=%s: %s' % (prop, n))
        rc = 0
        log('OK%s property=%s tier=%s: %d paths, %d claims discharged (%d within tolerance), %d queries, '
            '%.1fs solver, %d witnesses validated, %.1fs wall' %
            (' (no violation; %d items undecided)' % len(noanswer) if noanswer else '', prop, tier, paths, ndis, nwithin, tot.queries, tot.time, validated, wall))
    if a.save and not violations and not a.only:
        os.makedirs(os.path.join(HERE, 'corpus'), exist_ok=True)
        with open(os.path.join(HERE, 'corpus', prop + '.json'), 'w') as f:
            f.write('[\n' + ',\n'.join(json.dumps(e, sort_keys=True, default=str) for e in keep) + '\n]\n')
    mod = sys.modules[module]
    meta = getattr(mod, 'META', {})
    cov = {
        'states': paths,
        'transitions': decs,
        'traces_validated_against_impl': validated,
        'samples': samples or [{'note': 'no witness on this run'}],
        'rule': 'one state = one execution path of a harness over symbolic inputs (path condition feasible or not refuted); '
                'transitions = branch decisions taken along them; a validated trace is a solver model of a path condition '
                'run through the real code under its own interpreter with equal observations',
        'claims_generated': nchecks, 'claims_discharged': ndis, 'claims_discharged_within_tolerance_only': nwithin,
        'queries': tot.queries, 'queries_unsat': tot.unsat, 'queries_sat': tot.sat, 'queries_unknown': tot.unknown,
        'solver_seconds': round(tot.time, 2),
        'observations_compared': obs_compared,
        'functions_encoded': sorted(funcs),
        'harnesses': [{'harness': k[0], 'param': k[1], 'about': reg.HARNESSES[k[0]].about,
                       'paths': P['paths'], 'paths_finished': P['finished'], 'claims': P['checks'],
                       'discharged': P['discharged'], 'reachability_witnesses': P['witnesses'],
                       'seconds': round(P['wall'], 2)} for k, P in per.items()],
        'bounds': meta.get('bounds', ''),
        'outside_bounds': meta.get('outside', ''),
        'known_findings_observed': sorted(known_hit),
        'no_answer': noanswer[:20],
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov,
          'assumptions': ASSUME + list(meta.get('assumptions', [])), 'wall_s': round(wall, 2),
          'violations': len(violations)}
    if not a.only:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
    return rc


ASSUME = [
    'floating-point numbers are modelled as real numbers (rounding, overflow and subnormals are outside the claim); '
    'infinities and NaN arising from division by zero are modelled; a zero divisor is taken as +0 unless stated',
    'sin, cos, exp, log, pow, arccos, arctan2 are axiomatised (range, monotonicity, inverse and addition facts); '
    'an over-approximation, so a discharged claim stands; counterexamples are refined and replayed',
    'numpy arrays are executed through a symbolic stand-in for numpy, validated on solver-made inputs against the real runtime',
    'counterexamples count only when they reproduce on the real code within the stated tolerance',
]

if __name__ == '__main__':
    code = main()
    sys.stdout.flush()
    os._exit(code)
