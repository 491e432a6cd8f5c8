"""Runner: python3-vt check.py <property> ; decides one property on /repo's current tree."""
import sys, os, json, time, random, traceback, importlib, importlib.util, types, multiprocessing as mp, signal, hashlib, builtins
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('DV_REPO', '/repo')
sys.dont_write_bytecode = True
sys.pycache_prefix = '/nonexistent-pycache'
if REPO not in sys.path: sys.path.insert(0, REPO)
for p in ('/opt/venv/lib/python3.12/site-packages',):
    if p not in sys.path and os.path.isdir(p): sys.path.append(p)
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
os.environ.setdefault('OMP_NUM_THREADS', '1')
import warnings
warnings.filterwarnings('ignore')
from . import sym, solve, explore, transform, runtime
from .harness import HSym, HConc, Skip, Fail
from .sym import Unsupported

class Unit:
    """one contract: `fn(h)` sets up inputs satisfying the precondition, calls the real function, states the postcondition"""
    def __init__(self, name, fn, targets, runs=30, sym=True, timeout=240, max_paths=6000, solver_ms=4000, bounded=None, bounded_text=None, standby=()):
        self.name, self.fn, self.targets = name, fn, targets
        self.runs, self.sym, self.timeout, self.max_paths, self.solver_ms = runs, sym, timeout, max_paths, solver_ms
        self.bounded_text = bounded_text
        self.standby = standby      # bounded units that stand in when this one is out of the verifier's reach

_cache = {}

def shadow():
    if 'S' not in _cache:
        _cache['S'] = transform.Shadow(REPO)
    return _cache['S']

def load_contracts(pid, symbolic):
    """contracts/<pid>.py, either transformed (symbolic) or as plain Python (concrete)"""
    key = (pid, symbolic)
    if key in _cache: return _cache[key]
    path = os.path.join(VERIF, 'contracts', pid + '.py')
    src = open(path).read()
    m = types.ModuleType('contracts.' + pid)
    m.__file__ = path
    m.__dict__['UNIT'] = Unit
    if symbolic:
        S = shadow()
        b = dict(S.builtins)
        imp0 = b['__import__']
        def imp(name, globals=None, locals=None, fromlist=(), level=0):
            if name == 'contracts' or name.startswith('contracts.'):
                sub = load_contracts(name.split('.', 1)[1], True) if '.' in name else None
                if sub is None:
                    pk = types.ModuleType('contracts')
                    for f in fromlist or (): setattr(pk, f, load_contracts(f, True))
                    return pk
                if fromlist: return sub
                pk = types.ModuleType('contracts'); setattr(pk, name.split('.', 1)[1], sub); return pk
            return imp0(name, globals, locals, fromlist, level)
        b['__import__'] = imp
        m.__dict__['__builtins__'] = b
        m.__dict__['__sv__'] = runtime
        exec(transform.transform(src, path), m.__dict__)
    else:
        b = dict(builtins.__dict__)
        imp1 = b['__import__']
        def impc(name, globals=None, locals=None, fromlist=(), level=0):
            if name == 'contracts' or name.startswith('contracts.'):
                if '.' in name:
                    sub = load_contracts(name.split('.', 1)[1], False)
                    if fromlist: return sub
                    pk = types.ModuleType('contracts'); setattr(pk, name.split('.', 1)[1], sub); return pk
                pk = types.ModuleType('contracts')
                for f in fromlist or (): setattr(pk, f, load_contracts(f, False))
                return pk
            return imp1(name, globals, locals, fromlist, level)
        b['__import__'] = impc
        m.__dict__['__builtins__'] = b
        exec(compile(src, path, 'exec'), m.__dict__)
    _cache[key] = m
    return m

def units_of(m):
    return list(m.UNITS)

# ------------------------------------------------------------------ symbolic run of one unit
def run_sym(pid, uname, seed, tier):
    t0 = time.time()
    res = {'unit': uname, 'obls': {}, 'paths': 0, 'error': None, 'assumptions': [], 'covers': {}, 'raised': []}
    st0 = dict(solve.STATS)
    try:
        m = load_contracts(pid, True)
        u = [x for x in units_of(m) if x.name == uname][0]
        eng = explore.Engine(uname, timeout_ms=u.solver_ms * (3 if tier == 'thorough' else 1), max_paths=u.max_paths, deadline=time.time() + u.timeout, seed=seed)
        S = shadow()
        raised = []
        def go(e):
            h = HSym(e, S)
            e.func = ','.join(u.targets)
            e.forall = []
            try:
                u.fn(h)
                h.unpatch()
                e._record('returns-normally', lambda: ('proved', 'eval', None), '')
            except (explore.PathEnd, explore.RestartLoop, explore.Budget, Unsupported):
                raise
            except RecursionError:
                raise Unsupported('recursion')
            except Exception as ex:
                tb = traceback.extract_tb(ex.__traceback__)
                where = [f for f in tb if '/PyNite/' in f.filename]
                last = tb[-1]
                desc = '%s: %s at %s' % (type(ex).__name__, ex, '%s:%s' % (os.path.basename(last.filename), last.lineno))
                st, mdl = solve.check(e.pc, 3000, True)
                if st == 'unsat':
                    return
                if mdl is None: mdl = e.sample(None, 200) or {}
                e._record('returns-normally', lambda: ('failed', 'raise', mdl), desc)
            finally:
                h.unpatch()
        try:
            eng.explore(go)
        except Unsupported as ex:
            res['error'] = 'unsupported: %s' % ex
            tb = traceback.extract_tb(ex.__traceback__)
            w = [f for f in tb if '/PyNite/' in f.filename or '/contracts/' in f.filename]
            if w: res['error'] += ' (at %s:%s)' % (os.path.basename(w[-1].filename), w[-1].lineno)
            eng.commit()
        except explore.Budget as ex:
            res['error'] = 'budget: %s' % ex
            eng.commit()
        res['paths'] = eng.paths
        res['assumptions'] = sorted(eng.assumptions)
        res['covers'] = eng.covers
        for n, o in eng.obls.items():
            res['obls'][n] = {'proved': o.proved, 'failed': o.failed[:4], 'nfailed': len(o.failed), 'undecided': o.undecided[:2],
                              'nund': len(o.undecided), 'backends': o.backends}
    except Exception as ex:
        res['error'] = 'internal: %s: %s\n%s' % (type(ex).__name__, ex, traceback.format_exc()[-1500:])
    res['wall'] = time.time() - t0
    res['solver'] = {k: solve.STATS[k] - st0[k] for k in st0}
    return res

# ------------------------------------------------------------------ concrete runs of one unit
class Timeout(BaseException): pass

def conc_once(u, rng, model=None, limit=60):
    """-> (status, info): 'ok' | 'skip' | 'fail'"""
    h = HConc(rng, model)
    def onalarm(*a): raise Timeout()
    old = signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(limit)
    so = sys.stdout
    sys.stdout = open(os.devnull, 'w')
    try:
        import numpy as np
        with np.errstate(all='ignore'):
            u.fn(h)
        return 'ok', {'checked': h.checked}
    except Skip:
        return 'skip', {}
    except Fail as f:
        return 'fail', {'obligation': f.name, 'detail': f.detail, 'inputs': h.log}
    except Timeout:
        return 'timeout', {'inputs': h.log}
    except Unsupported as ex:
        return 'skip', {'unsupported': str(ex)}
    except Exception as ex:
        tb = traceback.extract_tb(ex.__traceback__)
        last = [f for f in tb if '/PyNite/' in f.filename]
        # arithmetic of a contract on a result that is None: the code returned no number
        infra = not last and not (isinstance(ex, TypeError) and 'NoneType' in str(ex) and '/contracts/' in tb[-1].filename)
        desc = '%s: %s at %s:%s' % (type(ex).__name__, ex, os.path.basename((last or tb)[-1].filename), (last or tb)[-1].lineno)
        return ('error' if infra else 'fail'), {'obligation': 'returns-normally', 'detail': desc, 'inputs': h.log, 'trace': traceback.format_exc()[-2500:]}
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        sys.stdout.close()
        sys.stdout = so
        h.unpatch()

def run_conc(pid, uname, seed, n, models, tlimit):
    """replay models then random runs"""
    t0 = time.time()
    out = {'unit': uname, 'ran': 0, 'checked': 0, 'skipped': 0, 'fails': [], 'errors': [], 'replayed': 0, 'timeouts': 0}
    try:
        m = load_contracts(pid, False)
        u = [x for x in units_of(m) if x.name == uname][0]
    except Exception as ex:
        out['errors'].append('contracts: %s' % traceback.format_exc()[-800:])
        out['wall'] = time.time() - t0
        return out
    for i, mdl in enumerate(models):
        for variant in range(3):
            mm = dict(mdl)
            if variant < 2: mm['exact'] = True
            st, info = conc_once(u, random.Random('%s/%s/%s/m%d/%d' % (pid, uname, seed, i, variant)), mm)
            if st == 'fail':
                out['replayed'] += 1
                info['model'] = mm
                info['rng'] = '%s/%s/%s/m%d/%d' % (pid, uname, seed, i, variant)
                out['fails'].append(info)
                break
        if out['fails']: break
    k = 0
    tries = 0
    while k < n and tries < 12 * n + 20 and time.time() - t0 < tlimit:
        tries += 1
        rs = '%s/%s/%s/%d' % (pid, uname, seed, tries)
        st, info = conc_once(u, random.Random(rs))
        if st == 'ok':
            k += 1; out['ran'] += 1; out['checked'] += info['checked']
        elif st == 'skip':
            out['skipped'] += 1
        elif st == 'timeout':
            out['timeouts'] += 1
            if out['timeouts'] > 2: break
        elif st == 'fail':
            k += 1; out['ran'] += 1
            info['rng'] = rs
            info['model'] = None
            out['fails'].append(info)
            if len(out['fails']) >= 6: break
        else:
            out['errors'].append(info['detail'] + '\n' + info.get('trace', ''))
            if len(out['errors']) > 2: break
    out['wall'] = time.time() - t0
    return out

def _worker(q, f, args):
    try:
        os.setpgrp()
    except OSError:
        pass
    try:
        q.put(f(*args))
    except BaseException as ex:
        q.put({'error': 'worker: %r' % (ex,), 'crash': True})

def pool_run(tasks, nproc=None, hard=600):
    """tasks: list of (key, f, args, limit). Returns {key: result or {'error':...}}"""
    nproc = nproc or min(8, os.cpu_count() or 4)
    ctx = mp.get_context('fork')
    pend = list(tasks)
    run = []
    res = {}
    while pend or run:
        while pend and len(run) < nproc:
            key, f, args, limit = pend.pop(0)
            q = ctx.SimpleQueue()
            p = ctx.Process(target=_worker, args=(q, f, args))
            p.start()
            run.append((key, p, q, time.time() + limit))
        time.sleep(0.01)
        nxt = []
        for key, p, q, dl in run:
            if not q.empty():
                try: res[key] = q.get()
                except Exception as ex: res[key] = {'error': 'pipe: %r' % ex, 'crash': True}
                p.join(5)
                if p.is_alive(): p.kill()
            elif not p.is_alive():
                if not q.empty():
                    res[key] = q.get()
                else:
                    res[key] = {'error': 'worker died (exit %s)' % p.exitcode, 'crash': True}
            elif time.time() > dl:
                p.kill(); p.join()
                res[key] = {'error': 'budget: hard time limit', 'crash': True}
            else:
                nxt.append((key, p, q, dl))
        run = nxt
    return res
