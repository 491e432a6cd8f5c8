#!/usr/bin/env python3-vt
"""check.py <PID> [--tier quick|thorough] [--replay FILE]

Decides one property on /repo's current tree: regenerates every proof obligation from the current source, discharges it, and
replays any countermodel on the real code.  exit 0 held / exit 1 + VIOLATION line / exit 2 error of the check."""
import sys, os, json, time, random, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from dv import run as R

VERIF = R.VERIF

def known_findings(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p): return []
    return [f for f in json.load(open(p)) if f['property'] == pid and f['status'] == 'known']

def properties():
    return {json.loads(l)['id']: json.loads(l) for l in open(os.path.join(VERIF, 'properties.jsonl')) if l.strip()}

def write_replay(pid, unit, info, kind):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    n = 0
    while os.path.exists(os.path.join(d, '%s-%d.json' % (pid, n))): n += 1
    path = os.path.join(d, '%s-%d.json' % (pid, n))
    info = dict(info)
    info.update({'property': pid, 'unit': unit, 'kind': kind,
                 'how': 'python3-vt /verif/check.py %s --replay %s' % (pid, path)})
    json.dump(info, open(path, 'w'), indent=1, default=str)
    return path

def do_replay(pid, path):
    info = json.load(open(path))
    m = R.load_contracts(pid, False)
    u = [x for x in R.units_of(m) if x.name == info['unit']][0]
    if info.get('rng') is None:
        print('no concrete input recorded; verifier output:'); print(json.dumps(info.get('obligations'), indent=1)[:4000]); return 1
    st, out = R.conc_once(u, random.Random(info['rng']), info.get('model'))
    print('replay of %s on %s: %s %s' % (info['unit'], R.REPO, st, json.dumps(out, default=str)[:3000]))
    return 1 if st == 'fail' else 0

def out_of_reach(s):
    """no obligation was refuted, but the verifier did not get through the unit"""
    if s is None or s.get('crash'): return True
    if any(f.get('backend') != 'raise' for o in s['obls'].values() for f in o['failed']): return False
    return bool(s['error'] or any(o['nfailed'] or o['nund'] for o in s['obls'].values()) or not s['obls'])

def accepted(s):
    return s is not None and not s.get('crash') and not s['error'] and bool(s['obls']) and all(s['covers'].values()) and not any(o['nfailed'] or o['nund'] for o in s['obls'].values())

def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    if '--replay' in sys.argv: return do_replay(pid, sys.argv[sys.argv.index('--replay') + 1])
    only = sys.argv[sys.argv.index('--unit') + 1] if '--unit' in sys.argv else None
    verbose = '-v' in sys.argv
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    # unit list from the concrete module; import errors of the code under check are failures of the tree
    try:
        mc = R.load_contracts(pid, False)
        units = R.units_of(mc)
    except Exception:
        traceback.print_exc()
        print('ERROR: contracts or package cannot be loaded')
        return 2
    if only: units = [u for u in units if u.name == only]
    for u in units:
        if u.sym == 'thorough': u.sym = tier == 'thorough'
    finding_units = {f['unit']: f for f in known_findings(pid)}
    tasks = []
    for u in units:
        if u.name in finding_units: continue
        if u.sym: tasks.append((('sym', u.name), R.run_sym, (pid, u.name, seed, tier), u.timeout + 60))
        n = u.runs * (8 if tier == 'thorough' else 1)
        tl = 60 * (4 if tier == 'thorough' else 1)
        tasks.append((('conc', u.name), R.run_conc, (pid, u.name, seed, n, [], tl), tl + 90))
    for fu in finding_units:
        tasks.append((('find', fu), R.run_conc, (pid, fu, seed, 40, [], 60), 150))
    # mathematical lemmas the contracts rest on, checked by Lean
    import subprocess
    lem = [(x, subprocess.Popen(['lean', os.path.join(VERIF, 'lemmas', x)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)) for x in getattr(mc, 'LEMMAS', []) if not only]
    # long symbolic units first
    tasks.sort(key=lambda t: (t[0][0] != 'sym', -t[3]))
    res = R.pool_run(tasks)
    obligations = discharged = undecided = failed = bounded_ob = 0
    backends = {}
    solver = {}
    assumptions = set()
    violations = []
    notes = []
    ev_units = []
    errors = []
    conc_total = conc_checked = 0
    replay_tasks = []
    for u in units:
        if u.name in finding_units: continue
        s = res.get(('sym', u.name))
        e = {'unit': u.name, 'functions_under_contract': u.targets}
        if u.sym and u.standby and out_of_reach(s) and all(accepted(res.get(('sym', x))) for x in u.standby):
            why = ((s or {}).get('error') or 'symbolic execution stopped').splitlines()[0]
            bounded_ob += sum(o['proved'] for o in ((s or {}).get('obls') or {}).values())
            e['bounded'] = 'not within reach on this tree (%s): %s stand in, not counted as proved' % (why, ', '.join(u.standby))
            notes.append('%s: %s' % (u.name, e['bounded']))
        elif u.sym:
            if s is None or s.get('crash'):
                errors.append('%s: %s' % (u.name, (s or {}).get('error')))
                e['undecided'] = (s or {}).get('error')
                undecided += 1; obligations += 1
            else:
                nf = nu = np_ = 0
                for n, o in s['obls'].items():
                    tot = o['proved'] + o['nfailed'] + o['nund']
                    if u.bounded_text: bounded_ob += tot
                    else: obligations += tot; discharged += o['proved']
                    np_ += o['proved']
                    nf += o['nfailed']; nu += o['nund']
                    for b, k in o['backends'].items(): backends[b] = backends.get(b, 0) + k
                failed += nf; undecided += nu
                e.update({'paths': s['paths'], 'obligations': np_ + nf + nu, 'discharged': np_, 'wall_s': round(s['wall'], 2),
                          'names': len(s['obls']), 'covers': s['covers']})
                if u.bounded_text: e['bounded'] = u.bounded_text + ' (obligations of this unit are not counted as proved)'
                for k, v in s['solver'].items(): solver[k] = solver.get(k, 0) + v
                assumptions |= set(s['assumptions'])
                if s['error']:
                    e['undecided'] = s['error']
                    undecided += 1; obligations += 1
                    errors.append('%s: %s' % (u.name, s['error']))
                elif np_ + nf + nu == 0:
                    errors.append('%s: zero obligations generated' % u.name)
                    undecided += 1; obligations += 1
                bad_cov = [c for c, ok in s['covers'].items() if not ok]
                if bad_cov and not s['error']:
                    errors.append('%s: precondition not reachable: %s' % (u.name, bad_cov))
                    undecided += 1; obligations += 1
                if nu: errors.append('%s: %d obligations undecided: %s' % (u.name, nu, [n for n, o in s['obls'].items() if o['nund']][:5]))
                if nf:
                    fo = {n: o for n, o in s['obls'].items() if o['nfailed']}
                    models = []
                    for n, o in fo.items():
                        for f in o['failed'][:2]:
                            if f.get('model') is not None: models.append(f['model'])
                    replay_tasks.append((u, fo, models[:24]))
        else:
            e['bounded'] = u.bounded_text or 'bounded: %d random cases' % u.runs
        c = res.get(('conc', u.name)) or {}
        if c.get('crash'):
            errors.append('%s: concrete run: %s' % (u.name, c.get('error')))
        else:
            conc_total += c.get('ran', 0); conc_checked += c.get('checked', 0)
            e['bounded_runs'] = c.get('ran', 0); e['bounded_checks'] = c.get('checked', 0)
            if c.get('errors'): errors.append('%s: harness error in concrete run: %s' % (u.name, c['errors'][0][-1500:]))
            if c.get('fails'):
                f = c['fails'][0]
                violations.append((u.name, f, 'bounded run of the contract on the real code'))
        ev_units.append(e)
    for x, pr in lem:
        obligations += 1
        try: out, _ = pr.communicate(timeout=400)
        except subprocess.TimeoutExpired: pr.kill(); out = 'timeout'
        if pr.returncode == 0 and 'error' not in out and 'sorry' not in out: discharged += 1; backends['lean'] = backends.get('lean', 0) + 1
        else: undecided += 1; errors.append('lemma %s: %s' % (x, out[:800]))
    # countermodel replay
    if replay_tasks:
        rt = [(('rep', u.name), R.run_conc, (pid, u.name, seed, 60, models, 100), 220) for u, fo, models in replay_tasks]
        rres = R.pool_run(rt)
        for u, fo, models in replay_tasks:
            rr = rres.get(('rep', u.name)) or {}
            names = sorted(fo)
            if rr.get('fails'):
                f = dict(rr['fails'][0])
                f['failed_obligations'] = names[:40]
                violations.append((u.name, f, 'countermodel replayed on the real code' if rr.get('replayed') else 'directed search after a failed obligation'))
            elif all(all(x.get('backend') == 'raise' for x in o['failed']) for o in fo.values()):
                # the symbolic run raised but the real code does not: outside the verifier's reach
                undecided += 1
                errors.append('%s: symbolic execution stopped: %s' % (u.name, list(fo.values())[0]['failed'][0]['detail']))
            elif any(any('h%d_' % k in json.dumps(x.get('model', {})) for k in range(1, 40)) for o in fo.values() for x in o['failed']):
                undecided += 1
                errors.append('%s: obligations %s depend on loop-carried values without an invariant' % (u.name, names[:4]))
            elif rr.get('crash') or rr.get('errors') or not rr.get('ran'):
                undecided += 1
                errors.append('%s: obligations %s failed, but no concrete case could be run: %s' % (u.name, names[:4], rr.get('errors') or rr.get('error')))
            else:
                info = {'rng': None, 'failed_obligations': names[:60], 'obligations': {n: fo[n]['failed'] for n in names[:20]},
                        'verifier': 'refuted obligation, countermodel attached; no failing input found among %d concrete runs' % rr.get('ran', 0)}
                violations.append((u.name, info, 'no-failing-input-found'))
    # an obligation the verifier does not accept is a failed obligation: search harder for an input, else report it without one
    if not violations:
        und = {}
        for x in errors:
            for u in units:
                if u.name not in finding_units and x.startswith(u.name + ': '): und.setdefault(u.name, []).append(x[:1500])
        if und:
            n = {u.name: max(60, u.runs * 6) for u in units}
            rres = R.pool_run([(('more', k), R.run_conc, (pid, k, seed + 7777, n[k], [], 100), 200) for k in und])
            for k, x in und.items():
                rr = rres.get(('more', k)) or {}
                if rr.get('fails'): violations.append((k, rr['fails'][0], 'directed search after an obligation that was not accepted'))
            if not violations:
                for k, x in und.items():
                    rr = rres.get(('more', k)) or {}
                    violations.append((k, {'rng': None, 'obligation': 'not accepted by the verifier', 'failed_obligations': [k], 'obligations': {k: x}, 'detail': x[0][:300],
                                           'verifier': 'obligations of this unit were not accepted; no failing input found among %d further concrete runs' % rr.get('ran', 0)}, 'no-failing-input-found'))
    # known findings
    for fu, f in finding_units.items():
        c = res.get(('find', fu)) or {}
        if c.get('fails'):
            print('KNOWN-FINDING: property=%s %s' % (pid, f['what']))
        else:
            notes.append('known finding %s no longer reproduces' % f['id'])
    sres = {'z3_calls': solver.get('z3_calls', 0), 'z3_time_s': round(solver.get('z3_time', 0), 2), 'cvc5_calls': solver.get('cvc5_calls', 0),
            'cvc5_time_s': round(solver.get('cvc5_time', 0), 2), 'ring_calls': solver.get('ring_calls', 0), 'ring_time_s': round(solver.get('ring_time', 0), 2)}
    level = 'proof' if obligations else 'exploration'
    try:
        man = json.load(open(os.path.join(VERIF, 'MANIFEST.json')))
        for c in man['checks']:
            if c['property'] == pid: level = c['level']
    except Exception:
        pass
    cov = {'obligations': obligations, 'discharged': discharged, 'undecided': undecided, 'refuted': failed, 'obligations_discharged_in_bounded_units': bounded_ob,
           'checker_cmd': 'python3-vt /verif/check.py %s' % pid,
           'trusted_base': ['dv VC generator (transform.py, explore.py, runtime.py), ring normaliser (sym.py), numpy/math shims', 'z3 4.x, cvc5 1.1.2',
                            'floating point treated as exact real arithmetic'] + sorted(getattr(mc, 'TRUSTED', [])),
           'back_ends': backends, 'solver': sres, 'units': ev_units,
           'evaluations': conc_total, 'distinct_nontrivial': conc_total,
           'rule': 'bounded layer: contracts executed on the real code with seeded random inputs satisfying the precondition; every counted run executed at least one contract clause',
           'bounded_contract_clauses_evaluated': conc_checked,
           'samples': [x['unit'] for x in ev_units][:12],
           'explanation': 'deductive: obligations generated from the current source of the functions under contract; bounded layer is labelled and never counted as proved',
           'undecided_detail': errors[:20], 'notes': notes}
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'assumptions': sorted(assumptions), 'wall_s': round(time.time() - t0, 2),
          'violations': len(violations)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1, default=str)
    print('%s: %d obligations (+%d in bounded units), %d discharged %s, %d refuted, %d undecided; bounded runs %d (%d clauses); %.1fs' % (
        pid, obligations, bounded_ob, discharged, backends, failed, undecided, conc_total, conc_checked, time.time() - t0))
    if verbose:
        for e in ev_units: print('   ', json.dumps(e))
    for x in errors: print('UNDECIDED: ' + x[:1500])
    if violations:
        # prefer violations with a concrete input
        violations.sort(key=lambda v: v[2] == 'no-failing-input-found')
        seen = set()
        for un, info, kind in violations[:6]:
            path = write_replay(pid, un, info, kind)
            tail = ' no-failing-input-found' if kind == 'no-failing-input-found' else ''
            print('  %s: obligation %s: %s [%s]' % (un, info.get('obligation') or info.get('failed_obligations'), str(info.get('detail', ''))[:300], kind))
            if kind == 'no-failing-input-found' and any(v[2] != kind for v in violations): continue
            print('VIOLATION property=%s replay=%s%s' % (pid, path, tail))
        return 1
    assert not errors and not undecided
    return 0

if __name__ == '__main__':
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
