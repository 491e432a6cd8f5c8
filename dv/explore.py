"""Path exploration of transformed source, loop rule, obligations."""
import time, random, math
import numpy as np
from fractions import Fraction
from . import sym, solve
from .sym import R, SymBool, And, Not, Or, brk, Unsupported, T

class _NotLinear(Exception):
    pass

class PathEnd(BaseException):
    pass

class RestartLoop(BaseException):
    pass

class RestartAll(BaseException):
    """start the exploration of the unit again (a merged statement turned out not to be mergeable)"""

class Budget(BaseException):
    pass

class Poison:
    """A value the loop rule knows nothing about; any use is outside the verifier's reach."""
    def __init__(self, why): object.__setattr__(self, '_why', why)
    def _die(self, *a, **k):
        raise Unsupported('use of a value not covered by the loop rule: ' + object.__getattribute__(self, '_why'))
    __getattr__ = __call__ = __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __bool__ = _die
    __getitem__ = __iter__ = __len__ = __lt__ = __gt__ = __le__ = __ge__ = __neg__ = __float__ = __setitem__ = _die
    def __eq__(self, o): self._die()
    def __ne__(self, o): self._die()
    __hash__ = object.__hash__

_lin_cache = {}
def _linear(f):
    k = f.key()
    r = _lin_cache.get(k)
    if r is None:
        r = True
        for x in f.reals():
            for m in x.t:
                if m and (len(m) > 1 or m[0][1] != 1 or T.atoms[m[0][0]].kind not in ('var', 'fn')):
                    r = False
        _lin_cache[k] = r
    return r

class LoopRec:
    def __init__(self):
        self.havoc = set()      # location paths
        self.results = []       # (conds, {path: (start, end)}, elemwrites)
        self.dirty = False
        self.breaks = False
        self.facts = {}

class Obl:
    __slots__ = ('name', 'func', 'proved', 'failed', 'undecided', 'backends')
    def __init__(self, name, func):
        self.name, self.func = name, func
        self.proved = 0
        self.failed = []       # dicts: model, detail
        self.undecided = []
        self.backends = {}

class Engine:
    _nowalk = True
    def __init__(self, name='', timeout_ms=4000, max_paths=4000, deadline=None, seed=1):
        self.name = name
        self.timeout_ms = timeout_ms
        self.max_paths = max_paths
        self.deadline = deadline
        self.obls = {}
        self.order = []
        self.assumptions = set()
        self.paths = 0
        self.covers = {}
        self.rng = random.Random(seed)
        self.func = None
        self.pending = []
        self.reset_path()
        self.trace = []
        self.loops = {}
        self.branch_cache = {}
        self.max_fail = 3
        self.stop_on_fail = False
        self.safety = True
        self.nomerge = set()
        self.choice_range = {}
        self.mergesite = None

    def reset_path(self):
        self.pos = 0
        self.pc = []
        self.pcset = set()
        self.active = {}
        self.fresh = 0
        self.path_obls = []
        self.elems = {}
        self.seqstate = {}
        self.glists = []          # lists completed item by item (seglist.py)
        self.loopv = []           # loops being executed: (loop, generic element)
        self.walk_inst = False
        self.inputs = {}
        self.loopstack = []
        self.exists_log = []
        self.univ = []
        self.bodies = 0
        self.nsplit = 0
        self.innerw = []
        self.seqreg = {}
        self.innerflag = False
        self.sorted_pts = None
        self.choices = []
        self.facts = set()         # keys of assumptions (contract preconditions, type invariants): never conditions of a loop piece
        self.merge = False
        self.nobranch = False
        self.while_rule = None
        self.iter_end = None
        self.singular_choice = False
        self.distinct = None
        self.solutions = []
        self.numbered = {}
        self.probe = None
        self.bigrange = None
        self.merge_minmax = False

    def note_assumption(self, s):
        self.assumptions.add(s)

    # ---------------------------------------------------------------- decisions
    def choose(self, options):
        """options: list of values; DFS over them"""
        if self.deadline and time.time() > self.deadline:
            raise Budget('time budget')
        if self.pos < len(self.trace):
            ent = self.trace[self.pos]
        else:
            ent = [list(options), 0]
            self.trace.append(ent)
        self.pos += 1
        return ent[0][ent[1]]

    def assume(self, b):
        if isinstance(b, SymBool):
            if b.op == 'and':
                for x in b.args:
                    self.assume(x)
                return
            if b.key() in self.pcset:
                return
            self.pc.append(b)
            self.pcset.add(b.key())
        elif not b:
            raise PathEnd()

    def relevant_pc(self, b):
        """pc conjuncts sharing atoms (transitively) with b"""
        want = set()
        def ats(f):
            if f._a is not None: return f._a
            s = f._a = set()
            for r in f.reals():
                r.deep_atoms(s)
            s |= set('b:' + x for x in f.boolvars())
            for a in list(s):
                if isinstance(a, int) and T.atoms[a].kind == 'brk':
                    s |= set('b:' + x for x in T.atoms[a].data.boolvars())
                elif isinstance(a, int) and T.atoms[a].kind == 'fn': s.add('f:' + T.atoms[a].name.split('(')[0])
            return s
        if isinstance(b, SymBool):
            want = set(ats(b))
        elif isinstance(b, R):
            want = b.deep_atoms()
        rest = [(c, ats(c)) for c in self.pc]
        out = []
        changed = True
        while changed:
            changed = False
            nxt = []
            for c, s in rest:
                if s & want:
                    out.append(c); want |= s; changed = True
                else:
                    nxt.append((c, s))
            rest = nxt
        return out

    def feasible(self, b, timeout=400):
        if not isinstance(b, SymBool):
            return bool(b)
        k = b.key()
        if k in self.pcset:
            return True
        if Not(b).key() in self.pcset:
            return False
        rel = self.relevant_pc(b)
        ck = (k, tuple(sorted(hash(c.key()) for c in rel)))
        r = self.branch_cache.get(ck)
        if r is None:
            lin = [c for c in rel if _linear(c)]
            st = 'unknown'
            if len(lin) < len(rel) or not _linear(b):
                # a subset of the hypotheses suffices for infeasibility
                st, _ = solve.check(lin + [b] if _linear(b) else lin, max(timeout, 1000))
            if st != 'unsat':
                st, _ = solve.check(rel + [b], timeout)
            r = st != 'unsat'
            self.branch_cache[ck] = r
        return r

    def contradictory(self, r):
        """does what is known of the value r rule this path out?"""
        if not isinstance(r, R): return False
        rel = self.relevant_pc(r)
        lin = [c for c in rel if _linear(c)]
        return solve.check(lin, 2000)[0] == 'unsat' or (len(lin) < len(rel) and solve.check(rel, 1000)[0] == 'unsat')

    def implies(self, b):
        return not self.feasible(Not(b), 1000) if isinstance(b, SymBool) else bool(b)

    def universal(self, seq, binder, fact):
        """a fact proved for every element of the collection: assumed of the generic element and of every element named later"""
        if not isinstance(fact, SymBool):
            if not fact: raise PathEnd()
            return
        self.facts.add(fact.key())
        self.assume(fact)
        self.__dict__.setdefault('univ', []).append((seq.name, binder, fact))
        for (n, d) in list(self.elems):
            if n == seq.name and '%s#%s' % (n, d) != binder: self._instance(binder, '%s#%s' % (n, d), fact)
    def _instance(self, binder, other, fact):
        ren = {}
        for r in fact.reals():
            for x in r.deep_atoms():
                at = sym.T.atoms[x]
                if at.kind == 'var' and binder in at.name: ren[x] = sym.var(at.name.replace(binder, other), at.sign, at.is_int)
        if any(binder in b for b in fact.boolvars()): return
        f = sym.subst_bool(fact, ren)
        if isinstance(f, SymBool): self.assume(f)
    def instances(self, seq, other):
        for n, binder, fact in self.__dict__.get('univ', ()):
            if n == seq.name and binder != other: self._instance(binder, other, fact)
    def known_sign(self, d):
        """whether a path condition says d > 0 or d < 0"""
        if not isinstance(d, R): return False
        for x in (sym.cmp0('<', d), sym.cmp0('<', -d)):
            if isinstance(x, SymBool) and x.key() in self.pcset: return True
        return False
    def branch(self, cond):
        if not isinstance(cond, SymBool):
            return bool(cond)
        if self.nobranch:
            k = cond.key()
            if k in self.pcset: return True
            if Not(cond).key() in self.pcset: return False
            if not self.feasible(cond): return False
            if not self.feasible(Not(cond)): return True
            from .runtime import MergeFail
            raise MergeFail()
        if self.pos < len(self.trace):
            if len(self.trace[self.pos][0]) > 1: self.nsplit += 1
            v = self.choose(None)
        else:
            k = cond.key()
            if k in self.pcset:
                opts = [True]
            elif Not(cond).key() in self.pcset:
                opts = [False]
            elif cond.op in ('==', '!=') and self.known_sign(cond.args[0]):
                opts = [cond.op == '!=']
            else:
                t = self.feasible(cond)
                f = self.feasible(Not(cond)) if t else True
                opts = ([True] if t else []) + ([False] if f else [])
                if not opts:
                    raise PathEnd()
            if len(opts) > 1: self.nsplit += 1
            v = self.choose(opts)
        self.assume(cond if v else Not(cond))
        return v

    # ---------------------------------------------------------------- obligations
    def prove(self, name, claim, detail=''):
        """claim: bool / SymBool; or use prove_eq."""
        self._record(name, lambda: self._decide(claim), detail)

    def prove_eq(self, name, a, b, detail=''):
        d = a - b if isinstance(a, (R, SymBool)) or isinstance(b, (R, SymBool)) else None
        if d is None:
            ok = (a == b)
            self._record(name, lambda: ('proved', 'eval', None) if ok else ('failed', 'eval', {}), '%r != %r' % (a, b))
            return
        self._record(name, lambda: self._decide_zero(d), detail)

    def _record(self, name, decide, detail):
        prefix = tuple(e[1] for e in self.trace[:self.pos])
        self.pending = [p for p in self.pending]
        res = decide()
        self.path_obls.append((name, self.func, prefix, res, detail))

    def flush_path(self):
        self.pending.extend(self.path_obls)
        self.path_obls = []

    def drop_under(self, prefix):
        n = len(prefix)
        self.pending = [p for p in self.pending if p[2][:n] != prefix]

    def commit(self):
        for name, func, prefix, (st, be, model), detail in self.pending:
            o = self.obls.get(name)
            if o is None:
                o = self.obls[name] = Obl(name, func)
            if st == 'proved':
                o.proved += 1
                o.backends[be] = o.backends.get(be, 0) + 1
            elif st == 'failed':
                o.failed.append({'model': model, 'detail': detail, 'backend': be})
            else:
                o.undecided.append({'detail': detail, 'backend': be, 'model': model})
        self.pending = []

    def _decide_zero(self, d):
        t0 = time.time()
        solve.STATS['ring_calls'] += 1
        try:
            if isinstance(d, R):
                if not d.t:
                    return ('proved', 'ring', None)
                if not any(T.atoms[a].kind == 'sum' for a in d.atoms()):
                    if sym.is_zero_nf(d):
                        return ('proved', 'ring', None)
                    if self._zero_by_eqs(d, 0):
                        return ('proved', 'ring', None)
                else:
                    ok = self._sum_zero(d)
                    if ok is True:
                        return ('proved', 'ring+sum', None)
                    if ok is not None:
                        return ok
        finally:
            solve.STATS['ring_time'] += time.time() - t0
        if not isinstance(d, R):
            return ('proved', 'eval', None) if d == 0 else ('failed', 'eval', {})
        return self._decide(sym.cmp0('==', d), zero=d)

    def _zero_by_eqs(self, d, depth):
        """use equalities of the path condition as substitutions, splitting disjunctions of equalities"""
        saved_eng = sym.HOOK['engine']
        try:
            mp = {}
            for _ in range(8):
                new = None
                for c in self.pc:
                    if c.op != '==': continue
                    r = sym.subst(c.args[0], mp) if mp else c.args[0]
                    if not r.t or r.is_const(): continue
                    best = None
                    for m, k in r.t.items():
                        if len(m) == 1 and m[0][1] == 1 and T.atoms[m[0][0]].kind in ('var', 'fn'):
                            a = m[0][0]
                            if a in mp: continue
                            if sum(1 for mm in r.t if any(x[0] == a for x in mm)) != 1: continue
                            rest = R({mm: cc for mm, cc in r.t.items() if mm != m})
                            if a in rest.deep_atoms(): continue
                            nm = T.atoms[a].name
                            score = (-1 if T.atoms[a].kind == 'fn' else nm.count('#') * 10 + (5 if nm.startswith(('X', 'x')) else 0), nm)
                            if best is None or score > best[0]: best = (score, a, rest * sym.R.const(Fraction(-1) / k))
                    if best is not None:
                        new = best; break
                if new is None: break
                mp = {a: sym.subst(v, {new[1]: new[2]}) for a, v in mp.items()}
                mp[new[1]] = new[2]
            r = sym.subst(d, mp) if mp else d
            if not r.t: return True
            if mp and sym.is_zero_nf(r): return True
            if depth >= 5: return False
            ats = d.deep_atoms()
            for c in self.pc:
                if c.op == 'or' and all(x.op == '==' for x in c.args):
                    ca = set()
                    for x in c.reals(): x.deep_atoms(ca)
                    if not (ca & ats): continue
                    saved = (list(self.pc), set(self.pcset))
                    try:
                        ok = True
                        for x in c.args:
                            self.pc, self.pcset = [y for y in saved[0] if y is not c], set(saved[1])
                            if not self.feasible(x, 1000): continue
                            self.assume(x)
                            if not self._zero_by_eqs(d, depth + 1):
                                ok = False; break
                        return ok
                    finally:
                        self.pc, self.pcset = saved
            # equalities implied by pairs of inequalities
            cand = {}
            def collect(c):
                if c.op in ('and', 'or', 'not'):
                    for x in c.args: collect(x)
                elif c.op in ('<', '<='):
                    q = c.args[0]
                    qa = set(x[0] for m in q.t for x in m)
                    if 1 <= len(q.t) <= 3 and qa and qa <= ats and all(T.atoms[a].kind in ('var', 'fn') for a in qa):
                        q2 = sym.subst(q, mp) if mp else q
                        if q2.t and not q2.is_const():
                            e = sym.cmp0('==', q2)
                            if isinstance(e, SymBool): cand[e.key()] = e
            for c in self.pc: collect(c)
            for k, e in list(cand.items())[:24]:
                if k in self.pcset or self.feasible(Not(e), 1000): continue
                saved = (list(self.pc), set(self.pcset))
                try:
                    self.assume(e)
                    return self._zero_by_eqs(d, depth + 1)
                finally:
                    self.pc, self.pcset = saved
            return False
        except (Unsupported, ZeroDivisionError, RecursionError):
            return False

    def _sum_zero(self, d):
        """d contains sum atoms linearly.  Sums are flattened to sums over sets of binders (sums over finite
        collections commute), and the combined summand is shown to vanish for generic elements, case by case."""
        groups = {}
        def flat(r, binders, conds):
            for m, c in r.t.items():
                sa = [(aid, e) for aid, e in m if T.atoms[aid].kind == 'sum']
                if not sa:
                    groups.setdefault(binders, {}).setdefault(conds, R({}))
                    groups[binders][conds] = groups[binders][conds] + R({m: c})
                    continue
                if len(sa) != 1 or sa[0][1] != 1:
                    raise _NotLinear()
                aid = sa[0][0]
                coef = R({tuple(x for x in m if x[0] != aid): c})
                dat = T.atoms[aid].data
                for cs, v in dat['pieces']:
                    flat(coef * v, binders | frozenset([(dat['seq'], dat['binder'])]), conds | frozenset(cs))
        try:
            flat(d, frozenset(), frozenset())
        except _NotLinear:
            return None
        for binders, pieces in groups.items():
            items = sorted(pieces.items(), key=lambda kv: sorted(repr(c) for c in kv[0]))
            r = self._cases(items, R({}))
            if r[0] != 'proved':
                return r
        return True

    def _known(self, c):
        """True / False / None: what the path condition literally says of c"""
        if not isinstance(c, SymBool): return bool(c)
        if c.key() in self.pcset: return True
        if Not(c).key() in self.pcset: return False
        if c.op == 'not':
            k = self._known(c.args[0])
            return None if k is None else not k
        if c.op in ('and', 'or'):
            ks = [self._known(a) for a in c.args]
            if c.op == 'and': return False if False in ks else True if all(k is True for k in ks) else None
            return True if True in ks else False if all(k is False for k in ks) else None
        return None

    def _atoms_of(self, c):
        """the undecided parts of c that are not conjunctions or disjunctions"""
        if not isinstance(c, SymBool): return []
        if c.op in ('and', 'or'): return [x for a in c.args for x in self._atoms_of(a)]
        if c.op == 'not' and isinstance(c.args[0], SymBool) and c.args[0].op in ('and', 'or'): return self._atoms_of(c.args[0])
        return [] if self._known(c) is not None else [c]

    def _cases(self, items, acc):
        """split on the literals of the piece conditions until every piece is known to apply or not"""
        rest = []
        for conds, v in items:
            left = []
            dead = False
            for c in conds:
                k = self._known(c)
                if k is True: continue
                if k is False:
                    dead = True; break
                left.append(c)
            if dead: continue
            if not left: acc = acc + v
            else: rest.append((frozenset(left), v))
        if not rest:
            if not acc.t:
                return ('proved', 'ring', None)
            return self._decide_zero(acc)
        cnt = {}
        for conds, v in rest:
            for c in conds:
                for a in self._atoms_of(c):
                    e = cnt.setdefault(a.key(), [0, a]); e[0] += 1
        lit = max(cnt.values(), key=lambda e: (e[0], repr(e[1])))[1]
        saved = (list(self.pc), set(self.pcset))
        try:
            for x in (lit, Not(lit)):
                if isinstance(x, SymBool) and self.feasible(x, 2000):
                    self.assume(x)
                    r = self._cases(rest, acc)
                    if r[0] != 'proved':
                        return r
                self.pc, self.pcset = list(saved[0]), set(saved[1])
            return ('proved', 'ring', None)
        finally:
            self.pc, self.pcset = saved

    def _feas_all(self, cs):
        c = And(*cs)
        return self.feasible(c, 2000) if isinstance(c, SymBool) else bool(c)

    def _decide(self, claim, zero=None):
        extra = self._ranges(claim)
        if not extra: return self._decide1(claim, zero)
        saved = (list(self.pc), set(self.pcset))
        try:
            for x in extra: self.assume(x)
            return self._decide1(claim, zero)
        finally:
            self.pc, self.pcset = saved

    def _ranges(self, claim):
        """an enumerated choice is one of its options"""
        if not self.choice_range: return []
        ats = set()
        for f in self.pc + ([claim] if isinstance(claim, SymBool) else []):
            for r in f.reals(): r.deep_atoms(ats)
        out = []
        for a in ats:
            n = self.choice_range.get(T.atoms[a].name) if T.atoms[a].kind == 'var' else None
            if n is not None:
                v = sym.atom_R(T.atoms[a])
                out += [x for x in (v >= 0, v <= n - 1) if isinstance(x, SymBool) and x.key() not in self.pcset]
        return out

    def _decide1(self, claim, zero=None):
        if not isinstance(claim, SymBool):
            if claim:
                return ('proved', 'eval', None)
            # fails on this path; is the path feasible?
            st, model = solve.check(self.pc, self.timeout_ms, True)
            if st == 'unsat':
                return ('proved', 'z3', None)
            if model is None:
                model = self.sample(None)
            return ('failed', 'eval', model or {})
        if claim.op == 'and':
            last = ('proved', 'eval', None)
            for c in claim.args:
                r = self._decide(c)
                if r[0] != 'proved':
                    return r
                last = r
            return last
        if claim.key() in self.pcset:
            return ('proved', 'z3', None)
        if claim.op == '==' and zero is None:
            r = self._decide_zero(claim.args[0]) if not getattr(self, '_in_zero', False) else None
            return r
        neg = Not(claim)
        # cheap refutation first: numeric sampling under the path condition
        mdl = self.sample(claim, tries=40)
        if mdl is not None:
            full = dict(mdl)
            return ('failed', 'sample', full)
        rel = self.relevant_pc(claim)
        st, model = solve.check(rel + [neg], self.timeout_ms, True)
        if st == 'unsat':
            return ('proved', 'z3', None)
        if st == 'sat':
            st2, m2 = solve.check(self.pc + [neg], self.timeout_ms, True)
            if st2 == 'unsat':
                return ('proved', 'z3', None)
            return ('failed', 'z3', m2 or model)
        st = solve.check_cvc5(rel + [neg], max(self.timeout_ms, 8000))
        if st == 'unsat':
            return ('proved', 'cvc5', None)
        mdl = self.sample(claim, tries=400)
        if mdl is not None:
            return ('failed', 'sample', mdl)
        if st == 'sat':
            return ('failed', 'cvc5', {})
        return ('undecided', 'z3+cvc5', None)

    def sample(self, claim, tries=60):
        """random assignment satisfying pc and falsifying claim (claim None: just pc)"""
        ats = set()
        bools = set()
        for f in self.pc + ([claim] if claim is not None else []):
            for r in f.reals():
                r.deep_atoms(ats)
            bools |= set(f.boolvars())
        for a in list(ats):
            if T.atoms[a].kind == 'brk':
                bools |= set(T.atoms[a].data.boolvars())
        base = [a for a in ats if T.atoms[a].kind in ('var', 'fn')]
        fns = sorted(a for a in base if T.atoms[a].kind == 'fn')
        # equalities of the form var == const/var in pc are used as substitutions
        for _ in range(tries):
            env = {}
            for a in base:
                at = T.atoms[a]
                if at.is_int:
                    v = self.rng.randint(0, 6)
                    if at.sign == sym.POS: v = max(1, v)
                else:
                    v = self.rng.choice([self.rng.uniform(0.2, 3), self.rng.uniform(0.2, 3), self.rng.uniform(0.5, 12),
                                         float(self.rng.randint(0, 3))])
                    if at.sign in (sym.REAL, sym.NONZERO) and self.rng.random() < 0.5:
                        v = -v
                    if at.sign in (sym.POS, sym.NONZERO) and v == 0:
                        v = 1.0
                    if at.sign == sym.NEG:
                        v = -abs(v) - 0.1
                env[a] = v
            for f in self.pc:
                if f.op == '==':
                    self._solve_eq(f.args[0], env)
            if fns:
                vals = {}
                try:
                    for a in fns:
                        at = T.atoms[a]
                        k = (at.name.split('(')[0],) + tuple(sym.evaluate(x, lambda x: env.get(x.id, 0.37)) for x in at.data)
                        env[a] = vals.setdefault(k, env[a])
                except (ZeroDivisionError, ValueError, OverflowError): continue
            bm = {b: self.rng.random() < 0.5 for b in bools}
            for f in self.pc:
                if f.op == 'var': bm[f.args[0]] = True
                elif f.op == 'not' and f.args[0].op == 'var': bm[f.args[0].args[0]] = False
            def ev(x):
                if isinstance(x, SymBool):
                    return bm.get(x.args[0], False)
                return env.get(x.id, 0.37)
            try:
                if not all(sym.eval_bool(c, ev) for c in self.pc):
                    continue
                if claim is not None and sym.eval_bool(claim, ev):
                    continue
                if claim is not None and isinstance(claim, SymBool) and claim.op in ('==', '<', '<='):
                    v = sym.evaluate(claim.args[0], ev); s = sym.abs_scale(claim.args[0], ev)
                    if abs(v) <= 1e-7 * s or not math.isfinite(v):
                        continue
            except (ZeroDivisionError, ValueError, OverflowError):
                continue
            m = {T.atoms[a].name: v for a, v in env.items()}
            m.update(bm)
            return m
        return None

    def _solve_eq(self, r, env):
        """make r == 0 true by solving for one linear variable if possible"""
        for m, c in r.t.items():
            if len(m) == 1 and m[0][1] == 1 and m[0][0] in env and not T.atoms[m[0][0]].is_int:
                a = m[0][0]
                if sum(1 for mm in r.t if any(x[0] == a for x in mm)) == 1:
                    others = R({mm: cc for mm, cc in r.t.items() if mm != m})
                    try:
                        env[a] = -sym.evaluate(others, lambda x: env.get(x.id, 0.37)) / float(c)
                    except Exception:
                        pass
                    return

    def cover(self, name):
        """reachability obligation: this point must be reachable with a satisfiable path condition"""
        if self.covers.get(name):
            return
        st, _ = solve.check(self.pc, 3000)
        ok = st == 'sat'
        if not ok:
            ok = self.sample(None, 200) is not None
        self.covers[name] = bool(ok)

    # ---------------------------------------------------------------- exploration
    def explore(self, fn):
        prev = sym.HOOK['engine']
        sym.HOOK['engine'] = self
        self.trace = []
        self.loops = {}
        try:
            while True:
                self.reset_path()
                try:
                    fn(self)
                    self.paths += 1
                except PathEnd:
                    pass
                except RestartLoop:
                    continue
                except RestartAll:
                    self.trace, self.loops, self.pending, self.paths = [], {}, [], 0
                    continue
                self.flush_path()
                if self.paths > self.max_paths:
                    raise Budget('path budget %d' % self.max_paths)
                # backtrack
                del self.trace[max(self.pos, 0):]
                while self.trace and self.trace[-1][1] + 1 >= len(self.trace[-1][0]):
                    self.trace.pop()
                if not self.trace:
                    break
                self.trace[-1][1] += 1
                if self.deadline and time.time() > self.deadline:
                    raise Budget('time budget')
            self.commit()
        finally:
            sym.HOOK['engine'] = prev

# ------------------------------------------------------------------ unbounded collections
class SymSeq:
    """An unbounded finite collection; iteration is handled by the loop rule (SV.loop)."""
    def __init__(self, name, make, cond=None, n=None):
        self.name = name
        self.make = make            # make(binder_name) -> element object
        self.n = n if n is not None else sym.var('len(%s)' % name, sym.NONNEG, True)
        e = sym.HOOK.get('engine')
        if e is not None: e.seqreg[name] = self
    def elem(self, eng, depth):
        key = (self.name, depth)
        e = eng.elems.get(key)
        if e is None:
            n0 = eng.nsplit
            e = self.make('%s#%s' % (self.name, depth))
            if eng.nsplit != n0:
                raise Unsupported('the contract branches while describing an element of %s' % self.name)
            eng.elems[key] = e
        return e
    def __len__(self):
        raise Unsupported('len() of a symbolic collection outside the len shim')
    def __bool__(self):
        return bool(sym.cmp0('!=', self.n))
    def __iter__(self):
        raise Unsupported('iteration over symbolic collection %s outside a for statement' % self.name)
    def __getitem__(self, i):
        if type(i) is not int or i not in (0, -1): raise Unsupported('element %r of an unbounded collection' % (i,))
        e = sym.HOOK['engine']
        if not bool(self.n > 0): raise IndexError('list index out of range')
        d = 'first' if i == 0 else 'last'
        new = (self.name, d) not in e.elems
        el = self.elem(e, d)
        if new: e.instances(self, '%s#%s' % (self.name, d))
        return el
    def __contains__(self, x):
        raise Unsupported('membership in symbolic collection')

class MapSeq(SymSeq):
    def __init__(self, base, f, name=None):
        self.base, self.f = base, f
        self.name = base.name
        self.n = base.n
    def elem(self, eng, depth):
        return self.f(self.base.elem(eng, depth))

class SymDict:
    """dict with unboundedly many entries: only iteration"""
    def __init__(self, name, make):
        self.seq = SymSeq(name, make)      # make(binder) -> (key, value)
        self.name = name
    def items(self): return self.seq
    def values(self): return MapSeq(self.seq, lambda kv: kv[1])
    def keys(self): return MapSeq(self.seq, lambda kv: kv[0])
    def __bool__(self): return bool(self.seq)
    def __iter__(self):
        raise Unsupported('iteration over symbolic dict outside a for statement')

class Loop:
    """iterator object standing for `for x in <SymSeq>`"""
    def __init__(self, eng, seq, site, names):
        self.eng, self.seq, self.site, self.names = eng, seq, site, names
        self.state = 0
        self.bodyvals = None

def is_scalar(v):
    return isinstance(v, (R, int, float, Fraction)) and not isinstance(v, bool)

def walk(roots, opaque=()):
    """yield (path, kind, container, key, value) for every mutable leaf location reachable from roots."""
    seen = set()
    out = []
    def visit(v, path, depth):
        if depth > 12:
            return
        if isinstance(v, (R, SymBool, int, float, str, Fraction, bool, type(None), Poison)):
            return
        if isinstance(v, SymSeq) or isinstance(v, SymDict) or getattr(type(v), '_nowalk', False):
            return
        i = id(v)
        if i in seen:
            return
        seen.add(i)
        keep.append(v)
        if isinstance(v, np.ndarray):
            if v.dtype == object:
                for k in range(v.size):
                    out.append((path + (k,), 'nd', v, k))
            return
        if isinstance(v, (list,)):
            out.append((path + ('@list',), 'list', v, None))
            for k, x in enumerate(list.__iter__(v)):
                visit(x, path + (k,), depth + 1)
            insts = getattr(v, 'insts', None)
            if insts and sym.HOOK['engine'].walk_inst:
                for k, r in list(insts.items()): visit(r[1], path + (('inst', k),), depth + 1)
            return
        if isinstance(v, tuple):
            for k, x in enumerate(v):
                visit(x, path + (k,), depth + 1)
            return
        if isinstance(v, dict):
            out.append((path + ('@keys',), 'keys', v, None))
            for k, x in list(v.items()):
                out.append((path + (('k', k if isinstance(k, (str, int)) else id(k)),), 'item', v, k))
                visit(x, path + (('k', k if isinstance(k, (str, int)) else id(k)),), depth + 1)
            return
        if isinstance(v, GhostMat):
            out.append((path + ('@mat',), 'mat', v, None))
            return
        d = getattr(v, '__dict__', None)
        if d is not None and not isinstance(v, type) and not callable(v) and getattr(type(v), '__module__', '').split('.')[0] in ('PyNite', 'contracts', 'dv', '__main__', 'harness'):
            for k in sorted(d):
                x = d[k]
                if callable(x) and not isinstance(x, np.ndarray):
                    continue
                out.append((path + ('.' + k,), 'attr', v, k))
                visit(x, path + ('.' + k,), depth + 1)
    keep = []
    for n in sorted(roots):
        visit(roots[n], (n,), 0)
    return out, keep

def loc_get(kind, c, k):
    if kind == 'nd': return c.flat[k]
    if kind == 'attr': return c.__dict__.get(k)
    if kind == 'item': return c.get(k)
    if kind == 'list': return list(list.__iter__(c))
    if kind == 'keys': return set(c.keys())
    if kind == 'mat': return c.val
    raise KeyError(kind)

def loc_set(kind, c, k, v):
    if kind == 'nd': c.flat[k] = v
    elif kind == 'attr': c.__dict__[k] = v
    elif kind == 'item': c[k] = v
    elif kind == 'mat': c.val = v
    elif kind == 'list': c[:] = v
    else: raise Unsupported('havoc of %s' % kind)

def same(a, b):
    if a is b:
        return True
    if isinstance(a, R) or isinstance(b, R):
        if is_scalar(a) and is_scalar(b):
            d = a - b
            return not d.t if isinstance(d, R) else d == 0
        return False
    if isinstance(a, SymBool) or isinstance(b, SymBool):
        return isinstance(a, SymBool) and isinstance(b, SymBool) and a.key() == b.key()
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return False
    if isinstance(a, (int, float, Fraction, str, bool, type(None), set)) and type(a) == type(b):
        return a == b
    if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)):
        return a == b
    return False

class GhostMat:
    """A matrix/vector of unbounded dimension observed at one arbitrary entry (p, q).

    `val` is the value of entry (p, q).  Proving the contract for the arbitrary entry proves it for all."""
    def __init__(self, shape, probe, val=0, default=0):
        self.shape = shape
        self.probe = probe
        self.val = R.const(val) if not isinstance(val, R) else val
    def _cond(self, idx):
        if not isinstance(idx, tuple):
            idx = (idx,)
        cs = []
        for i, p in zip(idx, self.probe):
            if isinstance(i, slice) or isinstance(i, np.ndarray) or isinstance(i, list):
                raise Unsupported('slice indexing of an unbounded matrix')
            cs.append(R.const(i)._cmp('==', p) if not isinstance(i, R) else (i == p))
        return And(*cs)
    def __getitem__(self, idx):
        return GhostEntry(self, idx)
    def __setitem__(self, idx, v):
        c = self._cond(idx)
        if isinstance(v, GhostEntry):
            if v.mat is not self or v.idx != idx and not same_idx(v.idx, idx):
                raise Unsupported('cross-entry update of an unbounded matrix')
            # M[i] = M[i] + delta
            self.val = self.val + brk(c) * v.delta
            return
        if isinstance(v, np.ndarray) and v.size == 1:
            v = v.reshape(-1)[0]
        self.val = (1 - brk(c)) * self.val + brk(c) * v
    def tocsr(self, *a, **k): return self
    tocsc = tolil = tocoo = toarray = todense = tocsr
    def astype(self, *a, **k): return self
    def copy(self):
        return GhostMat(self.shape, self.probe, self.val)
    def __add__(self, o):
        if isinstance(o, GhostMat):
            return GhostMat(self.shape, self.probe, self.val + o.val)
        return NotImplemented
    __radd__ = __add__
    def __sub__(self, o):
        if isinstance(o, GhostMat):
            return GhostMat(self.shape, self.probe, self.val - o.val)
        return NotImplemented

def same_idx(a, b):
    a = a if isinstance(a, tuple) else (a,)
    b = b if isinstance(b, tuple) else (b,)
    return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))

class GhostEntry:
    """M[idx] of a GhostMat as a value 'old + delta' (only usable for M[idx] += delta)."""
    def __init__(self, mat, idx, delta=0):
        self.mat, self.idx, self.delta = mat, idx, delta
    def __add__(self, o):
        if isinstance(o, np.ndarray) and o.size == 1:
            o = o.reshape(-1)[0]
        return GhostEntry(self.mat, self.idx, self.delta + o)
    __radd__ = __add__
    __iadd__ = __add__
    def __sub__(self, o):
        if isinstance(o, np.ndarray) and o.size == 1:
            o = o.reshape(-1)[0]
        return GhostEntry(self.mat, self.idx, self.delta - o)
    __isub__ = __sub__
    def __getattr__(self, k):
        raise Unsupported('reading an entry of an unbounded matrix (%s)' % k)

class LoopCtl:
    """per-frame handle used by transformed code: for T in SV.loop(...)"""
