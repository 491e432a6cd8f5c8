"""SMT back ends (z3 API in process, cvc5 binary as second opinion) for formulas over R / SymBool."""
import math, time, subprocess, tempfile, os
from fractions import Fraction
import z3
from . import sym
from .sym import R, SymBool, T

STATS = {'z3_calls': 0, 'z3_time': 0.0, 'cvc5_calls': 0, 'cvc5_time': 0.0, 'ring_calls': 0, 'ring_time': 0.0}

# global translation caches (terms are immutable)
_ATOM = {}      # aid -> (z3 real expr, raw const or None, [definitions], frozenset of atom ids the definitions mention)
_RECIP = {}     # aid -> (z3 const, definition)
_RC = {}        # R key -> (z3 expr, frozenset aids, frozenset recips)
_BC = {}        # SymBool key -> (z3 expr, frozenset aids, frozenset recips, frozenset bool names)
_BV = {}
_E = frozenset()

def _atom(aid):
    x = _ATOM.get(aid)
    if x is not None: return x
    a = T.atoms[aid]
    if a.kind == 'brk':
        z, at, rc, bv = _b(a.data)
        x = _ATOM[aid] = (z3.If(z, z3.RealVal(1), z3.RealVal(0)), None, [], at, rc, bv)
        return x
    nm = 'a%d' % aid
    if a.is_int:
        v = z3.Int(nm); z = z3.ToReal(v)
    else:
        v = z = z3.Real(nm)
    defs, at, rc = [], _E, _E
    if a.sign == sym.POS: defs.append(v > 0)
    elif a.sign == sym.NONNEG: defs.append(v >= 0)
    elif a.sign == sym.NEG: defs.append(v < 0)
    elif a.sign == sym.NONZERO: defs.append(v != 0)
    _ATOM[aid] = (z, v, defs, at, rc, _E)
    if a.kind == 'inv':
        q, at, rc = _r(a.data); defs.append(z * q == 1)
    elif a.kind == 'sqrt':
        q, at, rc = _r(a.data); defs.append(z * z == q); defs.append(z >= 0)
    elif a.kind in ('cos', 'sin'):
        c, at1, rc1 = _r(sym.cos_atom(a.data)); s_, at2, rc2 = _r(sym.sin_atom(a.data))
        defs.append(c * c + s_ * s_ == 1); at, rc = at1 | at2, rc1 | rc2
    x = _ATOM[aid] = (z, v, defs, at, rc, _E)
    return x

def _r(r):
    if not isinstance(r, R):
        r = R.const(r)
    k = r.key()
    x = _RC.get(k)
    if x is not None: return x
    terms, at, rc = [], set(), set()
    for m, c in r.t.items():
        f = []
        for aid, e in m:
            z = _atom(aid)[0]
            at.add(aid)
            if e < 0:
                u = _RECIP.get(aid)
                if u is None:
                    u = z3.Real('r%d' % aid)
                    u = _RECIP[aid] = (u, u * z == 1)
                rc.add(aid)
                z = u[0]; e = -e
            f.extend([z] * e)
        c = Fraction(c)
        zc = z3.RealVal('%d/%d' % (c.numerator, c.denominator))
        if not f:
            terms.append(zc)
        else:
            p = f[0] if len(f) == 1 else z3.Product(f)
            terms.append(p if c == 1 else zc * p)
    if not terms: z = z3.RealVal(0)
    else: z = terms[0] if len(terms) == 1 else z3.Sum(terms)
    x = _RC[k] = (z, frozenset(at), frozenset(rc))
    return x

def _b(b):
    if not isinstance(b, SymBool):
        return z3.BoolVal(bool(b)), _E, _E, _E
    k = b.key()
    x = _BC.get(k)
    if x is not None: return x
    if b.op == 'var':
        z = _BV.get(b.args[0])
        if z is None: z = _BV[b.args[0]] = z3.Bool(b.args[0])
        x = (z, _E, _E, frozenset([b.args[0]]))
    elif b.op in ('and', 'or', 'not'):
        xs = [_b(y) for y in b.args]
        z = z3.And([y[0] for y in xs]) if b.op == 'and' else z3.Or([y[0] for y in xs]) if b.op == 'or' else z3.Not(xs[0][0])
        x = (z, _E.union(*[y[1] for y in xs]), _E.union(*[y[2] for y in xs]), _E.union(*[y[3] for y in xs]))
    else:
        q, at, rc = _r(b.args[0])
        if at and not rc and all(T.atoms[a].is_int for a in at):
            # an integer comparison stays in integer arithmetic
            d = math.lcm(*[Fraction(c).denominator for c in b.args[0].t.values()])
            q = z3.Sum([z3.Product([z3.IntVal(int(c*d))] + [_atom(a)[1] for a, e in m for _ in range(e)]) for m, c in b.args[0].t.items()])
        z = {'<': q < 0, '<=': q <= 0, '==': q == 0, '!=': q != 0}[b.op]
        x = (z, at, rc, _E)
    _BC[k] = x
    return x

class Query:
    def __init__(self, formulas):
        self.zs = []
        todo, rec, bvs = set(), set(), set()
        for f in formulas:
            z, at, rc, bv = _b(f)
            self.zs.append(z); todo |= at; rec |= rc; bvs |= bv
        seen = set()
        while todo:
            a = todo.pop()
            if a in seen: continue
            seen.add(a)
            z, v, defs, at, rc, bv = _atom(a)
            self.zs.extend(defs)
            todo |= at - seen; rec |= rc; bvs |= bv
            if not todo: todo |= self.congruence(seen)
        for a in rec: self.zs.append(_RECIP[a][1])
        self.atoms = seen
        self.bools = bvs

    def congruence(self, seen):
        """equal arguments give equal values (uninterpreted functions)"""
        fam, more = {}, set()
        self.done = getattr(self, 'done', set())
        for a in seen:
            at = T.atoms[a]
            if at.kind == 'fn': fam.setdefault((at.name.split('(')[0], len(at.data)), []).append(a)
        for k, l in fam.items():
            if len(l) < 2 or len(l) > 24: continue
            l.sort()
            for i, a in enumerate(l):
                for b in l[:i]:
                    if (a, b) in self.done: continue
                    self.done.add((a, b))
                    eq = []
                    for x, y in zip(T.atoms[a].data, T.atoms[b].data):
                        d = x - y
                        if d.is_const():
                            if d.cval() != 0: eq = None; break
                            continue
                        z, at, rc = _r(d)
                        if rc: eq = None; break
                        more |= at - seen
                        eq.append(z == 0)
                    if eq is not None: self.zs.append(z3.Implies(z3.And(eq), _atom(a)[0] == _atom(b)[0]))
        return more

def _relevant(fs, seedkeys):
    return fs

def check(formulas, timeout_ms=2000, want_model=False):
    """satisfiability of the conjunction. returns ('sat'|'unsat'|'unknown', model or None)"""
    t0 = time.time()
    q = Query(formulas)
    s = z3.Solver()
    s.set('timeout', int(timeout_ms))
    s.add(q.zs)
    r = s.check()
    STATS['z3_calls'] += 1
    STATS['z3_time'] += time.time() - t0
    if r == z3.unsat:
        return 'unsat', None
    if r == z3.sat:
        if not want_model:
            return 'sat', None
        m = s.model()
        out = {}
        for aid in q.atoms:
            v = _ATOM[aid][1]
            if v is None: continue
            out[T.atoms[aid].name] = z3num(m.eval(v, model_completion=True))
        for nm in q.bools:
            out[nm] = bool(z3.is_true(m.eval(_BV[nm], model_completion=True)))
        return 'sat', out
    return 'unknown', None

def z3num(v):
    try:
        if z3.is_int_value(v):
            return int(v.as_long())
        if z3.is_rational_value(v):
            return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
        if z3.is_algebraic_value(v):
            a = v.approx(20)
            return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
    except Exception:
        pass
    return 0.0

def check_cvc5(formulas, timeout_ms=10000):
    s = z3.Solver()
    s.add(Query(formulas).zs)
    txt = '(set-logic ALL)\n' + s.to_smt2()
    t0 = time.time()
    fd, p = tempfile.mkstemp(suffix='.smt2', prefix='dv')
    try:
        with os.fdopen(fd, 'w') as f:
            f.write(txt)
        try:
            out = subprocess.run(['cvc5', '--nl-cov', '--tlimit=%d' % timeout_ms, p], capture_output=True, text=True,
                                 timeout=timeout_ms / 1000 + 10).stdout
        except (subprocess.TimeoutExpired, FileNotFoundError):
            out = ''
    finally:
        os.unlink(p)
    STATS['cvc5_calls'] += 1
    STATS['cvc5_time'] += time.time() - t0
    o = out.strip().split('\n')[0] if out.strip() else 'unknown'
    return o if o in ('sat', 'unsat') else 'unknown'
