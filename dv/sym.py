"""Symbolic reals, booleans and tokens, with an exact ring normaliser.

A real expression `R` is a Laurent polynomial with rational coefficients over *atoms*.  Atoms are
  var   a program/ghost variable (real or int, with a sign assumption)
  inv   1/p for a polynomial p (p != 0 is a side condition discharged where it is created)
  sqrt  square root of p (s*s = p, s >= 0)
  cos/sin of an expression (cos^2 = 1 - sin^2)
  brk   the 0/1 value of a formula
  sum   sum over every element of an unbounded collection of a (piecewise) summand
  fn    an uninterpreted application
Equality of two expressions is decided by normal form after clearing inverses, square roots and
negative exponents; everything else goes to SMT (solve.py).
"""
from fractions import Fraction
import math

POS, NONNEG, REAL, NONZERO, NEG = 'pos', 'nonneg', 'real', 'nonzero', 'neg'

class Unsupported(Exception):
    """The construct is outside the verifier's reach (never a verdict about the property)."""

class Atom:
    __slots__ = ('id', 'kind', 'name', 'sign', 'is_int', 'data')
    def __init__(self, id, kind, name, sign, is_int, data):
        self.id, self.kind, self.name, self.sign, self.is_int, self.data = id, kind, name, sign, is_int, data
    def __repr__(self):
        return self.name

class AtomTable:
    def __init__(self):
        self.atoms = []
        self.by_key = {}
    def get(self, key, kind, name, sign, is_int=False, data=None):
        a = self.by_key.get(key)
        if a is None:
            a = Atom(len(self.atoms), kind, name, sign, is_int, data)
            self.atoms.append(a)
            self.by_key[key] = a
        return a

T = AtomTable()
HOOK = {'engine': None}          # current exploration engine (set by explore.Engine)

def engine():
    return HOOK['engine']

def frac(x):
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, Fraction):
        return x.numerator if x.denominator == 1 else x
    if isinstance(x, float):
        if x != x or x in (math.inf, -math.inf):
            raise Unsupported('non-finite float %r in symbolic arithmetic' % x)
        f = Fraction(repr(x))
        return f.numerator if f.denominator == 1 else f
    if hasattr(x, 'item') and getattr(x, 'shape', None) == ():
        return frac(x.item())
    raise TypeError(type(x))

def _mmul(m1, m2):
    """multiply two monomials (tuples sorted by atom id)"""
    if not m1:
        return m2
    if not m2:
        return m1
    out = []
    i = j = 0
    n1, n2 = len(m1), len(m2)
    while i < n1 and j < n2:
        a, b = m1[i], m2[j]
        if a[0] < b[0]:
            out.append(a); i += 1
        elif a[0] > b[0]:
            out.append(b); j += 1
        else:
            e = a[1] + b[1]
            if e:
                out.append((a[0], e))
            i += 1; j += 1
    if i < n1:
        out.extend(m1[i:])
    if j < n2:
        out.extend(m2[j:])
    return tuple(out)

_SPECIAL = {'sqrt', 'cos', 'brk', 'inv', 'fn'}

def _needs_reduce(m):
    atoms = T.atoms
    for aid, e in m:
        k = atoms[aid].kind
        if k == 'sqrt' and (e >= 2 or e < 0):
            return True
        if k == 'cos' and e >= 2:
            return True
        if k == 'brk' and e >= 2:
            return True
        if k == 'inv' and e < 0:
            return True
    return False

def _reduce_mono(m, c):
    """Return an R equal to c*m with special powers reduced."""
    res = R({(): c})
    for aid, e in m:
        a = T.atoms[aid]
        if a.kind == 'sqrt' and (e >= 2 or e < 0):
            p = a.data
            if e >= 2:
                res = res * (p ** (e // 2))
                if e % 2:
                    res = res * R({((aid, 1),): 1})
            else:
                # s^-k = s^k / p^k
                k = -e
                ip = inverse(p)
                res = res * (ip ** k)
                res = res * _reduce_mono(((aid, k),), 1) if k >= 2 else res * R({((aid, 1),): 1})
        elif a.kind == 'cos' and e >= 2:
            s = sin_atom(a.data)
            res = res * ((1 - s * s) ** (e // 2))
            if e % 2:
                res = res * R({((aid, 1),): 1})
        elif a.kind == 'brk' and e >= 2:
            res = res * R({((aid, 1),): 1})
        elif a.kind == 'inv' and e < 0:
            res = res * (a.data ** (-e))
        else:
            res = res * R({((aid, e),): 1})
    return res

class R:
    __slots__ = ('t', '_h')
    __array_priority__ = 1000
    def __init__(self, t):
        self.t = t
        self._h = None
    # -- helpers
    @staticmethod
    def const(c):
        c = frac(c)
        return R({(): c}) if c != 0 else R({})
    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)
    def cval(self):
        return self.t.get((), 0) if self.t else 0
    def key(self):
        if self._h is None:
            self._h = frozenset(self.t.items())
        return self._h
    def __hash__(self):
        if self.is_const():
            return hash(self.cval())
        return hash(self.key())
    def atoms(self):
        s = set()
        for m in self.t:
            for a, _ in m:
                s.add(a)
        return s
    def deep_atoms(self, acc=None):
        acc = set() if acc is None else acc
        for a in self.atoms():
            if a not in acc:
                acc.add(a)
                at = T.atoms[a]
                for e in atom_deps(at):
                    e.deep_atoms(acc)
        return acc
    # -- arithmetic
    def __add__(self, o):
        if isinstance(o, SymBool):
            o = o.as_real()
        if not isinstance(o, R):
            try:
                c = frac(o)
            except TypeError:
                return NotImplemented
            if c == 0:
                return self
            t = dict(self.t)
            v = t.get((), 0) + c
            if v:
                t[()] = v
            else:
                t.pop((), None)
            return R(t)
        if not o.t:
            return self
        if not self.t:
            return o
        a, b = (self.t, o.t) if len(self.t) >= len(o.t) else (o.t, self.t)
        t = dict(a)
        for m, c in b.items():
            v = t.get(m, 0) + c
            if v:
                t[m] = v
            else:
                del t[m]
        return R(t)
    __radd__ = __add__
    def __neg__(self):
        return R({m: -c for m, c in self.t.items()})
    def __pos__(self):
        return self
    def __sub__(self, o):
        if isinstance(o, SymBool):
            o = o.as_real()
        if not isinstance(o, R):
            try:
                return self + (-frac(o))
            except TypeError:
                return NotImplemented
        return self + (-o)
    def __rsub__(self, o):
        return (-self) + o
    def __mul__(self, o):
        if isinstance(o, SymBool):
            o = o.as_real()
        if not isinstance(o, R):
            try:
                c = frac(o)
            except TypeError:
                return NotImplemented
            if c == 0:
                return R({})
            if c == 1:
                return self
            return R({m: v * c for m, v in self.t.items()})
        if not self.t or not o.t:
            return R({})
        t = {}
        red = None
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = _mmul(m1, m2)
                c = c1 * c2
                if m1 and m2 and _needs_reduce(m):
                    r = _reduce_mono(m, c)
                    red = r if red is None else red + r
                    continue
                v = t.get(m, 0) + c
                if v:
                    t[m] = v
                else:
                    del t[m]
        res = R(t)
        return res if red is None else res + red
    __rmul__ = __mul__
    def __truediv__(self, o):
        if isinstance(o, SymBool):
            o = o.as_real()
        if not isinstance(o, R):
            try:
                c = frac(o)
            except TypeError:
                return NotImplemented
            if c == 0:
                raise ZeroDivisionError('division by zero')
            return R({m: norm(Fraction(v) / c) for m, v in self.t.items()})
        if o.is_const():
            return self / o.cval()
        require_nonzero(o)
        return self * inverse(o)
    def __rtruediv__(self, o):
        return (o if isinstance(o, R) else R.const(o)) / self
    def __pow__(self, k):
        if isinstance(k, R):
            if not k.is_const():
                raise Unsupported('symbolic exponent')
            k = k.cval()
        k = frac(k)
        if isinstance(k, Fraction):
            if k.denominator == 2:
                return sqrt(self) ** k.numerator
            raise Unsupported('power %s' % k)
        if k < 0:
            return R.const(1) / (self ** (-k))
        if self.is_const():
            return R.const(self.cval() ** k)
        res = R({(): 1})
        b = self
        while k:
            if k & 1:
                res = res * b
            k >>= 1
            if k:
                b = b * b
        return res
    def __rpow__(self, o):
        raise Unsupported('symbolic exponent')
    def __mod__(self, o):
        return self - o*quotient(self, o)
    def __floordiv__(self, o):
        return quotient(self, o)
    # -- comparisons
    def _cmp(self, op, o):
        if isinstance(o, SymBool):
            o = o.as_real()
        if not isinstance(o, R):
            try:
                if isinstance(o, float) and o in (math.inf, -math.inf):
                    big = o > 0
                    return {'<': big, '<=': big, '==': False, '!=': True, '>': not big, '>=': not big}[op]
                o = R.const(o)
            except TypeError:
                return NotImplemented
        d = self - o
        if op == '<': return cmp0('<', d)
        if op == '<=': return cmp0('<=', d)
        if op == '>': return cmp0('<', -d)
        if op == '>=': return cmp0('<=', -d)
        if op == '==': return cmp0('==', d)
        return cmp0('!=', d)
    def __lt__(self, o): return self._cmp('<', o)
    def __le__(self, o): return self._cmp('<=', o)
    def __gt__(self, o): return self._cmp('>', o)
    def __ge__(self, o): return self._cmp('>=', o)
    def __eq__(self, o):
        r = self._cmp('==', o)
        return False if r is NotImplemented else r
    def __ne__(self, o):
        r = self._cmp('!=', o)
        return True if r is NotImplemented else r
    def __bool__(self):
        b = cmp0('!=', self)
        return bool(b)
    def __abs__(self):
        if bool(cmp0('<', self)):
            return -self
        return self
    def __float__(self):
        if self.is_const():
            return float(self.cval())
        raise Unsupported('float() of a symbolic value')
    def __int__(self):
        if self.is_const():
            return int(self.cval())
        raise Unsupported('int() of a symbolic value')
    def __index__(self):
        if self.is_const() and isinstance(self.cval(), int):
            return self.cval()
        raise Unsupported('symbolic value used as an index')
    def __round__(self, n=None):
        # exact arithmetic: rounding to >= 8 decimals is the identity (assumption A-round)
        if n is not None and n >= 8:
            eng = engine()
            if eng:
                eng.note_assumption('A-round: round(x, n) with n >= 8 is treated as x (exact real arithmetic)')
            return self
        raise Unsupported('round(x, %r)' % n)
    def sqrt(self):
        return sqrt(self)
    def conjugate(self):
        return self
    def __repr__(self):
        return show(self)
    def __str__(self):
        return show(self)
    def __format__(self, spec):
        return show(self)

def _bcast(name):
    f = getattr(R, name)
    def g(self, o):
        if type(o) in (list, tuple) and name == '__rtruediv__': o = _array(o, dtype=object)     # numpy scalars (norms) broadcast
        if type(o) is _nd:
            out = _empty(o.shape, dtype=object)
            for i in range(o.size): out.flat[i] = f(self, o.flat[i])
            return out
        return f(self, o)
    g.__name__ = name
    setattr(R, name, g)

from numpy import ndarray as _nd, empty as _empty, array as _array
for _n in ('__add__', '__radd__', '__sub__', '__rsub__', '__mul__', '__rmul__', '__truediv__', '__rtruediv__', '__lt__', '__le__', '__gt__', '__ge__'): _bcast(_n)

def norm(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c

def show(r, limit=12):
    if not r.t:
        return '0'
    out = []
    for i, (m, c) in enumerate(sorted(r.t.items(), key=lambda z: z[0])):
        if i >= limit:
            out.append('... (%d terms)' % len(r.t))
            break
        mm = '*'.join((T.atoms[a].name if e == 1 else '%s^%d' % (T.atoms[a].name, e)) for a, e in m)
        out.append(mm if c == 1 and mm else ('%s*%s' % (c, mm) if mm else str(c)))
    return ' + '.join(out)

def atom_R(a):
    return R({((a.id, 1),): 1})

def var(name, sign=REAL, is_int=False):
    return atom_R(T.get(('var', name), 'var', name, sign, is_int))

def quotient(x, d):
    """floor(x/d) of an integer x by a positive integer constant"""
    if isinstance(d, R):
        if not d.is_const(): raise Unsupported('division by a symbolic integer')
        d = d.cval()
    if not isinstance(d, int) or d < 1 or not all(T.atoms[i].is_int for i in x.atoms()) or not all(frac(c) == int(c) for c in x.t.values()):
        raise Unsupported('integer division of %s by %s' % (x, d))
    if x.is_const(): return x.cval()//d
    e = HOOK['engine']
    q = fn('idiv%d' % d, [x], REAL, True)
    for c in (d*q <= x, x < d*q + d):
        e.facts.add(c.key()); e.assume(c)
    return q

def fn(name, args, sign=REAL, is_int=False):
    key = ('fn', name, tuple(x.key() if isinstance(x, R) else x for x in args))
    return atom_R(T.get(key, 'fn', '%s(%s)' % (name, ','.join(str(x) for x in args)), sign, is_int, tuple(args)))

def atom_deps(at):
    if at.kind in ('inv', 'sqrt', 'cos', 'sin'):
        return [at.data]
    if at.kind == 'fn':
        return [x for x in (at.data or ()) if isinstance(x, R)]
    if at.kind == 'brk':
        return list(at.data.reals())
    if at.kind == 'sum':
        out = []
        for conds, v in at.data['pieces']:
            out.append(v)
            for c in conds:
                out.extend(c.reals())
        return out
    return []

def sign_of(r):
    """syntactic sign: 'pos','neg','nonneg','nonpos','zero','nonzero', or None"""
    if not r.t:
        return 'zero'
    tot = None
    for m, c in r.t.items():
        s = _mono_sign(m)
        if s is None:
            s = None
        elif c < 0:
            s = {'pos': 'neg', 'neg': 'pos', 'nonneg': 'nonpos', 'nonpos': 'nonneg', 'nonzero': 'nonzero'}[s]
        if s is None or (s == 'nonzero' and len(r.t) > 1):
            return None
        if tot is None:
            tot = s
        elif tot == s:
            pass
        elif {tot, s} == {'pos', 'nonneg'}:
            tot = 'pos'
        elif {tot, s} == {'neg', 'nonpos'}:
            tot = 'neg'
        else:
            return None
    return tot

def _mono_sign(m):
    s = 'pos'
    for aid, e in m:
        a = T.atoms[aid]
        sg = a.sign
        if e % 2 == 0:
            x = 'pos' if (sg in (POS, NONZERO, NEG) or e < 0) else 'nonneg'
        elif sg == POS:
            x = 'pos'
        elif sg == NONNEG:
            x = 'pos' if e < 0 else 'nonneg'
        elif sg == NEG:
            x = 'neg'
        elif sg == NONZERO or e < 0:
            x = 'nonzero'
        else:
            return None
        if x == 'pos':
            continue
        if s == 'nonzero' or x == 'nonzero':
            if 'nonneg' in (s, x) or 'nonpos' in (s, x):
                return None
            s = 'nonzero'
        elif x == 'nonneg':
            s = {'pos': 'nonneg', 'nonneg': 'nonneg', 'neg': 'nonpos', 'nonpos': 'nonpos'}[s]
        elif x == 'neg':
            s = {'pos': 'neg', 'neg': 'pos', 'nonneg': 'nonpos', 'nonpos': 'nonneg'}[s]
    return s

def require_nonzero(o):
    s = sign_of(o)
    if s in ('pos', 'neg', 'nonzero'):
        return
    if s == 'zero':
        raise ZeroDivisionError('division by zero')
    eng = engine()
    if eng is None:
        return
    if eng.branch(cmp0('==', o)):
        raise ZeroDivisionError('division by zero')

def inverse(o):
    """1/o assuming o != 0."""
    if not o.t:
        raise ZeroDivisionError('division by zero')
    if len(o.t) == 1:
        (m, c), = o.t.items()
        out = R({(): norm(Fraction(1) / c)})
        plain = []
        for aid, e in m:
            a = T.atoms[aid]
            if a.kind == 'inv':
                out = out * (a.data ** e)
            elif a.kind == 'sqrt':
                out = out * ((atom_R(a) * inverse(a.data)) ** e)
            else:
                plain.append((aid, -e))
        if plain:
            out = out * R({tuple(plain): 1})
        return out
    # extract monomial content (of plain atoms) and leading coefficient
    mins = {}
    first = True
    for m in o.t:
        d = dict(m)
        if first:
            mins = dict(d); first = False
        else:
            for a in list(mins):
                e = d.get(a, 0)
                mins[a] = min(mins[a], e) if a in d else min(mins[a], 0)
            for a in d:
                if a not in mins:
                    mins[a] = min(0, d[a])
    content = tuple(sorted((a, e) for a, e in mins.items() if e and T.atoms[a].kind not in ('brk', 'sum', 'cos', 'sin', 'sqrt', 'inv')))
    lead = o.t[min(o.t)]
    icont = tuple((a, -e) for a, e in content)
    p = R({_mmul(m, icont): norm(Fraction(c) / lead) for m, c in o.t.items()})
    sg = sign_of(p)
    sg = {'pos': POS, 'neg': NEG}.get(sg, NONZERO)
    a = T.get(('inv', p.key()), 'inv', 'inv(%s)' % show(p, 4), sg, False, p)
    return atom_R(a) * R({icont: norm(Fraction(1) / lead)}) if icont or lead != 1 else atom_R(a)

def _lead(t):
    return max(t, key=_mkey)

def _mkey(m):
    # graded order on monomials (total degree, then lexicographic on a dense view)
    return (sum(e for _, e in m), tuple((-a, e) for a, e in m))

class _Lex:
    """lexicographic monomial order over a fixed list of atoms (an admissible order)"""
    def __init__(self, atoms):
        self.ix = {a: i for i, a in enumerate(sorted(atoms))}
        self.n = len(self.ix)
    def key(self, m):
        v = [0] * self.n
        for a, e in m:
            v[self.ix[a]] = e
        return tuple(v)

def _mdiv(m1, m2):
    return _mmul(m1, tuple((a, -e) for a, e in m2))

def poly_div_exact(n, d, limit=4000):
    """exact quotient n/d of (Laurent) polynomials over plain atoms, or None"""
    if not n.t:
        return n
    if len(d.t) == 1:
        (m, c), = d.t.items()
        return R({_mdiv(k, m): norm(Fraction(v) / c) for k, v in n.t.items()})
    lex = _Lex(n.atoms() | d.atoms())
    ld = max(d.t, key=lex.key)
    cd = d.t[ld]
    rem = dict(n.t)
    q = {}
    low = None
    while rem:
        limit -= 1
        if limit < 0:
            return None
        lm = max(rem, key=lex.key)
        k = _mdiv(lm, ld)
        if any(e < 0 for _, e in k):
            return None
        c = norm(Fraction(rem[lm]) / cd)
        q[k] = c
        for m, v in d.t.items():
            mm = _mmul(k, m)
            x = rem.get(mm, 0) - c * v
            if x:
                rem[mm] = x
            else:
                rem.pop(mm, None)
    return R(q)

def simplify(r):
    """cancel inverse atoms against the numerator where the division is exact"""
    for aid in sorted((a for a in r.atoms() if T.atoms[a].kind == 'inv'), reverse=True):
        p = T.atoms[aid].data
        groups = {}
        for m, c in r.t.items():
            k = 0; rest = m
            for i, (a, e) in enumerate(m):
                if a == aid:
                    k = e; rest = m[:i] + m[i + 1:]
                    break
            groups.setdefault(k, {})[rest] = c
        n = max(groups)
        if n <= 0 or len(p.t) > 60:
            continue
        pw = [R.const(1)]
        for i in range(n):
            pw.append(pw[-1] * p)
        N = R({})
        for k, t in groups.items():
            N = N + R(t) * pw[n - k]
        mins = {}
        for m in N.t:
            for a, e in m:
                if e < 0: mins[a] = min(mins.get(a, 0), e)
        shift = tuple(sorted((a, -e) for a, e in mins.items()))
        N = R({_mmul(m, shift): c for m, c in N.t.items()})
        while n > 0:
            q = poly_div_exact(N, p)
            if q is None:
                break
            N = q; n -= 1
        N = R({_mmul(m, tuple((a, -e) for a, e in shift)): c for m, c in N.t.items()})
        r = N * (R({((aid, n),): 1}) if n else R.const(1))
    return r

def poly_sqrt(o):
    """exact square root of a Laurent polynomial if it is a perfect square, else None"""
    if len(o.t) > 400 or any(T.atoms[a].kind in ('brk', 'sum') for a in o.atoms()):
        return None
    lex = _Lex(o.atoms())
    m = max(o.t, key=lex.key)
    c = o.t[m]
    if c <= 0 or any(e % 2 for _, e in m):
        return None
    sc = _isqrt_exact(c)
    if sc is None:
        return None
    lead = tuple((a, e // 2) for a, e in m)
    lo = min(lex.key(x) for x in o.t)
    r = {lead: sc}
    for _ in range(60):
        rr = R(dict(r))
        rem = o - rr * rr
        if not rem.t:
            return rr
        lm = max(rem.t, key=lex.key)
        k = _mdiv(lm, lead)
        if k in r:
            return None
        if lex.key(k) >= lex.key(lead):
            return None
        r[k] = norm(Fraction(rem.t[lm]) / (2 * sc))
    return None

def _isqrt_exact(c):
    c = Fraction(c)
    if c < 0:
        return None
    n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if n * n == c.numerator and d * d == c.denominator:
        return norm(Fraction(n, d))
    return None

def sqrt(o):
    if not isinstance(o, R):
        o = R.const(o)
    if not o.t:
        return R({})
    if o.is_const():
        q = _isqrt_exact(o.cval())
        if q is not None:
            return R.const(q)
        if o.cval() < 0:
            raise ValueError('math domain error')
        c = Fraction(o.cval())
        # sqrt(n/d) = sqrt(n*d)/d, pull squares out
        n = c.numerator * c.denominator
        out = 1
        k = 2
        while k * k <= n and k < 1000:
            while n % (k * k) == 0:
                n //= k * k
                out *= k
            k += 1
        a = T.get(('sqrt', R.const(n).key()), 'sqrt', 'sqrt(%s)' % n, POS, False, R.const(n))
        return atom_R(a) * norm(Fraction(out, c.denominator))
    if len(o.t) == 1:
        (m, c), = o.t.items()
        if c > 0 and all(e % 2 == 0 for _, e in m):
            res = sqrt(R.const(c))
            for a, e in m:
                at = T.atoms[a]
                b = atom_R(at)
                if at.sign in (POS, NONNEG):
                    res = res * R({((a, e // 2),): 1})
                else:
                    res = res * (abs(b) ** (e // 2)) if e > 0 else res / (abs(b) ** (-e // 2))
            return res
    o = simplify(o)
    r = poly_sqrt(o)
    if r is not None:
        sg = sign_of(r)
        if sg in ('pos', 'nonneg', 'zero'):
            return r
        if sg in ('neg', 'nonpos'):
            return -r
        return abs(r)
    sg = sign_of(o)
    eng = engine()
    if sg in ('pos',):
        s = POS
    elif sg == 'nonneg':
        s = NONNEG
    else:
        s = NONNEG
        if eng is not None and sg != 'nonneg':
            if eng.branch(cmp0('<', o)):
                raise ValueError('math domain error')
            if eng.implies(cmp0('<', -o)):
                s = POS
    a = T.get(('sqrt', o.key(), s), 'sqrt', 'sqrt(%s)' % show(o, 4), s, False, o)
    return atom_R(a)

def sin_atom(x):
    if not isinstance(x, R):
        x = R.const(x)
    if not x.t:
        return R({})
    lead = x.t[min(x.t)]
    if lead < 0:
        return -sin_atom(-x)
    return atom_R(T.get(('sin', x.key()), 'sin', 'sin(%s)' % show(x, 4), REAL, False, x))

def cos_atom(x):
    if not isinstance(x, R):
        x = R.const(x)
    if not x.t:
        return R.const(1)
    lead = x.t[min(x.t)]
    if lead < 0:
        x = -x
    return atom_R(T.get(('cos', x.key()), 'cos', 'cos(%s)' % show(x, 4), REAL, False, x))

# ------------------------------------------------------------------ booleans
class SymBool:
    __slots__ = ('op', 'args', '_k', '_a')
    __array_priority__ = 1001
    def __init__(self, op, *args):
        self.op, self.args, self._k, self._a = op, args, None, None
    def key(self):
        if self._k is None:
            self._k = (self.op,) + tuple(a.key() if isinstance(a, (R, SymBool)) else a for a in self.args)
        return self._k
    def __hash__(self):
        return hash(self.key())
    def __bool__(self):
        eng = engine()
        if eng is None:
            raise Unsupported('truth value of a symbolic condition outside exploration')
        return eng.branch(self)
    def __and__(self, o): return And(self, o)
    __rand__ = __and__
    def __or__(self, o): return Or(self, o)
    __ror__ = __or__
    def __invert__(self): return Not(self)
    def __eq__(self, o):
        if isinstance(o, bool) or (hasattr(o, 'dtype') and getattr(o, 'shape', 1) == ()):
            return self if o else Not(self)
        if isinstance(o, SymBool):
            return Or(And(self, o), And(Not(self), Not(o)))
        if isinstance(o, (int, R)):
            return self.as_real() == o
        return False
    def __ne__(self, o):
        r = self.__eq__(o)
        return Not(r) if isinstance(r, SymBool) else (not r)
    def as_real(self):
        return brk(self)
    def __add__(self, o): return self.as_real() + o
    __radd__ = __add__
    def __mul__(self, o): return self.as_real() * o
    __rmul__ = __mul__
    def reals(self):
        for a in self.args:
            if isinstance(a, R):
                yield a
            elif isinstance(a, SymBool):
                yield from a.reals()
    def boolvars(self):
        if self.op == 'var':
            yield self.args[0]
        for a in self.args:
            if isinstance(a, SymBool):
                yield from a.boolvars()
    def __repr__(self):
        if self.op == 'var': return self.args[0]
        if self.op in ('<', '<=', '==', '!='): return '(%s %s 0)' % (self.args[0], self.op)
        if self.op == 'not': return 'not ' + repr(self.args[0])
        return '(' + (' %s ' % self.op).join(repr(a) for a in self.args) + ')'

def bvar(name):
    return SymBool('var', name)

def cmp0(op, d):
    """d op 0, simplified to a Python bool where the syntax decides it."""
    if not d.t:
        return op in ('<=', '==')
    if d.is_const():
        c = d.cval()
        return {'<': c < 0, '<=': c <= 0, '==': c == 0, '!=': c != 0}[op]
    s = sign_of(d)
    if s == 'pos':
        return op == '!='
    if s == 'neg':
        return op in ('<', '<=', '!=')
    if s == 'nonneg' and op == '<':
        return False
    if s == 'nonpos' and op == '<=':
        return True
    if s == 'nonzero' and op in ('==', '!='):
        return op == '!='
    # single-bracket comparisons
    if op in ('==', '!='):
        lead = d.t[min(d.t)]
        if lead != 1:
            d = R({m: norm(Fraction(c) / lead) for m, c in d.t.items()})
    else:
        lead = abs(d.t[min(d.t)])
        if lead != 1:
            d = R({m: norm(Fraction(c) / lead) for m, c in d.t.items()})
    return SymBool(op, d)

def Not(a):
    if isinstance(a, bool) or not isinstance(a, SymBool):
        return not a
    if a.op == 'not':
        return a.args[0]
    if a.op == '<': return cmp0('<=', -a.args[0])
    if a.op == '<=': return cmp0('<', -a.args[0])
    if a.op == '==': return SymBool('!=', *a.args)
    if a.op == '!=': return SymBool('==', *a.args)
    if a.op == 'and': return Or(*[Not(x) for x in a.args])
    if a.op == 'or': return And(*[Not(x) for x in a.args])
    return SymBool('not', a)

def And(*xs):
    out = []
    for x in xs:
        if not isinstance(x, SymBool):
            if not x:
                return False
            continue
        if x.op == 'and':
            out.extend(x.args)
        else:
            out.append(x)
    seen, o2 = set(), []
    for x in out:
        if x.key() not in seen:
            seen.add(x.key()); o2.append(x)
    if not o2:
        return True
    return o2[0] if len(o2) == 1 else SymBool('and', *o2)

def Or(*xs):
    out = []
    for x in xs:
        if not isinstance(x, SymBool):
            if x:
                return True
            continue
        if x.op == 'or':
            out.extend(x.args)
        else:
            out.append(x)
    seen, o2 = set(), []
    for x in out:
        if x.key() not in seen:
            seen.add(x.key()); o2.append(x)
    if not o2:
        return False
    return o2[0] if len(o2) == 1 else SymBool('or', *o2)

def Implies(a, b):
    return Or(Not(a), b)

def brk(b):
    if not isinstance(b, SymBool):
        return R.const(1 if b else 0)
    n = Not(b)
    # canonical polarity: keep '==' over '!='
    if b.op == '!=':
        return 1 - brk(n)
    if b.op == 'not':
        return 1 - brk(b.args[0])
    if b.op == 'and':
        out = R.const(1)
        for x in b.args:
            out = out * brk(x)
        return out
    return atom_R(T.get(('brk', b.key()), 'brk', '[%r]' % b, NONNEG, False, b))

def ite(c, a, b):
    if not isinstance(c, SymBool):
        return a if c else b
    if isinstance(a, SymBool) or isinstance(b, SymBool) or (isinstance(a, bool) and isinstance(b, bool)):
        return Or(And(c, a), And(Not(c), b))
    k = brk(c)
    return k * a + (1 - k) * b

# ------------------------------------------------------------------ sums over unbounded collections
def sum_atom(seq_name, binder, pieces):
    """SUM_{e in seq} of the piecewise value; pieces = [(tuple(conds), R)], conds mutually exclusive."""
    pieces = [(tuple(c), v if isinstance(v, R) else R.const(v)) for c, v in pieces]
    pieces = [(c, v) for c, v in pieces if v.t]
    if not pieces:
        return R({})
    key = ('sum', seq_name, binder, frozenset((frozenset(x.key() for x in c), v.key()) for c, v in pieces))
    a = T.get(key, 'sum', 'SUM[%s]{%s}' % (seq_name, '; '.join('%s if %r' % (show(v, 3), list(c)) for c, v in pieces[:3])),
              REAL, False, {'seq': seq_name, 'binder': binder, 'pieces': pieces})
    return atom_R(a)

# ------------------------------------------------------------------ equality normal form
def clear_denominators(r, deadline=None):
    """Return an R which is zero iff r is zero (given the side conditions of its inv atoms)."""
    for _ in range(200):
        best = None
        negs = {}
        for m in r.t:
            for aid, e in m:
                a = T.atoms[aid]
                if a.kind == 'inv':
                    if best is None or aid > best:
                        best = aid
                elif e < 0:
                    negs[aid] = min(negs.get(aid, 0), e)
        if best is None and not negs:
            return r
        if best is not None:
            p = T.atoms[best].data
            groups = {}
            n = 0
            for m, c in r.t.items():
                k = 0
                rest = m
                for i, (aid, e) in enumerate(m):
                    if aid == best:
                        k = e
                        rest = m[:i] + m[i + 1:]
                        break
                n = max(n, k)
                groups.setdefault(k, {})[rest] = c
            pw = [R.const(1)]
            for i in range(n):
                pw.append(pw[-1] * p)
            tot = R({})
            for k, t in groups.items():
                tot = tot + R(t) * pw[n - k]
            r = tot
            continue
        mul = tuple(sorted((a, -e) for a, e in negs.items()))
        r = R({_mmul(m, mul): c for m, c in r.t.items()})
    raise Unsupported('clear_denominators did not converge')

def subst(r, mp):
    """replace atoms (by id) by R values, through nested atoms"""
    out = R({})
    memo = {}
    def aval(aid):
        v = memo.get(aid)
        if v is None:
            v = memo[aid] = _subst_atom(aid, mp)
        return v
    for m, c in r.t.items():
        t = R({(): c})
        keep = []
        for aid, e in m:
            v = aval(aid)
            if v is not None and len(v.t) == 1 and ((aid, 1),) in v.t and v.t[((aid, 1),)] == 1:
                keep.append((aid, e))
            else:
                t = t * (v ** e)
        if keep: t = t * R({tuple(keep): 1})
        out = out + t
    return out

def subst_bool(b, mp):
    if not isinstance(b, SymBool): return b
    if b.op == 'var': return b
    if b.op in ('<', '<=', '==', '!='): return cmp0(b.op, subst(b.args[0], mp))
    if b.op == 'not': return Not(subst_bool(b.args[0], mp))
    if b.op == 'and': return And(*[subst_bool(a, mp) for a in b.args])
    if b.op == 'or': return Or(*[subst_bool(a, mp) for a in b.args])
    raise Unsupported('subst in ' + b.op)

def _subst_atom(aid, mp):
    if aid in mp: return mp[aid]
    at = T.atoms[aid]
    if at.kind == 'var': return atom_R(at)
    acc = set()
    for d in atom_deps(at): d.deep_atoms(acc)
    if not (acc & set(mp)): return atom_R(at)
    if at.kind == 'inv': return inverse(subst(at.data, mp))
    if at.kind == 'sqrt': return sqrt(subst(at.data, mp))
    if at.kind == 'sin': return sin_atom(subst(at.data, mp))
    if at.kind == 'cos': return cos_atom(subst(at.data, mp))
    if at.kind == 'brk': return brk(subst_bool(at.data, mp))
    if at.kind == 'fn': return fn(at.name.split('(')[0], [subst(x, mp) if isinstance(x, R) else x for x in at.data], at.sign, at.is_int)
    raise Unsupported('subst in %s' % at.kind)

def is_zero_nf(r):
    if not r.t:
        return True
    if r.is_const():
        return False
    return not clear_denominators(r).t

# ------------------------------------------------------------------ numeric evaluation
class NoValue(Exception):
    pass

def evaluate(r, env):
    """float value of r; env: callable(atom) -> number for var/fn/sum atoms"""
    if not isinstance(r, R):
        return float(r)
    tot = 0.0
    for m, c in r.t.items():
        v = float(c)
        for aid, e in m:
            v *= _atom_val(aid, env) ** e
        tot += v
    return tot

def abs_scale(r, env):
    if not isinstance(r, R):
        return abs(float(r))
    tot = 0.0
    for m, c in r.t.items():
        v = abs(float(c))
        for aid, e in m:
            v *= abs(_atom_val(aid, env)) ** e
        tot += v
    return tot

def _atom_val(aid, env):
    a = T.atoms[aid]
    k = a.kind
    if k == 'inv':
        return 1.0 / evaluate(a.data, env)
    if k == 'sqrt':
        return math.sqrt(evaluate(a.data, env))
    if k == 'cos':
        return math.cos(evaluate(a.data, env))
    if k == 'sin':
        return math.sin(evaluate(a.data, env))
    if k == 'brk':
        return 1.0 if eval_bool(a.data, env) else 0.0
    if k == 'sum':
        tot = 0.0
        for conds, v in a.data['pieces']:
            if all(eval_bool(c, env) for c in conds):
                tot += evaluate(v, env)
        return tot        # one-element collection
    return env(a)

def eval_bool(b, env):
    if not isinstance(b, SymBool):
        return bool(b)
    if b.op == 'var':
        return bool(env(b))
    if b.op == 'and':
        return all(eval_bool(x, env) for x in b.args)
    if b.op == 'or':
        return any(eval_bool(x, env) for x in b.args)
    if b.op == 'not':
        return not eval_bool(b.args[0], env)
    v = evaluate(b.args[0], env)
    s = abs_scale(b.args[0], env)
    tol = 1e-11 * s
    if b.op == '<': return v < -tol
    if b.op == '<=': return v <= tol
    if b.op == '==': return abs(v) <= tol
    if b.op == '!=': return abs(v) > tol
    raise Unsupported(b.op)
