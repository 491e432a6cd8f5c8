"""Matrices of arbitrary dimension given by their entries, and abstract index lists."""
from . import sym
from .sym import R, SymBool, And, Or, Not, Unsupported

def _int(x): return x if isinstance(x, R) else R.const(x)

class IdxList:
    """a list of distinct indices of arbitrary length: entry(a), membership and position are functions;
    `other` is the complementary list (together they contain every index of the matrix exactly once)"""
    _nowalk = True
    def __init__(self, name, n):
        self.name, self.n, self.other, self.primary = name, n, None, True
    def pair(self, other):
        self.other, other.other, other.primary = other, self, False
    def at(self, a):
        # index of position: pos(at(a)) = a
        if isinstance(a, R) and len(a.t) == 1:
            (m, c), = a.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                at = sym.T.atoms[m[0][0]]
                if at.kind == 'fn' and at.name.startswith('pos[%s](' % self.name):
                    return at.data[0] if isinstance(at.data, tuple) else at.data
        return sym.fn('at[%s]' % self.name, [_int(a)], sym.NONNEG, True)
    def has(self, x):
        # at(a) is a member of its own list and not of the other one
        if isinstance(x, R) and len(x.t) == 1:
            (m, c), = x.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                at = sym.T.atoms[m[0][0]]
                if at.kind == 'fn':
                    if at.name.startswith('at[%s](' % self.name): return True
                    if self.other is not None and at.name.startswith('at[%s](' % self.other.name): return False
        if self.primary or self.other is None:
            return sym.fn('in[%s]' % self.name, [_int(x)]) == 1
        return Not(self.other.has(x))
    def index(self, x):
        if not bool(self.has(x)): raise ValueError('%r is not in list' % (x,))
        x = _int(x)
        if len(x.t) == 1:
            (m, c), = x.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                at = sym.T.atoms[m[0][0]]
                if at.kind == 'fn' and at.name.startswith('at[%s](' % self.name):
                    return at.data[0]
        return sym.fn('pos[%s]' % self.name, [x], sym.NONNEG, True)
    def __len__(self): raise Unsupported('len of an abstract list')
    def __getitem__(self, a):
        if isinstance(a, slice): raise Unsupported('slice of an abstract list')
        return self.at(a)
    def __iter__(self): raise Unsupported('iteration over an abstract index list')

class FnMat:
    """matrix of arbitrary dimension, entry (i, j) = f(i, j)"""
    _nowalk = True
    __array_priority__ = 1000
    def __init__(self, shape, f, tag='dense'):
        self.shape, self.f, self.tag = tuple(shape), f, tag
    @property
    def ndim(self): return len(self.shape)
    def _need(self, *tags):
        pass
    def __getitem__(self, idx):
        if not isinstance(idx, tuple): idx = (idx,)
        if len(idx) == 1:
            if isinstance(idx[0], IdxList): idx = (idx[0], slice(None))
            else:
                i = idx[0]
                return FnMat(self.shape[1:], lambda *r: self.f(i, *r), self.tag)
        if len(self.shape) == 1 and len(idx) == 1: return self.f(idx[0])
        if any(isinstance(i, (IdxList, slice)) for i in idx):
            def comp(i):
                if isinstance(i, IdxList): return i.at
                if isinstance(i, slice):
                    if i != slice(None): raise Unsupported('slice of an unbounded matrix')
                    return lambda a: a
                return None
            if self.tag not in ('dense', 'lil', 'csr', 'csc') and any(isinstance(i, IdxList) for i in idx):
                raise TypeError("'%s_matrix' object is not subscriptable" % self.tag)
            if isinstance(idx[0], IdxList) and isinstance(idx[1], IdxList):
                raise Unsupported('paired fancy indexing')
            g = [comp(i) for i in idx]
            sh = [i.n if isinstance(i, IdxList) else s for i, s in zip(idx, self.shape)]
            if any(x is None for x in g):
                raise Unsupported('mixed indexing')
            f = self.f
            return FnMat(sh, lambda i, j: f(g[0](i), g[1](j)), self.tag)
        return self.f(*idx)
    def _conv(tag):
        def g(self, *a, **k): return FnMat(self.shape, self.f, tag)
        return g
    tocsr, tocsc, tolil, tocoo, todok = _conv('csr'), _conv('csc'), _conv('lil'), _conv('coo'), _conv('dok')
    toarray = todense = _conv('dense')
    def copy(self): return self
    def astype(self, *a, **k): return self
    def reshape(self, *s):
        s = s[0] if len(s) == 1 and isinstance(s[0], tuple) else s
        if len(s) == 2 and _same(s[0], self.shape[0]) and s[1] == 1:
            f = self.f
            if len(self.shape) == 1: return FnMat((self.shape[0], 1), lambda i, j: f(i), self.tag)
            return self
        if len(s) == 2 and s[0] == -1 and s[1] == 1: return self.reshape(self.shape[0], 1)
        raise Unsupported('reshape of an unbounded matrix')
    def _bin(self, o, op):
        if isinstance(o, FnMat):
            if len(o.shape) != len(self.shape): raise Unsupported('broadcast of unbounded matrices')
            for a, b in zip(self.shape, o.shape):
                if not _same(a, b): raise ValueError('operands could not be broadcast together with shapes %s %s' % (self.shape, o.shape))
            f, g = self.f, o.f
            return FnMat(self.shape, lambda *i: op(f(*i), g(*i)), self.tag)
        if isinstance(o, (R, int)) :
            f = self.f
            return FnMat(self.shape, lambda *i: op(f(*i), o), self.tag)
        raise Unsupported('operation on an unbounded matrix and %s' % type(o).__name__)
    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __mul__(self, o):
        if isinstance(o, FnMat): raise Unsupported('product of unbounded matrices with *')
        return self._bin(o, lambda a, b: a*b)
    def __radd__(self, o): return self._bin(o, lambda a, b: b + a)
    def __rmul__(self, o): return self._bin(o, lambda a, b: b*a)
    def __neg__(self):
        f = self.f
        return FnMat(self.shape, lambda *i: -f(*i), self.tag)
    def __matmul__(self, o): return matmul(self, o)
    def __iter__(self): raise Unsupported('iteration over an unbounded matrix')
    def __len__(self): raise Unsupported('len of an unbounded matrix')
    @property
    def T(self):
        f = self.f
        return FnMat(self.shape[::-1], lambda i, j: f(j, i), self.tag)

def _same(a, b):
    d = _int(a) - _int(b)
    if not isinstance(d, R): return d == 0
    if not d.t: return True
    if d.is_const(): return False
    e = sym.HOOK['engine']
    return e.implies(sym.cmp0('==', d))

def matmul(A, B):
    if not (isinstance(A, FnMat) and isinstance(B, FnMat)): raise Unsupported('product of bounded and unbounded matrices')
    n = A.shape[1]
    if not _same(n, B.shape[0]): raise ValueError('matmul: dimension mismatch %s %s' % (A.shape, B.shape))
    nm = 'dim(%s)' % n
    k = sym.var('k:%s#0' % nm, sym.NONNEG, True)
    f, g = A.f, B.f
    def h(i, *j):
        for x in (i,) + j:
            if isinstance(x, R) and any(a == list(k.atoms())[0] for a in x.deep_atoms()): raise Unsupported('nested products')
        return sym.sum_atom(nm, 'k:%s#0' % nm, [((), f(i, k)*g(k, *j))])
    return FnMat((A.shape[0],) + tuple(B.shape[1:]), h, A.tag)

class Solutions:
    pass

def solve(A, b, sparse):
    """numpy.linalg.solve / scipy spsolve on a matrix of arbitrary dimension: some X with A X = b, or the failure of a singular A:
    numpy raises LinAlgError, spsolve warns and returns NaN"""
    e = sym.HOOK['engine']
    if not _same(A.shape[0], A.shape[1]): raise ValueError('expected a square matrix')
    if not _same(A.shape[0], b.shape[0]): raise ValueError('incompatible dimensions')
    if sparse and A.tag not in ('csr', 'csc'): e.note_assumption('A-spsolve: spsolve converts other sparse formats')
    if getattr(e, 'singular_choice', False):
        bad = e.choose([False, True])
        e.singular = bad
        if bad:
            if sparse:
                e.note_assumption('A-spsolve: a singular matrix makes spsolve return NaN (with a warning)')
                return NanVec((A.shape[0],))
            from .runtime import LinAlgError
            raise LinAlgError('Singular matrix')
    log = e.__dict__.setdefault('solutions', [])
    nm = 'X%d' % len(log)
    if sparse:
        X = FnMat((A.shape[0],), lambda i, *j: sym.fn(nm, [_int(i)]))
    else:
        X = FnMat(b.shape, lambda i, *j: sym.fn(nm, [_int(i)]))
    log.append((A, b, nm))
    return X

class NanVec(FnMat):
    """vector of NaN"""
    def __init__(self, shape):
        FnMat.__init__(self, shape, self._nan)
    def _nan(self, *i): raise Unsupported('NaN entry')
    def reshape(self, *s): return self
