"""One contract harness, two interpretations: symbolic (all inputs) and concrete (replay / bounded run)."""
import math, random
from fractions import Fraction
import numpy as np
from . import sym, explore, runtime
from .sym import R, SymBool, Unsupported

class Skip(Exception):
    """the concrete input does not satisfy the precondition"""

class Fail(Exception):
    def __init__(self, name, detail):
        Exception.__init__(self, '%s: %s' % (name, detail))
        self.name, self.detail = name, detail

class Bare:
    pass

class HBase:
    _nowalk = True
    def vec(self, name, n, sign='real'):
        return [self.real('%s%d' % (name, i), sign) for i in range(n)]

class HSym(HBase):
    symbolic = True
    def __init__(self, eng, shadow):
        self.e = eng
        self.shadow = shadow
        self.patched = []
    def mod(self, name):
        return self.shadow.load(name)
    def real(self, name, sign='real', lo=None, hi=None):
        v = sym.var(name, sign)
        if lo is not None: self.e.assume(v >= lo)
        if hi is not None: self.e.assume(v <= hi)
        return v
    def int(self, name, sign='nonneg', lo=None, hi=None):
        v = sym.var(name, sign, True)
        if lo is not None: self.e.assume(v >= lo)
        if hi is not None: self.e.assume(v <= hi)
        return v
    def bool(self, name):
        return sym.bvar(name)
    def opt(self, name, sign='real'):
        """None or a number"""
        return runtime.Opt(sym.var(name, sign), sym.bvar('has:' + name))
    def flag(self, name):
        """a concrete bool, both values explored"""
        return self.choice(name, [False, True])
    def choice(self, name, options):
        v = self.e.choose(list(range(len(options))))
        self.e.choice_range['choice:' + name] = len(options)
        c = sym.var('choice:' + name, sym.REAL, True) == v
        self.e.assume(c)
        self.e.choices.append(c)
        return options[v]
    def name(self, name):
        return runtime.Tok(name)
    def word(self, name, options):
        """an arbitrary string"""
        return runtime.Tok(name)
    def assume(self, c):
        if isinstance(c, SymBool):
            for x in (c.args if c.op == 'and' else (c,)): self.e.facts.add(x.key())
            self.e.assume(c)
        else:
            self.e.assume(bool(c))
    def same(self, a, b):
        """whether two node references are the same node"""
        return a is b or a._ghost_id == b._ghost_id
    def array(self, name, shape, sign='real', symmetric=False):
        a = np.empty(shape, dtype=object)
        for idx in np.ndindex(*shape):
            j = tuple(sorted(idx)) if symmetric else idx
            a[idx] = sym.var('%s[%s]' % (name, ','.join(map(str, j))), sign)
        return a
    def seq(self, name, make):
        return explore.SymSeq(name, make)
    def dict(self, name, make):
        """make(binder) -> (key, value)"""
        return explore.SymDict(name, make)
    def dict_with(self, name, make, key, val):
        """a dictionary of arbitrary entries, one of which has the given key"""
        d = explore.SymDict(name, make)
        self.e.exists_log.append((name, name + '#0', make(name + '#0')[0] == key))
        self.e.assume(d.seq.n > 0)
        return d
    def probe(self, *names):
        p = tuple(sym.var(n, sym.NONNEG, True) for n in names)
        self.e.probe = p
        return p
    def entry(self, mat, p):
        if isinstance(mat, explore.GhostMat):
            return mat.val
        raise Unsupported('result is not an unbounded matrix')
    def eq(self, name, a, b, scale=None):
        self.e.prove_eq(name, a, b)
    def eqs(self, name, a, b, scale=None):
        A, B = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
        if A.shape != B.shape:
            if A.size == B.size and A.squeeze().shape == B.squeeze().shape:
                A, B = A.squeeze(), B.squeeze()
            else:
                self.e.prove(name + '.shape', False, '%s vs %s' % (A.shape, B.shape))
                return
        for idx in np.ndindex(*A.shape):
            self.e.prove_eq('%s%s' % (name, list(idx)), A[idx], B[idx])
    def check(self, name, cond, detail=''):
        self.e.prove(name, cond, detail)
    def cover(self, name):
        self.e.cover(name)
    def ite(self, c, a, b):
        return sym.ite(c, a, b)
    def iverson(self, c):
        return sym.brk(c)
    def fn(self, name, *args):
        return sym.fn(name, [a if isinstance(a, R) else R.const(a) for a in args])
    def merge_extremes(self):
        """max and min as one value that bounds all and is one of them instead of one path per winner"""
        self.e.merge_minmax = True
    def symbolic_ranges(self, n): self.e.bigrange = n
    def ident(self, x):
        """equal for values with the same normal form"""
        return x.key() if isinstance(x, R) else R.const(x).key()
    def ceil_upto(self, n):
        """bounded: ceil() of a symbolic value takes the values 1..n only"""
        self.e.ceil_bound, self.e.ceil_memo = n, {}
    def both(self, a, b): return sym.And(a, b)
    def either(self, a, b): return sym.Or(a, b)
    def neg(self, a): return sym.Not(a)
    def ortho(self, a): return runtime.ortho(a)
    def ghost(self, obj, v):
        obj._ghost_id = v
    def new_node(self, b, cls=None):
        """a node of the model, with its identity"""
        n = (cls or Bare)()
        n._ghost_id = sym.var('nid:' + b, sym.REAL, True)
        return n
    def node_ref(self, name):
        """a reference to some node of the model"""
        return self.new_node(name)
    def node_refs(self, names):
        """references to different nodes of the model"""
        k = []
        for n in names:
            nd = self.node_ref(n)
            for q in k: self.assume(self.neg(self.same(nd, q)))
            k.append(nd)
        return k
    def patch(self, obj, attr, val):
        self.patched.append((obj, attr, obj.__dict__.get(attr, explore.Poison)))
        setattr(obj, attr, val)
    def unpatch(self):
        for obj, attr, old in reversed(self.patched):
            if old is explore.Poison:
                try: delattr(obj, attr)
                except AttributeError: pass
            else:
                setattr(obj, attr, old)
        self.patched = []
    def sorted_points(self, pts):
        """the distinct sorted values of any list built by an unbounded loop are these (see runtime._sorted_abs)"""
        self.e.sorted_pts = list(pts)
    def any_points(self, lo, hi):
        self.e.sorted_pts = runtime.AbsPts(lo, hi)
        return self.e.sorted_pts
    def completed_list(self, name, pts, spec):
        return runtime.GList(name, pts, spec)
    def locate(self, pts, X):
        """X lies between the ends: once the lists over the points are complete, name the interval it lies in"""
        pts.wanted.append(X)
    def while_inv(self, inv, havoc=None, frame=()):
        """loop invariant for the (single) while loop of the function under contract"""
        self.e.while_rule = runtime.WhileRule(inv, havoc, frame)
    def merge(self):
        """if statements that only assign numbers are executed as one path with merged values"""
        self.e.merge = True
    def iteration_end(self, f):
        """f is called at the end of every generic loop iteration of the code under contract"""
        self.e.iter_end = f
    def matrix_of(self, name, arg, shape, tag='dense', dominant=False):
        """a matrix of arbitrary dimension that depends on a value"""
        return runtime.FnMat(shape, lambda *i: sym.fn(name, [x if isinstance(x, R) else R.const(x) for x in (arg,) + i]), tag)
    def may_be_singular(self): self.e.singular_choice = True
    def dofs(self):
        """(I1, I2, N): complementary lists of the N degrees of freedom, of any lengths"""
        n1, n2 = sym.var('n1', sym.NONNEG, True), sym.var('n2', sym.NONNEG, True)
        a, b = runtime.IdxList('I1', n1), runtime.IdxList('I2', n2)
        a.pair(b)
        self.e.assume(n1 + n2 >= 6)
        return a, b, n1 + n2
    def tally(self, idx, x, vals=None):
        """sum of vals (or 1) over the positions where the list idx holds x"""
        if vals is None: vals = None
        return runtime.tally(idx, x, vals)
    def sum_over(self, lst, f):
        return runtime.sum_over(lst, f)
    def distinct(self, prefix):
        self.e.distinct = prefix
    def numbered(self, d, f, n):
        """f numbers the items of the collection 0, 1, ..., n - 1"""
        self.e.__dict__.setdefault('numbered', {})[d.name] = (f, n)
        self.e.assume(d.seq.n == n if hasattr(d, 'seq') else d.n == n)
    def exists_at(self, n, i):
        """range(n) contains i"""
        nm = 'range(%s)' % n
        self.e.exists_log.append((nm, nm + '#0', sym.var('i:%s#0' % nm, sym.NONNEG, True) == i))
    def exists_elem(self, d, cond):
        """some element satisfies cond, which is stated about the generic element"""
        self.e.exists_log.append((d.name, d.name + '#0', cond))
    def current(self, d):
        """the generic elements of a collection that the code has looked at"""
        nm = d if isinstance(d, str) else d.name
        return [v for (n, _), v in self.e.elems.items() if n == nm]
    def at(self, l, i): return l.at(i)
    def dim(self, a): return a
    def total(self, n, f):
        """sum of f(k) for k < n"""
        nm = 'dim(%s)' % n
        k = sym.var('k:%s#0' % nm, sym.NONNEG, True)
        return sym.sum_atom(nm, 'k:%s#0' % nm, [((), f(k))])
    def position(self, name, n):
        """an arbitrary position of a list of length n"""
        v = sym.var(name, sym.NONNEG, True)
        self.e.assume(v < n)
        return v
    def matrix(self, name, shape, tag='dense'):
        """a matrix of arbitrary dimension"""
        return runtime.FnMat(shape, lambda *i: sym.fn(name, [x if isinstance(x, R) else R.const(x) for x in i]), tag)
    def unsupported(self, s): return Unsupported(s)
    def finite(self, A): return not isinstance(A, runtime.NanVec)
    def singular_taken(self): return bool(getattr(self.e, 'singular', False))
    def quiet(self):
        import contextlib
        return contextlib.nullcontext()
    def zero_matrix(self, shape, tag='dense'): return runtime.FnMat(shape, lambda *i: R.const(0), tag)
    def rows(self, P, I): return P[I, :]
    def empty_matrix(self, A): return isinstance(A, np.ndarray) and A.shape[0] == 0
    def dense(self, A): return A
    def once_each(self, what, combos, key):
        """a recorder of calls; every iteration of the loop over combos must call it once, with its own element"""
        log = []
        def end():
            ks = set(str(key(v)) for (nm, _), v in self.e.elems.items() if nm == combos.name)
            self.check(what, len(log) == 1 and str(log[0]) in ks, '%s' % log)
            self.cover(what)
            del log[:]
        self.iteration_end(end)
        return log.append
    def check_calls(self, what, seen, combos, key): pass
    def kmap(self, name, make, pool, within=None):
        """a dictionary with arbitrary contents: any string may be a key, make(key) describes its value"""
        return runtime.KMap(name, make)
    def submap(self, name, d, pool):
        """a dictionary holding some of the entries of d"""
        return runtime.KMap(name, lambda k: d.force(k))
    def key(self, name, pool): return runtime.Tok(name)
    def key_in(self, name, d):
        """some key of d"""
        t = runtime.Tok(name)
        d.force(t)
        return t
    def probes(self, pool): return [runtime.Tok('probe')]
    def look(self, d, k):
        p, _, v = d.look(k)
        return p, v
    def has(self, d, k): return d.has(k)
    def same_at(self, d, old, k):
        """both hold the same object, or nothing, at k"""
        a, b = d.raw(k), old.raw(k)
        return a[0] == b[0] and (not a[0] or a[1] is b[1])
    def added(self, d, old): return [k for op, k in d.log if op == 'set']
    def untouched(self, d, old):
        """d certainly holds what old holds (no updates happened)"""
        if isinstance(d, dict): return not d and not old
        return d.base is old.base and len(d.over) == len(old.over)
    def while_any(self):
        """nothing is known about the variables of while loops but their condition"""
        self.e.while_rule = runtime.WhileRule(lambda loc: [])
    def trust(self, s):
        self.e.note_assumption(s)
    def skip(self):
        raise explore.PathEnd()

class HConc(HBase):
    symbolic = False
    def __init__(self, rng, model=None, only=None, tol=1e-6, style=0):
        self.rng = rng
        self.model = model
        self.patched = []
        self.log = {}
        self.checked = 0
        self.tol = tol
        self.fails = []
        self.assumptions = set()
        self.style = style
        self._seqlen = {}
    def mod(self, name):
        import importlib
        return importlib.import_module(name)
    def _get(self, name, gen):
        if self.model is not None and name in self.model:
            v = self.model[name]
        elif name in self.log:
            v = self.log[name]
        else:
            v = gen()
        self.log[name] = v
        return v
    def real(self, name, sign='real', lo=None, hi=None):
        def gen():
            r = self.rng
            if lo is not None and hi is not None and self.model is None:
                l, h_ = float(lo), float(hi)
                c = r.random()
                if c < 0.08: return l
                if c < 0.16: return h_
                return r.uniform(l, h_)
            c = r.random()
            if c < 0.12 and sign in ('real', 'nonneg'): v = 0.0
            elif c < 0.3: v = float(r.randint(1, 4))
            elif c < 0.8: v = r.uniform(0.3, 3)
            else: v = r.uniform(0.05, 20)
            if sign in ('real', 'nonzero') and r.random() < 0.5: v = -v
            if sign == 'neg': v = -v
            return v
        v = float(self._get(name, gen))
        if sign == 'pos' and not v > 0: raise Skip()
        if sign == 'nonneg' and v < 0: raise Skip()
        if lo is not None and v < lo: raise Skip()
        if hi is not None and v > hi: raise Skip()
        return v
    def int(self, name, sign='nonneg', lo=None, hi=None):
        def gen():
            return self.rng.randint(0 if lo is None else int(lo), 5 if hi is None else int(hi))
        v = int(self._get(name, gen))
        if lo is not None and v < lo: raise Skip()
        if hi is not None and v > hi: raise Skip()
        return v
    def bool(self, name):
        return bool(self._get(name, lambda: self.rng.random() < 0.5))
    def opt(self, name, sign='real'):
        v = self.real(name, sign)
        return v if self.bool('has:' + name) else None
    def flag(self, name):
        return self.choice(name, [False, True])
    def choice(self, name, options):
        k = 'choice:' + name
        v = int(self._get(k, lambda: self.rng.randrange(len(options))))
        if not 0 <= v < len(options): raise Skip()
        return options[v]
    def word(self, name, options):
        if self.model is not None and 'tok:' + name in self.model: return self.name(name)
        return self.choice('w:' + name, list(options))
    def name(self, name):
        def gen(): return self.rng.randint(1000, 1003)
        v = int(self._get('tok:' + name, gen))
        for s, c in runtime.Tok.table.items():
            if 1000 + c == v: return s
        return 'name%d' % v
    def assume(self, c):
        if not c: raise Skip()
    def kmap(self, name, make, pool, within=None):
        ks = [k for k in pool if self.bool('in:%s:%s' % (name, k))]
        self.rng.shuffle(ks)
        return {k: make(k) for k in ks}
    def submap(self, name, d, pool):
        return {k: v for k, v in d.items() if self.bool('in:%s:%s' % (name, k))}
    def key(self, name, pool): return self.choice('key:' + name, list(pool))
    def key_in(self, name, d):
        if not d: raise Skip()
        return self.choice('key:' + name, list(d))
    def probes(self, pool): return list(pool)
    def look(self, d, k): return k in d, d.get(k)
    def has(self, d, k): return k in d
    def same_at(self, d, old, k): return (k in d) == (k in old) and d.get(k) is old.get(k)
    def added(self, d, old): return [k for k in d if k not in old or d[k] is not old[k]]
    def untouched(self, d, old): return False
    def current(self, d): return list(d.items()) if isinstance(d, dict) else list(d)
    def while_any(self): pass
    def array(self, name, shape, sign='real', symmetric=False):
        a = np.empty(shape)
        for idx in np.ndindex(*shape):
            j = tuple(sorted(idx)) if symmetric else idx
            a[idx] = self.real('%s[%s]' % (name, ','.join(map(str, j))), sign)
        return a
    def _n(self, name):
        if self.model is not None and 'exact' in self.model:
            return 1
        return int(self._get('conclen(%s)' % name, lambda: self.rng.choice([0, 1, 1, 2, 2, 3])))
    def seq(self, name, make):
        n = self._n(name)
        return [make('%s#0' % name if i == 0 else '%s#0_%d' % (name, i)) for i in range(n)]
    def dict(self, name, make):
        d = {}
        for i in range(self._n(name)):
            k, v = make('%s#0' % name if i == 0 else '%s#0_%d' % (name, i))
            if k not in d: d[k] = v
        return d
    def dict_with(self, name, make, key, val):
        d = self.dict(name, make)
        d[key] = val
        items = list(d.items())
        if self.bool('first:' + name): items.reverse()
        return dict(items)
    def sum_over(self, lst, f):
        return sum((f(x) for x in lst), 0)
    def probe(self, *names):
        return tuple(self.int(n) for n in names)
    def entry(self, mat, p):
        m = mat
        if hasattr(m, 'toarray'): m = m.toarray()
        m = np.asarray(m)
        if any(i >= s for i, s in zip(p, m.shape)): raise Skip()
        if m.ndim == 2 and len(p) == 1: return m[p[0], 0]
        return m[p]
    def eq(self, name, a, b, scale=None):
        self.checked += 1
        try:
            a, b = float(a), float(b)
        except (TypeError, ValueError):
            if a == b: return
            raise Fail(name, '%r != %r' % (a, b))
        s = max(abs(a), abs(b), abs(float(scale)) if scale is not None else 0.0, 1e-9)
        if not (abs(a - b) <= self.tol * s):
            raise Fail(name, 'got %.12g, contract says %.12g' % (a, b))
    def eqs(self, name, a, b, scale=None):
        A, B = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        if A.shape != B.shape:
            A, B = A.squeeze(), B.squeeze()
            if A.shape != B.shape:
                raise Fail(name + '.shape', '%s vs %s' % (A.shape, B.shape))
        s = max(float(np.max(np.abs(A), initial=0)), float(np.max(np.abs(B), initial=0))) if A.size else 0
        if scale is not None: s = max(s, abs(float(scale)))
        for idx in np.ndindex(*A.shape):
            self.eq('%s%s' % (name, list(idx)), A[idx], B[idx], s)
    def check(self, name, cond, detail=''):
        self.checked += 1
        if not cond:
            raise Fail(name, detail() if callable(detail) else (detail or 'condition is false'))
    def cover(self, name): pass
    def ite(self, c, a, b): return a if c else b
    def iverson(self, c): return 1 if c else 0
    def fn(self, name, *args):
        r = random.Random(repr((name, [float(a) for a in args])))
        return r.uniform(-2, 2)
    def merge_extremes(self): pass
    def symbolic_ranges(self, n): pass
    def ceil_upto(self, n): pass
    def ident(self, x): return float(x)
    def both(self, a, b): return a and b
    def either(self, a, b): return a or b
    def neg(self, a): return not a
    def ortho(self, a): return np.asarray(a, dtype=float)
    def ghost(self, obj, v): pass
    def same(self, a, b): return a is b
    def new_node(self, b, cls=None):
        n = (cls or Bare)()
        self.__dict__.setdefault('_nodes', []).append(n)
        return n
    def node_ref(self, name):
        l = self.__dict__.setdefault('_nodes', [])
        while len(l) < 6: l.append(Bare())
        return l[self.int(name, 'nonneg', 0, 5)]
    def node_refs(self, names):
        l = self.__dict__.setdefault('_nodes', [])
        while len(l) < 6: l.append(Bare())
        return self.rng.sample(l, len(names))
    def patch(self, obj, attr, val):
        self.patched.append((obj, attr, obj.__dict__.get(attr, explore.Poison)))
        setattr(obj, attr, val)
    unpatch = HSym.unpatch
    def sorted_points(self, pts): pass
    def merge(self): pass
    def iteration_end(self, f): pass
    def matrix_of(self, name, arg, shape, tag='dense', dominant=False):
        a = np.array(random.Random(repr((name, float(arg), self.int('mseed', 'nonneg', 0, 10**6)))).choices([-2, -1, 0, 0, 0, 0.5, 1, 1.5, 3], k=int(np.prod(shape))), dtype=float).reshape([int(x) for x in shape])
        if dominant: a = a + 60*np.eye(len(a))
        if tag != 'dense':
            import scipy.sparse as sp
            return getattr(sp, tag + '_matrix')(a)
        return a
    def may_be_singular(self): pass
    def dofs(self, N=None):
        n = self.int('ndof', 'nonneg', 1, 3)*6 if N is None else N
        p = list(range(n))
        k = self.int('n1', 'nonneg', 0, n)
        r = random.Random(self.int('perm', 'nonneg', 0, 10**6))
        r.shuffle(p)
        return p[:k], p[k:], n
    def tally(self, idx, x, vals=None):
        if vals is None: return sum(1 for i in idx if i == x)
        v = np.asarray(vals, dtype=float).reshape(-1)
        if len(v) != len(idx): raise Fail('lengths', '%d indices, %d values' % (len(idx), len(v)))
        return sum(w for i, w in zip(idx, v) if i == x)
    def distinct(self, prefix): pass
    def at(self, l, i): return l[int(i)]
    def matrix(self, name, shape, tag='dense'):
        a = self.array(name, tuple(int(x) for x in shape))
        if tag != 'dense':
            import scipy.sparse as sp
            return getattr(sp, tag + '_matrix')(a)
        return a
    def total(self, n, f): return sum(f(k) for k in range(int(n)))
    def unsupported(self, s): return Unsupported(s)
    def finite(self, A): return bool(np.isfinite(np.asarray(A, dtype=float)).all())
    def numbered(self, d, f, n): pass
    def quiet(self):
        import warnings
        c = warnings.catch_warnings()
        class Q:
            def __enter__(s): c.__enter__(); warnings.simplefilter('ignore')
            def __exit__(s, *a): return c.__exit__(*a)
        return Q()
    def zero_matrix(self, shape, tag='dense'):
        a = np.zeros([int(x) for x in shape])
        if tag == 'dense': return a
        import scipy.sparse as sp
        return getattr(sp, tag + '_matrix')(a)
    def rows(self, P, I): return P[I, :]
    def empty_matrix(self, A): return A.shape[0] == 0
    def dense(self, A): return A.toarray() if hasattr(A, 'toarray') else np.asarray(A)
    def once_each(self, what, combos, key):
        log = []
        f = lambda c: log.append(c)
        f.log = log
        return f
    def check_calls(self, what, seen, combos, key):
        self.check(what, [str(c) for c in seen.log] == [str(key(c)) for c in combos], '%s' % (seen.log,))
    def position(self, name, n):
        if n == 0: raise Skip()
        return self.int(name, 'nonneg', 0, int(n) - 1)
    def while_inv(self, inv, havoc=None, frame=()): pass
    def trust(self, s): self.assumptions.add(s)
    def skip(self): raise Skip()
