"""Lists with one item per interval of a sorted list of unknown length (the segments of a member, the pieces of a physical member).

`AbsPts` is the strictly increasing list of the distinct values of a collection; how many there are is unknown.  `GList` is a list the code
fills with one item per index of an unbounded range and then completes in a second loop, item after item.  That second loop is verified by
induction: the contract supplies what the attributes of item k are once it is complete (`spec`); in the generic iteration i every item
before i has these values and item i those of the first loop, at its end item i must have the specified values and every other item must be
unchanged; after the loop every item has them."""
from . import sym
from .sym import R, SymBool, And, Or, Not, Unsupported
from .explore import SymSeq, PathEnd, Poison, same

def eng(): return sym.HOOK['engine']
def _R(x): return x if isinstance(x, R) else R.const(x)

def _fact(c):
    e = eng()
    if isinstance(c, SymBool):
        e.facts.add(c.key()); e.assume(c)
    elif not c: raise PathEnd()

class AbsPts:
    _nowalk = True
    def __init__(self, lo, hi, name='pt'):
        self.lo, self.hi, self.name = _R(lo), _R(hi), name
        self.n = sym.var('n' + name, sym.POS, True)
        self.items = []
        self.wanted = []
        self.seen = {}            # index -> the point, as a function of the index
        self.value = {}           # index -> what is known of it on this path
    def length(self): return self.n + 1
    def add_item(self, seq, binder, y):
        self.items.append((seq, binder, _R(y)))
        for (k, p) in list(self.seen.values()):
            for (k2, p2) in list(self.seen.values()):
                d = k2 - k
                if d.is_const() and d.cval() == 1: self._outside(p, p2)
    def _outside(self, p, q, here=False):
        """no item lies strictly between two neighbours; `here`: written with what is known on this path only"""
        e = eng()
        for seq, binder, y in self.items:
            c = Or(y <= p, y >= q)
            if here:
                e.assume(c) if isinstance(c, SymBool) else None
                if seq is not None and isinstance(c, SymBool): e.__dict__.setdefault('univ', []).append((seq.name, binder, c))
            elif seq is None: _fact(c)
            else: e.universal(seq, binder, c)
    def __getitem__(self, k):
        e = eng()
        k = _R(k)
        if k.is_const() and k.cval() < 0: k = k + self.n + 1
        key = str(k)
        if key in self.value: return self.value[key]
        # facts recorded here hold whatever path they are recorded on: they name pt(k) even where it is known to be an end
        if k.is_const() and k.cval() == 0: p = self.lo
        elif not (k - self.n).t: p = self.hi
        else:
            p = sym.fn(self.name, [k])
            _fact(p >= self.lo); _fact(p <= self.hi)
        near = []
        for k2, p2 in [(R.const(0), self.lo), (self.n, self.hi)] + list(self.seen.values()):
            d = k - k2
            if p is p2: continue
            if d.is_const():
                if d.cval() > 0: _fact(p > p2)
                elif d.cval() < 0: _fact(p < p2)
                if abs(d.cval()) == 1:
                    if d.cval() == 1: self._outside(p2, p)
                    else: self._outside(p, p2)
                    near.append((d.cval(), k2, p2))
            elif p2 is self.lo or p2 is self.hi:
                _fact(Or(d <= 0, p > p2)); _fact(Or(d >= 0, p < p2)); _fact(Or(Not(d == 0), p == p2))
        self.seen[key] = (k, p)
        v = p
        if not k.is_const() and (k - self.n).t:
            if e.implies(k == 0): v = self.lo
            elif e.implies(k == self.n): v = self.hi
        self.value[key] = v
        for d, k2, p2 in near:
            v2 = self.value.get(str(k2), p2)
            if v is not p or v2 is not p2:
                if d == 1: self._outside(v2, v, True)
                else: self._outside(v, v2, True)
        return v
    def locate(self, X):
        """every X between the ends lies in some interval: name it"""
        k = index(self, 'w')
        _fact(Or(And(self[k] <= X, X < self[k + 1]), X == self.hi))
        eng().elems[('items:' + self.name, 'w')] = k
    def __iter__(self): raise Unsupported('iteration over a sorted list of unknown length')
    def __len__(self): raise Unsupported('len')

class GSeq(SymSeq):
    """the items of a completed list; lists over the same points share their generic index"""
    def __init__(self, gl):
        self.gl = gl
        self.name = 'items:' + gl.pts.name
        self.n = gl.pts.n
        eng().seqreg[self.name] = self
    def elem(self, e, depth):
        key = (self.name, depth)
        if key not in e.elems: e.elems[key] = index(self.gl.pts, depth)
        return self.gl[e.elems[key]]
    def make(self, b): raise Unsupported('item of a completed list')

def index(pts, depth):
    k = sym.var('k:items:%s#%s' % (pts.name, depth), sym.NONNEG, True)
    _fact(k < pts.n)
    return k

class GList(list):
    """see the module text"""
    def __init__(self, name, pts, spec):
        list.__init__(self)
        self.name, self.pts, self.spec = name, pts, spec
        self.insts = {}           # key -> (index, object, stage, attributes at creation)
        self.done = False
        self.poison = set()
        eng().glists.append(self)
    def built(self):
        return any(type(x).__name__ == 'Chunk' for x in list.__iter__(self))
    def clear(self):
        list.clear(self); self.insts = {}; self.done = False; self.poison = set()
    def seq(self): return GSeq(self)
    def template(self):
        its = list(list.__iter__(self))
        if len(its) != 1 or len(its[0].pieces) != 1 or its[0].pieces[0][0] or len(its[0].pieces[0][1]) != 1:
            raise Unsupported('list %s is not filled with one item per index' % self.name)
        ch = its[0]
        if (ch.seq.n - self.pts.n).t: raise Unsupported('list %s has another length than expected' % self.name)
        return ch.pieces[0][1][0], ch.seq.elem(eng(), int(ch.binder.rsplit('#', 1)[1]))
    def clone(self, k):
        """the item the first loop made for index k"""
        t, i = self.template()
        iid = next(iter(i.atoms()))
        o = object.__new__(type(t))
        for a, v in t.__dict__.items():
            if isinstance(v, R):
                mp = {iid: k}
                for x in v.deep_atoms():
                    at = sym.T.atoms[x]
                    if at.kind == 'fn' and at.name.startswith(self.pts.name + '('): mp[x] = _R(self.pts[sym.subst(_R(at.data[0]), {iid: k})])
                v = sym.subst(v, mp)
            elif not isinstance(v, (int, float, str, bool, type(None))) and not (type(v).__name__ == 'Fraction'): v = Poison('attribute %s' % a)
            o.__dict__[a] = v
        return o
    def expected(self, k): return self.spec(self, k, self.pts[k], self.pts[k + 1])
    def processed(self, k):
        o = self.clone(k)
        for a in self.poison: o.__dict__[a] = Poison('attribute %s of %s' % (a, self.name))
        for a, v in self.expected(k).items():
            o.__dict__[a] = sym.fn('%s.%s' % (self.name, a), [k]) if v is None else v        # None: the contract says nothing of it
        return o
    def current(self):
        for l, v in reversed(eng().loopv):
            if processing(l, self): return v
        return None
    def __getitem__(self, k):
        if not self.built(): return list.__getitem__(self, k)
        e = eng()
        if isinstance(k, slice): raise Unsupported('slice of a list of unknown length')
        k = _R(k)
        if k.is_const() and k.cval() < 0: k = k + self.pts.n
        key = str(k)
        if self.done: return self._inst(k, key, 'done')
        cur = self.current()
        if cur is None:
            if ('pre:' + key) not in self.insts and self.insts and not k.is_const(): raise Unsupported('index into list %s before its loop' % self.name)
            return self._inst(k, 'pre:' + key, 'raw')
        d = k - cur
        if not d.t or (not d.is_const() and e.implies(d == 0)):
            for key2, (k2, o, st, snap) in list(self.insts.items()):
                if key2.startswith('pre:') and bool(k2 == cur): return o
            return self._inst(cur, 'cur:' + str(cur), 'raw')
        if d.is_const() and d.cval() < 0 or e.implies(d < 0): return self._inst(k, 'old:' + key, 'done')
        if d.is_const() and d.cval() > 0 or e.implies(d > 0): return self._inst(k, 'next:' + key, 'raw')
        raise Unsupported('index %s of list %s' % (k, self.name))
    def _inst(self, k, key, stage):
        r = self.insts.get(key)
        if r is None:
            o = self.processed(k) if stage == 'done' else self.clone(k)
            r = self.insts[key] = (k, o, stage, dict(o.__dict__))
        return r[1]
    def entering(self):
        """a completing loop starts: what the code did to single items before it is part of the state it starts from"""
        for key, (k, o, st, snap) in list(self.insts.items()):
            for a, v in o.__dict__.items():
                if not (v is snap.get(a) or same(v, snap.get(a))): self.poison.add(a)
            self.insts[key] = (k, o, st, dict(o.__dict__))
    def end_iteration(self, cur, want):
        e = eng()
        o = self[cur]
        self.poison -= set(want)
        for a, v in want.items():
            if v is None: continue
            g = o.__dict__.get(a)
            if g is None or isinstance(g, Poison): e.prove('segment-loop %s %s preserved' % (self.name, a), False)
            else: e.prove_eq('segment-loop %s %s preserved' % (self.name, a), g, v)
        for key, (k, x, st, snap) in list(self.insts.items()):
            for a, v in x.__dict__.items():
                if v is snap.get(a) or same(v, snap.get(a)): continue
                if x is not o: e.prove('segment-loop %s other items unchanged' % self.name, False)
                elif a not in want: raise Unsupported('the contract of the loop does not speak of %s of %s' % (a, self.name))
    def finished(self):
        self.entering()
        self.done = True; self.insts = {}
        if self.pts.wanted:
            w, self.pts.wanted = self.pts.wanted, []
            for x in w: self.pts.locate(x)
        want = self.expected(_R(0))
        self.poison -= set(want)

def processing(l, gl):
    """does loop l run over the indices of the completed list?"""
    return l.seq.name.startswith('range(') and gl.built() and not (l.seq.n - gl.pts.n).t and not (isinstance(l.site, str) and l.site[:1] == 'C' and l.site[1:3].isdigit())

def all_lists(): return getattr(eng(), 'glists', ())
