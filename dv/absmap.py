"""Dictionaries with arbitrary contents, looked at key by key.

The initial content is an oracle: the first time a key is looked up it is decided (by branching) whether it equals a key
looked up before, and otherwise the key is present or absent and its value arbitrary.  Updates are kept as an overlay.
Postconditions are stated at an arbitrary key, so they hold for every key of a dictionary of any size."""
from . import sym
from .sym import R, SymBool, Unsupported

def _rt():
    from . import runtime
    return runtime

def key_eq(a, b):
    if a is b: return True
    r = _rt().eq(a, b)
    return r if isinstance(r, bool) else bool(r)

class Base:
    """initial content"""
    def __init__(self, name, make):
        self.name, self.make = name, make
        self.known = []             # [key, present, value]
        self.n = sym.var('len(%s)' % name, sym.NONNEG, True)
    def entry(self, k):
        for e in self.known:
            if key_eq(e[0], k): return e
        e = [k, sym.bvar('in:%s:%s' % (self.name, _tag(k))), None]
        self.known.append(e)
        return e
    def present(self, e):
        if isinstance(e[1], SymBool):
            e[1] = bool(e[1])
            if e[1]: sym.HOOK['engine'].assume(self.n > 0)
        return e[1]
    def value(self, e):
        if e[2] is None: e[2] = self.make(e[0])
        return e[2]

def _tag(k): return k.name if hasattr(k, 'name') else repr(k)

class Filter:
    """the entries of a dictionary that satisfy a condition (dictionary comprehension)"""
    def __init__(self, src, f, cond):
        self.src, self.f, self.cond = src, f, cond
        self.known = []
        self.n = sym.var('len(%s)' % src.name, sym.NONNEG, True)
        self.name = src.name + "'"
    def entry(self, k):
        for e in self.known:
            if key_eq(e[0], k): return e
        p, key, v = self.src.look(k)
        if p:
            t = (key, v)
            p = True if self.cond is None else bool(self.cond(t))
            if p:
                nk, nv = self.f(t)
                if not key_eq(nk, key): raise Unsupported('dictionary comprehension that changes the keys')
                v = nv
        e = [k, p, v, self.src.raw(k)[1] if p and v is self.src.look(k)[2] else v]
        self.known.append(e)
        return e
    def present(self, e): return e[1]
    def value(self, e): return e[2]

class View:
    def __init__(self, m, kind): self.m, self.kind = m, kind
    def __iter__(self): raise Unsupported('iteration over dictionary %s' % self.m.name)
    def __len__(self): raise Unsupported('len')

class KMap:
    _nowalk = True
    def __init__(self, name, make=None, base=None, over=None, n=None):
        self.name = name
        self.base = base if base is not None else Base(name, make)
        self.over = list(over or [])     # (key, present, value), later entries win
        self.n = self.base.n if n is None else n
        self.log = []
    # -- the contract's and the code's view
    def look(self, k):
        for key, p, v in reversed(self.over):
            if key_eq(key, k): return p, key, v
        e = self.base.entry(k)
        p = self.base.present(e)
        return p, e[0], (self.base.value(e) if p else None)
    def raw(self, k):
        """(present, identity of the value) without describing the value"""
        for key, p, v in reversed(self.over):
            if key_eq(key, k): return p, v
        if isinstance(self.base, Filter):
            e = self.base.entry(k)
            return e[1], (e[3] if len(e) > 3 else e[2])
        e = self.base.entry(k)
        return self.base.present(e), e
    def has(self, k): return self.look_key(k)[0]
    def look_key(self, k):
        for key, p, v in reversed(self.over):
            if key_eq(key, k): return p, key
        e = self.base.entry(k)
        return self.base.present(e), e[0]
    def force(self, k):
        """assume that k is a key; returns its value"""
        p, _, v = self.look(k)
        if not p: sym.HOOK['engine'].assume(False)
        return v
    def __getitem__(self, k):
        p, _, v = self.look(k)
        if not p: raise KeyError(str(k))
        return v
    def get(self, k, d=None):
        p, _, v = self.look(k)
        return v if p else d
    def __setitem__(self, k, v):
        p, _ = self.look_key(k)
        if not p: self.n = self.n + 1
        self.over.append((k, True, v))
        self.log.append(('set', k))
    def __delitem__(self, k):
        p, _ = self.look_key(k)
        if not p: raise KeyError(str(k))
        self.n = self.n - 1
        self.over.append((k, False, None))
        self.log.append(('del', k))
    def pop(self, k, *d):
        p, _, v = self.look(k)
        if not p:
            if d: return d[0]
            raise KeyError(str(k))
        del self[k]
        return v
    def setdefault(self, k, d=None):
        p, _, v = self.look(k)
        if p: return v
        self[k] = d
        return d
    def copy(self): return KMap(self.name, base=self.base, over=self.over, n=self.n)
    def keys(self): return View(self, 'keys')
    def items(self): return View(self, 'items')
    def values(self): return View(self, 'values')
    def __bool__(self): return bool(self.n > 0)
    def __len__(self): raise Unsupported('len() of a dictionary outside the len shim')
    def __iter__(self): raise Unsupported('iteration over dictionary %s' % self.name)
    def __contains__(self, k): return self.has(k)
    def __eq__(self, o):
        if isinstance(o, dict) and not o: return sym.cmp0('==', self.n)
        return self is o
    __hash__ = object.__hash__

def dict_comp(view, f, cond):
    if view.kind == 'items': return KMap(view.m.name + "'", base=Filter(view.m.copy(), f, cond))
    if view.kind == 'keys': return KMap(view.m.name + "'", base=Filter(view.m.copy(), lambda t: f(t[0]), (lambda t: cond(t[0])) if cond else None))
    raise Unsupported('dictionary comprehension over values')
