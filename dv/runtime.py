"""Runtime support for transformed source: loop rule, exact arithmetic, numpy/math/builtins shims."""
import math, builtins, types
import numpy as np
from fractions import Fraction
from . import sym
from .sym import R, SymBool, And, Or, Not, brk, Unsupported, T, norm
from .explore import (SymSeq, MapSeq, SymDict, GhostMat, GhostEntry, PathEnd, RestartLoop, LoopRec, Poison, walk, loc_get,
                      loc_set, same, is_scalar)

from . import absmat
from .absmat import FnMat, IdxList, NanVec
from .absmap import KMap, View, dict_comp
from . import seglist
from .seglist import GList, AbsPts, GSeq

def eng():
    return sym.HOOK['engine']

# ------------------------------------------------------------------ chunks (lists built by unbounded loops)
class Chunk:
    _nowalk = True
    """stands for the concatenation, over every e in seq, of the items of the piece whose conditions hold"""
    def __init__(self, seq, binder, pieces):
        self.seq, self.binder, self.pieces = seq, binder, pieces

class Prefix:
    """the (unknown) part of a list built by earlier iterations"""

class ChunkArr(list):
    """numpy array made from a list built by unbounded loops (only the sparse-matrix constructors take it)"""
    def _no(self, *a): raise Unsupported('arithmetic on an array of unbounded length')
    __add__ = __radd__ = __iadd__ = __mul__ = __rmul__ = __sub__ = __rsub__ = __truediv__ = __neg__ = __getitem__ = __setitem__ = _no
    def astype(self, *a, **k): return self
    flatten = ravel = copy = astype
    @property
    def T(self): return self

def tally(idx, x, vals=None, under=()):
    """sum over the positions of idx that hold x, of the value at the same position of vals"""
    t = R({})
    vs = vals if vals is not None else [None]*builtins.len(idx)
    if builtins.len(vs) != builtins.len(idx): raise Unsupported('lists built by different loops')
    for i, v in zip(idx, vs):
        if isinstance(i, Chunk):
            if v is None: v = Chunk(i.seq, i.binder, [(c, [None]*builtins.len(its)) for c, its in i.pieces])
            if not isinstance(v, Chunk) or i.seq is not v.seq and i.seq.name != v.seq.name: raise Unsupported('lists built by different loops')
            d = {frozenset(c.key() for c in cs): its for cs, its in v.pieces}
            ps = []
            for cs, its in i.pieces:
                w = d.get(frozenset(c.key() for c in cs))
                if w is None or builtins.len(w) != builtins.len(its): raise Mismatch('index and value lists do not run in parallel')
                ps.append((cs, tally(its, x, w, tuple(cs))))
            t = t + sym.sum_atom(i.seq.name, i.binder, ps)
        else:
            ii = i if isinstance(i, R) else R.const(i)
            if isinstance(v, Opt):
                if v.present.key() not in {c.key() for c in under}: raise Mismatch('a missing value in a list of numbers')
                v = v.v
            t = t + brk(ii == x)*(1 if v is None else v)
    return t

def sum_over(lst, f):
    """sum of f(x) over the elements of a list (also one built by an unbounded loop)"""
    t = R({})
    if isinstance(lst, SymSeq):
        e = eng()
        d = e.active.get(lst.name, 0)
        return sym.sum_atom(lst.name, '%s#%d' % (lst.name, d), [((), f(lst.elem(e, d)))])
    for x in lst:
        if isinstance(x, Chunk):
            t = t + sym.sum_atom(x.seq.name, x.binder, [(cs, sum_over(its, f)) for cs, its in x.pieces])
        else: t = t + f(x)
    return t

class Mismatch(Exception):
    pass

def has_chunk(v):
    return isinstance(v, (list, tuple)) and any(isinstance(x, (Chunk, Prefix)) for x in v)

# ------------------------------------------------------------------ loops
class ConcLoop:
    sym = False
    def __init__(self, it):
        self.it = it
    def __iter__(self):
        return iter(self.it)

_NUMT = (R, int, float, Fraction)

class SymLoop:
    sym = True
    def __init__(self, seq, site, names):
        self.seq, self.site, self.names = seq, site, names
        self.broke = False
        self.mode = None
    def __iter__(self):
        return self
    def __next__(self):
        e = eng()
        if self.mode is None:
            self.prefix = tuple(x[1] for x in e.trace[:e.pos])
            self.key = (self.prefix, self.site)
            self.mode = e.choose(['iter', 'exit'])
            self.rec = e.loops.get(self.key)
            if self.rec is None or (self.mode == 'iter' and not hasattr(self.rec, 'live')):
                if self.rec is None:
                    self.rec = e.loops[self.key] = LoopRec()
            if self.mode == 'exit':
                if self.rec.dirty:
                    self._restart()
                raise StopIteration
            self.depth = e.active.get(self.seq.name, 0)
            e.active[self.seq.name] = self.depth + 1
            nc = len(e.choices)
            self.elem = self.seq.elem(e, self.depth)
            self._enter(e)
            self.echo = tuple(e.choices[nc:])     # which variant of the generic element this path is about
            self.started = True
            return self.elem
        # the body fell through / continued: handled by end(); a second __next__ is never reached
        raise PathEnd()

    def _enter(self, e):
        if not e.loopv:
            for g in e.glists:
                if not g.done and seglist.processing(self, g): g.entering()
        self.outer = builtins.len(e.loopv)
        e.loopv.append((self, self.elem))
    def _outer_processing(self, e):
        """is this loop nested in one that completes lists item by item?"""
        n = getattr(self, 'outer', builtins.len(e.loopv))
        return any(seglist.processing(l, g) for l, _ in e.loopv[:n] for g in e.glists)

    def _restart(self):
        """the body changed a location not known to be changed: run it again with that location arbitrary"""
        e = eng()
        self.rec.dirty = False
        self.rec.results = []
        self.rec.__dict__.pop('inner', None)
        self.rec.__dict__.pop('cache', None)
        e.drop_under(self.prefix)
        e.trace[len(self.prefix)][1] = 0
        del e.trace[len(self.prefix) + 1:]
        # loops nested below this prefix must be rediscovered
        n = len(self.prefix)
        for k in [k for k in e.loops if len(k[0]) > n and k[0][:n] == self.prefix]:
            del e.loops[k]
        raise RestartLoop()

    # -- start of body: havoc
    def body(self, loc):
        e = eng()
        loc = {k: v for k, v in loc.items() if not k.startswith('__')}
        tgt = set(self.targets)
        self.pc0 = len(e.pc)
        e.bodies += 1
        g = self.seq.n > 0
        if isinstance(g, SymBool) and Not(g).key() in e.pcset or (self.seq.n == 0) is True or isinstance(self.seq.n == 0, SymBool) and (self.seq.n == 0).key() in e.pcset: raise PathEnd()
        e.assume(g)
        self.pc1 = len(e.pc)
        out = {}
        self.locals0 = {k: v for k, v in loc.items() if k not in tgt}
        newloc = dict(self.locals0)
        for p in sorted(self.rec.havoc, key=repr):
            if len(p) == 1:
                n = p[0]
                if p in self.rec.__dict__.get('optional', ()):
                    # a local that starts as None and becomes a number: either of the two at the start of an iteration
                    newloc[n] = None if e.choose(['none', 'number']) == 'none' else self._fresh(0, p)
                else: newloc[n] = self._fresh(newloc.get(n), p)
        roots = dict(newloc)
        roots['~elem'] = self.elem
        e.walk_inst = self._outer_processing(e)
        locs, keep = walk(roots)
        self.inst0 = {id(g): set(g.insts) for g in e.glists}
        self.start = {}
        self.cont = {}
        for p, kind, c, k in locs:
            if p in self.rec.havoc:
                if kind == 'list':
                    loc_set(kind, c, k, [Prefix()])
                elif kind != 'keys':
                    loc_set(kind, c, k, self._fresh(loc_get(kind, c, k), p))
            self.start[p] = loc_get(kind, c, k)
            self.cont[p] = (kind, c, k)
        for n, v in newloc.items():
            self.start[(n,)] = v
        self.keep = keep
        return tuple(newloc.get(n, UNBOUND) for n in self.names)

    def _fresh(self, old, p):
        e = eng()
        e.fresh += 1
        nm = 'h%d_%s' % (e.fresh, '.'.join(str(x) for x in p))
        if isinstance(old, (bool, SymBool)):
            return sym.bvar(nm)
        if isinstance(old, np.ndarray) and old.dtype == object:
            a = np.empty(old.shape, dtype=object)
            for i in range(a.size):
                a.flat[i] = sym.var('%s_%d' % (nm, i))
            return a
        if isinstance(old, _NUMT):
            return sym.var(nm)
        return Poison('loop-carried ' + nm)

    def end(self, loc):
        """end of one generic iteration: record the effect and stop this path"""
        e = eng()
        if e.iter_end is not None and not self.site[0] == 'comp' and not (self.site[0] == 'C' and self.site[1:3].isdigit()): e.iter_end()
        mine = [g for g in e.glists if not g.done and self.outer == 0 and seglist.processing(self, g)]
        want = [g.expected(self.elem) for g in mine]
        for g, w in zip(mine, want): g.end_iteration(self.elem, w)
        for g in e.glists:
            if g not in mine and self.outer:
                for k, (ix, o, st, snap) in g.insts.items():
                    if k not in self.inst0[id(g)] and any(not (v is snap.get(a) or same(v, snap.get(a))) for a, v in o.__dict__.items()):
                        raise Unsupported('an item of list %s is first touched inside a nested loop' % g.name)
        e.walk_inst = self._outer_processing(e)
        tgt = set(self.targets)
        loc = {k: v for k, v in loc.items() if not k.startswith('__') and k not in tgt}
        roots = dict(loc)
        roots['~elem'] = self.elem
        # walk from the start roots as well so that locations are comparable by container identity
        locs, keep = walk(roots)
        res = {}
        elemw = {}
        bycont = {}
        for p, (kind, c, k) in self.cont.items():
            bycont[(kind, id(c), k if not isinstance(k, list) else None)] = p
        # locations existing at start: compare in place
        for p, (kind, c, k) in self.cont.items():
            end = loc_get(kind, c, k)
            st = self.start[p]
            if kind == 'list':
                if len(end) == len(st) and all(x is y or same(x, y) for x, y in zip(st, end)):
                    continue
            elif same(st, end):
                continue
            elif kind == 'item' and isinstance(end, (list, dict, np.ndarray)) and end is st:
                continue
            elif kind == 'attr' and end is st:
                continue
            if p[0] == '~elem':
                elemw[p] = (kind, c, k, end)
            else:
                res[p] = (kind, st, end)
        for n in self.names:
            if n in tgt or n not in loc:
                continue
            st = self.start.get((n,), UNBOUND)
            v = loc[n]
            if v is st or same(v, st):
                if st is None and (n,) in self.rec.__dict__.get('optional', ()): self.rec.optional_kept = True
                continue
            if st is None and is_scalar(v): self.rec.__dict__.setdefault('optional', set()).add((n,))
            res[(n,)] = ('local', st, v)
        new = [p for p in res if p not in self.rec.havoc]
        for p in new:
            self.rec.havoc.add(p)
            self.rec.dirty = True
        if self.rec.dirty: self._restart()
        if e.innerflag: raise Unsupported('flag set by a nested loop')
        conds = tuple(c for c in self.echo + tuple(e.pc[self.pc1:]) if c.key() not in e.facts)
        for c in e.pc[self.pc1:]:
            if c.key() in e.facts: self.rec.facts[c.key()] = c
        self.rec.results.append((conds, res, elemw, self.seq, self.depth))
        if e.innerw: self.rec.__dict__.setdefault('inner', {})[len(self.rec.results) - 1] = list(e.innerw)
        raise PathEnd()

    def broken(self):
        self.broke = True
        self.rec.breaks = True

    def final(self, loc):
        """after the loop"""
        e = eng()
        loc = {k: v for k, v in loc.items() if not k.startswith('__')}
        if self.broke or self.mode == 'iter':
            del e.loopv[self.outer:]
            e.active[self.seq.name] = self.depth
            return tuple(loc.get(n, UNBOUND) for n in self.names)
        rec = self.rec
        newloc = dict(loc)
        e.walk_inst = self._outer_processing(e)
        fin = [g for g in e.glists if not e.loopv and not g.done and seglist.processing(self, g)]
        locs, keep = walk({k: v for k, v in loc.items()})
        cont = {p: (kind, c, k) for p, kind, c, k in locs}
        depth = e.active.get(self.seq.name, 0)
        binder = '%s#%d' % (self.seq.name, depth)
        getattr(self.seq, 'typed', self.seq.elem)(e, depth)        # the element's type invariants hold for the generic element after the loop as well
        for k, c in rec.facts.items():
            e.facts.add(k); e.assume(c)
        for g in fin: g.finished()
        if isinstance(self.seq, GSeq):
            # every item went to the end of the loop body; instances at the items named so far
            if not rec.results: raise PathEnd()
            e.universal(self.seq, binder, Or(*[And(*r[0]) for r in rec.results]))
            if e.contradictory(e.elems.get((self.seq.name, 'w'))): raise PathEnd()
        for p in sorted(rec.havoc, key=repr):
            paths = []
            for conds, res, elemw, seq, d in rec.results:
                paths.append((conds, res.get(p)))
            if len(p) == 1:
                old = newloc.get(p[0], UNBOUND)
                newloc[p[0]] = self._summary(p, old, paths, rec, binder, None)
            else:
                if p not in cont:
                    continue
                kind, c, k = cont[p]
                old = loc_get(kind, c, k)
                loc_set(kind, c, k, self._summary(p, old, paths, rec, binder, kind))
        # writes to the generic element
        ew = {}
        for conds, res, elemw, seq, d in rec.results:
            for p in elemw:
                ew.setdefault(p, None)
        if ew:
            if isinstance(self.seq, ChunkSeq): raise Unsupported('updates of the items of a list built by an unbounded loop')
            if rec.breaks:
                raise Unsupported('element updates in a loop with break')
            el = self.seq.elem(e, depth)
            locs, keep2 = walk({'~elem': el})
            cont = {p: (kind, c, k) for p, kind, c, k in locs}
            for p in ew:
                if sum(1 for x in p if isinstance(x, str) and x.startswith('.')) > 1:
                    raise Unsupported('loop writes through an object of the element: %r' % (p,))
                if p not in cont:
                    continue
                kind, c, k = cont[p]
                old = loc_get(kind, c, k)
                val = None
                pieces = []
                for conds, res, elemw, seq, d in rec.results:
                    v = elemw[p][3] if p in elemw else old
                    pieces.append((conds, v))
                loc_set(kind, c, k, self._piecewise(pieces, p))
                if e.bodies: e.innerw.append((self.seq.name, getattr(self.seq, 'f', None), depth, p, loc_get(kind, c, k)))
        inner = rec.__dict__.get('inner')
        if inner: self._inner(rec, inner)
        return tuple(newloc.get(n, UNBOUND) for n in self.names)

    def _inner(self, rec, inner):
        """writes of nested loops to the generic element of a collection owned by the generic element of this loop"""
        e = eng()
        keys = {}
        for ws in inner.values():
            for nm, f, d, p, v in ws: keys[(nm, d, p)] = f
        for (nm, d, p), f in keys.items():
            seq = e.seqreg.get(nm)
            if seq is None: raise Unsupported('writes to the elements of %s' % nm)
            el = seq.elem(e, d)
            if f is not None: el = f(el)
            locs, keep = walk({'~elem': el})
            hit = [(kind, c, k) for q, kind, c, k in locs if q == p]
            if not hit: raise Unsupported('writes to the elements of %s' % nm)
            kind, c, k = hit[0]
            old = loc_get(kind, c, k)
            pieces = []
            for i, (conds, res, elemw, sq, dd) in enumerate(rec.results):
                v = old
                for w in inner.get(i, ()):
                    if (w[0], w[2], w[3]) == (nm, d, p): v = w[4]
                pieces.append((conds, v))
            loc_set(kind, c, k, self._piecewise(pieces, p))
            if e.bodies: e.innerw.append((nm, f, d, p, loc_get(kind, c, k)))

    def _piecewise(self, pieces, p):
        if all(same(v, pieces[0][1]) for _, v in pieces):
            return pieces[0][1]
        if all(is_scalar(v) for _, v in pieces):
            tot = R({})
            for conds, v in pieces:
                tot = tot + brk(And(*conds)) * v
            return tot
        if all(isinstance(v, (bool, SymBool)) for _, v in pieces):
            return Or(*[And(*conds, v) for conds, v in pieces])
        if all(v is None or getattr(v, '_ghost_id', None) is not None for _, v in pieces): return Pw(pieces)
        return Poison('element attribute %r' % (p,))

    def _summary(self, p, old, paths, rec, binder, kind):
        e = eng()
        cache0 = rec.__dict__.get('cache') or {}
        if cache0.get('n') == len(rec.results) and not rec.breaks:
            if kind == 'list' and p in cache0 and cache0[p][0] == binder:
                return list(old) + [cache0[p][1]]
            if kind != 'list' and is_scalar(old) and ('s', p) in cache0 and cache0[('s', p)][0] == binder:
                return old + cache0[('s', p)][1]
        hav = set()
        for conds, res, *_ in rec.results:
            for q, (kd, st, en) in res.items():
                if isinstance(st, R):
                    hav |= st.atoms()
                elif isinstance(st, np.ndarray):
                    for x in st.flat:
                        if isinstance(x, R): hav |= x.atoms()
        def clean(r):
            return not isinstance(r, R) or not (r.deep_atoms() & hav)
        def cclean(conds):
            return all(clean(r) for c in conds for r in c.reals()) and not any(
                b.startswith('h') and b[1:2].isdigit() for c in conds for b in c.boolvars())
        if rec.breaks:
            return self._fresh(old, p)
        cache = rec.__dict__.setdefault('cache', {})
        if cache.get('n') != len(rec.results):
            cache.clear(); cache['n'] = len(rec.results)
        if kind == 'list':
            ck = cache.get(p)
            if ck is not None and ck[0] == binder:
                return list(old) + [ck[1]]
            pieces = []
            for conds, r in paths:
                if r is None:
                    continue
                _, st, en = r
                if len(en) < len(st) or any(x is not y for x, y in zip(st, en)):
                    raise Unsupported('list %r is not only appended to' % (p,))
                if not cclean(conds):
                    raise Unsupported('list append under loop-carried condition')
                pieces.append((conds, list(en[len(st):])))
            ch = Chunk(self.seq, binder, pieces)
            cache[p] = (binder, ch)
            return list(old) + [ch]
        if kind == 'keys':
            raise Unsupported('loop inserts keys into dict %r' % (p,))
        if isinstance(old, np.ndarray):
            out = np.empty(old.shape, dtype=object)
            for i in range(old.size):
                sub = []
                for conds, r in paths:
                    if r is None:
                        sub.append((conds, None)); continue
                    kd, st, en = r
                    if not isinstance(en, np.ndarray) or en.shape != old.shape:
                        return Poison('array %r changes shape' % (p,))
                    sub.append((conds, (kd, st.flat[i], en.flat[i])))
                out.flat[i] = self._sum1(p + (i,), old.flat[i], sub, clean, cclean, binder)
            return out
        return self._sum1(p, old, paths, clean, cclean, binder)

    def _sum1(self, p, old, paths, clean, cclean, binder):
        e = eng()
        if all(r is None for _, r in paths):
            return old
        if all(r is None or (is_scalar(r[1]) and is_scalar(r[2])) for _, r in paths) and is_scalar(old):
            cache = self.rec.__dict__.setdefault('cache', {})
            ck = cache.get(('s', p))
            if ck is not None and ck[0] == binder:
                return old + ck[1]
            pieces = []
            ok = True
            for conds, r in paths:
                d = R({}) if r is None else (r[2] - r[1])
                if not isinstance(d, R): d = R.const(d)
                if not clean(d) or not cclean(conds):
                    ok = False; break
                pieces.append((conds, d))
            if ok:
                if all(not v.t for _, v in pieces):
                    return old
                v0 = pieces[0][1]
                if all(same(v, v0) for _, v in pieces) and not any(self._binds(x) for x in [v0]):
                    delta = self.seq.n * v0
                else:
                    delta = sym.sum_atom(self.seq.name, binder, pieces)
                cache[('s', p)] = (binder, delta)
                return old + delta
            r = self._distinct_update(p, old, paths, clean, cclean, binder)
            if r is not None: return r
            return self._extremum(p, old, paths, clean, cclean, binder)
        if all(r is None or isinstance(r[2], (bool, SymBool)) for _, r in paths) and isinstance(old, (bool, SymBool)):
            # flag: on every path either unchanged or set to the same constant
            consts = set()
            setc = []
            keepc = []
            ok = True
            for conds, r in paths:
                if r is None:
                    keepc.append(conds); continue
                if isinstance(r[2], bool) and cclean(conds):
                    consts.add(r[2]); setc.append(conds)
                else:
                    ok = False
            if ok and len(consts) == 1:
                c = consts.pop()
                cond_any = Or(*[And(*cs) for cs in setc])
                log = e.__dict__.setdefault('exists_log', [])
                for sn, bn, cd in log:
                    if sn == self.seq.name and bn == binder and isinstance(cd, SymBool) and e.implies(Or(Not(cd), cond_any)):
                        return c              # an element known to exist satisfies the condition
                e.fresh += 1
                if e.bodies: e.innerflag = True
                anyb = e.choose([True, False])
                if anyb:
                    # what is known of the generic element holds for every element
                    if isinstance(cond_any, SymBool) and e.implies(Not(cond_any)): raise PathEnd()
                    log.append((self.seq.name, binder, cond_any))
                    e.assume(self.seq.n > 0)
                    return c
                # no element satisfies the condition: true of the generic element as well
                e.assume(Not(cond_any))
                for sn, bn, cd in log:
                    if sn == self.seq.name and bn == binder and isinstance(cd, SymBool) and e.implies(Not(cd)): raise PathEnd()
                return old
            return self._fresh(old, p)
        if p in self.rec.__dict__.get('optional', ()) and old is None and not e.bodies and not self.rec.__dict__.get('optional_kept') and not self.rec.breaks:
            if not e.choose([True, False]):
                e.assume(self.seq.n == 0)
                return None
            e.assume(self.seq.n > 0)
            return self._extremum(p, old, paths, clean, cclean, binder)
        return self._fresh(old if not isinstance(old, Unbound) else None, p)

    def _distinct_update(self, p, old, paths, clean, cclean, binder):
        """M[i_e] = v_e for every element, with i_e different for different elements (proved from the declared distinct numbering)"""
        e = eng()
        if not p or p[-1] != '@mat' or getattr(e, 'distinct', None) is None: return None
        pieces = []
        hits = []
        for conds, r in paths:
            if r is None: pieces.append((conds, R({}))); continue
            kd, st, en = r
            ha = st.atoms() if isinstance(st, R) else set()
            if len(ha) != 1 or not cclean(conds): return None
            a = list(ha)[0]
            al, be = R({}), R({})
            for m, c in en.t.items():
                mm = [x for x in m if x[0] == a]
                if not mm: be = be + R({m: c})
                elif mm[0][1] == 1: al = al + R({tuple(x for x in m if x[0] != a): c})
                else: return None
            if not clean(al) or not clean(be): return None
            d = (al - 1)*old + be
            bs = [x for x in (al + be).deep_atoms() if T.atoms[x].kind == 'brk'] if True else []
            z = sym.subst(d, {x: R({}) for x in bs})
            if z.t: return None
            hits.extend(T.atoms[x].data for x in bs)
            pieces.append((conds, d))
        # two different elements never write the same entry
        ren = {}
        ids = []
        for h in hits:
            for q in h.reals():
                for x in q.deep_atoms():
                    at = T.atoms[x]
                    if at.kind == 'var' and binder in at.name and x not in ren:
                        ren[x] = sym.var(at.name + '~', at.sign, at.is_int)
                        if at.name.startswith(e.distinct): ids.append((sym.atom_R(T.atoms[x]), ren[x]))
        if not ids: return None
        diff = Or(*[sym.Not(u == v) for u, v in ids])
        uniq = {h.key(): h for h in hits}
        from . import solve as _s
        for h in uniq.values():
            for g in uniq.values():
                if not T.atoms: pass
                st, _ = _s.check([diff, h, sym.subst_bool(g, ren)] + [c for u, v in ids for c in (u >= 0, v >= 0)], 3000)
                if st != 'unsat': return None
        e.note_assumption('A-distinct: %s are pairwise different (contract of _renumber)' % e.distinct)
        return old + sym.sum_atom(self.seq.name, binder, pieces)

    def _binds(self, r):
        return any('#' in T.atoms[a].name for a in r.deep_atoms())

    def _extremum(self, p, old, paths, clean, cclean, binder):
        """v only ever moves one way and ends each iteration at least (most) as far as every candidate of that iteration:
        the result is a bound for every element, reached by one of them or by the initial value"""
        e = eng()
        zero = old if old is not None else 0
        if e.bodies: return self._fresh(zero, p)
        cand, ends = [], []
        for conds, r in paths:
            if r is None: ends.append((conds, None)); continue
            kd, st, en = r
            if not is_scalar(en): return self._fresh(zero, p)
            if not isinstance(en, R): en = R.const(en)
            if not clean(en): return self._fresh(zero, p)
            ends.append((conds, (st, en)))
            own = [c for c in conds if cclean([c])]
            key = (en.key(), tuple(c.key() for c in own))
            if key not in [k for k, *_ in cand]: cand.append((key, own, en))
        # the value carried into the iteration, on paths that leave it alone
        sts = [r[1] for _, r in paths if r is not None and isinstance(r[1], R)]
        if not sts or not cand: return self._fresh(zero, p)
        h = sts[0]
        def valid(conds, claim):
            if not isinstance(claim, SymBool): return bool(claim)
            return e.implies(Or(Not(And(*conds)), claim))
        for up in (True, False):
            ge = (lambda a, b: a >= b) if up else (lambda a, b: a <= b)
            ok = True
            for conds, r in ends:
                en = h if r is None else r[1]
                if r is not None and isinstance(r[0], R) and not valid(conds, ge(en, h)): ok = False; break
                for k, own, v in cand:
                    if not same(en, v) and not valid(list(conds) + own, ge(en, v)): ok = False; break
                if not ok: break
            if not ok: continue
            e.fresh += 1
            F = sym.var('ext%d_%s' % (e.fresh, '.'.join(str(x) for x in p)))
            if old is not None: e.assume(ge(F, old))
            for k, own, v in cand: e.universal(self.seq, binder, Or(Not(And(*own)), ge(F, v)))
            i = e.choose(list(builtins.range(builtins.len(cand) + (old is not None))))
            if i == builtins.len(cand): e.assume(F == old)
            else:
                c = And(*(cand[i][1] + [F == cand[i][2]]))
                if isinstance(c, SymBool):
                    e.__dict__.setdefault('exists_log', []).append((self.seq.name, binder, c))
                elif not c: raise PathEnd()
                e.assume(self.seq.n > 0)
            return F
        return self._fresh(zero, p)

# ------------------------------------------------------------------ merged if statements
class MergeFail(Exception): pass

def m_on(site):
    e = eng()
    if e is None or not getattr(e, 'merge', False) or site in e.nomerge: return False
    e.mergesite = site
    return True
def m_start(): return True
def m_end(): eng().mergesite = None
class _Under:
    def __init__(self, c): self.c = c
    def __enter__(self):
        e = eng()
        self.s = (list(e.pc), set(e.pcset), e.nobranch)
        e.nobranch = True
        if isinstance(self.c, SymBool): e.assume(self.c)
    def __exit__(self, t, v, tb):
        e = eng()
        e.pc, e.pcset, e.nobranch = self.s
        if t is not None and issubclass(t, Exception):
            # not expressible as one merged path: explore the branches of this statement separately
            e.nomerge.add(e.mergesite)
            from . import explore; raise explore.RestartAll()
def _mdec(c):
    e = eng()
    if isinstance(c, SymBool):
        if c.key() in e.pcset: return True
        if Not(c).key() in e.pcset: return False
        if not e.feasible(c): return False
        if not e.feasible(Not(c)): return True
    return c
def m_guard(g, f):
    if g is False: return False, False
    with _Under(g):
        c = _mdec(f())
        if not isinstance(c, (bool, SymBool)): raise MergeFail()
    return And(g, c), And(g, Not(c))
def m_and(a, b):
    a = _mdec(a())
    if not isinstance(a, SymBool): return a and b()
    with _Under(a): c = b()
    return And(a, c)
def m_or(a, b):
    a = _mdec(a())
    if not isinstance(a, SymBool): return a or b()
    with _Under(Not(a)): c = b()
    return Or(a, c)
def m_not(a): return Not(a) if isinstance(a, SymBool) else not a
def m_some(g): return g is not False
def m_val(g, new, old):
    if g is True: return new()
    if g is False:
        try: return old()
        except NameError: return UNBOUND
    with _Under(g):
        n = new()
        if isinstance(n, Opt): n = n.val()
    try: o = old()
    except NameError: o = UNBOUND
    if o is n: return n
    if o is UNBOUND or isinstance(o, (Poison, Opt)):
        if is_scalar(n): return Opt(n, g)         # has a value only where the statement was executed
        with _Under(g): raise MergeFail()
    with _Under(g):
        if is_scalar(n) and is_scalar(o): return o + brk(g)*(n - o)
        if isinstance(n, (bool, SymBool)) and isinstance(o, (bool, SymBool)): return Or(And(g, n), And(Not(g), o))
        raise MergeFail()

class WLoop:
    """`while` of the code under contract: the invariant rule when the harness supplies an invariant, plain execution otherwise"""
    def __init__(self, names):
        e = eng()
        self.names = names
        self.rule = getattr(e, 'while_rule', None) if e is not None else None
        self.sym = self.rule is not None
        self.n = 0
    def head(self, loc):
        e = eng()
        loc = {k: v for k, v in loc.items() if not k.startswith('__')}
        self.rule.check(e, 'on-entry', loc)
        self.mode = e.choose(['iter', 'exit'])
        new = {}
        for n in self.names:
            v = loc.get(n, UNBOUND)
            e.fresh += 1
            nm = 'w%d_%s' % (e.fresh, n)
            if isinstance(v, (bool, SymBool)): new[n] = sym.bvar(nm)
            elif isinstance(v, int): new[n] = sym.var(nm, sym.REAL, True)
            elif isinstance(v, _NUMT): new[n] = sym.var(nm)
            elif isinstance(v, (str, Tok)): new[n] = Tok(nm)
            else: new[n] = Poison('value of %s carried by a while loop' % n)
        new.update(self.rule.havoc(e, loc, new) or {})
        loc = dict(loc); loc.update(new)
        self.rule.assume(e, loc)
        self.frame0 = self._frame(loc)
        self.state = 0
        return tuple(new.get(n, UNBOUND) for n in self.names)
    def _frame(self, loc):
        locs, keep = walk({k: v for k, v in loc.items() if k not in self.names})
        return {p: (loc_get(kind, c, k), kind) for p, kind, c, k in locs}, keep
    def c(self, cond):
        if not self.sym: return cond
        e = eng()
        if self.state == 0:
            self.state = 1
            if self.mode == 'iter':
                e.assume(cond if isinstance(cond, SymBool) else bool(cond))
                return True
            e.assume(Not(cond) if isinstance(cond, SymBool) else not cond)
            return False
        raise PathEnd()
    def end(self, loc):
        if not self.sym: return
        e = eng()
        loc = {k: v for k, v in loc.items() if not k.startswith('__')}
        f1, _ = self._frame(loc)
        f0, _ = self.frame0
        for p, (v, kind) in f1.items():
            if p in f0:
                v0 = f0[p][0]
                if kind == 'list':
                    if len(v) == len(v0) and builtins.all(x is y or same(x, y) for x, y in zip(v, v0)): continue
                elif same(v, v0) or v is v0: continue
                if self.rule.framed(p): continue
                raise Unsupported('while loop writes %r outside its frame' % (p,))
        self.rule.check(e, 'preserved', loc)
        raise PathEnd()

class WhileRule:
    """havoc(loc, new) -> replacements; inv(loc) -> [(name, condition)]"""
    def __init__(self, inv, havoc=None, frame=()):
        self._inv, self._havoc, self._frame = inv, havoc, frame
        self.used = False
    def check(self, e, when, loc):
        self.used = True
        for name, c in self._inv(loc): e.prove('loop-invariant %s %s' % (name, when), c)
    def assume(self, e, loc):
        for name, c in self._inv(loc): e.assume(c if isinstance(c, SymBool) else bool(c))
    def havoc(self, e, loc, new):
        return self._havoc(loc, new) if self._havoc else None
    def framed(self, p): return builtins.any(str(x) in self._frame for x in p)

def wloop(site, names):
    w = WLoop(names)
    if site.split(':')[0][:1] == 'C' and site[1:3].isdigit() or site.startswith('dv'): w.sym = False
    return w

class Unbound:
    def __repr__(self): return '<unbound>'
    def __getattr__(self, k): raise Unsupported('use of an unbound local')
UNBOUND = Unbound()

def loop(it, site, names, targets):
    if isinstance(it, SymDict):
        it = it.keys()
    if isinstance(it, SymSeq):
        l = SymLoop(it, site, names)
        l.targets = targets
        return l
    if isinstance(it, GList) and it.built():
        l = SymLoop(it.seq(), site, names)
        l.targets = targets
        return l
    if has_chunk(it):
        if builtins.len(it) != 1 or not isinstance(it[0], Chunk): raise Unsupported('iteration over a list built by several unbounded loops')
        l = SymLoop(ChunkSeq(it[0]), site, names)
        l.targets = targets
        return l
    return ConcLoop(it)

class ChunkSeq(SymSeq):
    """the items of a list built by one unbounded loop"""
    def __init__(self, ch):
        self.ch, self.name, self.n = ch, ch.seq.name, ch.seq.n
    def elem(self, e, depth):
        if '%s#%d' % (self.name, depth) != self.ch.binder: raise Unsupported('nested iteration over a list built by an unbounded loop')
        self.ch.seq.elem(e, depth)
        opts = [(cs, x) for cs, its in self.ch.pieces for x in its]
        if not opts: raise PathEnd()
        cs, x = opts[e.choose(list(builtins.range(builtins.len(opts))))]
        if isinstance(x, (Chunk, Prefix)): raise Unsupported('iteration over nested lists')
        for c in cs:
            if isinstance(c, SymBool): e.assume(c); e.choices.append(c)
            elif not c: raise PathEnd()
        return x
    def typed(self, e, depth): return self.ch.seq.elem(e, depth)

def comp(kind, it, f, cond):
    """[f(x) for x in it if cond(x)]"""
    if isinstance(it, SymDict):
        it = it.keys()
    if isinstance(it, View) and kind == 'dict': return dict_comp(it, f, cond)
    if not isinstance(it, SymSeq):
        if has_chunk(it):
            raise Unsupported('comprehension over a list built by an unbounded loop')
        if kind == 'dict': return dict(f(x) for x in it if cond is None or cond(x))
        g = (f(x) for x in it if cond is None or cond(x))
        return list(g) if kind == 'list' else set(g) if kind == 'set' else g
    if kind == 'dict': raise Unsupported('dictionary comprehension over an unbounded collection')
    e = eng()
    # evaluate on the generic element without forking where possible
    out = []
    class _F:            # reuse the loop rule: for x in it: if cond(x): out.append(f(x))
        pass
    l = SymLoop(it, 'comp:%d' % id(f.__code__), ('out',))
    l.site = ('comp', f.__code__.co_filename, f.__code__.co_firstlineno, f.__code__.co_name)
    l.targets = ()
    l.names = ('out',)
    for x in l:
        (out,) = l.body({'out': out})
        if cond is None or cond(x):
            out.append(f(x))
        l.end({'out': out})
    (out,) = l.final({'out': out})
    if builtins.len(out) == 1 and isinstance(out[0], Chunk): out = CompList(out, it, f, cond)
    return out

class CompList(list):
    """[f(x) for x in it if cond(x)] over an unbounded collection"""
    def __init__(self, items, it, f, cond):
        list.__init__(self, items)
        self.src = (it, f, cond)
        self.first = None
        self.always = False
    def __getitem__(self, i):
        if not isinstance(i, int): return list.__getitem__(self, i)
        if i != 0: raise Unsupported('element %d of a list of unknown length' % i)
        if self.first is None: self.first = self.witness()
        return self.first[0]
    def witness(self):
        """the first x of the collection with cond(x); IndexError if there is none"""
        e = eng()
        it, f, cond = self.src
        e.fresh += 1
        el = it.elem(e, 'w%d' % e.fresh)
        c = True if cond is None else cond(el)
        if not self.exists(it, el, c):
            if e.choose([True, False]) is False: raise IndexError('list index out of range')
        if isinstance(c, SymBool):
            if self.always: e.facts.add(c.key())
            e.assume(c)
        elif not c: raise PathEnd()
        return (f(el),)
    def exists(self, it, el, c):
        e = eng()
        num = e.__dict__.get('numbered', {}).get(it.name)
        if num is None or not isinstance(c, SymBool) or c.op != '==': return False
        v = num[0](el)
        d = c.args[0]
        at = list(v.atoms())
        if len(at) != 1: return False
        k = sym.subst(d, {at[0]: R.const(1)}) - sym.subst(d, {at[0]: R({})})
        if not k.is_const() or k.cval() not in (1, -1): return False
        val = -sym.subst(d, {at[0]: R({})})*k.cval()
        e.note_assumption('A-numbering: the items of %s are numbered 0, 1, ... (contract of _renumber)' % it.name)
        g = And(val >= 0, val < num[1])
        if not isinstance(g, SymBool): self.always = bool(g); return bool(g)
        from . import solve as _s
        self.always = _s.check([x for x in e.pc if x.key() in e.facts] + [Not(g)], 3000)[0] == 'unsat'     # whatever path led here
        return self.always or e.implies(g)

def b_next(it, *d):
    if isinstance(it, CompList):
        if d: raise Unsupported('next with a default over an unbounded collection')
        return it[0]
    return builtins.next(it, *d)

# ------------------------------------------------------------------ scalar operations
def num(txt):
    f = Fraction(txt)
    return f.numerator if f.denominator == 1 else f

def _div1(a, b):
    if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)) and not isinstance(a, R):
        if b == 0:
            raise ZeroDivisionError('division by zero')
        return norm(Fraction(a) / Fraction(b))
    return a / b

def div(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        A, B = np.broadcast_arrays(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
        out = np.empty(A.shape, dtype=object)
        for i in range(out.size):
            out.flat[i] = _div1(A.flat[i], B.flat[i])
        return out
    return _div1(a, b)

def power(a, b):
    if isinstance(a, np.ndarray):
        out = np.empty(a.shape, dtype=object)
        for i in range(out.size):
            out.flat[i] = power(a.flat[i], b)
        return out
    if isinstance(b, R) and b.is_const():
        b = b.cval()
    if isinstance(a, R):
        return a ** b
    if isinstance(b, Fraction) or (isinstance(b, float)):
        r = R.const(a) ** b
        return r.cval() if r.is_const() else r
    if isinstance(a, int) and isinstance(b, int) and b < 0:
        return norm(Fraction(1, a ** (-b)))
    r = a ** b
    return norm(r) if isinstance(r, Fraction) else r

def ident(a, b):
    """a is b"""
    if isinstance(a, SymBool) and isinstance(b, bool):
        return bool(a) == b
    if isinstance(b, SymBool) and isinstance(a, bool):
        return bool(b) == a
    return objeq(a, b)

class Opt:
    """None or a number, which of both is symbolic"""
    _nowalk = True
    def __init__(self, v, present): self.v, self.present = v, present
    def val(self):
        e = eng()
        if not bool(self.present): raise TypeError("unsupported operand type(s): 'NoneType'")
        return self.v
    def __eq__(self, o):
        if o is None: return Not(self.present)
        if isinstance(o, Opt): return Or(And(Not(self.present), Not(o.present)), And(self.present, o.present, self.v == o.v))
        return And(self.present, self.v == o)
    def __ne__(self, o): return Not(self.__eq__(o))
    __hash__ = object.__hash__
    def __add__(self, o): return self.val() + o
    __radd__ = __add__
    def __mul__(self, o): return self.val() * o
    __rmul__ = __mul__
    def __sub__(self, o): return self.val() - o
    def __rsub__(self, o): return o - self.val()
    def __neg__(self): return -self.val()
    def __truediv__(self, o): return self.val() / o
    def __rtruediv__(self, o): return o / self.val()
    def __lt__(self, o): return self.val() < o
    def __gt__(self, o): return self.val() > o
    def __le__(self, o): return self.val() <= o
    def __ge__(self, o): return self.val() >= o
    def __bool__(self): return bool(self.present) and bool(self.v != 0)

class Pw(Poison):
    """a reference that is one of several, depending on the case; it can only be compared"""
    _nowalk = True
    def __init__(self, pieces):
        Poison.__init__(self, 'reference that depends on the case')
        object.__setattr__(self, '_pieces', pieces)
    def one(self):
        for cs, v in object.__getattribute__(self, '_pieces'):
            if bool(And(*cs)): return v
        raise PathEnd()

def isnone(a):
    if isinstance(a, Pw): return object.__getattribute__(a, 'one')() is None
    if isinstance(a, Opt): return bool(Not(a.present))
    return a is None

def objeq(a, b):
    if isinstance(a, Pw): a = object.__getattribute__(a, 'one')()
    if isinstance(b, Pw): b = object.__getattribute__(b, 'one')()
    ga, gb = getattr(a, '_ghost_id', None), getattr(b, '_ghost_id', None)
    if a is b:
        return True
    if ga is not None and gb is not None:
        return bool(ga == gb)
    return False

def eq(a, b):
    if getattr(a, '_ghost_id', None) is not None and getattr(b, '_ghost_id', None) is not None:
        return objeq(a, b)
    return a == b

def ne(a, b):
    if getattr(a, '_ghost_id', None) is not None and getattr(b, '_ghost_id', None) is not None:
        return not objeq(a, b)
    return a != b

def contains(x, c):
    if isinstance(c, IdxList):
        r = c.has(x)
        return bool(r)
    if isinstance(c, KMap): return c.has(x)
    if isinstance(c, View):
        if c.kind != 'keys': raise Unsupported('membership in the values of a dictionary')
        return c.m.has(x)
    if isinstance(c, (SymSeq, SymDict)):
        raise Unsupported('membership in a symbolic collection')
    if has_chunk(c):
        raise Unsupported('membership in a list built by an unbounded loop')
    if isinstance(c, (list, tuple)) or type(c).__name__ in ('dict_values', 'dict_keys'):
        if isinstance(c, dict) and not isinstance(x, (R, SymBool, Tok)):
            return x in c
        for y in c:
            if y is x:
                return True
            r = eq(y, x)
            if r is True or (r is not False and bool(r)):
                return True
        return False
    if isinstance(c, dict) and isinstance(x, Tok):
        for y in c:
            if bool(eq(y, x)):
                return True
        return False
    return x in c

class Tok:
    """a symbolic string (an arbitrary name); equality with other names is symbolic"""
    table = {}
    def __init__(self, name):
        self.name = name
        self.v = sym.var('tok:' + name, sym.REAL)
    @staticmethod
    def code(s):
        return 1000 + Tok.table.setdefault(s, len(Tok.table))
    def __eq__(self, o):
        if o is self: return True
        if isinstance(o, Tok): return self.v == o.v
        if isinstance(o, str): return self.v == Tok.code(o)
        return False
    def __ne__(self, o):
        r = self.__eq__(o)
        return Not(r)
    def __hash__(self): return hash(self.name)
    def __add__(self, o): return self._cat(self, o)
    def __radd__(self, o): return self._cat(o, self)
    @staticmethod
    def _cat(a, b):
        """concatenation: some string determined by the two"""
        t = Tok('cat:%s:%s' % (a, b))
        t.v = sym.fn('cat', [x.v if isinstance(x, Tok) else R.const(Tok.code(x)) for x in (a, b)])
        return t
    def __bool__(self): return True
    def __str__(self): return '<%s>' % self.name
    __repr__ = __str__

# ------------------------------------------------------------------ builtins
def b_len(x):
    if isinstance(x, IdxList): return x.n
    if isinstance(x, AbsPts): return x.length()
    if isinstance(x, GList) and x.built(): return x.pts.n
    if isinstance(x, FnMat): return x.shape[0]
    if isinstance(x, SymSeq): return x.n
    if isinstance(x, SymDict): return x.seq.n
    if isinstance(x, KMap): return x.n
    if isinstance(x, View): return x.m.n
    if has_chunk(x): raise Unsupported('len of a list built by an unbounded loop')
    return builtins.len(x)

def b_sum(it, start=0):
    tot = start
    for x in it:
        if isinstance(x, Chunk):
            ps = [(c, b_sum(items)) for c, items in x.pieces]
            tot = tot + sym.sum_atom(x.seq.name, x.binder, ps)
        elif isinstance(x, Prefix):
            raise Unsupported('sum over loop-carried list')
        else:
            tot = tot + x
    return tot

def _minmax(args, key, less):
    if len(args) == 1:
        args = list(args[0])
    if has_chunk(args):
        raise Unsupported('min/max over a list built by an unbounded loop')
    e = eng()
    if e is not None and (getattr(e, 'merge', False) or e.merge_minmax) and key is None and any(isinstance(x, R) and not x.is_const() for x in args):
        # one value that bounds all and is one of them
        args = [x if isinstance(x, R) else R.const(x) for x in args]
        m = sym.fn('min' if less else 'max', args)
        for x in args: e.assume(m <= x if less else m >= x)
        e.assume(sym.Or(*[m == x for x in args]))
        return m
    best = args[0]
    for x in args[1:]:
        a, b = (key(x), key(best)) if key else (x, best)
        if (a < b) if less else (a > b):
            best = x
    return best

def b_max(*a, key=None, default=None):
    return _minmax(a, key, False)

def b_min(*a, key=None, default=None):
    return _minmax(a, key, True)

def b_round(x, n=None):
    if isinstance(x, Fraction):
        if n is not None and n >= 8:
            return x
        return builtins.round(x, n) if n is not None else builtins.round(x)
    return builtins.round(x, n) if n is not None else builtins.round(x)

def b_float(x=0):
    if isinstance(x, Opt): return x.val()
    if isinstance(x, (R, Fraction)): return x
    if isinstance(x, str):
        return num(x)
    if isinstance(x, np.ndarray) and x.size == 1:
        return b_float(x.flat[0])
    if isinstance(x, GhostEntry): return x
    if isinstance(x, int): return x
    return num(repr(float(x)))

NONNEG_ = sym.NONNEG
def b_int(x=0, *a):
    if isinstance(x, R) and not x.is_const():
        if all(T.atoms[i].is_int for i in x.atoms()) and all(isinstance(c, int) for c in x.t.values()):
            return x
        if all(T.atoms[i].is_int for i in x.atoms()) and x.t:
            d = math.lcm(*[Fraction(c).denominator for c in x.t.values()])
            if not eng().implies(x >= 0): raise Unsupported('int() of a number that may be negative')
            return sym.quotient(x*d, d)
        if not eng().implies(x >= 0): raise Unsupported('int() of a number that may be negative')
        q = sym.fn('floor', [x], NONNEG_, True)
        for c in (q <= x, x < q + 1):
            if isinstance(c, SymBool): eng().facts.add(c.key()); eng().assume(c)
        return q
    return builtins.int(x, *a) if not isinstance(x, R) else builtins.int(x.cval())

def b_isinstance(x, c):
    cs = c if isinstance(c, tuple) else (c,)
    if isinstance(x, (R, Fraction)):
        if builtins.isinstance(x, tuple(k for k in cs if isinstance(k, type))): return True
        if float in cs or b_float in cs:
            return True
        return False
    cs = tuple({b_float: float, b_int: int, b_list: list, b_set: set, b_range: range, b_enumerate: builtins.enumerate, b_str: str}.get(k, k) for k in cs)
    if isinstance(x, Tok): return str in cs
    if isinstance(x, int) and not isinstance(x, bool) and float in cs and int not in cs:
        return False
    return builtins.isinstance(x, cs)

class ChunkSet:
    """set(...) of a list built by unbounded loops; only sorting it is understood"""
    def __init__(self, items): self.items = items

def b_set(it=()):
    if isinstance(it, SymDict): it = it.keys()
    if isinstance(it, SymSeq): return it
    if has_chunk(it): return ChunkSet(builtins.list(it))
    l = builtins.list(it)
    if any(isinstance(x, (R, Tok)) for x in l):
        out = []
        for x in l:
            if not contains(x, out): out.append(x)
        return out
    return builtins.set(l)

class _NpUnique: pass

def _sorted_abs(items):
    """the strictly increasing list of the distinct values of `items`; how many there are is fixed by the harness (e.sorted_pts),
    what they are is not: every item is one of them, and the least and greatest are the ones the harness names (checked)"""
    e = eng()
    pts = getattr(e, 'sorted_pts', None)
    if pts is None:
        raise Unsupported('sorted() of a list built by an unbounded loop')
    plain = [x for x in items if not isinstance(x, (Chunk, Prefix))]
    if isinstance(pts, AbsPts):
        for end in (pts.lo, pts.hi):
            if not builtins.any(is_scalar(x) and not (_as_R(x) - end).t for x in plain): raise Unsupported('discontinuity list without the member ends')
        for x in items:
            if isinstance(x, Prefix): raise Unsupported('sorted() of a loop-carried list')
            if isinstance(x, Chunk):
                for conds, its in x.pieces:
                    for y in its:
                        if isinstance(y, (Chunk, Prefix)) or conds: raise Unsupported('conditional items in sorted()')
                        pts.add_item(x.seq, x.binder, y)
            else: pts.add_item(None, None, x)
        return pts
    for end in (pts[0], pts[-1]):
        if not builtins.any(same(x, end) for x in plain):
            raise Unsupported('discontinuity list without the member ends')
    def member(x):
        return Or(*[eq(x, p) for p in pts])
    for x in items:
        if isinstance(x, Prefix): raise Unsupported('sorted() of a loop-carried list')
        if isinstance(x, Chunk):
            for conds, its in x.pieces:
                for y in its:
                    if isinstance(y, (Chunk, Prefix)): raise Unsupported('nested chunks in sorted()')
                    c = And(*conds) if conds else True
                    e.assume(Or(Not(c), member(y)) if isinstance(c, SymBool) else member(y))
        else:
            m = member(x)
            if isinstance(m, SymBool): e.assume(m)
    return builtins.list(pts)

def b_sorted(it, key=None, reverse=False):
    if isinstance(it, ChunkSet):
        if key or reverse: raise Unsupported('sorted(set) with key')
        return _sorted_abs(it.items)
    if isinstance(it, SymDict): it = it.keys()
    if isinstance(it, SymSeq):
        return it              # an order-insensitive view (the loop rule never uses the order)
    if has_chunk(it):
        raise Unsupported('sorted() of a list built by an unbounded loop')
    out = []
    for x in it:              # insertion sort with symbolic comparisons
        kx = key(x) if key else x
        i = len(out)
        while i > 0 and (kx < (key(out[i - 1]) if key else out[i - 1])):
            i -= 1
        out.insert(i, x)
    if reverse:
        out.reverse()
    return out

def b_enumerate(it, start=0):
    if isinstance(it, (SymSeq, SymDict)):
        s = it if isinstance(it, SymSeq) else it.keys()
        return MapSeq(s, lambda x: (sym.var('idx(%s)' % s.name, sym.NONNEG, True) + start, x))
    return builtins.enumerate(it, start)

def b_list(it=()):
    if isinstance(it, SymDict): it = it.keys()
    if isinstance(it, (SymSeq, ChunkSet)): return it
    return builtins.list(it)

def b_abs(x):
    e = eng()
    if e is not None and getattr(e, 'merge', False) and isinstance(x, R) and not x.is_const() and sym.sign_of(x) is None:
        m = sym.fn('abs', [x])
        for y in (m >= x, m >= -x, m >= 0, sym.Or(m == x, m == -x)):
            if isinstance(y, SymBool): e.assume(y)
        return m
    return builtins.abs(x)

def b_range(*a):
    a = [x.cval() if isinstance(x, R) and x.is_const() else x for x in a]
    big = getattr(eng(), 'bigrange', None) if eng() is not None else None
    if any(isinstance(x, R) for x in a) or big and builtins.len(a) == 1 and a[0] >= big:
        if len(a) == 1:
            n = a[0] if isinstance(a[0], R) else R.const(a[0])
            def mk(b):
                v = sym.var('i:' + b, sym.NONNEG, True)
                c = v < n
                if isinstance(c, SymBool): eng().facts.add(c.key()); eng().assume(c)
                return v
            return SymSeq('range(%s)' % n, mk, n=n)
        raise Unsupported('symbolic range')
    return builtins.range(*a)

def b_any(it):
    for x in it:
        if isinstance(x, (Chunk, Prefix)): raise Unsupported('any() over unbounded')
        if bool(x): return True
    return False

def b_all(it):
    for x in it:
        if isinstance(x, (Chunk, Prefix)): raise Unsupported('all() over unbounded')
        if not bool(x): return False
    return True

def b_print(*a, **k):
    pass

def fstr(*parts):
    ps = [p if isinstance(p, str) else b_str(p) for p in parts]
    if not builtins.any(isinstance(p, Tok) for p in ps): return ''.join(builtins.str(p) for p in ps)
    r = ps[0]
    for p in ps[1:]: r = Tok._cat(r, p) if isinstance(r, Tok) or isinstance(p, Tok) else r + p
    return r

def b_str(x=''):
    if isinstance(x, R):
        if x.is_const(): return builtins.str(x.cval())
        if eng() is not None:
            t = Tok('str:%s' % builtins.str(x))
            t.v = sym.fn('str', [x])
            return t
    if isinstance(x, Tok): return x
    return builtins.str(x)

class _FloatMeta(type):
    pass

BUILTINS = {'set': b_set, 'len': b_len, 'sum': b_sum, 'max': b_max, 'min': b_min, 'round': b_round, 'float': b_float, 'int': b_int,
            'isinstance': b_isinstance, 'sorted': b_sorted, 'enumerate': b_enumerate, 'list': b_list, 'range': b_range,
            'next': b_next, 'any': b_any, 'all': b_all, 'print': b_print, 'abs': b_abs}

# ------------------------------------------------------------------ math
def _as_R(x):
    return x if isinstance(x, R) else R.const(x)

PI = sym.var('pi', sym.POS)

def m_isclose(a, b, rel_tol=None, abs_tol=None, **k):
    e = eng()
    if e: e.note_assumption('A-isclose: isclose(a, b) is treated as a == b (exact real arithmetic)')
    return a == b

def m_sin(x):
    return sym.sin_atom(_as_R(x)) if not _const0(x) else 0

def _const0(x):
    return (isinstance(x, R) and not x.t) or (not isinstance(x, R) and x == 0)

def m_cos(x):
    return sym.cos_atom(_as_R(x)) if not _const0(x) else 1

def m_acos(x):
    x = _as_R(x)
    if x.is_const() and x.cval() in (1, -1): return 0 if x.cval() == 1 else PI
    a = sym.fn('acos', [x], sym.NONNEG)
    e = eng()
    if e is not None:
        e.assume(Or(And(x == 1, a == 0), And(x < 1, a > 0)))
    return a

def m_sqrt(x):
    r = sym.sqrt(_as_R(x))
    return r.cval() if r.is_const() else r

def m_radians(x):
    return x * PI / 180

def m_tan(x):
    return m_sin(x) / m_cos(x)

def m_fabs(x): return abs(x)

class Mod:
    def __init__(self, name, d, fallback=None):
        self.__dict__['_n'] = name
        self.__dict__.update(d)
        self.__dict__['_fb'] = fallback
    def __getattr__(self, k):
        fb = self.__dict__['_fb']
        if fb is not None and hasattr(fb, k):
            v = getattr(fb, k)
            if isinstance(v, types.ModuleType):
                return Mod(self._n + '.' + k, {}, v)
            return v
        if k.startswith('__'): raise AttributeError(k)
        import importlib
        try: real = importlib.import_module(self._n)
        except ImportError: raise Unsupported('%s.%s' % (self._n, k))
        if not hasattr(real, k): raise AttributeError("module '%s' has no attribute '%s'" % (self._n, k))
        return Later('%s.%s' % (self._n, k))

class Later:
    """a library function without a model here: importing it is harmless, using it is not"""
    def __init__(self, n): self.__dict__['_n'] = n
    def __call__(self, *a, **k): raise Unsupported(self._n)
    def __getattr__(self, k):
        if k.startswith('__'): raise AttributeError(k)
        return Later(self._n + '.' + k)

def m_ceil(x):
    if isinstance(x, R):
        if x.is_const(): return math.ceil(x.cval())
        e = eng()
        K = getattr(e, 'ceil_bound', None)
        if K:
            # bounded units: the values 1..K only
            if x.key() in e.ceil_memo: return e.ceil_memo[x.key()]
            c = e.choose([k for k in builtins.range(1, K + 1)])
            e.assume(x > c - 1); e.assume(x <= c)
            e.ceil_memo[x.key()] = c
            return c
        q = sym.fn('ceil', [x], sym.REAL, True)
        for c in (q >= x, q - 1 < x):
            if isinstance(c, SymBool): e.facts.add(c.key()); e.assume(c)
        return q
    return math.ceil(x)

MATH = Mod('math', dict(isclose=m_isclose, sin=m_sin, cos=m_cos, acos=m_acos, sqrt=m_sqrt, pi=PI, radians=m_radians, tan=m_tan,
                        fabs=m_fabs, ceil=m_ceil, hypot=lambda *a: m_sqrt(b_sum([x * x for x in a])), inf=math.inf))

# ------------------------------------------------------------------ numpy
def _obj(a):
    """to object array with exact entries"""
    if isinstance(a, GhostMat):
        return a
    if has_chunk(a):
        raise Unsupported('array from a list built by an unbounded loop')
    if isinstance(a, np.ndarray):
        if a.dtype == object:
            return a
        if a.dtype.kind in 'iu' or a.dtype.kind == 'b':
            return a.astype(object)
        if a.dtype.kind == 'f':
            out = np.empty(a.shape, dtype=object)
            for i in range(a.size):
                out.flat[i] = num(repr(float(a.flat[i])))
            return out
        return a
    return a

def np_array(x, dtype=None, ndmin=0, copy=True, **k):
    if isinstance(x, SymSeq):
        raise Unsupported('numpy array of unbounded length')
    if has_chunk(x):
        return ChunkArr(x)
    if isinstance(x, (GhostMat, FnMat)):
        return x
    if isinstance(x, np.ndarray):
        return np.array(_obj(x), copy=True)
    try:
        a = np.array(x, dtype=object)
    except ValueError as ex:
        raise Unsupported('array(): %s' % ex)
    if a.ndim and any(isinstance(v, np.ndarray) for v in a.flat):
        a = np.array([[v.item() if isinstance(v, np.ndarray) and v.size == 1 else v for v in row] for row in a], dtype=object) \
            if a.ndim == 2 else np.array([v.item() if isinstance(v, np.ndarray) and v.size == 1 else v for v in a], dtype=object)
    return a

def _shape(s):
    if isinstance(s, (R,)):
        return (s,) if not s.is_const() else (s.cval(),)
    if isinstance(s, (int, np.integer)):
        return (int(s),)
    return tuple((x.cval() if isinstance(x, R) and x.is_const() else x) for x in s)

def np_full(shape, v=0, dtype=None, **k):
    s = _shape(shape)
    if any(isinstance(x, R) for x in s):
        probe = getattr(eng(), 'probe', None)
        if probe is None:
            raise Unsupported('array of symbolic shape')
        return GhostMat(s, probe[:len(s)] if len(s) > 1 and not (isinstance(s[1], int) and s[1] == 1) else probe[:1] + (0,) * (len(s) - 1), v)
    a = np.empty(s, dtype=object)
    for i in range(a.size):
        a.flat[i] = v
    return a

def np_zeros(shape, dtype=None, *a, **k):
    if a or (dtype is not None and isinstance(dtype, (int, R))):
        raise TypeError("Cannot interpret '%s' as a data type" % (dtype,))
    return np_full(shape, 0)

def np_ones(shape, dtype=None, **k): return np_full(shape, 1)

def np_eye(n, *a, **k):
    m = np_full((n, n), 0)
    for i in range(n): m[i, i] = 1
    return m

def np_matmul(a, b, *r):
    if r: raise TypeError('matmul(out)')
    if isinstance(a, FnMat) or isinstance(b, FnMat): return absmat.matmul(a, b)
    a, b = _obj(np.asarray(a, dtype=object) if not isinstance(a, (np.ndarray, GhostMat)) else a), _obj(np.asarray(b, dtype=object) if not isinstance(b, (np.ndarray, GhostMat)) else b)
    if isinstance(a, GhostMat) or isinstance(b, GhostMat):
        raise Unsupported('matmul of unbounded matrices')
    if a.ndim == 2 and b.ndim == 2:
        if a.shape[1] != b.shape[0]:
            raise ValueError('matmul: shapes %s %s' % (a.shape, b.shape))
        out = np.empty((a.shape[0], b.shape[1]), dtype=object)
        brows = [[(j, b[k, j]) for j in range(b.shape[1]) if not _is0(b[k, j])] for k in range(b.shape[0])]
        for i in range(a.shape[0]):
            acc = [0] * b.shape[1]
            for k in range(a.shape[1]):
                x = a[i, k]
                if _is0(x): continue
                for j, y in brows[k]:
                    acc[j] = acc[j] + x * y
            for j in range(b.shape[1]):
                out[i, j] = acc[j]
        return out
    return np.matmul(a, b)

def _is0(x):
    return (isinstance(x, R) and not x.t) or (not isinstance(x, (R, SymBool)) and isinstance(x, (int, Fraction)) and x == 0)

def _bin(op):
    def f(a, b, *r, **k):
        if isinstance(a, (GhostMat, FnMat)) or isinstance(b, (GhostMat, FnMat)):
            return op(a, b)
        return op(_obj(a) if isinstance(a, np.ndarray) else (np_array(a) if isinstance(a, (list, tuple)) else a),
                  _obj(b) if isinstance(b, np.ndarray) else (np_array(b) if isinstance(b, (list, tuple)) else b))
    return f

def det_sym(A):
    n = A.shape[0]
    if n == 1: return A[0, 0]
    if n == 2: return A[0, 0] * A[1, 1] - A[0, 1] * A[1, 0]
    tot = 0
    # expand along the sparsest row
    zr = [builtins.sum(1 for j in range(n) if not _is0(A[i, j])) for i in range(n)]
    i = zr.index(builtins.min(zr))
    for j in range(n):
        if _is0(A[i, j]): continue
        M = np.delete(np.delete(A, i, 0), j, 1)
        tot = tot + ((-1) ** (i + j)) * A[i, j] * det_sym(M)
    return tot

class LinAlgError(ValueError):
    pass

class Ortho(np.ndarray):
    """12x12 (or nxn) matrix whose contract says it is orthonormal: inv(A) = A^T"""
    pass

def ortho(a):
    return np.asarray(a, dtype=object).view(Ortho)

def np_inv(A):
    if isinstance(A, Ortho):
        return np.asarray(A.T).view(np.ndarray).copy()
    A = np_array(A)
    n = A.shape[0]
    if A.ndim != 2 or A.shape[1] != n:
        raise LinAlgError('Last 2 dimensions of the array must be square')
    if n == 0:
        return A.copy()
    # connected blocks of the nonzero pattern (rows and columns)
    comp = list(range(2 * n))
    def find(x):
        while comp[x] != x: x = comp[x]
        return x
    for i in range(n):
        for j in range(n):
            if not _is0(A[i, j]):
                comp[find(i)] = find(n + j)
    blocks = {}
    for i in range(n):
        blocks.setdefault(find(i), ([], []))[0].append(i)
        blocks.setdefault(find(n + i), ([], []))[1].append(i)
    out = np_full((n, n), 0)
    for rows, cols in blocks.values():
        if len(rows) != len(cols):
            raise LinAlgError('Singular matrix')
        B = A[np.ix_(rows, cols)]
        m = len(rows)
        if m > 5:
            V = _gauss_jordan(B)
            for a in range(m):
                for b in range(m): out[cols[a], rows[b]] = V[a, b]
            continue
        d = det_sym(B)
        if _is0(d):
            raise LinAlgError('Singular matrix')
        if isinstance(d, R) and not d.is_const():
            dz = sym.clear_denominators(d)
            if not dz.t:
                raise LinAlgError('Singular matrix')
        for a in range(m):
            for b in range(m):
                if m == 1:
                    c = 1
                else:
                    M = np.delete(np.delete(B, a, 0), b, 1)
                    c = ((-1) ** (a + b)) * det_sym(M)
                if not _is0(c):
                    out[cols[b], rows[a]] = _div1(c, d)
    return out

def _gauss_jordan(A):
    """inverse by elimination with single-term pivots only (every division is exact)"""
    n = A.shape[0]
    M = [[A[i, j] for j in range(n)] + [1 if i == j else 0 for j in range(n)] for i in range(n)]
    left, perm = set(range(n)), [None] * n
    for _ in range(n):
        best = None
        free = [j for j in range(n) if perm[j] is None]
        for i in left:
            nz = [j for j in free if not _is0(M[i][j])]
            for j in nz:
                x = M[i][j]
                if isinstance(x, R) and len(x.t) != 1: continue
                cost = (len(nz) - 1) * (builtins.sum(1 for k in left if not _is0(M[k][j])) - 1)
                if best is None or cost < best[0]: best = (cost, i, j)
        if best is None:
            if any(all(_is0(M[i][j]) for j in free) for i in left): raise LinAlgError('Singular matrix')
            raise Unsupported('symbolic inverse of a dense %dx%d block' % (n, n))
        _, i, j = best
        p = M[i][j]
        M[i] = [0 if _is0(x) else _div1(x, p) for x in M[i]]
        for k in range(n):
            f = M[k][j]
            if k != i and not _is0(f):
                M[k] = [x if _is0(y) else x - f * y for x, y in zip(M[k], M[i])]
        left.discard(i); perm[j] = i
    V = np_full((n, n), 0)
    for j in range(n):
        for c in range(n): V[j, c] = M[perm[j]][n + c]
    return V

def np_pinv(A):
    A = np_array(A)
    try:
        e = eng()
        if e: e.note_assumption('A-pinv: pinv(A) of an invertible matrix is inv(A)')
        return np_inv(A)
    except LinAlgError:
        raise Unsupported('pinv of a singular symbolic matrix')

def np_norm(v, *a, **k):
    v = np_array(v)
    tot = 0
    for x in v.flat:
        tot = tot + x * x
    return m_sqrt(tot)

def np_det(A):
    return det_sym(np_array(A))

def np_solve(A, b):
    if isinstance(A, FnMat): return absmat.solve(A, b, False)
    b = np_array(b)
    return np_matmul(np_inv(A), b)

def np_allclose(a, b, *r, **k):
    A, B = np.broadcast_arrays(np.asarray(_obj(a) if isinstance(a, np.ndarray) else a, dtype=object), np.asarray(_obj(b) if isinstance(b, np.ndarray) else b, dtype=object))
    e = eng()
    if e: e.note_assumption('A-isclose: isclose(a, b) is treated as a == b (exact real arithmetic)')
    return b_all([x == y for x, y in zip(A.flat, B.flat)])

def np_linspace(a, b, n=50, *r, **k):
    n = int(n)
    out = np.empty(n, dtype=object)
    for i in range(n):
        out[i] = a + _div1((b - a) * i, n - 1) if n > 1 else a
    return out

def np_insert(arr, i, v, axis=None):
    return np.insert(_obj(arr), i, _obj(v) if isinstance(v, np.ndarray) else v, axis)

def _el(f):
    def g(x, *a):
        if isinstance(x, np.ndarray):
            out = np.empty(x.shape, dtype=object)
            for i in range(x.size): out.flat[i] = f(x.flat[i])
            return out
        return f(x)
    return g

def np_where(c, *ab):
    c = np.asarray(c, dtype=object)
    b = np.array([bool(x) for x in c.flat]).reshape(c.shape)
    if not ab:
        return np.where(b)
    return np.where(b, *[np.asarray(_obj(x) if isinstance(x, np.ndarray) else x, dtype=object) for x in ab])

def np_npmax(a, *r, **k):
    return b_max(list(np_array(a).flat))

def np_npmin(a, *r, **k):
    return b_min(list(np_array(a).flat))

def np_isfinite(x):
    if isinstance(x, NanVec): return np.array([False])
    if isinstance(x, (FnMat, GhostMat)): return np.array([True])
    if isinstance(x, np.ndarray): return np.ones(x.shape, dtype=bool)
    return True

def np_isnan(x): 
    if isinstance(x, NanVec): return np.array([True])
    if isinstance(x, (FnMat, GhostMat)): return np.array([False])
    if isinstance(x, np.ndarray): return np.zeros(x.shape, dtype=bool)
    return False

def np_dot(a, b):
    a, b = np_array(a), np_array(b)
    if a.ndim == 1 and b.ndim == 1:
        return b_sum([x * y for x, y in zip(a, b)])
    return np_matmul(a, b)

def np_cross(a, b, *r, **k):
    a, b = np_array(a), np_array(b)
    if a.shape != (3,) or b.shape != (3,):
        a, b = a.reshape(-1), b.reshape(-1)
    return np.array([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]], dtype=object)

def np_unsupported(name):
    def f(*a, **k):
        raise Unsupported(name)
    return f

def _wrap(name):
    f = getattr(np, name)
    def g(*a, **k):
        def cv(x):
            if isinstance(x, np.ndarray): return _obj(x)
            if isinstance(x, GhostMat): raise Unsupported('np.%s on an unbounded matrix' % name)
            if isinstance(x, (list, tuple)):
                if has_chunk(x): raise Unsupported('np.%s on a list built by an unbounded loop' % name)
                return type(x)(cv(y) for y in x)
            return x
        k.pop('dtype', None)
        return f(*[cv(x) for x in a], **k)
    return g

def np_around(a, decimals=0, *r, **k):
    def f(x): return b_round(x, decimals)
    return _el(f)(np_array(a) if isinstance(a, (list, tuple)) else a)

def np_maximum(a, b): return np.array([b_max(x, y) for x, y in np.broadcast(np.asarray(a, dtype=object), np.asarray(b, dtype=object))], dtype=object).reshape(np.broadcast(a, b).shape)
def np_minimum(a, b): return np.array([b_min(x, y) for x, y in np.broadcast(np.asarray(a, dtype=object), np.asarray(b, dtype=object))], dtype=object).reshape(np.broadcast(a, b).shape)

LINALG = Mod('numpy.linalg', dict(inv=np_inv, pinv=np_pinv, norm=np_norm, det=np_det, solve=np_solve, LinAlgError=LinAlgError))
_np = dict(array=np_array, asarray=np_array, zeros=np_zeros, empty=np_zeros, ones=np_ones, full=np_full, eye=np_eye, identity=np_eye,
           matmul=np_matmul, add=_bin(lambda a, b: a + b), subtract=_bin(lambda a, b: a - b), multiply=_bin(lambda a, b: a * b),
           divide=_bin(div), true_divide=_bin(div), allclose=np_allclose, linspace=np_linspace, insert=np_insert, where=np_where,
           dot=np_dot, cross=np_cross, sin=_el(m_sin), cos=_el(m_cos), sqrt=_el(m_sqrt), abs=_el(b_abs), absolute=_el(b_abs), square=_el(lambda x: x * x),
           arccos=_el(m_acos), isnan=np_isnan, isfinite=np_isfinite, isclose=m_isclose, nanmax=np_npmax, max=np_npmax, amax=np_npmax, min=np_npmin, amin=np_npmin, nanmin=np_npmin, maximum=np_maximum, minimum=np_minimum,
           around=np_around, round=np_around, round_=np_around,
           pi=PI, linalg=LINALG, inf=math.inf, nan=math.nan, ndarray=np.ndarray, float64=b_float, int32=b_int, seterr=lambda *a, **k: None,
           zeros_like=lambda a, **k: np_full(a.shape, 0), newaxis=None, array_equal=lambda a, b: b_all([x == y for x, y in zip(np_array(a).flat, np_array(b).flat)]))
for _n in ('vstack', 'hstack', 'concatenate', 'transpose', 'atleast_1d', 'atleast_2d', 'reshape', 'ravel', 'sum', 'append', 'delete',
           'ix_', 'outer', 'block', 'diag', 'stack', 'column_stack', 'kron', 'trace', 'copy', 'arange', 'flip', 'squeeze', 'expand_dims', 'tile', 'repeat', 'inner', 'einsum', 'negative', 'all', 'any', 'triu', 'tril', 'cumsum', 'swapaxes', 'searchsorted', 'shape', 'size', 'ndim', 'roll', 'split'):
    _np.setdefault(_n, _wrap(_n))
NUMPY = Mod('numpy', _np)

def coo(data_ij, shape=None, **k):
    """scipy.sparse.coo_matrix((data, (row, col)), shape): entry (p,q) is the sum of the matching triples"""
    if not (isinstance(data_ij, tuple) and len(data_ij) == 2 and isinstance(data_ij[1], (tuple, list))):
        if isinstance(data_ij, tuple) and all(isinstance(x, (int, R)) for x in data_ij):
            return np_full(data_ij, 0)
        if isinstance(data_ij, (GhostMat, np.ndarray)):
            return data_ij
        raise Unsupported('coo_matrix argument')
    data, (row, col) = data_ij
    probe = getattr(eng(), 'probe', None)
    if probe is None or not any(isinstance(x, R) for x in shape):
        if has_chunk(row): raise Unsupported('coo_matrix')
        out = np_full(shape, 0)
        for r, c, d in zip(row, col, data):
            out[r, c] = out[r, c] + d
        return out
    def tot(row, col, data):
        if not (len(row) == len(col) == len(data)):
            raise ValueError('row, column, and data array must all be the same length')
        t = R({})
        for r, c, d in zip(row, col, data):
            if isinstance(r, Chunk):
                ck = (id(r), id(c), id(d))
                hit = r.__dict__.setdefault('coo', {}).get(ck)
                if hit is not None and all(same(x, y) for x, y in zip(hit[0], probe)):
                    t = t + hit[3]; continue
                if not (isinstance(c, Chunk) and isinstance(d, Chunk)) or len(r.pieces) != len(c.pieces) or len(r.pieces) != len(d.pieces):
                    raise Unsupported('coo triples from different loops')
                ps = []
                for (c1, i1), (c2, i2), (c3, i3) in zip(r.pieces, c.pieces, d.pieces):
                    if c1 is not c2 and c1 != c2: raise Unsupported('coo triples under different conditions')
                    ps.append((c1, tot(i1, i2, i3)))
                sa = sym.sum_atom(r.seq.name, r.binder, ps)
                r.coo[ck] = (probe, c, d, sa)
                t = t + sa
            else:
                t = t + brk(And(R.const(r)._cmp('==', probe[0]) if not isinstance(r, R) else r == probe[0],
                                R.const(c)._cmp('==', probe[1]) if not isinstance(c, R) else c == probe[1])) * d
        return t
    return GhostMat(shape, probe, tot(row, col, data))

def lil(shape, *a, **k):
    if isinstance(shape, (GhostMat, np.ndarray)): return shape
    return np_full(shape, 0)

SPARSE = Mod('scipy.sparse', dict(coo_matrix=coo, csr_matrix=lil, csc_matrix=lil, lil_matrix=lil, dok_matrix=lil, coo_array=coo))
def sp_solve(A, b, *r, **k):
    if isinstance(A, FnMat): return absmat.solve(A, b, True)
    return np_solve(A, b)
SPLINALG = Mod('scipy.sparse.linalg', dict(spsolve=sp_solve))
SCIPY = Mod('scipy', dict(sparse=SPARSE))

class _Pretty:
    def __init__(self, *a, **k): pass
    def __getattr__(self, k): return lambda *a, **kw: None
    def __str__(self): return ''
PRETTY = Mod('prettytable', dict(PrettyTable=_Pretty))
def _warn(*a, **k): pass
WARN = Mod('warnings', dict(warn=_warn))

SHIMS = {'numpy': NUMPY, 'numpy.linalg': LINALG, 'math': MATH, 'scipy': SCIPY, 'scipy.sparse': SPARSE, 'scipy.sparse.linalg': SPLINALG,
         'prettytable': PRETTY, 'warnings': WARN}
