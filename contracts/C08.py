"""C08: a member divided at intermediate nodes carries the same loads, and its results are those of its pieces."""
import math
import numpy as np
from contracts.common import *
from contracts.members import PT, DIST, pick
from PyNite.PhysMember import PhysMember
from PyNite.Node3D import Node3D
from PyNite.Material import Material
from PyNite.Section import Section

def unit_vectors(h, name, dirs=(0, 1, 2, 3)):
    """a direction and one perpendicular to it; all directions when run concretely, a few rational ones symbolically"""
    if not h.symbolic and h.choice('general ' + name, [False, True]):
        p = [h.real('p%d' % i, 'real', -3, 3) for i in range(3)]; q = [h.real('q%d' % i, 'real', -3, 3) for i in range(3)]
        n = math.sqrt(sum(x*x for x in p)); h.assume(n > 0.1)
        u = [x/n for x in p]
        d = sum(x*y for x, y in zip(u, q)); w = [y - d*x for x, y in zip(u, q)]
        n = math.sqrt(sum(x*x for x in w)); h.assume(n > 0.1)
        return u, [x/n for x in w]
    k = h.choice(name, list(dirs))
    u = [(1, 0, 0), (0, -1, 0), (3, 0, -4), (2, 3, 6)][k]
    v = [(0, 1, 0), (3, 0, 4), (0, 1, 0), (6, 2, -3)][k]
    a, b = [1, 1, 5, 7][k], [1, 5, 1, 7][k]
    return [x/a for x in u], [x/b for x in v]

def base(h, dirs=(0, 1, 2, 3)):
    u, v = unit_vectors(h, 'direction', dirs)
    o = [h.real('o%d' % i) for i in range(3)]
    L = h.real('L', 'pos') if h.symbolic else h.real('L', 'pos', 1, 20)
    at = lambda s, t=0: [o[i] + s*u[i] + t*v[i] for i in range(3)]
    m_ = FakeModel()
    m_.materials['M'] = Material('M', h.real('E', 'pos'), h.real('G', 'pos'), 0.3, 1, 50)
    m_.load_combos = {'C': Combo('C', {}), 'X': Combo('X', {})}
    i, j = Node3D('i', *at(0)), Node3D('j', *at(L))
    return m_, i, j, L, at

def member(h, m_, i, j):
    aux, has, to, co = h.choice('kind', [(None, False, False, False), (Node3D('aux', 1, 2, 3), True, True, False), (None, True, False, True)])
    p = [h.real(x, 'pos') for x in ('Iy', 'Iz', 'J', 'A')]
    sec = None
    if has:
        sec = 'S'; m_.sections['S'] = Section(m_, 'S', p[3], p[0], p[1], p[2], 'M')
        q = [7, 7, 7, 7]
    else: q = p
    m = PhysMember('M1', i, j, 'M', m_, *q, aux, to, co, sec)
    m.active = {'C': True, 'X': True}
    return m, p, aux, to, co

def on_line(h):
    """a node becomes an end of pieces exactly if it lies between the ends"""
    m_, i, j, L, at = base(h)
    m = PhysMember('M1', i, j, 'M', m_, 1, 1, 1, 1)
    s, t = h.real('s'), h.real('t')
    off = h.choice('off', [False, True])
    if h.symbolic:
        if off: h.assume(h.neg(t == 0))
        else: t = 0; h.assume(h.neg(s == 0))
    else:
        s = h.choice('where', [-0.5, 0, 0.3, 0.7, 1, 1.4])*L
        if off: h.assume(abs(t) > 1e-3)
        else: t = 0
    n = Node3D('n', *at(s, t))
    order = h.choice('order', [0, 1, 2])
    m_.nodes = [{'n': n, 'i': i, 'j': j}, {'j': j, 'n': n, 'i': i}, {'i': i, 'j': j, 'n': n}][order]
    h.cover('pre')
    m.descritize()
    ends = [(p.i_node, p.j_node) for p in m.sub_members.values()]
    if not off and s > 0 and s < L:
        h.check('divided', len(ends) == 2 and ends[0][0] is i and ends[0][1] is n and ends[1][0] is n and ends[1][1] is j)
    else:
        h.check('not-divided', len(ends) == 1 and ends[0][0] is i and ends[0][1] is j)

def dividing(k):
    def fn(h):
        """pieces of a member with k intermediate nodes"""
        m_, i, j, L, at, cut = divided(h, k)
        m, p, aux, to, co = member(h, m_, i, j)
        rel = [h.bool('rel%d' % a) for a in range(12)]
        m.Releases = list(rel)
        h.cover('pre')
        m.descritize()
        ps = list(m.sub_members.values())
        h.check('number-of-pieces', len(ps) == k + 1)
        h.check('distinct-names', len({x.name for x in ps}) == k + 1 and all(m.sub_members[x.name] is x for x in ps))
        nodes = [i] + [m_.nodes['n%d' % a] for a in range(k)] + [j]
        tot = 0
        for a, x in enumerate(ps):
            h.check('ends %d' % a, x.i_node is nodes[a] and x.j_node is nodes[a + 1])
            h.eq('length %d' % a, x.L(), ([0] + cut + [L])[a + 1] - ([0] + cut + [L])[a])
            h.eqs('properties %d' % a, [x.Iy, x.Iz, x.J, x.A, x.E, x.G], p + [m_.materials['M'].E, m_.materials['M'].G])
            h.check('references %d' % a, x.auxNode is aux and x.model is m_ and x.material_name == 'M' and x.section is m.section)
            h.check('one-way %d' % a, (x.tension_only, x.comp_only) == (to, co))
            h.check('active %d' % a, x.active == {'C': True, 'X': True})
            for b in range(12):
                want = rel[b] if (b < 6 and a == 0) or (b >= 6 and a == k) else False
                h.check('release %d,%d' % (a, b), h.either(h.both(x.Releases[b], want), h.neg(h.either(x.Releases[b], want))))
        if not h.symbolic and h.choice('again', [False, True]):
            m.descritize()
            h.check('again', list(m.sub_members) == [x.name for x in ps] and all(x is not y for x, y in zip(ps, m.sub_members.values())))
    return fn

def divided(h, k, dirs=(0, 1, 2, 3)):
    m_, i, j, L, at = base(h, dirs)
    cut = []
    for a in range(k):
        if h.symbolic:
            c = h.real('c%d' % a, 'pos'); h.assume(c > (cut[-1] if cut else 0)); cut.append(c)
        else: cut.append(L*(a + h.choice('c%d' % a, [0.3, 0.5, 0.9]))/k)
    if cut: h.assume(L > cut[-1])
    names = ['n%d' % a for a in range(k)]
    off = Node3D('off', *at(L/2, 1))
    perm = h.choice('order', [0, 1, 2])
    if perm == 1: names = names[::-1]
    if perm == 2: names = names[1:] + names[:1]
    nd = {n: Node3D(n, *at(cut[int(n[1:])])) for n in names}
    m_.nodes = {'j': j, **nd, 'off': off, 'i': i} if perm else {'i': i, 'off': off, 'j': j, **nd}
    return m_, i, j, L, at, cut

def carried(k, which):
    def fn(h):
        """the pieces together carry exactly the loads of the member"""
        m_, i, j, L, at, cut = divided(h, k, (0,))
        m = PhysMember('M1', i, j, 'M', m_, 1, 1, 1, 1)
        start = [0] + cut; end = cut + [L]
        def pos(name, lo, hi):
            if not h.symbolic and h.choice('grid:' + name, [0, 1, 2]): return h.choice('gp:' + name, [x for x in [0] + cut + [L] if lo <= x <= hi])
            return h.real(name, 'nonneg', lo, hi)
        def pt(b): return (h.word('dir:' + b, PT), h.real('P:' + b), pos('x:' + b, 0, L), h.name('case:' + b))
        def ds(b):
            x1 = pos('x1:' + b, 0, L); x2 = pos('x2:' + b, x1, L)
            h.assume(x2 > x1)
            if not h.symbolic: h.assume(x2 - x1 > 1e-6)
            return (h.word('dir:' + b, DIST), h.real('w1:' + b), h.real('w2:' + b), x1, x2, h.name('case:' + b))
        m.PtLoads = h.seq('pt', pt) if 'p' in which else []
        m.DistLoads = h.seq('dl', ds) if 'd' in which else []
        D, C = h.word('D', PT if which == 'p' else DIST), h.name('C')
        h.cover('pre')
        m.descritize()
        ps = list(m.sub_members.values())
        h.check('pieces', len(ps) == k + 1)
        if 'p' in which:
            tot, n = 0, 0
            for ld in m.PtLoads:
                if ld[0] == D:
                    if ld[3] == C: tot = tot + ld[1]*h.fn('phi', ld[2])
            for x, s, e in zip(ps, start, end):
                for ld in x.PtLoads:
                    h.check('position-on-piece', h.both(ld[2] >= 0, ld[2] <= e - s)) if h.symbolic else h.check('position-on-piece', -1e-9 <= ld[2] <= e - s + 1e-9)
                    if ld[0] == D:
                        if ld[3] == C: tot = tot - ld[1]*h.fn('phi', ld[2] + s)
            h.eq('point-loads', tot, 0, 5)
        if 'd' in which:
            a = h.choice('piece', list(range(k + 1)))
            X = h.real('X', 'nonneg', start[a], end[a])
            if h.symbolic: h.assume(X > start[a]); h.assume(X < end[a])
            else: h.assume(X - start[a] > 1e-6 and end[a] - X > 1e-6)
            want = got = 0
            def inside(x1, x2, x):
                if not h.symbolic: h.assume(abs(x1 - x) > 1e-7 and abs(x2 - x) > 1e-7)
                return x1 < x and x < x2
            for ld in m.DistLoads:
                if ld[0] == D:
                    if ld[5] == C:
                        if inside(ld[3], ld[4], X): want = want + ld[1] + (ld[2] - ld[1])*(X - ld[3])/(ld[4] - ld[3])
            for ld in ps[a].DistLoads:
                if ld[0] == D:
                    if ld[5] == C:
                        if inside(ld[3], ld[4], X - start[a]): got = got + ld[1] + (ld[2] - ld[1])*(X - start[a] - ld[3])/(ld[4] - ld[3])
            h.eq('intensity', got, want, 10)
            for x, s, e in zip(ps, start, end):
                for ld in x.DistLoads: h.check('extent-on-piece', h.both(ld[3] >= 0, h.both(ld[4] <= e - s, ld[3] <= ld[4]))) if h.symbolic else h.check('extent-on-piece', -1e-9 <= ld[3] <= ld[4] + 1e-9 <= e - s + 2e-9)
    return fn

class Piece:
    """a piece: its length and its results as functions of position (contract of Member3D, C05-C07)"""
    def __init__(self, h, name, l):
        self.h, self.name, self.l = h, name, l
    def L(self): return self.l
    def ask(self, what, *a):
        x = [v for v in a if not isinstance(v, str)]
        return self.h.fn(':'.join([self.name, what] + [v for v in a if isinstance(v, str)]), *x)
    def shear(self, d, x, c='Combo 1'): return self.ask('shear', d, c, x)
    def moment(self, d, x, c='Combo 1'): return self.ask('moment', d, c, x)
    def deflection(self, d, x, c='Combo 1'): return self.ask('deflection', d, c, x)
    def rel_deflection(self, d, x, c='Combo 1'): return self.ask('rel_deflection', d, c, x)
    def torque(self, x, c='Combo 1'): return self.ask('torque', c, x)
    def axial(self, x, c='Combo 1'): return self.ask('axial', c, x)
    def ext(self, what, *a): return self.h.real(':'.join([self.name, what] + list(a)))
for _w in ('shear', 'moment', 'deflection'):
    for _e in ('max_', 'min_'): setattr(Piece, _e + _w, lambda self, d, c='Combo 1', n=_e + _w: self.ext(n, d, c))
for _w in ('torque', 'axial'):
    for _e in ('max_', 'min_'): setattr(Piece, _e + _w, lambda self, c='Combo 1', n=_e + _w: self.ext(n, c))

QUERIES = [('shear', 'Fy'), ('shear', 'Fz'), ('moment', 'My'), ('moment', 'Mz'), ('deflection', 'dx'), ('deflection', 'dy'), ('deflection', 'dz'), ('rel_deflection', 'dy'), ('rel_deflection', 'dz'), ('torque',), ('axial',)]

def whole(h, k):
    m_, i, j, L, at = base(h, (0,))
    m = PhysMember('M1', i, j, 'M', m_, 1, 1, 1, 1)
    ls = [h.real('l%d' % a, 'pos') if h.symbolic else h.real('l%d' % a, 'pos', 0.1, 5) for a in range(k)]
    tot = sum(ls)
    if h.symbolic: h.assume(tot == L)
    else: j.X, j.Y, j.Z = at(tot)
    m.L = lambda: tot
    ps = [Piece(h, 'p%d' % a, l) for a, l in enumerate(ls)]
    m.sub_members = {p.name: p for p in ps}
    return m, ps, ls, tot

def lookup(k):
    def fn(h):
        m, ps, ls, tot = whole(h, k)
        X = h.real('X', 'nonneg', 0, tot) if h.symbolic or h.choice('inner', [True, False]) else h.choice('joint', [sum(ls[:a]) for a in range(k)] + [m.L()])
        h.cover('pre')
        p, x = m.find_member(X)
        s = 0
        a = ps.index(p)
        for b in range(a): s = s + ls[b]
        if h.symbolic:
            h.eq('position', x, X - s)
            h.check('on-the-piece', h.both(x >= 0, x <= ls[a]))
        else:
            h.check('position', abs(x - (X - s)) < 1e-9)
            h.check('on-the-piece', -1e-9 <= x <= ls[a] + 1e-9)
    return fn

def queries(h):
    k = h.choice('k', [1, 2, 3])
    m, ps, ls, tot = whole(h, k)
    X = h.real('X', 'nonneg', 0, tot)
    h.cover('pre')
    a = h.choice('piece', list(range(k)))
    x = h.real('x', 'nonneg', 0, ls[a])
    asked = []
    h.patch(m, 'find_member', lambda v: (asked.append(v), (ps[a], x))[1])
    for q in QUERIES:
        del asked[:]
        h.eq(' '.join(q), getattr(m, q[0])(*q[1:], X, 'C'), ps[a].ask(q[0], *q[1:], 'C', x))
        h.check('position-asked', len(asked) == 1); h.eq('asked ' + ' '.join(q), asked[0], X)

def extremes(h):
    m_, i, j, L, at = base(h, (0,))
    m = PhysMember('M1', i, j, 'M', m_, 1, 1, 1, 1)
    ps = m.sub_members = h.dict('pieces', lambda b: (h.name('name:' + b), Piece(h, b, h.real('l:' + b, 'pos', 0.1, 5))))
    h.cover('pre')
    for q in [h.choice('query', [x for x in QUERIES if x[0] != 'rel_deflection' and x[-1] != 'dx'])]:
        for e, up in (('max_', 1), ('min_', -1)):
            v = getattr(m, e + q[0])(*q[1:], 'C')
            n, some = 0, False
            for p in ps.values():
                w = p.ext(e + q[0], *q[1:], 'C')
                n = n + 1
                h.check(e + ' '.join(q) + ' bounds', up*(v - w) >= 0)
                if v == w: some = True
            if n > 0: h.check(e + ' '.join(q) + ' reached', some)

def arrays(h):
    k = h.choice('k', [1, 2, 3])
    m, ps, ls, tot = whole(h, k)
    n = h.choice('n', [2, 3, 5])
    given = h.choice('given', [False, True])
    res = {}
    for q in QUERIES: h.patch(m, q[0], (lambda q: lambda *a: h.fn(':'.join([q[0]] + [v for v in a if isinstance(v, str)]), *[v for v in a if not isinstance(v, str)]))(q))
    if given: xs = np.array([h.real('x%d' % a, 'nonneg', 0, tot) for a in range(n)])
    h.cover('pre')
    for q in QUERIES:
        f = getattr(m, q[0] + '_array')
        r = f(*q[1:], n, 'C', xs) if given else f(*q[1:], n, 'C')
        h.check('shape', tuple(np.shape(r)) == (2, n))
        for a in range(n):
            x = xs[a] if given else tot*a/(n - 1)
            h.eq('%s x[%d]' % (' '.join(q), a), r[0][a], x)
            h.eq('%s[%d]' % (' '.join(q), a), r[1][a], h.fn(':'.join([q[0], *q[1:], 'C']), r[0][a]))

P_ = 'PyNite.PhysMember.PhysMember.'
D_ = 'symbolic positions, lengths and loads; bounded: %s; six rational member directions'
N_ = 'symbolic lengths and results; bounded: up to %d pieces'
UNITS = [UNIT('on-line', on_line, [P_ + 'descritize'], runs=60, bounded_text=D_ % 'one further node')]
for k in (0, 1, 2, 3): UNITS.append(UNIT('dividing-%d' % k, dividing(k), [P_ + 'descritize'], runs=20, bounded_text=D_ % ('%d intermediate nodes' % k)))
for k in (0, 1, 2):
    b = D_ % ('%d intermediate nodes, any number of loads' % k) if k else None
    UNITS.append(UNIT('point-loads-%d' % k, carried(k, 'p'), [P_ + 'descritize'], runs=40, bounded_text=b))
    UNITS.append(UNIT('distributed-loads-%d' % k, carried(k, 'd'), [P_ + 'descritize'], runs=40, bounded_text=b))
for k in (1, 2, 3, 4): UNITS.append(UNIT('lookup-%d' % k, lookup(k), [P_ + 'find_member'], runs=30, bounded_text=N_ % k))
UNITS.append(UNIT('queries', queries, [P_ + q for q in ('shear', 'moment', 'torque', 'axial', 'deflection', 'rel_deflection')], runs=20))
UNITS.append(UNIT('extremes', extremes, [P_ + e + q for e in ('max_', 'min_') for q in ('shear', 'moment', 'torque', 'axial', 'deflection')], runs=40))
UNITS.append(UNIT('arrays', arrays, [P_ + '_result_array'] + [P_ + q + '_array' for q in ('shear', 'moment', 'torque', 'axial', 'deflection', 'rel_deflection')], runs=30, bounded_text='symbolic positions; bounded: 2, 3 or 5 sample points'))
