"""C09: global stiffness, geometric stiffness and load vectors are the sums of the element contributions."""
import numpy as np
from contracts.common import *
from PyNite.FEModel3D import FEModel3D

DIRS = ['spring_DX', 'spring_DY', 'spring_DZ', 'spring_RX', 'spring_RY', 'spring_RZ']

class ANode:
    pass
class Elem:
    pass

def node_id(h, name, N):
    return h.int(name, 'nonneg', 0, 5) if not h.symbolic else h.int(name)

def nodes(h, dirs):
    """nodes with support springs in the given directions (present or not, active or not) and none in the others"""
    def make(b):
        n = ANode()
        n.ID = node_id(h, 'ID:' + b, 6)
        for i, d in enumerate(DIRS):
            if i in dirs:
                setattr(n, d, [h.opt('ks%d:%s' % (i, b)), None, {'C': h.bool('sact%d:%s' % (i, b)), 'X': True}])
            else:
                setattr(n, d, [None, None, None])
        n.NodeLoads = []
        return b, n
    return make

def elem(h, n, extra=None):
    """an element satisfying the contract of its class: K, Kg, FER are n x n / n x 1 in global axes at its nodes in order"""
    def make(b):
        e = Elem()
        for i in range(n//6):
            nd = ANode(); nd.ID = node_id(h, 'ID%d:%s' % (i, b), 6)
            setattr(e, 'ijmn'[i] + '_node', nd)
        k = h.array('K:' + b, (n, n)); f = h.array('F:' + b, (n, 1)); g = h.array('G:' + b, (n, n)); g0 = h.array('G0:' + b, (n, n))
        d = h.array('d:' + b, (n, 1))
        e.E = h.real('E:' + b, 'pos'); e.A = h.real('A:' + b, 'pos'); ln = h.real('L:' + b, 'pos')
        e._k, e._f, e._g, e._g0, e._d, e._L = k, f, g, g0, d, ln
        e.K = lambda: k.copy()
        e.FER = lambda c='Combo 1': f.copy() if c == 'C' else f*0 + 77
        e.L = lambda: ln
        e.d = lambda c='Combo 1': d.copy() if c == 'C' else d*0 + 77
        e.asked = None
        # contract of Kg: a matrix proportional to the axial force (C22)
        e.Kg = lambda P=0: np.array([[g[a, b]*P for b in range(n)] for a in range(n)])
        if extra: extra(e, b)
        return b, e
    return make

def phys(h):
    def make(b):
        p = Elem()
        p.active = {'C': h.bool('act:' + b), 'X': True}
        p.sub_members = h.dict('sub:' + b, elem(h, 12))
        return b, p
    return make

def spring_act(h):
    def f(e, b): e.active = {'C': h.bool('act:' + b), 'X': True}
    return f

def model(h, fam, dirs=()):
    m = FEModel3D()
    if h.symbolic:
        m.nodes = h.dict('nodes', nodes(h, dirs)) if 'n' in fam else h.dict('nodes', nodes(h, ()))
    else:
        mk = nodes(h, dirs)
        m.nodes = {}
        for i in range(6):
            b, n = mk('nodes#%d' % i); n.ID = i; m.nodes[b] = n
    m.springs = h.dict('springs', elem(h, 12, spring_act(h))) if 's' in fam else {}
    m.members = h.dict('members', phys(h)) if 'm' in fam else {}
    m.quads = h.dict('quads', elem(h, 24)) if 'q' in fam else {}
    m.plates = h.dict('plates', elem(h, 24)) if 'p' in fam else {}
    return m

def scatter(h, e, n, mat, p, q):
    """contribution of one element matrix to entry (p, q)"""
    t = 0
    dof = []
    for i in range(n//6):
        nd = getattr(e, 'ijmn'[i] + '_node')
        for a in range(6): dof.append(nd.ID*6 + a)
    for a in range(n):
        ca = h.iverson(dof[a] == p)
        if q is None:
            t = t + ca*mat[a, 0]
            continue
        for b in range(n):
            t = t + h.iverson(h.both(dof[a] == p, dof[b] == q))*mat[a, b]
    return t

def on(h, x): return h.iverson(x)

def spec_K(h, m, fam, p, q):
    t = 0
    for n in m.nodes.values():
        for i, d in enumerate(DIRS):
            s = getattr(n, d)
            if s[0] is not None:
                if s[2]['C']:
                    t = t + h.iverson(h.both(n.ID*6 + i == p, n.ID*6 + i == q))*float(s[0])
    for s in m.springs.values():
        if s.active['C']:
            t = t + scatter(h, s, 12, s._k, p, q)
    for ph in m.members.values():
        if ph.active['C']:
            for e in ph.sub_members.values():
                t = t + scatter(h, e, 12, e._k, p, q)
    for e in m.quads.values(): t = t + scatter(h, e, 24, e._k, p, q)
    for e in m.plates.values(): t = t + scatter(h, e, 24, e._k, p, q)
    return t

def stiffness(fam, dirs, sparse):
    def fn(h):
        p, q = h.probe('p', 'q')
        m = model(h, fam, dirs)
        h.cover('pre')
        K = m.K('C', False, False, sparse)
        if not h.symbolic: h.check('shape', K.shape == (36, 36))
        h.eq('entry of K', h.entry(K, (p, q)), spec_K(h, m, fam, p, q), 10)
    return fn

def geometric(sparse):
    def fn(h):
        p, q = h.probe('p', 'q')
        m = model(h, 'm')
        first = h.choice('first', [True, False])
        h.cover('pre')
        K = m.Kg('C', False, sparse, first)
        t = 0
        for ph in m.members.values():
            if ph.active['C']:
                for e in ph.sub_members.values():
                    P = 0 if first else e.E*e.A/e._L*(e._d[6, 0] - e._d[0, 0])
                    t = t + scatter(h, e, 12, np.array([[e._g[a, b]*P for b in range(12)] for a in range(12)]), p, q)
        if not h.symbolic: h.check('shape', K.shape == (36, 36))
        h.eq('entry of Kg', h.entry(K, (p, q)), t, 10)
    return fn

def fer(fam):
    def fn(h):
        (p,) = h.probe('p')
        m = model(h, fam)
        h.cover('pre')
        v = m.FER('C')
        t = 0
        for ph in m.members.values():
            for e in ph.sub_members.values(): t = t + scatter(h, e, 12, e._f, p, None)
        for e in m.plates.values(): t = t + scatter(h, e, 24, e._f, p, None)
        for e in m.quads.values(): t = t + scatter(h, e, 24, e._f, p, None)
        if not h.symbolic: h.check('shape', v.shape == (36, 1))
        h.eq('entry of FER', h.entry(v, (p,)), t, 10)
    return fn

F = 'PyNite.FEModel3D.FEModel3D.'
UNITS = []
for sp in (True, False):
    t = 'sparse' if sp else 'dense'
    UNITS.append(UNIT('K-support-springs-%s' % t, stiffness('n', range(6), sp), [F + 'K'], runs=20))
    UNITS.append(UNIT('K-springs-members-%s' % t, stiffness('sm', (), sp), [F + 'K'], runs=20))
    UNITS.append(UNIT('K-quads-%s' % t, stiffness('q', (), sp), [F + 'K'], runs=10))
    UNITS.append(UNIT('K-plates-%s' % t, stiffness('p', (), sp), [F + 'K'], runs=10))
    UNITS.append(UNIT('K-everything-%s' % t, stiffness('nsmqp', (0, 5), sp), [F + 'K'], runs=40))
    UNITS.append(UNIT('Kg-%s' % t, geometric(sp), [F + 'Kg'], runs=20))
UNITS.append(UNIT('FER', fer('mqp'), [F + 'FER'], runs=30))
