"""C17: a spring acts only along its axis, with its constant."""
import numpy as np
from contracts.common import *
from contracts.C03 import nodes, frame_claims
from PyNite.Spring3D import Spring3D
from PyNite.Node3D import Node3D
from PyNite.FEModel3D import FEModel3D

DOF = ['DX', 'DY', 'DZ', 'RX', 'RY', 'RZ']

def axes(cls):
    def fn(h):
        i, j, d = nodes(h, cls)
        s = Spring3D('S', i, j, h.real('ks', 'pos'))
        h.cover('pre')
        R, L = frame_claims(h, s.T(), d)
        h.eq('length', s.L()*s.L(), d[0]**2 + d[1]**2 + d[2]**2)
    return fn

def spring(h):
    """a spring with an arbitrary orthonormal transformation"""
    if h.symbolic:
        i, j = Node3D('i', 0, 0, 0), Node3D('j', 1, 0, 0)
        s = Spring3D('S', i, j, h.real('ks', 'pos'))
        c = h.array('c', (3, 3))
        T = h.array('unused', (12, 12))
        for a in range(12):
            for b in range(12): T[a, b] = c[a % 3, b % 3] if a//3 == b//3 else 0
        h.patch(s, 'T', lambda: h.ortho(T))
        n = [c[0, b] for b in range(3)]
    else:
        i, j, d = nodes(h, 'any')
        s = Spring3D('S', i, j, h.real('ks', 'pos'))
        L = (d[0]**2 + d[1]**2 + d[2]**2)**0.5
        h.assume(L > 1e-3)
        n = [x/L for x in d]
    return s, i, j, n

def axis(h):
    s, i, j, n = spring(h)
    h.cover('pre')
    K = s.K()
    h.check('shape', K.shape == (12, 12))
    for a in range(12):
        for b in range(12):
            if a % 6 < 3 and b % 6 < 3:
                v = s.ks*n[a % 3]*n[b % 3]*(1 if a//6 == b//6 else -1)
            else: v = 0
            h.eq('K[%d,%d]' % (a, b), K[a, b], v, 20)

def forces(h):
    s, i, j, n = spring(h)
    s.active = {'C': h.choice('active', [True, False]), 'X': h.choice('other', [True, False])}
    D = []
    for nm, nd in (('i', i), ('j', j)):
        for d in DOF:
            setattr(nd, d, {'C': h.real(nm + d), 'X': h.real('x' + nm + d)})
            D.append(getattr(nd, d)['C'])
    h.cover('pre')
    el = 0
    for a in range(3): el = el + n[a]*(D[6 + a] - D[a])
    P = -s.ks*el if s.active['C'] else 0          # compression positive
    h.eq('axial', s.axial('C'), P, 20)
    F = s.F('C')
    h.check('shape', F.shape == (12, 1))
    for a in range(12):
        v = P*n[a % 3]*(1 if a < 6 else -1) if a % 6 < 3 else 0
        h.eq('end forces[%d]' % a, F[a, 0], v, 20)
    f = s.f('C')
    for a in range(12): h.eq('local end forces[%d]' % a, f[a, 0], P if a == 0 else -P if a == 6 else 0, 20)
    G = s.D('C')
    h.check('shape of D', G.shape == (12, 1))
    for a in range(12): h.eq('end displacements[%d]' % a, G[a, 0], D[a], 1)

def whole(h):
    """two springs in series between two supports, in any orientation"""
    m = FEModel3D()
    d = [h.real('d%d' % a, 'real', -4, 4) for a in range(3)]
    h.assume(sum(x*x for x in d) > 0.5)
    k = [h.real('k%d' % a, 'pos') for a in range(2)]
    f = h.real('f')
    for a in range(3): m.add_node('N%d' % a, *[x*a for x in d])
    m.add_spring('S0', 'N0', 'N1', k[0]); m.add_spring('S1', 'N1', 'N2', k[1])
    m.def_support('N0', *[True]*6); m.def_support('N2', *[True]*6)
    # only the movement along the line is free: springs of the support hold the other directions
    for x in DOF: m.def_support_spring('N1', x, 1e-3)
    for a, x in enumerate(('FX', 'FY', 'FZ')): m.add_node_load('N1', x, f*d[a])
    m.analyze_linear(sparse=h.choice('sparse', [True, False]))
    L = sum(x*x for x in d)**0.5
    h.eq('series', m.springs['S0'].axial(), -f*L*k[0]/(sum(k) + 1e-3), 1)
    h.eq('series', m.springs['S1'].axial(), f*L*k[1]/(sum(k) + 1e-3), 1)

S_ = 'PyNite.Spring3D.Spring3D.'
UNITS = [UNIT('axes-' + c, axes(c), [S_ + 'T', S_ + 'L'], runs=40) for c in ('vertical', 'horizontal', 'inclined')]
UNITS += [UNIT('stiffness', axis, [S_ + 'K', S_ + 'k'], runs=60), UNIT('forces', forces, [S_ + x for x in ('f', 'd', 'F', 'D', 'axial')], runs=80),
          UNIT('series', whole, ['PyNite.FEModel3D.FEModel3D.analyze_linear'], runs=40, sym=False, bounded_text='bounded: two springs in series')]
