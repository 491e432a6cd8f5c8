"""C20: end vectors, local axes and transformation of plates and quadrilaterals."""
import numpy as np
from contracts.common import *
from contracts.C03 import rotation
from PyNite.Plate3D import Plate3D
from PyNite.Quad3D import Quad3D
from PyNite.Node3D import Node3D
from PyNite.Material import Material

DOF = ['DX', 'DY', 'DZ', 'RX', 'RY', 'RZ']

def element(h, cls, nd):
    m = FakeModel()
    m.materials['M'] = Material('M', h.real('E', 'pos'), h.real('G', 'pos'), h.real('nu', 'pos', 0.05, 0.45), 1)
    q = cls('P', nd[0], nd[1], nd[2], nd[3], h.real('t', 'pos'), 'M', m)
    return q

def placed(h, pts, Rn):
    """nodes at the origin (Xo, Yo, Zo) + u X + v Y"""
    o = [h.real(c) for c in ('Xo', 'Yo', 'Zo')]
    return [Node3D('N%d' % k, *[o[a] + u*Rn[0][a] + v*Rn[1][a] for a in range(3)]) for k, (u, v) in enumerate(pts)]

def quad_pts(h):
    """local (x, y) of the corners of any convex quadrilateral, i at the origin and j on the x axis"""
    s = h.real('s', 'pos', 0.2) if not h.symbolic else h.real('s', 'pos')
    xm, ym, xn, yn = h.real('xm'), h.real('ym', 'pos'), h.real('xn'), h.real('yn', 'pos')
    e = 0 if h.symbolic else 0.05
    # n and m on the same side of every edge
    h.assume((xm - s)*(yn - ym) - ym*(xn - xm) > e)
    h.assume((xn - xm)*(0 - yn) - (yn - ym)*(0 - xn) > e)
    h.assume(xm*yn - ym*xn > e)
    h.assume(s*ym > e); h.assume(s*yn > e)
    return [(0, 0), (s, 0), (xm, ym), (xn, yn)]

def rect_pts(h):
    a, b = h.real('a', 'pos'), h.real('b', 'pos')
    if not h.symbolic: h.assume(a > 0.05 and b > 0.05)
    return [(0, 0), (a, 0), (a, b), (0, b)]

def axes(cls, pts):
    def fn(h):
        Rn, n = rotation(h)
        p = pts(h)
        nd = placed(h, p, Rn)
        q = element(h, cls, nd)
        h.cover('pre')
        T = q.T()
        h.check('shape', T.shape == (24, 24))
        for i in range(24):
            for j in range(24):
                if i//3 != j//3: h.eq('block-diagonal', T[i, j], 0, 1)
                else: h.eq('axes[%d%d]' % (i % 3, j % 3), T[i, j]*n, Rn[i % 3][j % 3], n)
        if cls is Quad3D:
            q._local_coords()
            for k, (x, y) in enumerate(p):
                h.eq('local x of node %d' % (k + 1), getattr(q, 'x%d' % (k + 1)), x*n, 5*n)
                h.eq('local y of node %d' % (k + 1), getattr(q, 'y%d' % (k + 1)), y*n, 5*n)
        else:
            h.eq('width', q.width(), p[1][0]*n)
            h.eq('height', q.height(), p[2][1]*n)
    return fn

def turned(h, cls):
    """an element with an arbitrary rotation"""
    if h.symbolic:
        nd = [Node3D('N%d' % k, x, y, 0) for k, (x, y) in enumerate([(0, 0), (1, 0), (1, 1), (0, 1)])]
        q = element(h, cls, nd)
        c = h.array('c', (3, 3))
        T = h.array('unused', (24, 24))
        for a in range(24):
            for b in range(24): T[a, b] = c[a % 3, b % 3] if a//3 == b//3 else 0
        h.patch(q, 'T', lambda: h.ortho(T))
    else:
        Rn, n = rotation(h)
        nd = placed(h, (quad_pts if cls is Quad3D else rect_pts)(h), Rn)
        q = element(h, cls, nd)
        T = q.T()
    return q, T, nd

def back(T, v, a):
    A = 3*(a//3)
    return T[A, a]*v[A] + T[A + 1, a]*v[A + 1] + T[A + 2, a]*v[A + 2]

def vectors(cls, kind):
    def fn(h):
        q, T, nd = turned(h, cls)
        h.cover('pre')
        if kind == 'D':
            D = []
            for k, x in enumerate(nd):
                for d in DOF:
                    setattr(x, d, {'C': h.real('N%d%s' % (k, d)), 'X': h.real('x%d%s' % (k, d))})
                    D.append(getattr(x, d)['C'])
            G = q.D('C')
            h.check('shape', G.shape == (24, 1))
            for a in range(24): h.eq('global displacement[%d]' % a, G[a, 0], D[a], 1)
            g = q.d('C')
            h.check('shape', g.shape == (24, 1))
            for a in range(24):
                A = 3*(a//3)
                h.eq('local displacement[%d]' % a, g[a, 0], T[a, A]*D[A] + T[a, A + 1]*D[A + 1] + T[a, A + 2]*D[A + 2], 20)
        elif kind == 'K':
            kl = h.array('k', (24, 24))
            h.patch(q, 'k', lambda: kl.copy())
            K = q.K()
            h.check('shape', K.shape == (24, 24))
            for a in range(24):
                for b in range(24):
                    A, B = 3*(a//3), 3*(b//3)
                    t = 0
                    for r in range(3):
                        for s in range(3): t = t + T[A + r, a]*kl[A + r, B + s]*T[B + s, b]
                    h.eq('K[%d,%d]' % (a, b), K[a, b], t, 50)
        elif kind in ('F', 'FER'):
            v = h.array('v', (24, 1))
            args = []
            h.patch(q, 'f' if kind == 'F' else 'fer', lambda *a, **kw: (args.append(list(a) + list(kw.values())), v.copy())[1])
            G = q.F('C') if kind == 'F' else q.FER('C')
            h.check('for the requested combination', args == [['C']])
            h.check('shape', G.shape == (24, 1))
            for a in range(24): h.eq('%s[%d]' % (kind, a), G[a, 0], back(T, [v[b, 0] for b in range(24)], a), 20)
        else:
            kl = h.array('k', (24, 24)); dl = h.array('dl', (24, 1)); fr = h.array('fr', (24, 1))
            a1, a2 = [], []
            h.patch(q, 'k', lambda: kl.copy())
            h.patch(q, 'd', lambda c='Combo 1': (a1.append(c), dl.copy())[1])
            h.patch(q, 'fer', lambda c='Combo 1': (a2.append(c), fr.copy())[1])
            g = q.f('C')
            h.check('for the requested combination', set(a1) == {'C'} and set(a2) == {'C'})
            h.check('shape', g.shape == (24, 1))
            for a in range(24):
                t = fr[a, 0]
                for b in range(24): t = t + kl[a, b]*dl[b, 0]
                h.eq('f[%d]' % a, g[a, 0], t, 100)
    return fn

UNITS = []
for nm, cls, pts in (('plate', Plate3D, rect_pts), ('quad', Quad3D, quad_pts)):
    C_ = 'PyNite.%s.%s.' % (cls.__name__, cls.__name__)
    UNITS.append(UNIT('axes-' + nm, axes(cls, pts), [C_ + 'T'] + ([C_ + '_local_coords'] if nm == 'quad' else [C_ + 'width', C_ + 'height']), runs=60))
    for kind in ('D', 'K', 'F', 'FER', 'f'):
        UNITS.append(UNIT('%s-%s' % (kind, nm), vectors(cls, kind), [C_ + kind] + ([C_ + 'd'] if kind == 'D' else []), runs=20 if kind != 'K' else 10))
