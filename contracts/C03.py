"""C03: member local axes and the transformation between local and global quantities."""
from PyNite.Member3D import Member3D
from PyNite.Node3D import Node3D
from PyNite.Material import Material
from contracts.common import *

def base(h, i, j, aux=None):
    m_ = FakeModel()
    m_.materials['M'] = Material('M', h.real('E', 'pos'), h.real('G', 'pos'), 0.3, 1)
    return Member3D('M1', i, j, 'M', m_, h.real('Iy', 'pos'), h.real('Iz', 'pos'), h.real('J', 'pos'), h.real('A', 'pos'), aux)

def nodes(h, cls):
    xi, yi, zi = h.real('Xi'), h.real('Yi'), h.real('Zi')
    dx, dy, dz = h.real('dx'), h.real('dy'), h.real('dz')
    if cls == 'vertical':
        dx, dz = 0, 0
        h.assume(dy*dy > 0)
    elif cls == 'horizontal':
        dy = 0
        h.assume(dx*dx + dz*dz > 0)
    elif cls == 'inclined':
        h.assume(dy*dy > 0)
        h.assume(dx*dx + dz*dz > 0)
    else:
        h.assume(dx*dx + dy*dy + dz*dz > 0)
    return Node3D('i', xi, yi, zi), Node3D('j', xi + dx, yi + dy, zi + dz), (dx, dy, dz)

def frame_claims(h, T, d):
    L = (d[0]**2 + d[1]**2 + d[2]**2)**0.5
    h.check('shape', T.shape == (12, 12))
    R = [[T[a, b] for b in range(3)] for a in range(3)]
    for a in range(12):
        for b in range(12):
            if a//3 != b//3:
                h.eq('block-diagonal', T[a, b], 0, 1)
            else:
                h.eq('same-rotation-for-both-ends', T[a, b], R[a % 3][b % 3], 1)
    for b in range(3):
        h.eq('x-axis[%d]' % b, R[0][b]*L, d[b], L)
    for a in range(3):
        for b in range(3):
            h.eq('orthonormal[%d%d]' % (a, b), R[a][0]*R[b][0] + R[a][1]*R[b][1] + R[a][2]*R[b][2], 1 if a == b else 0, 1)
    # right-handed: z = x cross y
    h.eq('right-handed[0]', R[0][1]*R[1][2] - R[0][2]*R[1][1], R[2][0], 1)
    h.eq('right-handed[1]', R[0][2]*R[1][0] - R[0][0]*R[1][2], R[2][1], 1)
    h.eq('right-handed[2]', R[0][0]*R[1][1] - R[0][1]*R[1][0], R[2][2], 1)
    return R, L

def auto(cls):
    def f(h):
        i, j, d = nodes(h, cls)
        m = base(h, i, j)
        h.cover('pre')
        R, L = frame_claims(h, m.T(), d)
        # documented orientation: local z is horizontal, the top of the member (local y) points up
        h.eq('z-horizontal', R[2][1], 0, 1)
        if cls == 'vertical':
            h.eq('z-is-global-Z', R[2][2], 1)
        else:
            h.check('y-up', R[1][1] > 0)
    return f

def rotation(h):
    """an arbitrary rotation matrix times n, with n = |q|^2 (every rotation is of this form)"""
    a, b, c, d = [h.real('q%d' % i) for i in range(4)]
    n = a*a + b*b + c*c + d*d
    h.assume(n > (0 if h.symbolic else 1e-2))
    return [[a*a + b*b - c*c - d*d, 2*(b*c + a*d), 2*(b*d - a*c)],
            [2*(b*c - a*d), a*a - b*b + c*c - d*d, 2*(c*d + a*b)],
            [2*(b*d + a*c), 2*(c*d - a*b), a*a - b*b - c*c + d*d]], n

def aux(h):
    """every member direction and auxiliary node off the axis is: x = s X, aux = al X + be Z (be > 0) for some rotation (X, Y, Z)"""
    Rn, n = rotation(h)
    s = h.real('s', 'pos'); al = h.real('al'); be = h.real('be', 'pos')
    xi, yi, zi = h.real('Xi'), h.real('Yi'), h.real('Zi')
    d = [s*v for v in Rn[0]]
    i = Node3D('i', xi, yi, zi)
    j = Node3D('j', xi + d[0], yi + d[1], zi + d[2])
    a = Node3D('a', xi + al*Rn[0][0] + be*Rn[2][0], yi + al*Rn[0][1] + be*Rn[2][1], zi + al*Rn[0][2] + be*Rn[2][2])
    m = base(h, i, j, a)
    h.cover('pre')
    T = m.T()
    h.check('shape', T.shape == (12, 12))
    for p in range(12):
        for q in range(12):
            if p//3 != q//3:
                h.eq('block-diagonal', T[p, q], 0, 1)
            else:
                # x along the member; the auxiliary node in the local x-z plane on the positive z side; right-handed orthonormal
                h.eq('axes[%d%d]' % (p % 3, q % 3), T[p, q]*n, Rn[p % 3][q % 3], n)

def abs_(h, v):
    return 0 if h.symbolic else abs(v)

def inv_units(kind):
    """global matrix = T^T (local matrix) T, for any orthonormal T and any local matrix"""
    def f(h):
        i, j, d = nodes(h, 'any') if not h.symbolic else (Node3D('i', 0, 0, 0), Node3D('j', 1, 0, 0), None)
        m = base(h, i, j)
        if h.symbolic:
            c = h.array('c', (3, 3))
            T = h.array('unused', (12, 12))
            for a in range(12):
                for b in range(12):
                    T[a, b] = c[a % 3, b % 3] if a//3 == b//3 else 0
            h.patch(m, 'T', lambda: h.ortho(T))
        else:
            T = m.T()
        if kind in ('K', 'Kg', 'Km'):
            kl = h.array('k', (12, 12))
            P = h.real('P')
            seen = []
            def stub(*a, **kw):
                seen.append((a, kw))
                return kl.copy()
            h.patch(m, {'K': 'k', 'Kg': 'kg', 'Km': 'km'}[kind], stub)
            if kind == 'K': got = m.K()
            elif kind == 'Kg':
                got = m.Kg(P)
                h.check('passes-axial-force', len(seen) == 1 and (list(seen[0][0]) + list(seen[0][1].values())) == [P])
            h.check('shape', got.shape == (12, 12))
            for a in range(12):
                for b in range(12):
                    t = 0
                    A, B = 3*(a//3), 3*(b//3)
                    for p in range(3):
                        for q in range(3):
                            t = t + T[A + p, a]*kl[A + p, B + q]*T[B + q, b]
                    h.eq('%s[%d,%d]' % (kind, a, b), got[a, b], t, 50)
        elif kind in ('F', 'FER'):
            v = h.array('v', (12, 1))
            args = []
            def stub(*a, **kw):
                args.append(list(a) + list(kw.values()))
                return v.copy()
            h.patch(m, 'f' if kind == 'F' else 'fer', stub)
            got = m.F('C') if kind == 'F' else m.FER('C')
            h.check('for-the-requested-combination', args == [['C']])
            h.check('shape', got.shape == (12, 1))
            for a in range(12):
                A = 3*(a//3)
                h.eq('%s[%d]' % (kind, a), got[a, 0], T[A, a]*v[A, 0] + T[A + 1, a]*v[A + 1, 0] + T[A + 2, a]*v[A + 2, 0], 20)
        elif kind == 'd':
            m.active = {'C': True, 'X': True}
            comps = ['DX', 'DY', 'DZ', 'RX', 'RY', 'RZ']
            D = []
            for n, nd in (('i', i), ('j', j)):
                for cname in comps:
                    setattr(nd, cname, {'C': h.real(n + cname), 'X': h.real('x' + n + cname)})
                    D.append(getattr(nd, cname)['C'])
            got = m.D('C')
            h.check('shapeD', got.shape == (12, 1))
            for a in range(12): h.eq('D[%d]' % a, got[a, 0], D[a], 1)
            gd = m.d('C')
            h.check('shaped', gd.shape == (12, 1))
            for a in range(12):
                A = 3*(a//3)
                h.eq('d[%d]' % a, gd[a, 0], T[a, A]*D[A] + T[a, A + 1]*D[A + 1] + T[a, A + 2]*D[A + 2], 20)
        elif kind == 'f':
            # linear end forces: stiffness times displacement plus fixed-end reactions
            kl = h.array('k', (12, 12)); dl = h.array('dl', (12, 1)); fr = h.array('fr', (12, 1))
            h.patch(m, 'k', lambda: kl.copy())
            a1, a2 = [], []
            h.patch(m, 'd', lambda c='Combo 1': (a1.append(c), dl.copy())[1])
            h.patch(m, 'fer', lambda c='Combo 1': (a2.append(c), fr.copy())[1])
            m.active = {'C': True}
            m.model.solution = h.choice('sol', ['Linear', None])
            got = m.f('C')
            h.check('for-the-requested-combination', set(a1) == {'C'} and set(a2) == {'C'})
            for a in range(12):
                t = fr[a, 0]
                for b in range(12): t = t + kl[a, b]*dl[b, 0]
                h.eq('f[%d]' % a, got[a, 0], t, 50)
    return f

def length(h):
    i, j, d = nodes(h, 'any')
    m = base(h, i, j)
    h.cover('pre')
    L = m.L()
    h.eq('L^2', L*L, d[0]**2 + d[1]**2 + d[2]**2)
    h.check('L>0', L > 0)

M_ = 'PyNite.Member3D.Member3D.'
UNITS = [UNIT('axes-vertical', auto('vertical'), [M_ + 'T']), UNIT('axes-horizontal', auto('horizontal'), [M_ + 'T']),
         UNIT('axes-inclined', auto('inclined'), [M_ + 'T'], runs=60), UNIT('axes-aux', aux, [M_ + 'T'], runs=60),
         UNIT('length', length, [M_ + 'L', 'PyNite.Node3D.Node3D.distance'])] + \
        [UNIT('transform-' + k, inv_units(k), [M_ + k]) for k in ('K', 'Kg', 'F', 'FER', 'd', 'f')]
