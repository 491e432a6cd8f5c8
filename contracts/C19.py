"""C19: stiffness, loads and results of the quadrilateral plate."""
import numpy as np
from contracts.common import *
from contracts.C18 import absd, dvec, Dmat, MEM, BND, DRILL
from PyNite.Quad3D import Quad3D
from PyNite.Node3D import Node3D
from PyNite.Material import Material

def quad(h, mods=True):
    """a quadrilateral with local corners (x1, y1) ... (x4, y4), convex and counterclockwise"""
    m = FakeModel()
    E, nu, t = h.real('E', 'pos'), h.real('nu', 'pos', 0.01, 0.49), h.real('t', 'pos')
    m.materials['M'] = Material('M', E, h.real('G', 'pos'), nu, 1)
    kx, ky = (h.real('kx', 'pos'), h.real('ky', 'pos')) if mods else (1, 1)
    if h.symbolic:
        P = [(h.real('x%d' % k), h.real('y%d' % k)) for k in range(1, 5)]
        nd = [Node3D('N%d' % k, 0, 0, 0) for k in range(4)]
    else:
        # a disturbed square, moved so that the first corner is the origin and the second is on the x axis
        sz = h.real('size', 'pos', 0.3, 3)
        P = [(c[0] + h.real('dx%d' % k, 'real', -0.2, 0.2), c[1] + h.real('dy%d' % k, 'real', -0.2, 0.2)) for k, c in enumerate([(0, 0), (1, 0), (1, 1), (0, 1)])]
        P = [(sz*(u - P[0][0]), sz*(v - P[0][1])) for u, v in P]
        L = (P[1][0]**2 + P[1][1]**2)**0.5
        c, s = P[1][0]/L, P[1][1]/L
        P = [(c*u + s*v, c*v - s*u) for u, v in P]
        P[1] = (L, 0.0)
        nd = [Node3D('N%d' % k, u, v, 0) for k, (u, v) in enumerate(P)]
    q = Quad3D('Q', nd[0], nd[1], nd[2], nd[3], t, 'M', m, kx, ky)
    if not h.symbolic: q._local_coords()
    for k, (u, v) in enumerate(P):
        setattr(q, 'x%d' % (k + 1), u)
        setattr(q, 'y%d' % (k + 1), v)
    return q, P, E, nu, t, kx, ky

def shape(x, e): return [(1 - x)*(1 - e)/4, (1 + x)*(1 - e)/4, (1 + x)*(1 + e)/4, (1 - x)*(1 + e)/4]
def dshape(x, e): return [-(1 - e)/4, (1 - e)/4, (1 + e)/4, -(1 + e)/4], [-(1 - x)/4, -(1 + x)/4, (1 + x)/4, (1 - x)/4]

def jac(P, x, e):
    a, b = dshape(x, e)
    return [[sum((w*p[c] for w, p in zip(d, P)), 0) for c in (0, 1)] for d in (a, b)]

def detof(J): return J[0][0]*J[1][1] - J[0][1]*J[1][0]

def inside(h):
    x, e = h.real('xi', 'real', -1, 1), h.real('eta', 'real', -1, 1)
    return x, e

def jacobian(h):
    q, P, E, nu, t, kx, ky = quad(h)
    x, e = inside(h)
    h.cover('pre')
    J = q.J(x, e)
    h.check('shape', J.shape == (2, 2))
    R = jac(P, x, e)
    for a in range(2):
        for b in range(2): h.eq('J[%d,%d]' % (a, b), J[a, b], R[a][b], 5)
    # lemma: the Jacobian determinant is an average of its corner values, which are positive for a convex quadrilateral
    D = [detof(jac(P, cx, ce)) for cx, ce in ((-1, -1), (1, -1), (1, 1), (-1, 1))]
    h.eq('lemma: average of the corner values', detof(R), sum((n*d for n, d in zip(shape(x, e), D)), 0), 5)
    for k in range(4):
        i, j, l = P[k], P[(k + 1) % 4], P[k - 1]
        h.eq('lemma: corner value %d' % k, 4*D[k], (j[0] - i[0])*(l[1] - i[1]) - (j[1] - i[1])*(l[0] - i[0]), 5)

def known_det(h, P, x, e):
    """convexity gives a positive Jacobian determinant (lemma of unit jacobian)"""
    h.assume(detof(jac(P, x, e)) > 0)

def field(h, P):
    """a rigid motion plus constant strain"""
    g = [h.real('g%d' % i) for i in range(3)]; e = [h.real('e%d' % i) for i in range(3)]
    d = []
    for x, y in P:
        d.append(g[0] - g[2]*y + e[0]*x + e[2]*y/2)
        d.append(g[1] + g[2]*x + e[1]*y + e[2]*x/2)
    return d, e

def bent(h, P):
    """[w, bx, by] per corner of w = g0 + g1 x + g2 y + c0 x^2/2 + c1 y^2/2 + c2 x y, with b = -grad w"""
    g = [h.real('g%d' % i) for i in range(3)]; c = [h.real('c%d' % i) for i in range(3)]
    d = []
    for x, y in P:
        d += [g[0] + g[1]*x + g[2]*y + c[0]*x*x/2 + c[1]*y*y/2 + c[2]*x*y, -(g[1] + c[0]*x + c[2]*y), -(g[2] + c[1]*y + c[2]*x)]
    return d, c

def times(B, d, i):
    t = 0
    for j in range(len(d)): t = t + B[i, j]*d[j]
    return t

def strain(h):
    """constant strain is reproduced at every point"""
    q, P, E, nu, t, kx, ky = quad(h)
    x, e = inside(h)
    d, eps = field(h, P)
    known_det(h, P, x, e)
    h.cover('pre')
    B = q.B_m(x, e)
    h.check('shape', B.shape == (3, 8))
    for i in range(3): h.eq('strain[%d]' % i, times(B, d, i), eps[i], 20)

def gauss(h):
    g = 1/3**0.5
    return [(-g, -g), (g, -g), (g, g), (-g, g)]

def strain_forces(h):
    """the nodal forces of a constant membrane stress are those of its edges"""
    q, P, E, nu, t, kx, ky = quad(h)
    for p in gauss(h): known_det(h, P, p[0], p[1])
    h.cover('pre')
    Bs = [q.B_m(*p) for p in gauss(h)]
    dt = [detof(jac(P, *p)) for p in gauss(h)]
    for k in range(4):
        nx, ny = (P[(k + 1) % 4][1] - P[k - 1][1])/2, -(P[(k + 1) % 4][0] - P[k - 1][0])/2
        ex = {(0, 0): nx, (1, 1): ny, (2, 0): ny, (2, 1): nx}
        for i in range(3):
            for c in range(2):
                h.eq('edge forces[%d,%d,%d]' % (k, i, c), sum((b[i, 2*k + c]*D for b, D in zip(Bs, dt)), 0), ex.get((i, c), 0), 5)

def key(p): return '%s,%s' % (p[0], p[1])

class Points:
    """a stand-in for a matrix-valued function of position: an arbitrary matrix at every point"""
    def __init__(self, h, name, shape):
        self.h, self.name, self.shape, self.seen = h, name, shape, {}
    def __call__(self, x, e):
        k = key((x, e))
        if k not in self.seen: self.seen[k] = self.h.array('%s@%d' % (self.name, len(self.seen)), self.shape)
        return self.seen[k].copy()

def sym3(h, name, n=3):
    return h.array(name, (n, n), symmetric=True)

def stand_in(h, q, name, shape):
    """an arbitrary matrix function in place of a method (in concrete runs: the method itself)"""
    if not h.symbolic: return getattr(q, name)
    f = Points(h, name, shape)
    h.patch(q, name, f)
    return f

def const_in(h, q, name, n):
    if not h.symbolic: return getattr(q, name)()
    A = sym3(h, name, n)
    h.patch(q, name, lambda: A.copy())
    return A

def quadform(B, C, D, i, j):
    """sum over the points of det B^T C B"""
    t = 0
    n = C.shape[0]
    for b, d in zip(B, D):
        for p in range(n):
            for r in range(n): t = t + d*b[p, i]*C[p, r]*b[r, j]
    return t

def membrane(h):
    q, P, E, nu, t, kx, ky = quad(h)
    C = const_in(h, q, 'Cm', 3)
    Bf = stand_in(h, q, 'B_m', (3, 8)); Jf = stand_in(h, q, 'J', (2, 2))
    h.cover('pre')
    k = q.k_m()
    h.check('shape', k.shape == (24, 24))
    B = [Bf(*p) for p in gauss(h)]; J = [Jf(*p) for p in gauss(h)]
    D = [a[0, 0]*a[1, 1] - a[0, 1]*a[1, 0] for a in J]
    sc = max(abs(k[i, i]) for i in MEM) if not h.symbolic else 1
    for i in range(24):
        for j in range(24):
            if i in MEM and j in MEM:
                a, b = MEM.index(i), MEM.index(j)
                h.eq('k[%d,%d]' % (i, j), k[i, j], t*quadform(B, C, D, a, b), sc)
                h.eq('symmetric[%d,%d]' % (i, j), k[i, j], k[j, i], sc)
            else: h.eq('uncoupled[%d,%d]' % (i, j), k[i, j], 0, sc)

def material(h):
    q, P, E, nu, t, kx, ky = quad(h)
    h.cover('pre')
    C, Hb, Hs = q.Cm(), q.Hb(), q.Hs()
    h.check('shapes', C.shape == (3, 3) and Hb.shape == (3, 3) and Hs.shape == (2, 2))
    M = Dmat(E, nu, kx, ky); N = Dmat(E, nu, 1, 1)
    for i in range(3):
        for j in range(3):
            h.eq('membrane[%d,%d]' % (i, j), C[i, j], M[i][j], E*(kx + ky))
            h.eq('bending[%d,%d]' % (i, j), Hb[i, j], E*nu*t**3/12/(1 - nu**2) if i != j and i < 2 and j < 2 else N[i][j]*t**3/12, E*t**3)
    for i in range(2):
        for j in range(2): h.eq('shear[%d,%d]' % (i, j), Hs[i, j], 5*E*t/(12*(1 + nu)) if i == j else 0, E*t)

def sides(h):
    """the transverse shear of every side vanishes for rigid motions and constant curvature"""
    q, P, E, nu, t, kx, ky = quad(h)
    for k in range(4):
        a, b = P[k], P[(k + 1) % 4]
        h.assume((b[0] - a[0])**2 + (b[1] - a[1])**2 > 0)
    d, c = bent(h, P)
    h.cover('pre')
    A = q.A_u()
    h.check('shape', A.shape == (4, 12))
    for k in range(4): h.eq('side %d' % k, times(A, d, k), 0, 50)
    for k in range(4):
        for j in range(12):
            if j//3 not in (k, (k + 1) % 4): h.eq('only the ends of the side[%d,%d]' % (k, j), A[k, j], 0, 1)

def curvature(h):
    q, P, E, nu, t, kx, ky = quad(h)
    x, e = inside(h)
    d, c = bent(h, P)
    known_det(h, P, x, e)
    h.cover('pre')
    B = q.B_b_beta(x, e)
    h.check('shape', B.shape == (3, 12))
    for i, v in enumerate((-c[0], -c[1], -2*c[2])): h.eq('curvature[%d]' % i, times(B, d, i), v, 50)

def combine(h):
    """B_b adds to the corner rotations only what the shear of the sides demands; B_s is made of it alone"""
    q, P, E, nu, t, kx, ky = quad(h)
    x, e = inside(h)
    J = stand_in(h, q, 'J', (2, 2))
    j = J(x, e)
    h.assume(j[0, 0]*j[1, 1] - j[0, 1]*j[1, 0] > 0)
    bb = stand_in(h, q, 'B_b_beta', (3, 12)); bd = stand_in(h, q, 'B_b_Delta_beta', (3, 4))
    f = {}
    for n, s in (('A_u', (4, 12)), ('A_gamma', (4, 4)), ('A_phi_Delta', (4, 4)), ('A_Delta_inv_DKMQ', (4, 4)), ('N_gamma', None)):
        if n == 'N_gamma': f[n] = stand_in(h, q, n, (2, 4))
        elif h.symbolic:
            m = h.array(n, s)
            if s == (4, 4):
                for a in range(4):
                    for b in range(4):
                        if a != b: m[a, b] = 0
            f[n] = m
            h.patch(q, n, (lambda v: lambda: v.copy())(m))
        else: f[n] = getattr(q, n)()
    h.cover('pre')
    Bb, Bs = q.B_b(x, e), q.B_s(x, e)
    h.check('shapes', Bb.shape == (3, 12) and Bs.shape == (2, 12))
    b1, b2, ng = bb(x, e), bd(x, e), f['N_gamma'](x, e)
    for i in range(3):
        for k in range(12):
            v = b1[i, k]
            for s in range(4): v = v + b2[i, s]*f['A_Delta_inv_DKMQ'][s, s]*f['A_u'][s, k]
            h.eq('B_b[%d,%d]' % (i, k), Bb[i, k], v, 20)
    for k in range(12):
        r = [0, 0]
        for i in range(2):
            for s in range(4): r[i] = r[i] + ng[i, s]*f['A_gamma'][s, s]*f['A_phi_Delta'][s, s]*f['A_u'][s, k]
        for i in range(2): h.eq('B_s[%d,%d]' % (i, k), j[i, 0]*Bs[0, k] + j[i, 1]*Bs[1, k], r[i], 20)

def side_integrals(h):
    """the curvature of a side's extra rotation, integrated over the element, is that rotation integrated along the side"""
    q, P, E, nu, t, kx, ky = quad(h)
    for k in range(4):
        a, b = P[k], P[(k + 1) % 4]
        h.assume((b[0] - a[0])**2 + (b[1] - a[1])**2 > 0)
    for p in gauss(h): known_det(h, P, p[0], p[1])
    h.cover('pre')
    Bs = [q.B_b_Delta_beta(*p) for p in gauss(h)]
    Bb = [q.B_b_beta(*p) for p in gauss(h)]
    dt = [detof(jac(P, *p)) for p in gauss(h)]
    for k in range(4):
        a, b = P[k], P[(k + 1) % 4]
        dx, dy = b[0] - a[0], b[1] - a[1]
        L = (dx**2 + dy**2)**0.5
        # outward normal (dy, -dx)/L, direction of the rotation (dx, dy)/L, 2/3 = mean of the quadratic
        ex = (2*dy*dx/(3*L), -2*dx*dy/(3*L), 2*(dy*dy - dx*dx)/(3*L))
        for i in range(3): h.eq('side %d curvature %d' % (k, i), sum((B[i, k]*D for B, D in zip(Bs, dt)), 0), ex[i], 5)
        nx, ny = (P[(k + 1) % 4][1] - P[k - 1][1])/2, -(P[(k + 1) % 4][0] - P[k - 1][0])/2
        ex = {(0, 1): nx, (1, 2): ny, (2, 1): ny, (2, 2): nx}
        for i in range(3):
            for c in range(3):
                h.eq('corner %d rotation %d curvature %d' % (k, c, i), sum((B[i, 3*k + c]*D for B, D in zip(Bb, dt)), 0), ex.get((i, c), 0), 5)

def bending(h):
    q, P, E, nu, t, kx, ky = quad(h)
    Hb, Hs = const_in(h, q, 'Hb', 3), const_in(h, q, 'Hs', 2)
    Bf = stand_in(h, q, 'B_b', (3, 12)); Sf = stand_in(h, q, 'B_s', (2, 12)); Jf = stand_in(h, q, 'J', (2, 2))
    h.merge()
    h.cover('pre')
    k = q.k_b()
    h.check('shape', k.shape == (24, 24))
    B = [Bf(*p) for p in gauss(h)]; S = [Sf(*p) for p in gauss(h)]; J = [Jf(*p) for p in gauss(h)]
    D = [a[0, 0]*a[1, 1] - a[0, 1]*a[1, 0] for a in J]
    sc = max(abs(k[i, i]) for i in BND) if not h.symbolic else 1
    # local displacements of the element: bx = rotation about y, by = -rotation about x
    of = {}
    for n in range(4): of[6*n + 2] = (3*n, 1); of[6*n + 4] = (3*n + 1, 1); of[6*n + 3] = (3*n + 2, -1)
    for i in range(24):
        for j in range(24):
            if i in of and j in of:
                (a, s), (b, r) = of[i], of[j]
                h.eq('k[%d,%d]' % (i, j), k[i, j], s*r*(quadform(B, Hb, D, a, b) + quadform(S, Hs, D, a, b)), sc)
                h.eq('symmetric[%d,%d]' % (i, j), k[i, j], k[j, i], sc)
            elif not (i == j and i in DRILL): h.eq('uncoupled[%d,%d]' % (i, j), k[i, j], 0, sc)

def total(h):
    q, P, E, nu, t, kx, ky = quad(h)
    kb, km = h.array('kb', (24, 24)), h.array('km', (24, 24))
    log = []
    h.patch(q, '_local_coords', lambda: log.append('c'))
    h.patch(q, 'k_b', lambda: (log.append('k'), kb.copy())[1]); h.patch(q, 'k_m', lambda: (log.append('k'), km.copy())[1])
    h.cover('pre')
    k = q.k()
    h.check('shape', k.shape == (24, 24))
    h.check('local coordinates first', log and log[0] == 'c')
    for i in range(24):
        for j in range(24): h.eq('k[%d,%d]' % (i, j), k[i, j], kb[i, j] + km[i, j], 1)

def pressure(h):
    q, P, E, nu, t, kx, ky = quad(h)
    q.pressures = h.seq('pressures', lambda b: [h.real('p:' + b), h.name('case:' + b)])
    fac = h.dict('factors', lambda b: (h.name('f:' + b), h.real('fac:' + b)))
    q.model.load_combos = {'C': Combo('C', fac), 'X': Combo('X', {})}
    if h.symbolic: h.patch(q, '_local_coords', lambda: None)   # the axes: C20
    h.cover('pre')
    f = q.fer('C')
    h.check('shape', f.shape == (24, 1))
    p = h.sum_over(list(fac.items()) if not h.symbolic else fac.items(), lambda it: h.sum_over(q.pressures, lambda pr: h.iverson(pr[1] == it[0])*it[1]*pr[0]))
    for i in range(24):
        if i not in BND: h.eq('no membrane load[%d]' % i, f[i, 0], 0, 1)
    fz = [f[6*k + 2, 0] for k in range(4)]; mx = [f[6*k + 3, 0] for k in range(4)]; my = [f[6*k + 4, 0] for k in range(4)]
    # area, first moments of the polygon
    A, Sx, Sy = 0, 0, 0
    for k in range(4):
        a, b = P[k], P[(k + 1) % 4]
        c = a[0]*b[1] - b[0]*a[1]
        A = A + c/2; Sx = Sx + c*(a[0] + b[0])/6; Sy = Sy + c*(a[1] + b[1])/6
    h.eq('total force', sum(fz, 0), -p*A, 50)
    h.eq('total moment about x', sum((fz[k]*P[k][1] + mx[k] for k in range(4)), 0), -p*Sy, 50)
    h.eq('total moment about y', sum((-fz[k]*P[k][0] + my[k] for k in range(4)), 0), p*Sx, 50)

def results(kind):
    def fn(h):
        """if every Gauss point has the same strain, that strain is reported everywhere"""
        q, P, E, nu, t, kx, ky = quad(h)
        x, e = h.real('xi', 'real', -1, 1), h.real('eta', 'real', -1, 1)
        nm, n, cm = {'moment': ('B_b', 3, 'Hb'), 'shear': ('B_s', 2, 'Hs'), 'membrane': ('B_m', 3, 'Cm')}[kind]
        H = const_in(h, q, cm, n)
        if h.symbolic:
            d = h.array('d', (24, 1))
            v = h.array('strain', (n, 1))
            loc = [d[i, 0] for i in MEM] if kind == 'membrane' else [z for k in range(4) for z in (d[6*k + 2, 0], d[6*k + 4, 0], -d[6*k + 3, 0])]
            h.assume(h.neg(loc[-1] == 0))
            def stub(a, b):
                M = h.array('%s@%s' % (nm, key((a, b))), (n, len(loc)))
                for i in range(n):
                    s = v[i, 0]
                    for k in range(len(loc) - 1): s = s - M[i, k]*loc[k]
                    M[i, len(loc) - 1] = s/loc[-1]
                return M
            h.patch(q, nm, stub)
            strain = [v[i, 0] for i in range(n)]
        elif kind == 'membrane':
            l, eps = field(h, P)
            d = np.zeros((24, 1)); d[MEM, 0] = l
            strain = eps
        else:
            l, c = bent(h, P)
            d = np.zeros((24, 1))
            for k in range(4): d[6*k + 2, 0] = l[3*k]; d[6*k + 4, 0] = l[3*k + 1]; d[6*k + 3, 0] = -l[3*k + 2]
            strain = [-c[0], -c[1], -2*c[2]] if kind == 'moment' else [0, 0]
        asked = []
        h.patch(q, 'd', lambda c='Combo 1': (asked.append(c), d.copy())[1])
        h.cover('pre')
        S = getattr(q, kind)(x, e, True, 'C')
        h.check('shape', S.shape == (n, 1))
        h.check('for the requested combination', set(asked) == {'C'})
        for i in range(n):
            r = 0
            for k in range(n): r = r + H[i, k]*strain[k]
            h.eq('%s[%d]' % (kind, i), S[i, 0], r, 1 if h.symbolic else 100*abs(H[0, 0])*(1 + max(map(abs, strain))))
    return fn

def patch(h):
    """whole elements, no stand-ins: symmetry, rigid motions, and a patch of five distorted elements"""
    from PyNite.FEModel3D import FEModel3D
    m = FEModel3D()
    E, nu, t = h.real('E', 'pos'), h.real('nu', 'pos', 0.01, 0.45), h.real('t', 'pos', 0.01, 0.5)
    m.add_material('M', E, E/(2*(1 + nu)), nu, 1)
    pts = [(0, 0), (1, 0), (1, 1), (0, 1)] + [(0.5 + 0.2*sx + h.real('px%d%d' % (sx, sy), 'real', -0.12, 0.12), 0.5 + 0.2*sy + h.real('py%d%d' % (sx, sy), 'real', -0.12, 0.12)) for sx, sy in ((-1, -1), (1, -1), (1, 1), (-1, 1))]
    sz = h.real('size', 'pos', 0.5, 3)
    pts = [(sz*x, sz*y) for x, y in pts]
    for k, (x, y) in enumerate(pts): m.add_node('N%d' % k, x, y, 0)
    kx, ky = h.real('kx', 'pos', 0.3, 2), h.real('ky', 'pos', 0.3, 2)
    m.add_quad('Q0', 'N4', 'N5', 'N6', 'N7', t, 'M', kx, ky)
    for k in range(4): m.add_quad('Q%d' % (k + 1), 'N%d' % k, 'N%d' % ((k + 1) % 4), 'N%d' % (4 + (k + 1) % 4), 'N%d' % (4 + k), t, 'M', 1 if kx != ky else kx, 1 if kx != ky else ky)
    mem = h.choice('state', ['membrane', 'bending']) == 'membrane'
    g = [h.real('g%d' % i) for i in range(3)]; c = [h.real('c%d' % i) for i in range(3)]
    for q in m.quads.values():
        K = q.k()
        h.check('symmetric', float(np.abs(K - K.T).max()) <= 1e-9*float(np.abs(K).max()))
        if mem: q.kx_mod = q.ky_mod = 1
    K = 0
    ndof = 6*len(pts)
    K = np.zeros((ndof, ndof))
    for q in m.quads.values():
        ke = q.K()
        idx = [6*int(n.name[1:]) + a for n in (q.i_node, q.j_node, q.m_node, q.n_node) for a in range(6)]
        for a in range(24):
            for b in range(24): K[idx[a], idx[b]] += ke[a, b]
    d = np.zeros(ndof)
    for k, (x, y) in enumerate(pts):
        if mem: d[6*k], d[6*k + 1] = g[0] - g[2]*y + c[0]*x + c[2]*y/2, g[1] + g[2]*x + c[1]*y + c[2]*x/2
        else: d[6*k + 2], d[6*k + 3], d[6*k + 4] = g[0] + g[1]*x + g[2]*y + c[0]*x*x/2 + c[1]*y*y/2 + c[2]*x*y, g[2] + c[1]*y + c[2]*x, -(g[1] + c[0]*x + c[2]*y)
    f = K @ d
    sc = float(np.abs(K).max()*(np.abs(d).max() + 1))
    for k in range(4, 8):
        for a in range(6):
            if a != 5: h.eq('patch: interior node in equilibrium', f[6*k + a], 0, sc)
    if max(map(abs, c)) == 0: h.check('rigid motion', float(np.abs(np.delete(f, range(5, ndof, 6))).max()) <= 1e-9*sc)

Q_ = 'PyNite.Quad3D.Quad3D.'
UNITS = [UNIT('jacobian', jacobian, [Q_ + 'J'], runs=40), UNIT('strain', strain, [Q_ + 'B_m', Q_ + 'J'], runs=40),
         UNIT('strain-forces', strain_forces, [Q_ + 'B_m'], runs=40), UNIT('membrane', membrane, [Q_ + 'k_m'], runs=30),
         UNIT('material', material, [Q_ + x for x in ('Cm', 'Hb', 'Hs')], runs=40),
         UNIT('sides', sides, [Q_ + x for x in ('A_u', 'L_k', 'dir_cos')], runs=40),
         UNIT('curvature', curvature, [Q_ + 'B_b_beta'], runs=40), UNIT('combine', combine, [Q_ + 'B_b', Q_ + 'B_s'], runs=30),
         UNIT('side-integrals', side_integrals, [Q_ + 'B_b_Delta_beta', Q_ + 'B_b_beta'], runs=40),
         UNIT('bending', bending, [Q_ + 'k_b'], runs=30), UNIT('sum', total, [Q_ + 'k'], runs=10),
         UNIT('pressure', pressure, [Q_ + 'fer'], runs=60)]
UNITS += [UNIT('result-' + k, results(k), [Q_ + k], runs=40) for k in ('moment', 'shear', 'membrane')]
UNITS += [UNIT('patch', patch, [Q_ + 'K'], runs=60, sym=False, bounded_text='bounded: patches of five elements with random corners')]

def factors(h):
    """the shear factors of a side depend on that side alone, so that neighbours sharing it agree"""
    q, P, E, nu, t, kx, ky = quad(h)
    for k in range(4):
        a, b = P[k], P[(k + 1) % 4]
        h.assume((b[0] - a[0])**2 + (b[1] - a[1])**2 > 0)
    h.cover('pre')
    A, B, G = q.A_Delta_inv_DKMQ(), q.A_phi_Delta(), q.A_gamma()
    h.check('shapes', A.shape == (4, 4) and B.shape == (4, 4) and G.shape == (4, 4))
    for i in range(4):
        a, b = P[i], P[(i + 1) % 4]
        L2 = (b[0] - a[0])**2 + (b[1] - a[1])**2
        for j in range(4):
            if i != j:
                h.eq('diagonal', A[i, j], 0, 1); h.eq('diagonal', B[i, j], 0, 1); h.eq('diagonal', G[i, j], 0, 1)
        phi = 2*t*t/(1 - nu)*6/5
        h.eq('rotation of side %d' % i, A[i, i]*(L2 + phi), -3*L2/2, L2 + phi)
        h.eq('shear of side %d' % i, B[i, i]*(L2 + phi), phi, L2 + phi)
        h.eq('length of side %d' % i, G[i, i]*G[i, i]*4, L2, 1)
        h.check('direction of side %d' % i, (G[i, i] > 0) if i < 2 else (G[i, i] < 0))
    x, e = inside(h)
    N = q.N_gamma(x, e)
    h.check('shape', N.shape == (2, 4))
    ex = [[(1 - e)/2, 0, (1 + e)/2, 0], [0, (1 + x)/2, 0, (1 - x)/2]]
    for i in range(2):
        for j in range(4): h.eq('interpolation of the side shears[%d,%d]' % (i, j), N[i, j], ex[i][j], 1)

UNITS.append(UNIT('side-factors', factors, [Q_ + x for x in ('A_Delta_inv_DKMQ', 'A_phi_Delta', 'A_gamma', 'N_gamma', 'phi_k')], runs=40))
