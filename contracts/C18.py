"""C18: stiffness, loads and results of the rectangular plate."""
import numpy as np
from contracts.common import *
from PyNite.Plate3D import Plate3D
from PyNite.Node3D import Node3D
from PyNite.Material import Material

BND = [2, 3, 4, 8, 9, 10, 14, 15, 16, 20, 21, 22]
MEM = [0, 1, 6, 7, 12, 13, 18, 19]
DRILL = [5, 11, 17, 23]

def plate(h, mods=True):
    m = FakeModel()
    E, nu, t = h.real('E', 'pos'), h.real('nu', 'pos', 0.01, 0.49), h.real('t', 'pos')
    m.materials['M'] = Material('M', E, h.real('G', 'pos'), nu, 1)
    a, b = h.real('a', 'pos'), h.real('b', 'pos')
    if not h.symbolic: h.assume(0.1 < a/b < 10)
    kx, ky = (h.real('kx', 'pos'), h.real('ky', 'pos')) if mods else (1, 1)
    nd = [Node3D('N%d' % k, x, y, 0) for k, (x, y) in enumerate([(0, 0), (a, 0), (a, b), (0, b)])]
    p = Plate3D('P', nd[0], nd[1], nd[2], nd[3], t, 'M', m, kx, ky)
    h.patch(p, 'width', lambda: a)
    h.patch(p, 'height', lambda: b)
    return p, E, nu, t, a, b, kx, ky

def corners(a, b): return [(0, 0), (a, 0), (a, b), (0, b)]

def moments(E, nu, t, c):
    """moments of the exact plate per unit curvature w_xx, w_yy, w_xy"""
    D = E*t**3/(12*(1 - nu**2))
    return [D*(c[0] + nu*c[1]), D*(c[1] + nu*c[0]), D*(1 - nu)*c[2]]

def bent(a, b, g, c):
    """nodal displacements of w = g0 + g1 x + g2 y + c0 x^2/2 + c1 y^2/2 + c2 x y"""
    d = [0]*24
    for k, (x, y) in enumerate(corners(a, b)):
        d[6*k + 2] = g[0] + g[1]*x + g[2]*y + c[0]*x*x/2 + c[1]*y*y/2 + c[2]*x*y
        d[6*k + 3] = g[2] + c[1]*y + c[2]*x
        d[6*k + 4] = -(g[1] + c[0]*x + c[2]*y)
    return d

def strained(a, b, g, e):
    """nodal displacements of a rigid motion in the plane and a constant strain"""
    d = [0]*24
    for k, (x, y) in enumerate(corners(a, b)):
        d[6*k] = g[0] - g[2]*y + e[0]*x + e[2]*y/2
        d[6*k + 1] = g[1] + g[2]*x + e[1]*y + e[2]*x/2
    return d

def bending(h):
    p, E, nu, t, a, b, kx, ky = plate(h)
    g = [h.real('g%d' % i) for i in range(3)]; c = [h.real('c%d' % i) for i in range(3)]
    h.cover('pre')
    k = p.k_b()
    h.check('shape', k.shape == (24, 24))
    sc = E*t**3*(1/a + 1/b)**2*(1 + a*a + b*b)
    for i in range(24):
        for j in range(24):
            if j < i: h.eq('symmetric[%d,%d]' % (i, j), k[i, j], k[j, i], sc)
            if i not in BND and j not in BND and i != j or (i in BND) != (j in BND): h.eq('uncoupled[%d,%d]' % (i, j), k[i, j], 0, sc)
            if i == j and i in MEM: h.eq('no membrane[%d]' % i, k[i, i], 0, sc)
    for i in DRILL:
        h.check('drilling stiffness is positive', k[i, i] > 0)
    d = bent(a, b, g, c)
    M = moments(E, nu, t, c)
    # forces of the exact plate: edge moments shared by the two corners, twisting moments as corner forces
    for n, (sx, sy) in enumerate([(-1, -1), (1, -1), (1, 1), (-1, 1)]):
        ex = {2: 2*M[2]*sx*sy, 3: M[1]*sy*a/2, 4: -M[0]*sx*b/2}
        for q in (2, 3, 4):
            f = 0
            for j in BND: f = f + k[6*n + q, j]*d[j]
            h.eq('bending[%d]' % (6*n + q), f, ex[q], sc*(1 + sum(map(absd, g)) + sum(map(absd, c))))

def absd(v): return v if hasattr(v, 't') else abs(v)

def Dmat(E, nu, kx, ky):
    return [[E*kx/(1 - nu**2), E*nu*(kx*ky)**0.5/(1 - nu**2), 0], [E*nu*(kx*ky)**0.5/(1 - nu**2), E*ky/(1 - nu**2), 0], [0, 0, E/(2*(1 + nu))]]

def membrane(h):
    p, E, nu, t, a, b, kx, ky = plate(h)
    g = [h.real('g%d' % i) for i in range(3)]; e = [h.real('e%d' % i) for i in range(3)]
    h.cover('pre')
    k = p.k_m()
    h.check('shape', k.shape == (24, 24))
    sc = E*t*(1 + kx + ky)*(a/b + b/a)
    for i in range(24):
        for j in range(24):
            if j < i: h.eq('symmetric[%d,%d]' % (i, j), k[i, j], k[j, i], sc)
            if i not in MEM or j not in MEM: h.eq('uncoupled[%d,%d]' % (i, j), k[i, j], 0, sc)
    d = strained(a, b, g, e)
    D = Dmat(E, nu, kx, ky)
    s = [D[i][0]*e[0] + D[i][1]*e[1] + D[i][2]*e[2] for i in range(3)]
    for n, (sx, sy) in enumerate([(-1, -1), (1, -1), (1, 1), (-1, 1)]):
        ex = [t*(s[0]*sx*b + s[2]*sy*a)/2, t*(s[1]*sy*a + s[2]*sx*b)/2]
        for q in (0, 1):
            f = 0
            for j in MEM: f = f + k[6*n + q, j]*d[j]
            h.eq('membrane[%d]' % (6*n + q), f, ex[q], sc*(1 + a + b)*(1 + sum(map(absd, g)) + sum(map(absd, e))))

def total(h):
    p, E, nu, t, a, b, kx, ky = plate(h)
    kb, km = h.array('kb', (24, 24)), h.array('km', (24, 24))
    h.patch(p, 'k_b', lambda: kb.copy()); h.patch(p, 'k_m', lambda: km.copy())
    h.cover('pre')
    k = p.k()
    h.check('shape', k.shape == (24, 24))
    for i in range(24):
        for j in range(24): h.eq('k[%d,%d]' % (i, j), k[i, j], kb[i, j] + km[i, j], 1)

def dvec(d):
    v = np.empty((24, 1), dtype=object)
    for i in range(24): v[i, 0] = d[i]
    try: return v.astype(float)
    except Exception: return v

def results(h):
    p, E, nu, t, a, b, kx, ky = plate(h)
    g = [h.real('g%d' % i) for i in range(3)]; c = [h.real('c%d' % i) for i in range(3)]
    u = [h.real('u%d' % i) for i in range(3)]; e = [h.real('e%d' % i) for i in range(3)]
    x, y = h.real('x'), h.real('y')
    if not h.symbolic: h.assume(abs(x) < 3*a and abs(y) < 3*b)
    v1, v2 = bent(a, b, g, c), strained(a, b, u, e)
    d = dvec([v1[i] + v2[i] for i in range(24)])
    asked = []
    h.patch(p, 'd', lambda c='Combo 1': (asked.append(c), d.copy())[1])
    h.cover('pre')
    M = p.moment(x, y, True, 'C')
    S = p.membrane(x, y, True, 'C')
    h.check('shapes', M.shape == (3, 1) and S.shape == (3, 1))
    h.check('for the requested combination', set(asked) == {'C'})
    m = moments(E, nu, t, c)
    al = 1 + sum(map(absd, g)) + sum(map(absd, c)) + sum(map(absd, u)) + sum(map(absd, e))
    for i in range(3): h.eq('moment[%d]' % i, M[i, 0], m[i], E*t**3*al*(1 + 1/a + 1/b)**2)
    D = Dmat(E, nu, kx, ky)
    for i in range(3): h.eq('membrane[%d]' % i, S[i, 0], D[i][0]*e[0] + D[i][1]*e[1] + D[i][2]*e[2], E*(1 + kx + ky)*al*(1 + 1/a + 1/b))

def shear(h):
    """the shears are the derivatives of the moments (equilibrium of the plate), whatever the displacements"""
    p, E, nu, t, a, b, kx, ky = plate(h)
    co = h.array('co', (12, 1))
    x, y = h.real('x'), h.real('y')
    asked = []
    h.patch(p, '_a', lambda c='Combo 1': (asked.append(c), co.copy())[1])
    h.cover('pre')
    Q = p.shear(x, y, True, 'C')
    def M(i, x, y): return p.moment(x, y, True, 'C')[i, 0]
    h.check('shape', Q.shape == (2, 1))
    # the moments are quadratic in x and in y: central differences are exact
    mx = (M(0, x + 1, y) - M(0, x - 1, y))/2 + (M(2, x, y + 1) - M(2, x, y - 1))/2
    my = (M(1, x, y + 1) - M(1, x, y - 1))/2 + (M(2, x + 1, y) - M(2, x - 1, y))/2
    h.check('for the requested combination', set(asked) == {'C'})
    sc = E*t**3*20*(1 + absd(x) + absd(y))**2 if not h.symbolic else 1
    h.eq('Qx', Q[0, 0], -mx, sc)
    h.eq('Qy', Q[1, 0], -my, sc)

def coefficients(h):
    """the bending field takes the displacements of the nodes"""
    p, E, nu, t, a, b, kx, ky = plate(h)
    d = h.array('d', (24, 1))
    h.patch(p, 'd', lambda c='Combo 1': d.copy())
    h.cover('pre')
    q = p._a('C')
    q = [q[i, 0] for i in range(12)]
    P = [(0, 0), (1, 0), (0, 1), (2, 0), (1, 1), (0, 2), (3, 0), (2, 1), (1, 2), (0, 3), (3, 1), (1, 3)]
    for k, (x, y) in enumerate(corners(a, b)):
        def at(i, j):
            r = 0
            for v, (m, n) in zip(q, P):
                if i <= m and j <= n: r = r + v*(m if i else 1)*(n if j else 1)*x**(m - i)*y**(n - j)
            return r
        sc = 20*(1 + 1/a + 1/b)*(1 + a + b)
        h.eq('w of node %d' % k, at(0, 0), d[6*k + 2, 0], sc)
        h.eq('w,y of node %d' % k, at(0, 1), d[6*k + 3, 0], sc)
        h.eq('w,x of node %d' % k, -at(1, 0), d[6*k + 4, 0], sc)

def pressure(h):
    p, E, nu, t, a, b, kx, ky = plate(h)
    case = h.name
    p.pressures = h.seq('pressures', lambda b: [h.real('p:' + b), h.name('case:' + b)])
    fac = h.dict('factors', lambda b: (h.name('f:' + b), h.real('fac:' + b)))
    p.model.load_combos = {'C': Combo('C', fac), 'X': Combo('X', {})}
    h.cover('pre')
    f = p.fer('C')
    h.check('shape', f.shape == (24, 1))
    q = 0
    q = h.sum_over(list(fac.items()) if not h.symbolic else fac.items(), lambda it: h.sum_over(p.pressures, lambda pr: h.iverson(pr[1] == it[0])*it[1]*pr[0]))
    sc = 20*(a*b + 1)*(1 + a + b)
    for i in range(24):
        if i in MEM or i in DRILL: h.eq('no membrane load[%d]' % i, f[i, 0], 0, 1)
    fz = [f[6*k + 2, 0] for k in range(4)]; mx = [f[6*k + 3, 0] for k in range(4)]; my = [f[6*k + 4, 0] for k in range(4)]
    h.eq('total force', fz[0] + fz[1] + fz[2] + fz[3], -q*a*b, sc)
    P = corners(a, b)
    h.eq('total moment about x', sum((fz[k]*P[k][1] + mx[k] for k in range(4)), 0), -q*a*b*b/2, sc)
    h.eq('total moment about y', sum((-fz[k]*P[k][0] + my[k] for k in range(4)), 0), q*a*b*a/2, sc)
    # symmetric about both middle lines
    for i, j in ((0, 1), (0, 2), (0, 3)): h.eq('equal corner forces', fz[i], fz[j], sc)
    h.eq('symmetric', mx[0] + mx[3], 0, sc); h.eq('symmetric', mx[1] + mx[2], 0, sc)
    h.eq('symmetric', my[0] + my[1], 0, sc); h.eq('symmetric', my[3] + my[2], 0, sc)

P_ = 'PyNite.Plate3D.Plate3D.'
UNITS = [UNIT('bending', bending, [P_ + 'k_b'], runs=40), UNIT('membrane', membrane, [P_ + x for x in ('k_m', 'Dm', 'B_m', 'J')], runs=40),
         UNIT('sum', total, [P_ + 'k'], runs=10),
         UNIT('results', results, [P_ + x for x in ('moment', 'membrane', '_a', '_C', '_Q', 'Db')], runs=60),
         UNIT('coefficients', coefficients, [P_ + '_a', P_ + '_C'], runs=40),
         UNIT('shear', shear, [P_ + 'shear', P_ + '_Q'], runs=40), UNIT('pressure', pressure, [P_ + 'fer'], runs=60)]
