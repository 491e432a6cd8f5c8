"""C01: fixed-end reactions are exact."""
from PyNite import FixedEndReactions as F

# ---- specification: Galerkin integrals of the exact (Hermite / linear) shape functions.
# For a prismatic clamped-clamped Euler-Bernoulli member the fixed-end reaction conjugate to end displacement k equals
# minus the work of the load on the shape function N_k (Betti's theorem).
def herm(x, L):
    """N_i, M_i, N_j, M_j at x: transverse displacement for unit end translation / unit end rotation"""
    s = x/L
    return [1 - 3*s**2 + 2*s**3, x*(1 - s)**2, 3*s**2 - 2*s**3, x*(s**2 - s)]

def dherm(x, L):
    s = x/L
    return [(-6*s + 6*s**2)/L, 1 - 4*s + 3*s**2, (6*s - 6*s**2)/L, 3*s**2 - 2*s]

def polyint(coefs, a, b):
    """integral over [a, b] of sum coefs[k] x^k"""
    return sum(c*(b**(k + 1) - a**(k + 1))/(k + 1) for k, c in enumerate(coefs))

def polymul(p, q):
    r = [0]*(len(p) + len(q) - 1)
    for i, a in enumerate(p):
        for j, b in enumerate(q):
            r[i + j] = r[i + j] + a*b
    return r

def hermc(L):
    return [[1, 0, -3/L**2, 2/L**3], [0, 1, -2/L, 1/L**2], [0, 0, 3/L**2, -2/L**3], [0, 0, -1/L, 1/L**2]]

def trapezoid(w1, w2, x1, x2):
    """w(x) as a polynomial"""
    k = (w2 - w1)/(x2 - x1)
    return [w1 - k*x1, k]

def expected_transverse(vals, Direction):
    """12-vector from the four shape-function works (translation i, slope i, translation j, slope j)"""
    r = [0]*12
    if Direction == 'Fy':      # plane x-y: slope = +rotation about z
        r[1], r[5], r[7], r[11] = [-v for v in vals]
    else:                      # plane x-z: slope = -rotation about y
        r[2], r[8] = -vals[0], -vals[2]
        r[4], r[10] = vals[1], vals[3]
    return r

def check12(h, got, exp, scale):
    h.check('shape', got.shape == (12, 1))
    for i in range(12):
        h.eq('fer[%d]' % i, got[i, 0], exp[i], scale)

def pt(h):
    d = h.choice('dir', ['Fy', 'Fz'])
    P = h.real('P'); L = h.real('L', 'pos'); x = h.real('x', 'nonneg', 0, L)
    h.cover('pre')
    r = F.FER_PtLoad(P, x, L, d)
    check12(h, r, expected_transverse([P*n for n in herm(x, L)], d), P*(1 + L)*1e-2)

def mom(h):
    d = h.choice('dir', ['Mz', 'My'])
    M = h.real('M'); L = h.real('L', 'pos'); x = h.real('x', 'nonneg', 0, L)
    h.cover('pre')
    r = F.FER_Moment(M, x, L, d)
    dn = [M*n for n in dherm(x, L)]
    if d == 'Mz':
        exp = expected_transverse(dn, 'Fy')
    else:
        # positive My does work on -dw/dx
        exp = expected_transverse([-v for v in dn], 'Fz')
    check12(h, r, exp, M*(1 + 1/L)*1e-2)

def lin(h):
    d = h.choice('dir', ['Fy', 'Fz'])
    w1 = h.real('w1'); w2 = h.real('w2'); L = h.real('L', 'pos')
    x1 = h.real('x1', 'nonneg', 0, L); x2 = h.real('x2', 'nonneg', x1, L)
    h.assume(x2 > x1)
    h.cover('pre')
    r = F.FER_LinLoad(w1, w2, x1, x2, L, d)
    w = trapezoid(w1, w2, x1, x2)
    vals = [polyint(polymul(w, n), x1, x2) for n in hermc(L)]
    check12(h, r, expected_transverse(vals, d), (abs_(h, w1) + abs_(h, w2))*L*(1 + L)*1e-1)

def abs_(h, v):
    return 0 if h.symbolic else abs(v)

def axpt(h):
    P = h.real('P'); L = h.real('L', 'pos'); x = h.real('x', 'nonneg', 0, L)
    h.cover('pre')
    r = F.FER_AxialPtLoad(P, x, L)
    exp = [0]*12
    exp[0], exp[6] = -P*(1 - x/L), -P*x/L
    check12(h, r, exp, P)

def axlin(h):
    w1 = h.real('w1'); w2 = h.real('w2'); L = h.real('L', 'pos')
    x1 = h.real('x1', 'nonneg', 0, L); x2 = h.real('x2', 'nonneg', x1, L)
    h.assume(x2 > x1)
    h.cover('pre')
    r = F.FER_AxialLinLoad(w1, w2, x1, x2, L)
    w = trapezoid(w1, w2, x1, x2)
    exp = [0]*12
    exp[0] = -polyint(polymul(w, [1, -1/L]), x1, x2)
    exp[6] = -polyint(polymul(w, [0, 1/L]), x1, x2)
    check12(h, r, exp, (abs_(h, w1) + abs_(h, w2))*L)

def tor(h):
    T = h.real('T'); L = h.real('L', 'pos'); x = h.real('x', 'nonneg', 0, L)
    h.cover('pre')
    r = F.FER_Torque(T, x, L)
    exp = [0]*12
    exp[3], exp[9] = -T*(1 - x/L), -T*x/L
    check12(h, r, exp, T)

P_ = 'PyNite.FixedEndReactions.'
UNITS = [UNIT('point-load', pt, [P_ + 'FER_PtLoad']), UNIT('moment', mom, [P_ + 'FER_Moment']), UNIT('linear-load', lin, [P_ + 'FER_LinLoad']),
         UNIT('axial-point', axpt, [P_ + 'FER_AxialPtLoad']), UNIT('axial-linear', axlin, [P_ + 'FER_AxialLinLoad']), UNIT('torque', tor, [P_ + 'FER_Torque'])]
