"""C04: loads applied to members enter the analysis as statically and kinematically equivalent end forces."""
import numpy as np
from PyNite.Member3D import Member3D
from PyNite.Node3D import Node3D
from PyNite.Material import Material
from PyNite.Section import Section
from PyNite.FEModel3D import FEModel3D
from PyNite.LoadCombo import LoadCombo
from contracts.common import *

PT = ['Fx', 'Fy', 'Fz', 'Mx', 'My', 'Mz', 'FX', 'FY', 'FZ', 'MX', 'MY', 'MZ']
DIST = ['Fx', 'Fy', 'Fz', 'FX', 'FY', 'FZ']
AX = ['x', 'y', 'z']

def herm_c(L):
    return [[1, 0, -3/L**2, 2/L**3], [0, 1, -2/L, 1/L**2], [0, 0, 3/L**2, -2/L**3], [0, 0, -1/L, 1/L**2]]

def pv(p, x):
    t = 0
    for k, c in enumerate(p): t = t + c*x**k
    return t

def dpoly(p):
    return [k*c for k, c in enumerate(p)][1:]

def reaction(comp, works):
    """works: integral of load against the 4 transverse / 2 axial shape functions -> 12-vector of fixed end reactions"""
    r = [0]*12
    if comp == 'Fx': r[0], r[6] = -works[0], -works[1]
    elif comp == 'Mx': r[3], r[9] = -works[0], -works[1]
    elif comp in ('Fy', 'Mz'): r[1], r[5], r[7], r[11] = [-v for v in works]
    elif comp == 'Fz': r[2], r[4], r[8], r[10] = -works[0], works[1], -works[2], works[3]
    elif comp == 'My': r[2], r[4], r[8], r[10] = works[0], -works[1], works[2], -works[3]
    return r

def point(comp, P, x, L):
    if comp in ('Fx', 'Mx'): return reaction(comp, [P*(1 - x/L), P*x/L])
    if comp in ('Fy', 'Fz'): return reaction(comp, [P*pv(p, x) for p in herm_c(L)])
    return reaction(comp, [P*pv(dpoly(p), x) for p in herm_c(L)])

def dist(comp, w1, w2, x1, x2, L):
    """x = x1 + t d, 0 <= t <= 1"""
    d = x2 - x1
    def integ(p):
        # p(x1 + t d) as a polynomial in t by Taylor expansion
        q, f, g = [], 1, p
        k = 0
        while g:
            q.append(pv(g, x1)*d**k/f)
            g = dpoly(g); k += 1; f = f*k
        t = 0
        for k, c in enumerate(q):
            t = t + c*(w1/(k + 1) + (w2 - w1)/(k + 2))
        return t*d
    if d_is_zero(d): return [0]*12
    if comp == 'Fx': return reaction(comp, [integ([1, -1/L]), integ([0, 1/L])])
    return reaction(comp, [integ(p) for p in herm_c(L)])

def d_is_zero(d):
    return is0(d)

def local_components(direction, T):
    """local component name -> coefficient for a unit load in the direction"""
    if direction[1] in 'xyz': return {direction: 1}
    g = 'XYZ'.index(direction[1])
    return {direction[0] + AX[a]: T[a, g] for a in range(3)}

def spec_fer(m, factors, T, L):
    tot = np.zeros((12, 1))
    for case, fac in factors.items():
        for ld in m.PtLoads:
            if ld[3] == case:
                for dr in PT:
                    if ld[0] == dr:
                        for comp, c in local_components(dr, T).items():
                            e = point(comp, fac*c*ld[1], ld[2], L)
                            for i in range(12): tot[i, 0] = tot[i, 0] + e[i]
        for ld in m.DistLoads:
            if ld[5] == case:
                for dr in DIST:
                    if ld[0] == dr:
                        for comp, c in local_components(dr, T).items():
                            e = dist(comp, fac*c*ld[1], fac*c*ld[2], ld[3], ld[4], L)
                            for i in range(12): tot[i, 0] = tot[i, 0] + e[i]
    return tot

def rot(h):
    """an orthonormal frame: symbols with the contract of Member3D.T (C03)"""
    T = np.zeros((12, 12))
    c = h.array('c', (3, 3))
    for a in range(12):
        for b in range(12):
            if a//3 == b//3: T[a, b] = c[a % 3, b % 3]
    return T

def amember(h):
    m_ = FakeModel()
    E = h.real('E', 'pos'); G = h.real('G', 'pos')
    m_.materials['M'] = Material('M', E, G, 0.3, 1)
    A = h.real('A', 'pos'); Iy = h.real('Iy', 'pos'); Iz = h.real('Iz', 'pos'); J = h.real('J', 'pos')
    L = h.real('L', 'pos', 0.5, 20) if not h.symbolic else h.real('L', 'pos')
    m = Member3D('M1', Node3D('i', 0, 0, 0), Node3D('j', L, 0, 0), 'M', m_, Iy, Iz, J, A)
    T = rot(h)
    h.patch(m, 'T', lambda: T.copy())
    return m, m_, L, T, beam_k(E, G, A, Iy, Iz, J, L)

def pick(h, b, opts):
    if h.symbolic:
        t = h.name('dir:' + b)
        c = t == opts[0]
        for o in opts[1:]: c = h.either(c, t == o)
        h.assume(c)
        return t
    return h.choice('dir:' + b, opts)

def loads(h, m, L, which='pd'):
    def pt(b): return (pick(h, b, PT), h.real('P:' + b), h.real('x:' + b, 'nonneg', 0, L), h.name('case:' + b))
    def ds(b):
        x1 = h.real('x1:' + b, 'nonneg', 0, L)
        return (pick(h, b, DIST), h.real('w1:' + b), h.real('w2:' + b), x1, h.real('x2:' + b, 'nonneg', x1, L), h.name('case:' + b))
    m.PtLoads = h.seq('pt', pt) if 'p' in which else []
    m.DistLoads = h.seq('dl', ds) if 'd' in which else []

def combo(h, m_):
    fs = h.dict('factors', lambda b: (h.name('fcase:' + b), h.real('factor:' + b)))
    m_.load_combos['C'] = Combo('C', fs)
    m_.load_combos['X'] = Combo('X', {'zz': 3})
    return fs

def uncondensed(which):
    def f(h):
        m, m_, L, T, k = amember(h)
        loads(h, m, L, which)
        fs = combo(h, m_)
        h.cover('pre')
        got = m._fer_unc('C')
        exp = spec_fer(m, fs, T, L)
        h.eqs('fer', got, exp, None if h.symbolic else 10*(1 + L))
    return f

def condensed(h):
    """releases are condensed out of the fixed end reactions exactly as out of the stiffness"""
    m, m_, L, T, k = amember(h)
    rel = [False]*12
    for a in h.choice('relz', PLANE): rel[[1, 5, 7, 11][a]] = True
    for a in h.choice('rely', PLANE): rel[[2, 4, 8, 10][a]] = True
    for a in h.choice('relx', [[], [0], [1]]): rel[[0, 6][a]] = True
    for a in h.choice('relt', [[], [0], [1]]): rel[[3, 9][a]] = True
    m.Releases = list(rel)
    fr = h.array('f', (12, 1))
    seen = []
    def stub(c='Combo 1'):
        seen.append(c)
        return fr.copy()
    h.patch(m, '_fer_unc', stub)
    h.cover('pre')
    got = m.fer('C')
    h.check('combo', seen == ['C'])
    h.check('shape', got.shape == (12, 1))
    exp = condense_f(k, [fr[i, 0] for i in range(12)], rel)
    sc = 0 if h.symbolic else max(abs(float(v)) for v in fr.flat)*(1 + L + 1/L)
    for i in range(12):
        h.eq('fer[%d]' % i, got[i, 0], exp[i], sc)
        if rel[i]: h.eq('no-force-at-release[%d]' % i, got[i, 0], 0, sc)

PLANE = [[], [0], [1], [2], [3], [1, 3], [0, 1], [0, 3], [1, 2], [2, 3]]

# ------------------------------------------------------------------ entry points that record loads
def model2(h):
    fm = FEModel3D()
    h.check('fresh-model-is-unsolved', fm.solution is None)
    E = h.real('E', 'pos')
    fm.add_material('mat', E, h.real('G', 'pos'), 0.3, h.real('rho', 'pos'))
    fm.add_material('mat2', E, h.real('G2', 'pos'), 0.3, h.real('rho2', 'pos'))
    L = h.real('L', 'pos')
    fm.add_node('N1', 0, 0, 0); fm.add_node('N2', L, 0, 0); fm.add_node('N3', 0, 2*L, 0)
    fm.add_member('M1', 'N1', 'N2', 'mat', h.real('Iy', 'pos'), h.real('Iz', 'pos'), h.real('J', 'pos'), h.real('A', 'pos'))
    fm.add_member('M2', 'N1', 'N3', 'mat2', 1, 1, 1, h.real('A2', 'pos'))
    return fm, L

def add_loads(h):
    fm, L = model2(h)
    ds = h.choice('d', PT)
    P = h.real('P'); x = h.real('x', 'nonneg', 0, L)
    fm.solution = 'Linear'
    fm.add_member_pt_load('M1', ds, P, x, 'c1')
    h.check('pt-resets-solution', fm.solution is None)
    fm.add_member_pt_load('M1', ds, 2*P, x)
    p = fm.members['M1'].PtLoads
    h.check('pt-count', len(p) == 2 and len(fm.members['M2'].PtLoads) == 0)
    h.check('pt-dir', p[0][0] == ds and p[1][0] == ds)
    h.eq('pt-P', p[0][1], P); h.eq('pt-x', p[0][2], x); h.check('pt-case', p[0][3] == 'c1' and p[1][3] == 'Case 1')
    h.eq('pt-P2', p[1][1], 2*P)
    dd = h.choice('dd', DIST)
    w1, w2 = h.real('w1'), h.real('w2')
    x1 = h.real('x1', 'nonneg', 0, L); x2 = h.real('x2', 'nonneg', x1, L)
    fm.solution = 'Linear'
    fm.add_member_dist_load('M1', dd, w1, w2, x1, x2, 'c2')
    h.check('dist-resets-solution', fm.solution is None)
    fm.add_member_dist_load('M1', dd, w1, w2)
    fm.add_member_dist_load('M1', dd, w1, w2, x1)
    fm.add_member_dist_load('M1', dd, w1, w2, None, x2)
    q = fm.members['M1'].DistLoads
    h.check('dist-count', len(q) == 4 and len(fm.members['M2'].DistLoads) == 0)
    want = [(x1, x2, 'c2'), (0, L, 'Case 1'), (x1, L, 'Case 1'), (0, x2, 'Case 1')]
    for i, (a, b, c) in enumerate(want):
        h.check('dist-dir%d' % i, q[i][0] == dd)
        h.eq('dist-w1%d' % i, q[i][1], w1); h.eq('dist-w2%d' % i, q[i][2], w2)
        h.eq('dist-x1%d' % i, q[i][3], a); h.eq('dist-x2%d' % i, q[i][4], b)
        h.check('dist-case%d' % i, q[i][5] == c)

def add_self_weight(h):
    fm, L = model2(h)
    g = h.choice('g', ['FX', 'FY', 'FZ'])
    f = h.real('f')
    fm.add_section('sec', Section(h.real('sA', 'pos'), h.real('sIy', 'pos'), h.real('sIz', 'pos'), h.real('sJ', 'pos'), 'mat'))  if sec_ok(h) else None
    fm.add_member_dist_load('M2', 'Fy', 1, 2, 0, L, 'old')
    fm.solution = 'Linear'
    fm.add_member_self_weight(g, f, 'D')
    h.check('resets-solution', fm.solution is None)
    for n, A, rho, ln, k in (('M1', fm.members['M1'].A, fm.materials['mat'].rho, L, 1), ('M2', fm.members['M2'].A, fm.materials['mat2'].rho, 2*L, 2)):
        q = fm.members[n].DistLoads
        h.check(n + '-one-load-per-member', len(q) == k)
        ld = q[-1]
        h.check(n + '-dir', ld[0] == g and ld[5] == 'D')
        h.eq(n + '-w1', ld[1], f*A*rho); h.eq(n + '-w2', ld[2], f*A*rho)
        h.eq(n + '-x1', ld[3], 0); h.eq(n + '-x2', ld[4], ln)
        h.check(n + '-no-pt', len(fm.members[n].PtLoads) == 0)
    # default case
    fm.add_member_self_weight(g, f)
    h.check('default-case', fm.members['M1'].DistLoads[-1][5] == 'Case 1')

def sec_ok(h): return False

def bad_dirs(h):
    fm, L = model2(h)
    def rejects(fn, n):
        try:
            fn()
        except Exception:
            h.check(n, True)
            return
        h.check(n, False, 'invalid direction accepted')
    for bad in ('FXX', 'fy', 'X', '', 'MW'):
        rejects(lambda: fm.add_member_pt_load('M1', bad, 1, 0), 'pt-reject')
        rejects(lambda: fm.add_node_load('N1', bad, 1), 'node-reject')
    for bad in ('Mx', 'My', 'Mz', 'MX', 'MY', 'MZ', 'x'):
        rejects(lambda: fm.add_member_dist_load('M1', bad, 1, 1), 'dist-reject')
    for bad in ('Fx', 'Fy', 'Fz', 'Mx', 'DX'):
        rejects(lambda: fm.add_node_load('N1', bad, 1), 'node-reject')
    h.check('nothing-recorded', len(fm.members['M1'].PtLoads) == 0 and len(fm.members['M1'].DistLoads) == 0 and len(fm.nodes['N1'].NodeLoads) == 0)

def node_loads(h):
    fm, L = model2(h)
    d = h.choice('d', ['FX', 'FY', 'FZ', 'MX', 'MY', 'MZ'])
    P = h.real('P')
    fm.solution = 'Linear'
    fm.add_node_load('N1', d, P, 'w')
    h.check('resets-solution', fm.solution is None)
    fm.add_node_load('N1', d, 2*P)
    n = fm.nodes['N1'].NodeLoads
    h.check('recorded', len(n) == 2 and n[0][0] == d and n[0][2] == 'w' and n[1][2] == 'Case 1' and len(fm.nodes['N2'].NodeLoads) == 0)
    h.eq('P', n[0][1], P); h.eq('P2', n[1][1], 2*P)

M_ = 'PyNite.Member3D.Member3D.'
F_ = 'PyNite.FEModel3D.FEModel3D.'
FE = ['PyNite.FixedEndReactions.' + n for n in ('FER_PtLoad', 'FER_Moment', 'FER_LinLoad', 'FER_AxialPtLoad', 'FER_AxialLinLoad', 'FER_Torque')]
UNITS = [UNIT('point-loads', uncondensed('p'), [M_ + '_fer_unc'] + FE, runs=80), UNIT('dist-loads', uncondensed('d'), [M_ + '_fer_unc'] + FE, runs=80),
         UNIT('all-loads', uncondensed('pd'), [M_ + '_fer_unc'] + FE, runs=80, sym='thorough'),
         UNIT('releases', condensed, [M_ + 'fer', M_ + '_partition', M_ + '_partition_D'], runs=80),
         UNIT('record-member-loads', add_loads, [F_ + 'add_member_pt_load', F_ + 'add_member_dist_load']),
         UNIT('self-weight', add_self_weight, [F_ + 'add_member_self_weight']),
         UNIT('invalid-directions', bad_dirs, [F_ + 'add_member_pt_load', F_ + 'add_member_dist_load', F_ + 'add_node_load'], runs=3),
         UNIT('node-loads', node_loads, [F_ + 'add_node_load'])]
