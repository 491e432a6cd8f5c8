"""C06: first-order deflection curves are compatible with end displacements, loads and end moments."""
import numpy as np
from contracts.members import *
from contracts.C04 import point, dist
from contracts.C05 import setup, any_segments, reach

# w'' = -M/EI, so with I(X) the integral over the part left of X of (X - s) M(s) ds the curve through both displaced nodes is
#   w(X) = d_i + (d_j - d_i) X/L - (I(X) - X/L I(L))/EI
# I(X) is written by Macaulay brackets, one term per action on the left of X.
def bracket_sums(m, factors, T, X):
    """[Iy, Iz, J] of the applied loads left of X (J: integral of the axial force)"""
    r = np.zeros(3)
    for case, fac in factors.items():
        for ld in m.PtLoads:
            if ld[3] == case:
                if ld[2] < X:
                    for dr in PT:
                        if ld[0] == dr:
                            for comp, c in local_components(dr, T).items():
                                P, u = fac*c*ld[1], X - ld[2]
                                if comp == 'Fy': r[0] = r[0] - P*u**3/6
                                elif comp == 'Mz': r[0] = r[0] + P*u**2/2
                                elif comp == 'Fz': r[1] = r[1] - P*u**3/6
                                elif comp == 'My': r[1] = r[1] - P*u**2/2
                                elif comp == 'Fx': r[2] = r[2] + P*u
        for ld in m.DistLoads:
            if ld[5] == case:
                if ld[3] < X:
                    for dr in DIST:
                        if ld[0] == dr:
                            for comp, c in local_components(dr, T).items():
                                w1, w2, x1, x2 = fac*c*ld[1], fac*c*ld[2], ld[3], ld[4]
                                u = X - x1
                                wX = w1 + (w2 - w1)*u/(x2 - x1)
                                g, a = u**4*(4*w1 + wX)/120, u**2*(2*w1 + wX)/6
                                if x2 < X:
                                    v = X - x2
                                    g, a = g - v**4*(4*w2 + wX)/120, a - v**2*(2*w2 + wX)/6
                                if comp == 'Fy': r[0] = r[0] - g
                                elif comp == 'Fz': r[1] = r[1] - g
                                elif comp == 'Fx': r[2] = r[2] + a
    return r

def slope_sums(m, factors, T, X):
    """derivative of the first two bracket sums"""
    r = np.zeros(2)
    for case, fac in factors.items():
        for ld in m.PtLoads:
            if ld[3] == case:
                if ld[2] < X:
                    for dr in PT:
                        if ld[0] == dr:
                            for comp, c in local_components(dr, T).items():
                                P, u = fac*c*ld[1], X - ld[2]
                                if comp == 'Fy': r[0] = r[0] - P*u**2/2
                                elif comp == 'Mz': r[0] = r[0] + P*u
                                elif comp == 'Fz': r[1] = r[1] - P*u**2/2
                                elif comp == 'My': r[1] = r[1] - P*u
        for ld in m.DistLoads:
            if ld[5] == case:
                if ld[3] < X:
                    for dr in DIST:
                        if ld[0] == dr:
                            for comp, c in local_components(dr, T).items():
                                w1, w2, x1, x2 = fac*c*ld[1], fac*c*ld[2], ld[3], ld[4]
                                u = X - x1
                                wX = w1 + (w2 - w1)*u/(x2 - x1)
                                g = u**3*(3*w1 + wX)/24
                                if x2 < X:
                                    v = X - x2
                                    g = g - v**3*(3*w2 + wX)/24
                                if comp == 'Fy': r[0] = r[0] - g
                                elif comp == 'Fz': r[1] = r[1] - g
    return r

def totals(m, factors, T, L, rows):
    """fixed-end reactions (exact, C01/C04) in the given rows, and moment of all loads about the j end: [.., about y, about z]"""
    r = np.zeros(len(rows) + 2)
    for case, fac in factors.items():
        for ld in m.PtLoads:
            if ld[3] == case:
                for dr in PT:
                    if ld[0] == dr:
                        for comp, c in local_components(dr, T).items():
                            P = fac*c*ld[1]
                            e = point(comp, P, ld[2], L)
                            for a, i in enumerate(rows): r[a] = r[a] + e[i]
                            if comp == 'Fy': r[-1] = r[-1] - P*(L - ld[2])
                            elif comp == 'Fz': r[-2] = r[-2] + P*(L - ld[2])
                            elif comp == 'Mz': r[-1] = r[-1] + P
                            elif comp == 'My': r[-2] = r[-2] + P
        for ld in m.DistLoads:
            if ld[5] == case:
                for dr in DIST:
                    if ld[0] == dr:
                        for comp, c in local_components(dr, T).items():
                            w1, w2, x1, x2 = fac*c*ld[1], fac*c*ld[2], ld[3], ld[4]
                            e = dist(comp, w1, w2, x1, x2, L)
                            for a, i in enumerate(rows): r[a] = r[a] + e[i]
                            M = (x2 - x1)*((w1 + w2)/2*(L - x1) - (x2 - x1)*(w1 + 2*w2)/6)
                            if comp == 'Fy': r[-1] = r[-1] - M
                            elif comp == 'Fz': r[-2] = r[-2] + M
    return r

ROWS = {'dy': [5, 11], 'dz': [4, 10], 'dx': [0]}

def curve_at(m, fs, T, d, f, L, stiff, X, IL):
    I = bracket_sums(m, fs, T, X)
    def curve(di, dj, EI, IX, IL_):
        return di + (dj - di)*X/L - (IX - X/L*IL_)/EI
    exp = {}
    exp['dy'] = curve(d[1, 0], d[7, 0], stiff[0], f[5, 0]*X**2/2 - f[1, 0]*X**3/6 + I[0], f[5, 0]*L**2/2 - f[1, 0]*L**3/6 + IL[0])
    exp['dz'] = curve(d[2, 0], d[8, 0], stiff[1], -f[4, 0]*X**2/2 - f[2, 0]*X**3/6 + I[1], -f[4, 0]*L**2/2 - f[2, 0]*L**3/6 + IL[1])
    exp['dx'] = curve(d[0, 0], d[6, 0], stiff[2], f[0, 0]*X + I[2], f[0, 0]*L + IL[2])
    return exp

def slope_at(m, fs, T, d, f, L, stiff, X, IL):
    D = slope_sums(m, fs, T, X)
    return {'dy': (d[7, 0] - d[1, 0])/L - (f[5, 0]*X - f[1, 0]*X**2/2 + D[0] - (f[5, 0]*L/2 - f[1, 0]*L**2/6 + IL[0]/L))/stiff[0],
            'dz': (d[8, 0] - d[2, 0])/L - (-f[4, 0]*X - f[2, 0]*X**2/2 + D[1] - (-f[4, 0]*L/2 - f[2, 0]*L**2/6 + IL[1]/L))/stiff[1]}

USED = {'dy': (('V1', 'M1', 'w1', 'w2'), (), ()), 'dz': ((), ('V1', 'M1', 'w1', 'w2'), ()), 'dx': (('P1', 'p1', 'p2'), (), ())}

def curves(nseg, which, comps):
    def fn(h):
        m, m_, L, T, k, fs, f, asked = setup(h, nseg, which)
        E = m_.materials['M'].E
        EIz, EIy, EA = E*m.Iz, E*m.Iy, E*m.A
        d = m.d('C')
        # contracts of the functions called: the fixed-end reactions are exact (C01, C04), the end forces are in equilibrium with the
        # loads (C02, C04), and the axial end force follows from stiffness (C02)
        rows = [i for n in comps for i in ROWS[n]]
        t = totals(m, fs, T, L, rows)
        fr = h.array('fr', (12, 1))
        for a, i in enumerate(rows): fr[i, 0] = t[a]
        if 'dy' in comps: f[1, 0] = (f[5, 0] + f[11, 0] + t[-1])/L
        if 'dz' in comps: f[2, 0] = -(f[4, 0] + f[10, 0] + t[-2])/L
        if 'dx' in comps: f[0, 0] = EA/L*(d[0, 0] - d[6, 0]) + fr[0, 0]
        h.patch(m, '_fer_unc', lambda c='Combo 1': (asked.append(c), fr.copy())[1])
        # rotational end releases in any pattern; the condensed reactions may then be anything
        for i in (4, 5, 10, 11): m.Releases[i] = h.bool('rel%d' % i)
        h.patch(m, 'fer', lambda c='Combo 1': h.array('fc', (12, 1)))
        X = h.real('X', 'nonneg', 0, L)
        if not h.symbolic: h.assume(L - X > 1e-6 or X == L)
        elif nseg is None:
            h.assume(X <= L)
            stiff, n = (EIz, EIy, EA), comps[0]
            IL = bracket_sums(m, fs, T, L)
            def more(which, xa):
                if which != (1 if n == 'dz' else 0): return {}
                w = curve_at(m, fs, T, d, f, L, stiff, xa, IL)[n]
                if n == 'dx': return {'delta_x1': w}
                th = slope_at(m, fs, T, d, f, L, stiff, xa, IL)[n]
                return {'delta1': w, 'theta1': th if n == 'dy' else -th}
            pts = any_segments(h, m, fs, T, f, L, more, USED[n])
            h.locate(pts, X)
        h.cover('pre')
        m_.solution = 'Linear' if h.symbolic else h.choice('sol', ['Linear', None])
        got, rel = {}, {}
        for n in comps:
            got[n] = m.deflection(n, X, 'C')
            if n != 'dx': rel[n] = m.rel_deflection(n, X, 'C')
        h.check('for-the-requested-combination', set(asked) == {'C'})
        exp = curve_at(m, fs, T, d, f, L, (EIz, EIy, EA), X, bracket_sums(m, fs, T, L))
        for n in comps:
            h.eq('deflection ' + n, got[n], exp[n], 30*(1 + L)**4/(EIz if n == 'dy' else EIy if n == 'dz' else EA))
        for n in rel:
            i = 1 if n == 'dy' else 2
            h.eq('relative deflection ' + n, rel[n], exp[n] - (d[i, 0] + (d[i + 6, 0] - d[i, 0])*X/L), 30*(1 + L)**4/(EIz if n == 'dy' else EIy))
    return fn

def end_slopes(h):
    """without rotational releases the curve leaves both nodes with the rotation of the node"""
    m, m_, L, T, k = amember(h)
    d = h.array('d', (12, 1)); fr = h.array('fr', (12, 1))
    f = np.zeros((12, 1))
    for i in range(12):
        t = fr[i, 0]
        for j in range(12):
            t = t + k[i][j]*d[j, 0]
        f[i, 0] = t
    h.patch(m, 'f', lambda c='Combo 1': f.copy())
    h.patch(m, '_fer_unc', lambda c='Combo 1': fr.copy())
    h.patch(m, 'fer', lambda c='Combo 1': fr.copy())
    h.patch(m, 'd', lambda c='Combo 1': d.copy())
    m_.load_combos['C'] = Combo('C', {})
    h.sorted_points([0, L])
    h.cover('pre')
    m_.solution = 'Linear'
    h.eq('starts-at-node y', m.deflection('dy', 0, 'C'), d[1, 0])
    h.eq('starts-at-node z', m.deflection('dz', 0, 'C'), d[2, 0])
    h.eq('starts-at-node x', m.deflection('dx', 0, 'C'), d[0, 0])
    h.eq('slope z', m.SegmentsZ[0].slope(0), d[5, 0], 10)
    h.eq('slope y', m.SegmentsY[0].slope(0), d[4, 0], 10)

def inactive(h):
    m, m_, L, T, k, fs, f, asked = setup(h, 1, '')
    m.active = {'C': False, 'X': True}
    h.cover('pre')
    for n in ('dx', 'dy', 'dz'): h.eq(n, m.deflection(n, 0, 'C'), 0)

M_ = 'PyNite.Member3D.Member3D.'
S_ = 'PyNite.BeamSegZ.BeamSegZ.'
SY = 'PyNite.BeamSegY.BeamSegY.'
TG = [M_ + '_segment_member', M_ + 'deflection', M_ + 'rel_deflection', S_ + 'deflection', S_ + 'slope', S_ + 'AxialDeflection', SY + 'deflection', SY + 'slope']
UNITS = [UNIT('end-slopes', end_slopes, TG, runs=40)]
for n in (None, 1, 2, 3):
    for w in ('p', 'd'):
        for c in ('dy', 'dz', 'dx'):
            UNITS.append(UNIT('curve-%s-%s-%sseg' % (w, c, n or 'any'), curves(n, w, [c]), TG, runs=10, timeout=500, **reach(n, 'curve-%s-%s' % (w, c))))
UNITS.append(UNIT('curves-all', curves(1, 'pd', ['dx', 'dy', 'dz']), TG, runs=150, sym=False, bounded_text='bounded: up to 3 point loads, 3 distributed loads, 3 factored cases'))
