"""C05: internal force diagrams are those demanded by equilibrium of the part of the member left of the section."""
import numpy as np
from contracts.members import *

def left_of(h, m, factors, T, X):
    """resultant of the applied loads left of X: [Fx, Fy, Fz, Mx, My, Mz] with moments taken about the section X"""
    r = np.zeros(6)
    for case, fac in factors.items():
        for ld in m.PtLoads:
            if ld[3] == case:
                if ld[2] < X:
                    for dr in PT:
                        if ld[0] == dr:
                            for comp, c in local_components(dr, T).items():
                                P = fac*c*ld[1]
                                add_force(r, comp, P, P*(X - ld[2]))
        for ld in m.DistLoads:
            if ld[5] == case:
                if ld[3] < X:
                    for dr in DIST:
                        if ld[0] == dr:
                            for comp, c in local_components(dr, T).items():
                                w1, w2, x1, x2 = fac*c*ld[1], fac*c*ld[2], ld[3], ld[4]
                                if X < x2:
                                    wX = w1 + (w2 - w1)*(X - x1)/(x2 - x1)
                                    add_force(r, comp, (w1 + wX)/2*(X - x1), (X - x1)**2*(2*w1 + wX)/6)
                                else:
                                    d = x2 - x1
                                    add_force(r, comp, (w1 + w2)/2*d, d*((X - x1)*(w1 + w2)/2 - d*(w1/6 + w2/3)))
    return r

def add_force(r, comp, F, M):
    """M: first moment of a transverse force about the section"""
    if comp == 'Fx': r[0] = r[0] + F
    elif comp == 'Fy':
        r[1] = r[1] + F
        r[5] = r[5] - M            # +y force at distance d left of the section: moment about z is -F d
    elif comp == 'Fz':
        r[2] = r[2] + F
        r[4] = r[4] + M
    elif comp == 'Mx': r[3] = r[3] + F
    elif comp == 'My': r[4] = r[4] + F
    elif comp == 'Mz': r[5] = r[5] + F

def intensities(m, factors, T, xa, xb):
    """local load intensities [x at xa, x at xb, y.., z..] on the stretch between xa and xb, which no load starts or ends inside"""
    r = np.zeros(6)
    for case, fac in factors.items():
        for ld in m.DistLoads:
            if ld[5] == case:
                if ld[3] <= xa:
                    if ld[4] > xa:
                        for dr in DIST:
                            if ld[0] == dr:
                                for comp, c in local_components(dr, T).items():
                                    w1, w2, x1, x2 = fac*c*ld[1], fac*c*ld[2], ld[3], ld[4]
                                    a = 2*'xyz'.index(comp[1])
                                    r[a] = r[a] + w1 + (w2 - w1)*(xa - x1)/(x2 - x1)
                                    r[a + 1] = r[a + 1] + w1 + (w2 - w1)*(xb - x1)/(x2 - x1)
    return r

def at_point(m, factors, T, X):
    """resultant of the point loads acting exactly at X"""
    r = np.zeros(6)
    for case, fac in factors.items():
        for ld in m.PtLoads:
            if ld[3] == case:
                if ld[2] == X:
                    for dr in PT:
                        if ld[0] == dr:
                            for comp, c in local_components(dr, T).items(): add_force(r, comp, fac*c*ld[1], 0)
    return r

def segment_forces(h, m, fs, T, f, xa, xb):
    """internal forces just right of xa and load intensities from xa to xb, in the sign conventions of the segments: dicts for the z, y, x lists"""
    r = left_of(h, m, fs, T, xa) + at_point(m, fs, T, xa)
    w = intensities(m, fs, T, xa, xb)
    Z = {'P1': f[0, 0] + r[0], 'V1': f[1, 0] + r[1], 'M1': f[5, 0] - f[1, 0]*xa + r[5], 'w1': w[2], 'w2': w[3], 'p1': w[0], 'p2': w[1]}
    Y = {'P1': None, 'V1': f[2, 0] + r[2], 'M1': f[4, 0] + f[2, 0]*xa + r[4], 'w1': w[4], 'w2': w[5], 'p1': None, 'p2': None}
    return Z, Y, {'T1': f[3, 0] + r[3]}

ATTRS = [('P1', 'V1', 'M1', 'w1', 'w2', 'p1', 'p2', 'theta1', 'delta1', 'delta_x1'), ('P1', 'V1', 'M1', 'w1', 'w2', 'p1', 'p2', 'theta1', 'delta1', 'delta_x1'), ('T1',)]

def any_segments(h, m, fs, T, f, L, more=None, of_forces=None):
    """any number of segments: the contract of the loop that completes them one after another (None: nothing is claimed of the attribute)"""
    pts = h.any_points(0, L)
    def of(which):
        def spec(gl, k, xa, xb):
            forces = segment_forces(h, m, fs, T, f, xa, xb)[which] if of_forces is None or of_forces[which] else {}
            d = {a: forces.get(a) if of_forces is None or a in of_forces[which] else None for a in ATTRS[which]}
            if more is not None:
                e = more(which, xa)
                for a in e: d[a] = e[a]
            return d
        return spec
    m.SegmentsZ = h.completed_list('Z', pts, of(0))
    m.SegmentsY = h.completed_list('Y', pts, of(1))
    m.SegmentsX = h.completed_list('X', pts, of(2))
    return pts

def setup(h, nseg, which):
    m, m_, L, T, k = amember(h)
    if h.symbolic and nseg is not None:
        inner = [h.real('a%d' % i, 'pos') for i in range(nseg - 1)]
        prev = 0
        for p in inner:
            h.assume(p > prev); prev = p
        h.assume(L > prev)
        h.sorted_points([0] + inner + [L])
    loads(h, m, L, which)
    fs = combo(h, m_)
    f = h.array('f', (12, 1)); d = h.array('d', (12, 1)); fr = h.array('fr', (12, 1))
    asked = []
    h.patch(m, 'f', lambda c='Combo 1': (asked.append(c), f.copy())[1])
    h.patch(m, '_fer_unc', lambda c='Combo 1': (asked.append(c), fr.copy())[1])
    h.patch(m, 'd', lambda c='Combo 1': (asked.append(c), d.copy())[1])
    return m, m_, L, T, k, fs, f, asked

def clear_of_jumps(h, m, X):
    """X is not the location of a point load (the diagram jumps there)"""
    for ld in m.PtLoads:
        h.assume(h.neg(ld[2] == X))
        if not h.symbolic: h.assume(abs(ld[2] - X) > 1e-6)

def forces(nseg, which, comps):
    def fn(h):
        m, m_, L, T, k, fs, f, asked = setup(h, nseg, which)
        X = h.real('X', 'nonneg', 0, L)
        if not h.symbolic: h.assume(L - X > 1e-6 or X == L)
        elif nseg is None:
            h.assume(X <= L)
            pts = any_segments(h, m, fs, T, f, L)
            h.locate(pts, X)
        h.cover('pre')
        m_.solution = h.choice('sol', ['Linear', None]) if not h.symbolic else 'Linear'
        got = {}
        # pieces are evaluated just inside: the diagram may jump at X only if a point load sits there
        if 'V' in comps:
            got['shear Fy'] = m.shear('Fy', X, 'C'); got['shear Fz'] = m.shear('Fz', X, 'C')
        if 'N' in comps:
            got['axial'] = m.axial(X, 'C'); got['torque'] = m.torque(X, 'C')
        if 'M' in comps:
            got['moment My'] = m.moment('My', X, 'C'); got['moment Mz'] = m.moment('Mz', X, 'C')
        h.check('for-the-requested-combination', set(asked) == {'C'})
        if not h.symbolic: clear_of_jumps(h, m, X)
        else: h.jump_free = X
        r = left_of_sym(h, m, fs, T, X) if h.symbolic else left_of(h, m, fs, T, X)
        exp = {'axial': f[0, 0] + r[0], 'shear Fy': f[1, 0] + r[1], 'shear Fz': f[2, 0] + r[2], 'torque': f[3, 0] + r[3],
               'moment My': -(f[4, 0] + f[2, 0]*X + r[4]), 'moment Mz': f[5, 0] - f[1, 0]*X + r[5]}
        for n in got:
            h.eq(n, got[n], exp[n], 30)
    return fn

def left_of_sym(h, m, fs, T, X):
    # "X is not at a point load" is a fact about every load: state it for the generic one
    if not isinstance(m.PtLoads, list):
        ld = m.PtLoads.elem(h.e, 0)
        h.assume(h.neg(ld[2] == X))
    return left_of(h, m, fs, T, X)

M_ = 'PyNite.Member3D.Member3D.'
S_ = 'PyNite.BeamSegZ.BeamSegZ.'
SY = 'PyNite.BeamSegY.BeamSegY.'
TG = [M_ + '_segment_member', M_ + 'shear', M_ + 'moment', M_ + 'axial', M_ + 'torque', S_ + 'Shear', S_ + 'moment', S_ + 'axial', S_ + 'Torsion', SY + 'moment']
def reach(n, name):
    if n is None: return {'standby': [name + '-%dseg' % k for k in (1, 2, 3)]}
    return {'bounded_text': 'bounded: %d segment%s (any number of loads on them)' % (n, 's' if n > 1 else '')}

UNITS = []
for n in (None, 1, 2, 3):
    for w in ('p', 'd'):
        for c in ('VN', 'M'):
            UNITS.append(UNIT('forces-%s-%s-%sseg' % (w, c, n or 'any'), forces(n, w, c), TG, runs=20, timeout=400, **reach(n, 'forces-%s-%s' % (w, c))))
UNITS.append(UNIT('forces-all', forces(1, 'pd', 'VNM'), TG, runs=150, sym=False, bounded_text='bounded: up to 3 point loads, 3 distributed loads, 3 factored cases'))
