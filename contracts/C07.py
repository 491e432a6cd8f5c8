"""C07: reported extremes bound the diagrams and are reached; result arrays agree with the pointwise results."""
import math
import numpy as np
from contracts.common import *
from contracts.members import amember
from PyNite.BeamSegZ import BeamSegZ
from PyNite.BeamSegY import BeamSegY

# ------------------------------------------------------------------ one segment
# A differentiable function is at most B on [0, L] if it is at most B at 0, at L and at every interior point where its derivative
# vanishes (lemmas/Extremum.lean). So `bounds` is proved at the ends and at an arbitrary interior critical point.
def segment(h, cls, name=''):
    s = cls()
    g = lambda n, k='real', *r: h.real(name + n, k, *r)
    s.x1 = g('x1', 'nonneg', 0, 5) if not h.symbolic else g('x1', 'nonneg')
    L = g('L', 'pos', 0.3, 10) if not h.symbolic else g('L', 'pos')
    s.x2 = s.x1 + L
    for a in ('w1', 'V1', 'M1', 'P1', 'p1', 'T1', 'theta1', 'delta1', 'delta_x1'): setattr(s, a, g(a))
    if h.symbolic: s.w2, s.p2 = g('w2'), g('p2')
    else:
        # nearly uniform loads are the numerically hard case
        for a in 'wp':
            v = getattr(s, a + '1')
            setattr(s, a + '2', h.choice(name + a, [g(a + '2'), v, np.nextafter(v, 9), v*(1 - 4e-16), -v, 0.0]))
        # an extremum inside the segment
        if h.choice(name + 'inside', [False, True]):
            x = L*h.real(name + 'at', 'pos', 0.05, 0.95)
            s.V1 = -s.w1*x - (s.w2 - s.w1)*x*x/(2*L)
    s.EI, s.EA = g('EI', 'pos'), g('EA', 'pos')
    return s, L

def near(h, a, b, scale):
    return a == b if h.symbolic else abs(a - b) <= 1e-7*max(1, scale, abs(a), abs(b))

def extreme(cls, what):
    def fn(h):
        s, L = segment(h, cls)
        c = h.real('critical', 'pos')
        form = None
        if what == 'moment' and h.symbolic:
            # every shear polynomial of a segment has one of these forms (lemmas/Extremum.lean: quadratic_forms)
            h.merge_extremes()
            form = h.choice('shear', ['linear', 'two roots', 'no root'])
            if form == 'linear': s.w2 = s.w1
            else:
                al = h.real('alpha', 'pos')
                if h.choice('sign', [0, 1]): al = -al
                r1 = h.real('r1')
                if form == 'two roots':
                    r2 = r1 + h.real('gap', 'nonneg')
                    s.w1, s.V1 = -al*(r1 + r2), al*r1*r2
                else: s.w1, s.V1 = -2*al*r1, al*(r1**2 + h.real('k', 'pos'))
                s.w2 = s.w1 + 2*L*al
        w, d = (s.p1, s.p2 - s.p1) if what == 'axial' else (s.w1, s.w2 - s.w1)
        if what == 'shear': f, df, get = lambda x: s.V1 + s.w1*x + d*x**2/(2*L), (d/L, s.w1), s.Shear
        elif what == 'axial': f, df, get = lambda x: s.P1 + s.p1*x + d*x**2/(2*L), (d/L, s.p1), s.axial
        else:
            sg = 1 if cls is BeamSegZ else -1
            f, df, get = lambda x: sg*s.M1 - s.V1*x - s.w1*x**2/2 - d*x**3/(6*L), None, s.moment
        X = h.real('X', 'nonneg', 0, L)
        h.cover('pre')
        h.eq('value', get(X), f(X), 100)
        # critical points
        inside = lambda x: h.both(x >= 0, x <= L) if h.symbolic else -1e-9 <= x <= L + 1e-9
        tol = 0 if h.symbolic else 1e-7*(abs(f(0)) + abs(f(L)) + abs(s.M1) + abs(s.V1)*L + abs(w)*L*L + 1)
        cand = []
        if what == 'moment':
            a, b, e = -d/(2*L), -s.w1, -s.V1
            if form == 'two roots':
                cand += [r1, r2]
                c = h.choice('root', cand)
            elif form == 'no root': pass
            elif a == 0:
                if b != 0:
                    cand.append(-e/b)
                    if form: c = cand[0]
            else:
                disc = b**2 - 4*a*e
                if disc >= 0:
                    cand += [-(b + math.copysign(disc**0.5, b))/(2*a)] + ([-2*e/(b + math.copysign(disc**0.5, b))] if b or disc else [])
        else:
            h.symbolic and h.assume(df[0]*c + df[1] == 0)
            if d != 0: cand.append(-w*L/d)
        for name, up in (('max_', 1), ('min_', -1)):
            v = getattr(s, name + what)()
            h.check(name + 'bounds-start', up*(v - f(0)) >= -tol)
            h.check(name + 'bounds-end', up*(v - f(L)) >= -tol)
            if h.symbolic:
                if cand: h.check(name + 'bounds-critical', h.either(h.either(c <= 0, c >= L), up*(v - f(c)) >= 0))
            else:
                for k in range(21): h.check(name + 'bounds', up*(v - f(L*k/20)) >= -tol)
                for r in cand:
                    if 0 <= r <= L: h.check(name + 'bounds-critical', up*(v - f(r)) >= -tol)
            ok = h.either(near(h, v, f(0), tol*1e7), near(h, v, f(L), tol*1e7))
            for r in cand: ok = h.either(ok, h.both(inside(r), near(h, v, f(r), tol*1e7)))
            h.check(name + 'reached', ok)
    return fn

def torsion(h):
    s, L = segment(h, BeamSegZ)
    h.cover('pre')
    h.eq('max', s.MaxTorsion(), s.T1); h.eq('min', s.MinTorsion(), s.T1); h.eq('value', s.Torsion(), s.T1)

# ------------------------------------------------------------------ the member
LISTS = {('shear', 'Fy'): 'SegmentsZ', ('shear', 'Fz'): 'SegmentsY', ('moment', 'Mz'): 'SegmentsZ', ('moment', 'My'): 'SegmentsY', ('axial',): 'SegmentsZ', ('torque',): 'SegmentsX'}
EXT = {'shear': ('max_shear', 'min_shear', 'Shear', 'V1'), 'moment': ('max_moment', 'min_moment', 'moment', 'M1'), 'axial': ('max_axial', 'min_axial', 'axial', 'P1'), 'torque': ('MaxTorsion', 'MinTorsion', 'Torsion', 'T1')}

def member(h, m_active=True):
    m, m_, L, T, k = amember(h)
    m_.solution = 'Linear' if h.symbolic else h.choice('solution', ['Linear', None])
    m.active = {'C': m_active, 'X': True}
    m_.load_combos = {'C': Combo('C', {}), 'X': Combo('X', {})}
    calls = []
    h.patch(m, '_segment_member', lambda c='Combo 1': calls.append(c))
    m._solved_combo = m_.load_combos[h.choice('segmented for', ['X', 'C'])] if h.choice('segmented', [False, True]) else None
    was = m._solved_combo
    def requested():
        h.check('segments-of-the-requested-combination', (calls == [] if was is m_.load_combos['C'] else calls == ['C']) and m._solved_combo is m_.load_combos['C'])
    return m, m_, L, requested

def member_extremes(q):
    def fn(h):
        """any number of segments; contract of the segments: their extremes, and the value at their start between these"""
        m, m_, L, requested = member(h)
        mx, mn, val, att = EXT[q[0]]
        def make(b):
            s = (BeamSegY if LISTS[q] == 'SegmentsY' else BeamSegZ)()
            s.hi, s.lo = h.real('hi:' + b), h.real('lo:' + b)
            h.assume(s.hi >= s.lo)
            st = h.real('st:' + b, 'real', s.lo, s.hi) if not h.symbolic else h.real('st:' + b)
            if h.symbolic: h.assume(st >= s.lo); h.assume(st <= s.hi)
            s.T1 = s.P1 = s.V1 = s.M1 = st
            for n, v in ((mx, s.hi), (mn, s.lo), (val, st)):
                setattr(s, n, (lambda v: lambda *a: v)(v))
            return s
        segs = h.seq('segments', make)
        if h.symbolic: h.assume(segs.n > 0)
        else: h.assume(len(segs) > 0)
        m.SegmentsX, m.SegmentsY, m.SegmentsZ = [h.unsupported] and None, None, None
        setattr(m, LISTS[q], segs)
        h.cover('pre')
        hi, lo = getattr(m, 'max_' + q[0])(*q[1:], 'C'), getattr(m, 'min_' + q[0])(*q[1:], 'C')
        requested()
        top = bottom = False
        for s in segs:
            h.check('max bounds', hi >= s.hi)
            h.check('min bounds', lo <= s.lo)
        first = segs[0]
        h.check('max bounds first', hi >= first.hi)
        h.check('min bounds first', lo <= first.lo)
        for s in segs:
            if hi == s.hi: top = True
        for s in segs:
            if lo == s.lo: bottom = True
        h.check('max reached', h.either(top, hi == first.hi))
        h.check('min reached', h.either(bottom, lo == first.lo))
    return fn

def deflection_extremes(h):
    """over the sampled positions L i/99"""
    m, m_, L, requested = member(h)
    q = h.choice('direction', ['dx', 'dy', 'dz'])
    seen = []
    def defl(d, x, c='Combo 1'):
        seen.append((d, c))
        return h.fn('defl:' + d + c, x)
    h.patch(m, 'deflection', defl)
    h.symbolic_ranges(50)
    h.cover('pre')
    for name, up in (('max_deflection', 1), ('min_deflection', -1)):
        v = getattr(m, name)(q, 'C')
        reached = False
        for i in range(100):
            h.check(name + ' bounds', up*(v - h.fn('defl:' + q + 'C', L*i/99)) >= 0)
        for i in range(100):
            if v == h.fn('defl:' + q + 'C', L*i/99): reached = True
        h.check(name + ' reached', h.either(reached, v == h.fn('defl:' + q + 'C', 0)))

def inactive(h):
    m, m_, L, requested = member(h, False)
    x = h.real('x', 'nonneg', 0, L)
    for n in ('SegmentsX', 'SegmentsY', 'SegmentsZ'):
        s, l = segment(h, BeamSegY if n[-1] == 'Y' else BeamSegZ, n)
        s.x1, s.x2 = 0, L
        setattr(m, n, [s])
    h.patch(m, 'd', lambda c='Combo 1': h.array('d', (12, 1)))
    h.cover('pre')
    for q in list(LISTS) + [('deflection', 'dy'), ('deflection', 'dz')]:
        h.eq('max ' + ' '.join(q), getattr(m, 'max_' + q[0])(*q[1:], 'C'), 0)
        h.eq('min ' + ' '.join(q), getattr(m, 'min_' + q[0])(*q[1:], 'C'), 0)
    for q in ARR:
        h.eq(' '.join(q), getattr(m, q[0])(*q[1:], x, 'C'), 0)
        r = getattr(m, q[0] + '_array')(*q[1:], 2, 'C')
        for a in range(2): h.eq('%s array %d' % (' '.join(q), a), r[1][a], 0)

ARR = [('shear', 'Fy'), ('shear', 'Fz'), ('moment', 'My'), ('moment', 'Mz'), ('torque',), ('axial',), ('deflection', 'dx'), ('deflection', 'dy'), ('deflection', 'dz'), ('rel_deflection', 'dy'), ('rel_deflection', 'dz')]

def arrays(nseg, npt, which):
    def fn(h):
        """each entry of an array equals the pointwise result at its position"""
        m, m_, L, requested = member(h)
        cuts = [0]
        for a in range(nseg - 1):
            if h.symbolic:
                c = h.real('c%d' % a, 'pos'); h.assume(c > cuts[-1]); cuts.append(c)
            else: cuts.append(L*(a + h.choice('c%d' % a, [1/3, 0.5, h.real('u%d' % a, 'pos', 0.1, 0.9)]))/(nseg - 1))
        if nseg > 1: h.assume(L > cuts[-1])
        cuts.append(L)
        if not h.symbolic:
            # positions whose last digits matter when they are rounded
            k = h.choice('scale', [1, 1e3, 1e5])
            L = L*k; m.j_node.X = L; cuts = [c*k for c in cuts[:-1]] + [m.L()]; L = m.L()
        for n in ('SegmentsX', 'SegmentsY', 'SegmentsZ'):
            l = []
            for a in range(nseg):
                s, _ = segment(h, BeamSegY if n[-1] == 'Y' else BeamSegZ, '%s%d' % (n, a))
                s.x1, s.x2 = cuts[a], cuts[a + 1]
                l.append(s)
            setattr(m, n, l)
        d = h.array('d', (12, 1))
        h.patch(m, 'd', lambda c='Combo 1': d.copy())
        given = h.choice('given', [False, True])
        q = ARR[h.choice('query', [i for i in range(len(ARR)) if ARR[i][0] in which])]
        if given:
            xs = []
            for a in range(npt):
                if h.symbolic:
                    x = h.real('x%d' % a, 'nonneg'); h.assume(x <= L)
                    if xs: h.assume(x >= xs[-1])
                else: x = h.choice('x%d' % a, cuts + [h.real('v%d' % a, 'nonneg', 0, L)])
                xs.append(x)
            if not h.symbolic: xs.sort()
            given_x = np.array(xs)
        h.cover('pre')
        f = getattr(m, q[0] + '_array')
        r = f(*q[1:], npt, 'C', given_x) if given else f(*q[1:], npt, 'C')
        requested()
        h.check('shape', tuple(np.shape(r)) == (2, npt))
        for a in range(npt):
            if given: h.eq('x[%d]' % a, r[0][a], xs[a])
            else: h.eq('x[%d]' % a, r[0][a], L*a/(npt - 1))
            x = xs[a] if given else (r[0][a] if h.symbolic else float(r[0][a]))
            want = getattr(m, q[0])(*q[1:], x, 'C')
            h.eq('%s[%d]' % (' '.join(q), a), r[1][a], want, 1)
    return fn

def outside(h):
    """positions off the member are refused"""
    m, m_, L, requested = member(h)
    q = h.choice('query', ARR)
    h.patch(m, 'd', lambda c='Combo 1': h.array('d', (12, 1)))
    bad = h.choice('bad', [0, 1])
    x = L + h.real('over', 'pos') if bad else -h.real('under', 'pos')
    h.cover('pre')
    ok = False
    try: getattr(m, q[0] + '_array')(*q[1:], 1, 'C', np.array([x]))
    except ValueError: ok = True
    h.check('refused', ok)

def whole(h):
    """a member with any loads: extremes against a dense sample of the pointwise results"""
    from contracts.members import loads, combo
    from contracts.C05 import setup
    m, m_, L, T, k, fs, f, asked = setup(h, 1, 'pd')
    m_.solution = 'Linear'
    h.patch(m, 'fer', lambda c='Combo 1': h.array('fc', (12, 1)))
    h.patch(m, '_fer_unc', lambda c='Combo 1': h.array('fu', (12, 1)))
    for q in LISTS:
        hi, lo = getattr(m, 'max_' + q[0])(*q[1:], 'C'), getattr(m, 'min_' + q[0])(*q[1:], 'C')
        vals = [getattr(m, q[0])(*q[1:], L*k/200, 'C') for k in range(201)]
        sc = 1e-7*(1 + max(abs(v) for v in vals))
        h.check('max ' + ' '.join(q), hi >= max(vals) - sc)
        h.check('min ' + ' '.join(q), lo <= min(vals) + sc)
        # not far beyond the sample: the diagrams are Lipschitz between jumps
    for q in ('dx', 'dy', 'dz'):
        vals = [m.deflection(q, L*k/99, 'C') for k in range(100)]
        h.eq('max ' + q, m.max_deflection(q, 'C'), max(vals)); h.eq('min ' + q, m.min_deflection(q, 'C'), min(vals))
    n = h.choice('n', [2, 7, 31])
    for q in ARR:
        r = getattr(m, q[0] + '_array')(*q[1:], n, 'C')
        for a in range(n):
            h.eq('%s array' % ' '.join(q), r[1][a], getattr(m, q[0])(*q[1:], r[0][a], 'C'), 1e-3)

M_ = 'PyNite.Member3D.Member3D.'
Z_, Y_ = 'PyNite.BeamSegZ.BeamSegZ.', 'PyNite.BeamSegY.BeamSegY.'
LEMMAS = ['Extremum.lean']
UNITS = []
for q in ('shear', 'axial', 'moment'): UNITS.append(UNIT('segment-%s' % q, extreme(BeamSegZ, q), [Z_ + e + q for e in ('max_', 'min_')] + [Z_ + {'shear': 'Shear', 'axial': 'axial', 'moment': 'moment'}[q], Z_ + 'Length'], runs=150))
UNITS.append(UNIT('segment-moment-y', extreme(BeamSegY, 'moment'), [Y_ + 'max_moment', Y_ + 'min_moment', Y_ + 'moment'], runs=150))
UNITS.append(UNIT('segment-torsion', torsion, [Z_ + 'MaxTorsion', Z_ + 'MinTorsion', Z_ + 'Torsion'], runs=5))
for q in LISTS: UNITS.append(UNIT('extremes-' + '-'.join(q), member_extremes(q), [M_ + 'max_' + q[0], M_ + 'min_' + q[0]], runs=20))
UNITS.append(UNIT('deflection-extremes', deflection_extremes, [M_ + 'max_deflection', M_ + 'min_deflection'], runs=10))
UNITS.append(UNIT('inactive', inactive, [M_ + x + q[0] for q in ARR for x in ('',)] + [M_ + q[0] + '_array' for q in ARR], runs=5))
for k, n in ((1, 3), (2, 3), (3, 2)):
    for w in (('shear',), ('moment',), ('torque', 'axial'), ('deflection',), ('rel_deflection',)):
        UNITS.append(UNIT('arrays-%s-%dseg' % (w[0], k), arrays(k, n, w), [M_ + '_extract_vector_results'] + [M_ + a + x for a in w for x in ('', '_array')], runs=15, bounded_text='symbolic segments and positions; bounded: %d segments, %d positions' % (k, n)))
UNITS.append(UNIT('outside', outside, [M_ + q[0] + '_array' for q in ARR], runs=10))
UNITS.append(UNIT('whole', whole, [M_ + x + q[0] for q in LISTS for x in ('max_', 'min_', '')], runs=150, sym=False, bounded_text='bounded: up to 3 point loads, 3 distributed loads, 3 factored cases; 201 positions'))
