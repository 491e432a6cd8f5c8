"""C22: P-Delta analysis solves equilibrium on the geometrically stiffened structure."""
import numpy as np
from contracts.common import *
from contracts import models
from contracts.C02 import member, releases, PLANE_OPTS
from contracts.C10 import Ghost, loadvec
from PyNite import Analysis
from PyNite.FEModel3D import FEModel3D

DOF = models.DOF

def beam_kg(P, A, Iy, Iz, L):
    """consistent geometric stiffness: P times the integral of N_a' N_b' for the cubic shape functions of both planes
    (tension positive), P (Iy + Iz)/A times that of the linear twist, nothing axially"""
    k = [[0]*12 for _ in range(12)]
    c = [[0, 0, -3/L**2, 2/L**3], [0, 1, -2/L, 1/L**2], [0, 0, 3/L**2, -2/L**3], [0, 0, -1/L, 1/L**2]]
    d = [[p[1], 2*p[2], 3*p[3]] for p in c]
    def ip(p, q):
        t = 0
        for a in range(3):
            for b in range(3):
                t = t + p[a]*q[b]*L**(a + b + 1)/(a + b + 1)
        return t
    s = [1, -1, 1, -1]
    for a, i in enumerate([1, 5, 7, 11]):
        for b, j in enumerate([1, 5, 7, 11]): k[i][j] = P*ip(d[a], d[b])
    for a, i in enumerate([2, 4, 8, 10]):
        for b, j in enumerate([2, 4, 8, 10]): k[i][j] = P*ip(d[a], d[b])*s[a]*s[b]
    t = P*(Iy + Iz)/(A*L)
    k[3][3] = k[9][9] = t; k[3][9] = k[9][3] = -t
    return k

def mag(h, k): return 0 if h.symbolic else max([abs(x) for r in k for x in r] + [1e-9])

def kg_unreleased(h):
    m, k, L = member(h, False)
    P = h.real('P')
    kg = beam_kg(P, m.A, m.Iy, m.Iz, L)
    h.cover('pre')
    h.eqs('kg', m.kg(P), kg, mag(h, kg))

def kg_zero(h):
    m, k, L = member(h, False)
    rel = releases(h, 'zt'); m.Releases = list(rel)
    h.cover('pre')
    h.eqs('no axial force, no geometric stiffness', m.kg(0), [[0]*12 for _ in range(12)])
    h.eqs('default', m.kg(), [[0]*12 for _ in range(12)])

def kg_released(which):
    def fn(h):
        m, k, L = member(h)
        rel = releases(h, which); m.Releases = list(rel)
        P = h.real('P')
        h.assume(h.neg(P == 0))
        if not h.symbolic: h.assume(abs(P) > 1e-3)
        h.cover('pre')
        got = m.kg(P)
        kg = beam_kg(P, m.A, m.Iy, m.Iz, L)
        if rel[0] or rel[6]: want = [[0]*12 for _ in range(12)]
        else: want = condense_k(kg, rel)
        mg = mag(h, kg)
        h.eqs('kg', got, want, mg)
        for i in range(12):
            for j in range(12):
                h.eq('symmetric', got[i, j], got[j, i], mg)
                if rel[i]: h.eq('released-dof-carries-no-force', got[i, j], 0, mg)
    return fn

# ------------------------------------------------------------------ the iteration
def step(sparse):
    def fn(h):
        I1, I2, N = h.dofs()
        n1, n2 = len(I1), len(I2)
        D2 = h.matrix('D2', (n2, 1))
        m = FEModel3D()
        m.load_combos = {'C': Combo('C', {}), 'X': Combo('X', {})}
        # ver: activity of the one-way elements; level: 0 no displacements, 1 solved on K, 2 solved on K + Kg(displacements of level 1)
        g = Ghost(); g.ver = 0; g.level = 0; g.sver = -1; g.ok = False; g.n = 0; g.geo = 0; g.want = 0
        tag = 'coo' if sparse else 'dense'
        zero = h.zero_matrix((N, N), 'lil' if sparse else 'dense')
        def K(): return h.matrix_of('K', g.ver, (N, N), tag, True)
        def G(): return h.matrix_of('Kg', g.ver, (N, N), 'lil' if sparse else 'dense')
        cs = h.choice('cs', [True, False])
        def callK(c='Combo 1', log=False, check_stability=True, sp=True):
            h.check('stiffness of the combination and format', c == 'C' and sp is sparse and check_stability is cs)
            return K()
        def callKg(c='Combo 1', log=False, sp=True, first_step=True):
            h.check('geometric stiffness of the combination and format', c == 'C' and sp is sparse)
            if first_step:
                g.geo = 0
                return zero
            # Kg needs displacements that were solved with the present activity
            h.check('axial forces of a solved state', h.both(g.level >= 1, g.sver == g.ver))
            g.geo = 1
            return G()
        h.patch(m, 'K', callK); h.patch(m, 'Kg', callKg)
        P, F = loadvec(h, 'P', 'C', N), loadvec(h, 'F', 'C', N)
        P1, F1 = h.rows(P, I1), h.rows(F, I1)
        def store(mm, D1, D2_, i1, i2, combo):
            h.check('stored with the indices of the model', mm is m and i1 is I1 and i2 is I2 and D2_ is D2 and combo is m.load_combos['C'])
            h.check('D1 has one column', h.both(D1.shape[0] == n1, D1.shape[1] == 1))
            first = g.geo == 0
            g.level = 1 if first else 2
            g.sver = g.ver
            if not h.symbolic and n1 == 0: return
            if h.empty_matrix(D1):
                h.check('nothing to solve', n1 == 0)
                return
            a, k = h.position('a', n1), h.position('k', n1)
            Kx, Gx = K(), (zero if first else G())
            if h.symbolic:
                eqs = h.e.solutions
                h.check('solved', len(eqs) >= 1)
                A, b, nm = eqs[-1]
                h.check('stored what was solved', (D1[a, 0] - h.fn(nm, a)) == 0)
                h.eq('matrix of the equations', A[a, k], Kx[h.at(I1, a), h.at(I1, k)] + Gx[h.at(I1, a), h.at(I1, k)])
                s = h.total(n2, lambda j: (Kx[h.at(I1, a), h.at(I2, j)] + Gx[h.at(I1, a), h.at(I2, j)])*D2[j, 0])
                h.eq('right side of the equations', b[a, 0], P[h.at(I1, a), 0] - F[h.at(I1, a), 0] - s)
            else:
                T = h.dense(Kx) + h.dense(Gx)
                r = h.at(I1, a)
                s = sum(T[r, i]*D1[j, 0] for j, i in enumerate(I1)) + sum(T[r, i]*D2[j, 0] for j, i in enumerate(I2))
                h.eq('equilibrium', s, P[r, 0] - F[r, 0], 20)
        def undo(mm, D1, D2_, i1, i2, combo):
            h.check('only for displacements that are given up', h.neg(g.ok))
            g.level = 0
        h.patch(Analysis, '_store_displacements', store)
        h.patch(Analysis, '_sum_displacements', undo)
        def tc(mm, c='Combo 1', log=True, spring_tolerance=0, member_tolerance=0):
            h.check('judged for the combination', mm is m and c == 'C')
            h.check('judged on the displacements of the present activity', h.both(g.level >= 1, g.sver == g.ver))
            g.n = g.n + 1
            ok = h.flag('tc%s' % g.n)
            if not ok: g.ver = g.ver + 1
            g.ok = ok
            return ok
        h.patch(Analysis, '_check_TC_convergence', tc)
        mx = h.int('max_iter', 'pos', 1, 3)
        g.fails = 0
        h.cover('pre')
        def inv(loc):
            pd, itc = loc['iter_count_PD'], loc['iter_count_TC']
            c = loc['convergence_TC']
            return [('P-Delta count', h.either(pd == 1, h.either(pd == 2, pd == 3))),
                    ('no divergence', h.neg(loc['divergence_TC'])),
                    ('iteration count', h.both(itc >= 1, itc <= mx)),
                    ('first pass', h.either(h.neg(pd == 1), h.neg(c))),
                    ('second pass', h.either(h.neg(pd == 2), h.both(h.both(c, g.level == 1), g.sver == g.ver))),
                    ('done', h.either(h.neg(pd == 3), h.both(h.both(c, g.level == 2), g.sver == g.ver))),
                    ('converged as judged', h.either(h.neg(c), g.ok))]
        def havoc(loc, new):
            g.ver = h.int('ver', 'nonneg'); g.sver = h.int('sver'); g.level = h.int('level', 'nonneg'); g.ok = h.bool('ok')
            g.n = h.int('done', 'nonneg'); g.geo = h.int('geo', 'nonneg')
        h.while_inv(inv, havoc)
        raised = None
        try:
            Analysis._PDelta_step(m, 'C', P1, F1, I1, I2, D2, False, sparse, cs, mx, True)
        except Exception as ex:
            internal(ex)
            raised = str(ex)
        if raised is not None:
            h.check('refuses only without convergence', h.neg(g.ok), raised)
            return
        h.check('solved twice: on K, then on K + Kg of the first solution', h.both(g.level == 2, g.sver == g.ver))
        h.check('one-way elements converged', g.ok)
        h.check('solution flag', m.solution == 'P-Delta')
    return fn

def driver(h):
    """analyze_PDelta: every requested combination is handed to the step with its own loads"""
    I1, I2, N = h.dofs()
    D2 = h.matrix('D2', (len(I2), 1))
    m = FEModel3D()
    combos = h.seq('combos', lambda b: Combo(h.name('cn:' + b), {}))
    tags = ['t']
    log = []
    h.patch(m, 'P', lambda c='Combo 1': loadvec(h, 'P', c, N))
    h.patch(m, 'FER', lambda c='Combo 1': loadvec(h, 'F', c, N))
    h.patch(Analysis, '_prepare_model', lambda mm: log.append('prepare'))
    h.patch(Analysis, '_partition_D', lambda mm: (log.append('partition'), (I1, I2, D2))[1])
    h.patch(Analysis, '_identify_combos', lambda mm, t=None: (h.check('tags', t is tags), combos)[1])
    h.patch(Analysis, '_calc_reactions', lambda mm, log_=False, t=None: (h.check('tags of reactions', t is tags), log.append('reactions'))[1])
    cs, sp = h.choice('cs', [True, False]), h.choice('sparse', [True, False])
    mx = h.int('max_iter', 'pos', 1, 3)
    seen = h.once_each('every combination is solved', combos, lambda c: c.name)
    def stepf(mm, c, P1, FER1, i1, i2, d2, log=True, sparse=True, check_stability=False, max_iter=30, first_step=True):
        h.check('first step of the analysis', first_step == True)
        h.check('options', h.both(sparse is sp and check_stability is cs, max_iter == mx))
        h.check('partition', mm is m and i1 is I1 and i2 is I2 and d2 is D2)
        if not h.symbolic and len(I1) == 0: seen(c); return
        a = h.position('a', len(I1))
        h.eq('nodal loads of the combination', P1[a, 0], loadvec(h, 'P', c, N)[h.at(I1, a), 0])
        h.eq('fixed end reactions of the combination', FER1[a, 0], loadvec(h, 'F', c, N)[h.at(I1, a), 0])
        seen(c)
    h.patch(Analysis, '_PDelta_step', stepf)
    h.cover('pre')
    m.analyze_PDelta(False, cs, mx, sp, tags)
    h.check('solution flag', m.solution == 'P-Delta')
    h.check('order', log[:2] == ['prepare', 'partition'] and log[-1] == 'reactions')
    h.check_calls('every combination is solved', seen, combos, lambda c: c.name)

# ------------------------------------------------------------------ whole models
def full_kg(m, c):
    """independent assembly from the end displacements of the first-order solution"""
    N = 6*len(m.nodes)
    Kg = np.zeros((N, N))
    for p in m.members.values():
        if not p.active[c]: continue
        for s in p.sub_members.values():
            d = s.d(c)[:, 0]
            P = s.E*s.A/s.L()*(d[6] - d[0])
            idx = [s.i_node.ID*6 + i for i in range(6)] + [s.j_node.ID*6 + i for i in range(6)]
            rel = list(s.Releases)
            k = np.zeros((12, 12)) if rel[0] or rel[6] or abs(P) < 1e-9 else np.array(condense_k(beam_kg(P, s.A, s.Iy, s.Iz, s.L()), rel), dtype=float)
            T = s.T()
            Kg[np.ix_(idx, idx)] += T.T @ k @ T
    return Kg

def whole(h):
    import pickle
    m = models.frame(h, plates=True, combos=2)
    b = pickle.dumps(m)
    first = pickle.loads(b)
    first.analyze_linear(check_stability=False)
    sp = h.choice('sparse', [True, False])
    D = {}
    for c in first.load_combos:
        K = first.K(c, False, False, False); G = full_kg(first, c)
        from PyNite.Analysis import _partition_D
        i1, i2, d2 = _partition_D(first)
        if not i1: continue
        T = K + G
        A = T[np.ix_(i1, i1)]
        w = np.linalg.eigvalsh((A + A.T)/2)
        h.assume(w[0] > 1e-4*w[-1]*1e-2 and w[0] > 0)
        x = np.linalg.solve(A, (first.P(c) - first.FER(c))[i1] - T[np.ix_(i1, i2)] @ d2)
        D[c] = np.zeros((len(K), 1)); D[c][i1] = x; D[c][i2] = d2
        # axial forces of the order that changes the answer, so that a wrong Kg shows
    m.analyze_PDelta(sparse=sp, check_stability=h.choice('cs', [True, False]))
    for c in D:
        sc = float(np.abs(D[c]).max()) + 1e-6
        for n in m.nodes.values():
            for i, d in enumerate(DOF):
                h.eq('displacement ' + d, getattr(n, d)[c], D[c][n.ID*6 + i, 0], sc*1e3)
    # no axial forces: the first-order result
    a = pickle.loads(b)
    for mem in a.members.values(): mem.PtLoads = []; mem.DistLoads = []
    for n in a.nodes.values(): n.NodeLoads = []
    f = pickle.loads(pickle.dumps(a))
    a.analyze_PDelta(sparse=sp, check_stability=False)
    f.analyze_linear(sparse=sp, check_stability=False)
    if all(getattr(n, 'Enforced' + d) in (None, 0.0) for n in a.nodes.values() for d in DOF):
        for nm, n in a.nodes.items():
            for d in DOF:
                for c in a.load_combos: h.eq('first-order result without axial force', getattr(n, d)[c], getattr(f.nodes[nm], d)[c], 1e-3)

A_ = 'PyNite.Analysis.'
M_ = 'PyNite.Member3D.Member3D.'
UNITS = [UNIT('kg', kg_unreleased, [M_ + 'kg'], runs=60), UNIT('kg-zero', kg_zero, [M_ + 'kg'], runs=60),
         UNIT('kg-released-z-axial', kg_released('zx'), [M_ + 'kg', M_ + '_partition', M_ + '_partition_D'], runs=80),
         UNIT('kg-released-y-torsion', kg_released('yt'), [M_ + 'kg', M_ + '_partition', M_ + '_partition_D'], runs=80)]
for sp in (True, False):
    UNITS.append(UNIT('step-%s' % ('sparse' if sp else 'dense'), step(sp), [A_ + '_PDelta_step'], runs=60))
UNITS.append(UNIT('driver', driver, ['PyNite.FEModel3D.FEModel3D.analyze_PDelta'], runs=40))
UNITS.append(UNIT('whole-model', whole, ['PyNite.FEModel3D.FEModel3D.analyze_PDelta'], runs=120, sym=False, bounded_text='bounded: frames of up to 5 nodes and 6 members'))
