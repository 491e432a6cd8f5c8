"""C10: solved displacements satisfy supports, enforced values and equilibrium."""
import numpy as np
from contracts.common import *
from contracts import models
from PyNite import Analysis
from PyNite.FEModel3D import FEModel3D
from PyNite.Node3D import Node3D

DOF = ['DX', 'DY', 'DZ', 'RX', 'RY', 'RZ']

class ANode:
    pass

def nodes(h, make, n=3):
    """nodes numbered without repetition"""
    if h.symbolic:
        h.distinct('ID:')
        return h.dict('nodes', make)
    d = {}
    ids = [0, 1, 2, 3, 4][:h.int('nn', 'nonneg', 1, n)]
    r = h.int('idperm', 'nonneg', 0, 5)
    for i in range(len(ids)):
        b, nd = make('nodes#%d' % i)
        nd.ID = ids[(i + r) % len(ids)]
        d[b] = nd
    return d

def ident(h, b): return h.int('ID:' + b)

def partition_D(h):
    (x,) = h.probe('x')
    def make(b):
        n = ANode(); n.ID = ident(h, b)
        for d in DOF:
            setattr(n, 'support_' + d, h.bool('sup%s:%s' % (d, b)))
            setattr(n, 'Enforced' + d, h.opt('enf%s:%s' % (d, b)))
        return b, n
    m = FakeModel(); m.nodes = nodes(h, make)
    h.cover('pre')
    I1, I2, D2 = Analysis._partition_D(m)
    t1 = t2 = t3 = 0
    for i, d in enumerate(DOF):
        for n in m.nodes.values():
            v = getattr(n, 'Enforced' + d)
            if v is not None:
                t2 = t2 + h.iverson(n.ID*6 + i == x)
                t3 = t3 + h.iverson(n.ID*6 + i == x)*float(v)
            elif getattr(n, 'support_' + d):
                t2 = t2 + h.iverson(n.ID*6 + i == x)
            else:
                t1 = t1 + h.iverson(n.ID*6 + i == x)
    h.eq('unknown-dofs', h.tally(I1, x), t1)
    h.eq('known-dofs', h.tally(I2, x), t2)
    h.eq('known-values', h.tally(I2, x, D2), t3)
    if not h.symbolic: h.check('shape of D2', D2.shape == (len(I2), 1))

def partition(tag):
    def fn(h):
        I1, I2, N = h.dofs()
        n1, n2 = len(I1), len(I2)
        m = FakeModel()
        M = h.matrix('M', (N, N), tag); V = h.matrix('V', (N, 1))
        h.cover('pre')
        m11, m12, m21, m22 = Analysis._partition(m, M, I1, I2)
        v1, v2 = Analysis._partition(m, V, I1, I2)
        ref = [(m11, I1, I1, n1, n1), (m12, I1, I2, n1, n2), (m21, I2, I1, n2, n1), (m22, I2, I2, n2, n2)]
        for t, (A, I, J, n, k) in enumerate(ref):
            h.check('shape%d' % t, h.both(A.shape[0] == n, A.shape[1] == k))
            if not h.symbolic and (n == 0 or k == 0): continue
            a, b = h.position('a%d' % t, n), h.position('b%d' % t, k)
            h.eq('block%d' % t, A[a, b], M[h.at(I, a), h.at(J, b)] if tag != 'coo' else 0)
        for t, (v, I, n) in enumerate([(v1, I1, n1), (v2, I2, n2)]):
            h.check('vshape%d' % t, h.both(v.shape[0] == n, v.shape[1] == 1))
            if not h.symbolic and n == 0: continue
            a = h.position('c%d' % t, n)
            h.eq('vector%d' % t, v[a, 0], V[h.at(I, a), 0])
    return fn

def lookup(h, x, I1, I2, D1, D2):
    if x in I2: return D2[I2.index(x), 0]
    return D1[I1.index(x), 0]

def unpartition(h):
    (p,) = h.probe('p')
    def make(b):
        n = ANode(); n.ID = ident(h, b)
        return b, n
    m = FakeModel(); m.nodes = nodes(h, make)
    I1, I2, N = h.dofs() if h.symbolic else h.dofs(6*len(m.nodes))
    n1, n2 = len(I1), len(I2)
    D1, D2 = h.matrix('D1', (n1, 1)), h.matrix('D2', (n2, 1))
    h.cover('pre')
    if not h.symbolic and n1 == 0: D1 = []
    D = Analysis._unpartition_disp(m, D1, D2, I1, I2)
    if not h.symbolic:
        h.check('shape', D.shape == (N, 1))
        h.assume(p < N)
    t = 0
    for n in m.nodes.values():
        for i in range(6):
            x = n.ID*6 + i
            if x == p: t = t + lookup(h, x, I1, I2, D1, D2)
    h.eq('entry of the displacement vector', h.entry(D, (p,)), t)

def storing(name, summed):
    def fn(h):
        def make(b):
            n = ANode(); n.ID = ident(h, b)
            for d in DOF:
                setattr(n, d, {'C': h.real('old%s:%s' % (d, b)), 'X': h.real('x%s:%s' % (d, b))})
            n.old = {d: dict(getattr(n, d)) for d in DOF}
            return b, n
        m = FakeModel(); m.nodes = nodes(h, make)
        I1, I2, N = h.dofs() if h.symbolic else h.dofs(6*len(m.nodes))
        D1, D2 = h.matrix('D1', (len(I1), 1)), h.matrix('D2', (len(I2), 1))
        D = h.matrix('D', (N, 1)); D0 = h.matrix('D0', (N, 1)); DX = h.matrix('DX', (N, 1))
        seen = []
        h.patch(Analysis, '_unpartition_disp', lambda mm, a, b, i, j: (seen.append((mm is m, a is D1, b is D2, i is I1, j is I2)), D)[1])
        m._D = {'X': DX}
        if summed: m._D['C'] = D0
        D0c = D0.copy()
        h.cover('pre')
        getattr(Analysis, name)(m, D1, D2, I1, I2, Combo('C', {}))
        h.check('arguments', len(seen) == 1 and all(seen[0]))
        a = h.position('a', N)
        h.eq('model vector', m._D['C'][a, 0], D[a, 0] + (D0c[a, 0] if summed else 0))
        h.check('other combination', m._D['X'] is DX)
        for n in m.nodes.values():
            for i, d in enumerate(DOF):
                v = getattr(n, d)
                h.eq(d, v['C'], D[n.ID*6 + i, 0] + (n.old[d]['C'] if summed else 0))
                h.eq(d + ' of another combination', v['X'], n.old[d]['X'])
    return fn

class Ghost:
    _nowalk = True

def solution(h, g, m, I1, I2, N, D2, K, sparse):
    """stub with the contract of _store_displacements as precondition: what is stored solves the partitioned equations of the combination"""
    n1, n2 = len(I1), len(I2)
    def store(mm, D1, D2_, i1, i2, combo):
        h.check('stored with the indices of the model', mm is m and i1 is I1 and i2 is I2 and D2_ is D2)
        c = combo.name
        g.stored[str(c)] = g.ver
        g.count[str(c)] = g.count.get(str(c), 0) + 1
        if not h.symbolic and n1 == 0:
            h.check('nothing to solve', len(D1) == 0)
            return
        if isinstance(D1, list):
            h.check('nothing to solve', h.both(len(D1) == 0, n1 == 0))
            return
        h.check('D1 has one column', h.both(D1.shape[0] == n1, D1.shape[1] == 1))
        P, F = loadvec(h, 'P', c, N), loadvec(h, 'F', c, N)
        a = h.position('a', n1)
        if h.symbolic:
            # contract of the equation solver: A X = b at every row
            eqs = h.e.solutions
            h.check('solved once', len(eqs) >= 1)
            A, b, nm = eqs[-1]
            h.check('stored what was solved', (D1[a, 0] - h.fn(nm, a)) == 0)
            Kx = K(c)
            k = h.position('k', n1)
            h.eq('matrix of the equations', A[a, k], Kx[h.at(I1, a), h.at(I1, k)])
            s = h.total(n2, lambda j: Kx[h.at(I1, a), h.at(I2, j)]*D2[j, 0])
            h.eq('right side of the equations', b[a, 0], P[h.at(I1, a), 0] - F[h.at(I1, a), 0] - s)
        else:
            Kx = K(c)
            if hasattr(Kx, 'toarray'): Kx = Kx.toarray()
            r = h.at(I1, a)
            s = sum(Kx[r, i]*D1[j, 0] for j, i in enumerate(I1)) + sum(Kx[r, i]*D2[j, 0] for j, i in enumerate(I2))
            h.eq('equilibrium', s, P[r, 0] - F[r, 0], 20)
    return store

def loadvec(h, nm, combo, N): return h.matrix_of('%s:%s' % (nm, combo), 0, (N, 1))

def analysis(kind, sparse):
    def fn(h):
        I1, I2, N = h.dofs()
        n1, n2 = len(I1), len(I2)
        D2 = h.matrix('D2', (n2, 1))
        m = FEModel3D()
        g = Ghost(); g.ver = 0; g.n = 0; g.stored = {}; g.count = {}; g.done = {}; g.log = []
        tag = 'coo' if sparse else 'dense'
        first = Combo('first', {})
        combos = h.seq('combos', lambda b: Combo(h.name('cn:' + b), {}))
        m.load_combos = {'first': first}
        tags = ['t']
        if kind == 'linear':
            K = lambda c: h.matrix_of('K', 0, (N, N), tag, True)
        else:
            K = lambda c: h.matrix_of('K:%s' % c, g.ver, (N, N), tag, True)
        def callK(combo_name='Combo 1', log=False, check_stability=True, sp=True):
            h.check('stiffness format', sp is sparse)
            g.log.append('K')
            return K(combo_name)
        h.patch(m, 'K', callK)
        h.patch(m, 'P', lambda c='Combo 1': loadvec(h, 'P', c, N))
        h.patch(m, 'FER', lambda c='Combo 1': loadvec(h, 'F', c, N))
        h.patch(Analysis, '_prepare_model', lambda mm: g.log.append('prepare'))
        h.patch(Analysis, '_partition_D', lambda mm: (g.log.append('partition'), (I1, I2, D2))[1])
        h.patch(Analysis, '_identify_combos', lambda mm, t=None: (h.check('tags', t is tags), combos)[1])
        h.patch(Analysis, '_store_displacements', solution(h, g, m, I1, I2, N, D2, K, sparse))
        h.patch(Analysis, '_calc_reactions', lambda mm, log=False, t=None: (h.check('tags of reactions', t is tags), g.log.append('reactions'))[1])
        def tc(mm, c='Combo 1', log=True, spring_tolerance=0, member_tolerance=0):
            h.check('tolerances', spring_tolerance == 0.25 and member_tolerance == 0.5)
            h.check('convergence judged on the stored displacements', g.stored.get(str(c)) == g.ver)
            g.n = g.n + 1
            ok = h.bool('tc%s:%s' % (len(g.log), c)) if h.symbolic else h.bool('tc%s:%d' % (c, g.n))
            if h.symbolic: ok = True if ok else False
            if not ok: g.ver = g.ver + 1
            g.ok = ok
            g.done[str(c)] = (ok, g.n)
            if ok and not h.symbolic: g.n = 0
            return ok
        h.patch(Analysis, '_check_TC_convergence', tc)
        g.ok = False
        h.cover('pre')
        kw = dict(log=False, check_stability=h.choice('cs', [True, False]), sparse=sparse, combo_tags=tags)
        if kind == 'linear':
            m.analyze_linear(**kw)
            h.check('solution flag', m.solution == 'Linear')
        else:
            mx = h.int('max_iter', 'pos', 1, 3) if not h.symbolic else h.int('max_iter', 'pos')
            cn = lambda: 'cn'
            def inv(loc):
                c = str(loc['combo'].name)
                out = [('iteration count', h.both(loc['iter_count'] >= 1, loc['iter_count'] <= mx + 1)),
                       ('iterations done', loc['iter_count'] == g.n + 1),
                       ('no divergence', h.neg(loc['divergence'])),
                       ('converged means judged so', h.either(h.neg(loc['convergence']), g.ok)),
                       ('converged means solved with the final activity', h.either(h.neg(loc['convergence']), g.stored.get(c, -1) == g.ver))]
                g.conv = loc['convergence']
                return out
            def havoc(loc, new):
                g.ver = h.int('ver', 'nonneg'); g.n = h.int('done', 'nonneg'); g.ok = h.bool('ok')
                g.stored[str(loc['combo'].name)] = h.int('sv', 'nonneg')
            h.while_inv(inv, havoc)
            def end():
                h.check('combination ends converged', g.ok)
            h.iteration_end(end)
            raised = None
            try:
                m.analyze(spring_tolerance=0.25, member_tolerance=0.5, max_iter=mx, **kw)
            except Exception as ex:
                if type(ex).__name__ in ('Unsupported', 'Fail', 'Skip', 'PathEnd'): raise
                raised = str(ex)
            if raised is not None:
                h.check('refuses only after the iteration limit', g.n == mx, raised)
                return
            h.check('solution flag', m.solution == 'Linear TC')
            if not h.symbolic:
                h.check('all converged', all(v[0] for v in g.done.values()))
        h.check('order', g.log[:2] == ['prepare', 'partition'] and g.log[-1] == 'reactions')
        if not h.symbolic:
            h.check('every combination solved', set(g.stored) == set(str(c.name) for c in combos))
    return fn

def renumber(h):
    m = FakeModel()
    for fam in ('nodes', 'springs', 'plates', 'quads'):
        def make(b):
            o = ANode(); o.ID = h.int('oldID:' + b); return b, o
        setattr(m, fam, h.dict(fam, make))
    m.members = {}
    h.cover('pre')
    Analysis._renumber(m)
    for fam in ('nodes', 'springs', 'plates', 'quads'):
        for i, (b, o) in enumerate(getattr(m, fam).items()):
            h.eq(fam, o.ID, i)

def whole(h):
    m = models.frame(h)
    how, sp = models.solve(h, m)
    K = m.K('LC0', False, False, False)
    for c in m.load_combos:
        D = m.D(c)
        res = K @ D - (m.P(c) - m.FER(c))
        sc = float(np.abs(K).max()*max(np.abs(D).max(), 1e-6)) + 1
        for n in m.nodes.values():
            for i, d in enumerate(models.DOF):
                v = getattr(n, d)[c]
                enf = getattr(n, 'Enforced' + d)
                h.eq('reported %s' % d, v, D[n.ID*6 + i, 0])
                if enf is not None: h.eq('enforced ' + d, v, enf, 1e-6)
                elif getattr(n, 'support_' + d): h.eq('supported ' + d, v, 0, 1e-6)
                else: h.eq('equilibrium ' + d, res[n.ID*6 + i, 0], 0, sc)

A_ = 'PyNite.Analysis.'
M_ = 'PyNite.FEModel3D.FEModel3D.'
UNITS = [UNIT('partition-D', partition_D, [A_ + '_partition_D'], runs=60)]
for t in ('dense', 'lil', 'csr'): UNITS.append(UNIT('partition-' + t, partition(t), [A_ + '_partition'], runs=20))
UNITS += [UNIT('unpartition', unpartition, [A_ + '_unpartition_disp'], runs=60),
          UNIT('store', storing('_store_displacements', False), [A_ + '_store_displacements'], runs=30),
          UNIT('accumulate', storing('_sum_displacements', True), [A_ + '_sum_displacements'], runs=30),
          UNIT('renumber', renumber, [A_ + '_renumber'], runs=20)]
for k in ('linear', 'analyze'):
    for sp in (True, False):
        UNITS.append(UNIT('%s-%s' % (k, 'sparse' if sp else 'dense'), analysis(k, sp), [M_ + ('analyze_linear' if k == 'linear' else 'analyze')], runs=40))
UNITS.append(UNIT('whole-model', whole, [M_ + 'analyze', M_ + 'analyze_linear'], runs=150, sym=False, bounded_text='bounded: frames of up to 5 nodes and 6 members'))
