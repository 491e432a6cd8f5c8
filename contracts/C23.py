"""C23: unstable nodes are reported and refused, stable models are not, singular structures never yield displacements silently."""
import numpy as np
from contracts.common import *
from contracts import models, C09
from contracts.C10 import Ghost, loadvec
from PyNite import Analysis
from PyNite.FEModel3D import FEModel3D

DOF = models.DOF
WORDS = [('translation', 'X'), ('translation', 'Y'), ('translation', 'Z'), ('rotation', 'X'), ('rotation', 'Y'), ('rotation', 'Z')]

class ANode: pass

class Diag:
    """a stiffness matrix; the check may look at any of its diagonal terms"""
    _nowalk = True
    def __init__(self, h, N, f): self.h, self.shape, self.f = h, (N, N), f
    def __getitem__(self, ij):
        i, j = ij
        if i is not j and not (i == j) is True: raise self.h.unsupported('off-diagonal term of the stiffness')
        return self.f(i)
    def diagonal(self): raise self.h.unsupported('diagonal of an unbounded matrix')

def stability(kind):
    """stable: every unsupported degree of freedom has stiffness; unstable: one has neither"""
    def fn(h):
        m = FakeModel()
        names = {}
        if h.symbolic:
            sup = lambda i: h.fn('sup', i) > 0
            def make(b):
                o = ANode()
                o.ID = h.int('ID:' + b)
                o.name = h.name('name:' + b)
                for d in range(6): setattr(o, 'support_' + DOF[d], sup(6*o.ID + d))
                names[str(o.name)] = o
                return o.name, o
            m.nodes = h.dict('nodes', make)
            n = m.nodes.seq.n
            h.numbered(m.nodes.seq, lambda x: (x[1] if isinstance(x, tuple) else x).ID, n)
            N = 6*n
            kd = lambda i: h.fn('Kd', i)
            def look(i):
                if kind == 'stable': h.assume(h.either(h.neg(kd(i) == 0), sup(i)))
                return kd(i)
            K = Diag(h, N, look)
            unst = lambda i: h.both(kd(i) == 0, h.neg(sup(i)))
            i0 = h.int('i0'); h.assume(i0 < N)
            if kind == 'unstable':
                h.assume(unst(i0))
                h.exists_at(N, i0)
                h.exists_elem(m.nodes, h.int('ID:nodes#0') == i0//6)
        else:
            k = h.int('nodes', 'pos', 1, 4)
            order = list(range(k)); h.rng.shuffle(order)
            m.nodes = {}
            S = [[h.bool('s%d%d' % (i, d)) for d in range(6)] for i in range(k)]
            for j in range(k):
                o = ANode(); o.ID = j; o.name = 'nm%d' % order[j]
                for d in range(6): setattr(o, 'support_' + DOF[d], S[j][d])
                m.nodes[o.name] = o; names[o.name] = o
            D = []
            for i in range(6*k):
                z = h.bool('z%d' % i) and h.bool('y%d' % i)
                if kind == 'stable' and not S[i//6][i % 6]: z = False
                D.append(0.0 if z else h.real('d%d' % i, 'pos'))
            K = np.diag(D)
            if h.flag('sparse'):
                import scipy.sparse as sp
                K = sp.csr_matrix(K)
            bad = [i for i in range(6*k) if D[i] == 0 and not S[i//6][i % 6]]
            if kind == 'unstable': h.assume(len(bad) > 0)
        msgs = []
        h.patch(Analysis, 'print', lambda *a, **k: msgs.append(' '.join(str(x) for x in a)))
        def mentions(s, o, d): return str(o.name) in s and WORDS[d][0] in s and ' %s ' % WORDS[d][1] in s
        def end():
            for s in msgs:
                ok = False
                for o in names.values():
                    for d in range(6):
                        if mentions(s, o, d): ok = h.either(ok, unst(6*o.ID + d))
                h.check('only unstable nodes are named', ok, s)
            for i in h.current('range(%s)' % N):
                said = False
                for s in msgs:
                    for o in names.values():
                        for d in range(6):
                            if mentions(s, o, d): said = h.either(said, i == 6*o.ID + d)
                h.check('node and direction are named', h.either(h.neg(unst(i)), said), '%s' % msgs)
            h.cover('iteration')
            del msgs[:]
        if h.symbolic: h.iteration_end(end)
        h.cover('pre')
        raised = None
        try:
            Analysis._check_stability(m, K)
        except Exception as ex:
            internal(ex)
            raised = str(ex) or 'exception'
        h.check('refused exactly when unstable', (raised is not None) == (kind == 'unstable'), str(raised))
        if not h.symbolic:
            text = '\n'.join(msgs) + '\n' + str(raised)
            for i in range(6*k):
                o = [x for x in m.nodes.values() if x.ID == i//6][0]
                said = any(mentions(l + ' ', o, i % 6) for l in text.split('\n'))
                h.check('names exactly the unstable degrees of freedom', said == (i in bad), text)
    return fn

# ------------------------------------------------------------------ the refusal reaches the user
class Refused(Exception): pass

def setup(h, sparse):
    I1, I2, N = h.dofs()
    D2 = h.matrix('D2', (len(I2), 1))
    m = FEModel3D()
    combos = h.seq('combos', lambda b: Combo(h.name('cn:' + b), {}))
    m.load_combos = {'first': Combo('first', {})}
    h.patch(m, 'P', lambda c='Combo 1': loadvec(h, 'P', c, N))
    h.patch(m, 'FER', lambda c='Combo 1': loadvec(h, 'F', c, N))
    h.patch(Analysis, '_prepare_model', lambda mm: None)
    h.patch(Analysis, '_partition_D', lambda mm: (I1, I2, D2))
    h.patch(Analysis, '_identify_combos', lambda mm, t=None: combos)
    h.patch(Analysis, '_calc_reactions', lambda mm, log_=False, t=None: None)
    return m, I1, I2, N, D2, combos

def asked(how, sparse):
    """check_stability is handed to the assembly, and its refusal is not swallowed"""
    def fn(h):
        m, I1, I2, N, D2, combos = setup(h, sparse)
        cs = h.choice('cs', [True, False, None])
        tag = 'coo' if sparse else 'dense'
        g = Ghost(); g.asked = 0
        def callK(combo_name='Combo 1', log=False, check_stability=True, sp=True):
            h.check('stability check as requested', check_stability is (cs is not False))
            g.asked = g.asked + 1
            if check_stability: raise Refused('unstable')
            raise Refused('not checked')
        h.patch(m, 'K', callK)
        h.patch(m, 'Kg', lambda *a, **k: h.zero_matrix((N, N), 'lil' if sparse else 'dense'))
        kw = {} if cs is None else dict(check_stability=cs)
        h.cover('pre')
        def end(): h.check('every combination is assembled and refused', False)
        if how != 'linear': h.iteration_end(end)
        if how == 'pdelta':
            # one symbolic combination: the loop over combinations is the driver's contract (C22)
            P1, F1 = h.rows(loadvec(h, 'P', 'first', N), I1), h.rows(loadvec(h, 'F', 'first', N), I1)
            h.while_inv(lambda loc: [('first pass', loc['iter_count_PD'] == 1)], lambda loc, new: None)
            call = lambda: Analysis._PDelta_step(m, 'first', P1, F1, I1, I2, D2, False, sparse, cs is not False, 30, True)
        else:
            f = {'linear': m.analyze_linear, 'analyze': m.analyze}[how]
            if how == 'analyze': h.while_inv(lambda loc: [('first pass', h.both(loc['iter_count'] == 1, h.neg(h.either(loc['convergence'], loc['divergence']))))], lambda loc, new: None)
            call = lambda: f(False, sparse=sparse, **kw)
        raised = False
        try: call()
        except Refused: raised = True
        if how == 'linear' or how == 'pdelta' or raised:
            h.check('the refusal reaches the caller', raised)
        elif not h.symbolic:
            h.check('the refusal reaches the caller', len(combos) == 0)
    return fn

def in_K(sparse):
    """K runs the check on the matrix it returns exactly when it is asked to"""
    def fn(h):
        p, q = h.probe('p', 'q')
        m = C09.model(h, 'nsm', (1, 3))
        seen = []
        h.patch(Analysis, '_check_stability', lambda mm, K: (h.check('of this model', mm is m), seen.append(K)))
        cs = h.choice('cs', [True, False])
        h.cover('pre')
        K = m.K('C', False, cs, sparse)
        h.check('checked exactly when asked', len(seen) == (1 if cs else 0))
        for k in seen: h.eq('the assembled matrix is checked', h.entry(k, (p, q)), h.entry(K, (p, q)), 10)
    return fn

# ------------------------------------------------------------------ singular structures
def singular(how, sparse):
    def fn(h):
        m, I1, I2, N, D2, combos = setup(h, sparse)
        tag = 'coo' if sparse else 'dense'
        h.may_be_singular()
        sing = h.choice('singular', [True, False])
        g = Ghost(); g.stored = 0
        zero = h.zero_matrix((N, N), 'lil' if sparse else 'dense')
        def callK(c='Combo 1', log=False, check_stability=True, sp=True):
            if h.symbolic: return h.matrix_of('K', 0, (N, N), tag, True)
            if sing: return h.zero_matrix((N, N), tag)
            return h.matrix_of('K', 0, (N, N), tag, True)
        h.patch(m, 'K', callK)
        h.patch(m, 'Kg', lambda *a, **k: zero)
        def store(mm, D1, d2, i1, i2, combo):
            h.check('no displacements of a singular structure', h.finite(D1))
            if h.symbolic: h.check('solved', h.either(not h.singular_taken(), len(I1) == 0))
        h.patch(Analysis, '_store_displacements', store)
        h.patch(Analysis, '_sum_displacements', store)
        h.patch(Analysis, '_check_TC_convergence', lambda *a, **k: True)
        h.cover('pre')
        if not h.symbolic: h.assume(len(I1) > 0 and len(combos) > 0)
        raised = None
        import warnings
        try:
            with h.quiet():
                if how == 'linear': m.analyze_linear(False, False, sparse=sparse)
                elif how == 'analyze':
                    h.while_inv(lambda loc: [('c', h.either(h.neg(loc['convergence']), True))], lambda loc, new: None)
                    m.analyze(False, False, sparse=sparse)
                else:
                    h.while_inv(lambda loc: [('c', h.either(h.neg(loc['convergence_TC']), True))], lambda loc, new: None)
                    Analysis._PDelta_step(m, 'first', h.rows(loadvec(h, 'P', 'first', N), I1), h.rows(loadvec(h, 'F', 'first', N), I1), I1, I2, D2, False, sparse, False, 30, True)
        except Exception as ex:
            internal(ex)
            raised = ex
        if h.symbolic:
            if raised is not None and how == 'linear': h.check('refuses only a singular structure', h.singular_taken(), str(raised))
        else:
            h.check('singular structures are refused, others not', (raised is not None) == sing, str(raised))
    return fn

def whole(h):
    """models with one node without any stiffness in some directions"""
    r = h.rng
    m = models.frame(h, springs=False, support_springs=False, enforced=False)
    x = h.choice('extra', ['none', 'loose', 'supported', 'spring'])
    sup = [False]*6
    if x != 'none':
        m.add_node('X', 9.5, 7.5, 2.25)
        if x == 'supported': sup = [True]*6
        elif x == 'loose':
            sup = [r.random() < 0.7 for _ in range(6)]
        else:
            for d in DOF: m.def_support_spring('X', d, 5.0)
        if x != 'spring': m.def_support('X', *sup)
    bad = x == 'loose' and not all(sup)
    import contextlib, io
    buf = io.StringIO()
    how = h.choice('how', ['analyze', 'linear', 'pdelta'])
    sp = h.choice('sparse', [True, False]); cs = h.choice('cs', [True, False])
    raised = None
    f = {'linear': m.analyze_linear, 'analyze': m.analyze, 'pdelta': m.analyze_PDelta}[how]
    with contextlib.redirect_stdout(buf), h.quiet():
        try: f(check_stability=cs, sparse=sp)
        except Exception as ex: raised = ex
    h.check('unstable models are refused, stable ones are not', (raised is not None) == bad, '%s %s' % (x, raised))
    if bad and cs:
        for d in range(6):
            said = any('X ' in l + ' ' and 'node X' in l and WORDS[d][0] in l and 'global %s ' % WORDS[d][1] in l for l in buf.getvalue().split('\n'))
            h.check('names the node and the direction', said == (not sup[d]), buf.getvalue())

A_ = 'PyNite.Analysis.'
M_ = 'PyNite.FEModel3D.FEModel3D.'
UNITS = [UNIT('check-stable', stability('stable'), [A_ + '_check_stability'], runs=40),
         UNIT('check-unstable', stability('unstable'), [A_ + '_check_stability'], runs=60)]
for sp in (True, False):
    t = 'sparse' if sp else 'dense'
    UNITS.append(UNIT('K-' + t, in_K(sp), [M_ + 'K'], runs=10))
    for how, fn in (('linear', 'analyze_linear'), ('analyze', 'analyze'), ('pdelta', None)):
        tg = [M_ + fn] if fn else [A_ + '_PDelta_step']
        UNITS.append(UNIT('asked-%s-%s' % (how, t), asked(how, sp), tg, runs=15))
        UNITS.append(UNIT('singular-%s-%s' % (how, t), singular(how, sp), tg, runs=15))
UNITS.append(UNIT('whole-model', whole, [M_ + 'analyze', M_ + 'analyze_linear', M_ + 'analyze_PDelta'], runs=100, sym=False, bounded_text='bounded: frames of up to 6 nodes'))
