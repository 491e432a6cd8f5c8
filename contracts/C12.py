"""C12: one-way members, springs and supports carry only forces they can carry."""
import numpy as np
from contracts.common import *
from contracts import models
from PyNite import Analysis
from PyNite.FEModel3D import FEModel3D

DOF = models.DOF
C = 'C'

class Obj:
    pass

def sign_word(h, name):
    """direction of a support spring: '+', '-' or none"""
    return h.choice(name, ['+', '-', None])

def support_springs(h):
    """one direction at a time carries a one-way spring; the others have none or an ordinary one"""
    m = FakeModel(); m.springs = {}; m.members = {}
    pick = h.choice('dof', [0, 1, 2, 3, 4, 5])
    tol = h.real('tol', 'nonneg')
    def make(b):
        n = Obj()
        for i, d in enumerate(DOF):
            setattr(n, d, {C: h.real('%s:%s' % (d, b)), 'X': 0})
            if i == pick:
                plus, minus = h.bool('plus:' + b), h.bool('minus:' + b)
                setattr(n, 'spring_' + d, [h.real('k:' + b, 'pos'), word(h, b), {C: h.bool('act:' + b), 'X': h.bool('actx:' + b)}])
                n.was = (getattr(n, 'spring_' + d)[2][C], getattr(n, 'spring_' + d)[2]['X'])
            else:
                setattr(n, 'spring_' + d, [h.opt('k%s:%s' % (d, b)), None, {C: True, 'X': True}])
        return b, n
    m.nodes = h.dict('nodes', make)
    h.cover('pre')
    r = Analysis._check_TC_convergence(m, C, False, tol, h.real('mt', 'nonneg'))
    d = DOF[pick]
    same = True
    for n in m.nodes.values():
        s = getattr(n, 'spring_' + d)
        u = getattr(n, d)[C]
        if s[1] is not None:
            want = (s[1] == '+' and u >= tol) or (s[1] == '-' and u <= -tol)
            h.check('active exactly in its working direction', s[2][C] == want)
            if want != n.was[0]: same = False
        else:
            h.check('two-way spring left alone', s[2][C] == n.was[0])
        h.check('other combination', s[2]['X'] == n.was[1])
    h.check('converged exactly when nothing changed', r == same)

def word(h, b): return h.word('dir:' + b, ['+', '-', 'q'])

def one_way(family):
    def fn(h):
        m = FakeModel(); m.nodes = {}; m.springs = {}; m.members = {}
        ts, tm = h.real('spring tolerance', 'nonneg'), h.real('member tolerance', 'nonneg')
        tol = ts if family == 'springs' else tm
        def make(b):
            e = Obj()
            e.active = {C: h.bool('act:' + b), 'X': h.bool('actx:' + b)}
            e.was = h.bool('act:' + b); e.wasx = h.bool('actx:' + b)
            e.tension_only = h.bool('to:' + b); e.comp_only = h.bool('co:' + b)
            hi, lo = h.real('hi:' + b), h.real('lo:' + b)
            e.hi, e.lo = hi, lo
            def at(name, v):
                h.check('combination of the axial force', name == C)
                return v
            if family == 'springs':
                e.axial = lambda c='Combo 1': at(c, hi)
                e.lo = hi
            else:
                e.max_axial = lambda c='Combo 1': at(c, hi)
                e.min_axial = lambda c='Combo 1': at(c, lo)
                def sub(sb):
                    o = Obj(); o.active = {C: e.was, 'X': h.bool('subx:' + sb)}; o.wasx = h.bool('subx:' + sb); o._solved_combo = h.name('solved:' + sb)
                    return sb, o
                e.sub_members = h.dict('sub:' + b, sub)
            return b, e
        setattr(m, family, h.dict(family, make))
        h.cover('pre')
        r = Analysis._check_TC_convergence(m, C, False, ts, tm)
        same = True
        for e in getattr(m, family).values():
            bad = h.either(h.both(e.tension_only, e.hi > tol), h.both(e.comp_only, e.lo < -tol))
            h.check('active ones carry what they can carry', e.active[C] == h.both(e.was, h.neg(bad)))
            h.check('other combination', e.active['X'] == e.wasx)
            if family == 'members':
                for o in e.sub_members.values():
                    h.check('no stale segments', o._solved_combo is None)
                    h.check('pieces follow the member', o.active[C] == e.active[C])
                    h.check('other combination of the pieces', o.active['X'] == o.wasx)
            if h.both(e.was, bad): same = False
        h.check('converged exactly when nothing changed', r == same)
    return fn

class ByCombo:
    """a dictionary by combination, seen at the combination C of the model"""
    _nowalk = True
    def __init__(self, h, o): self.h, self.o = h, o
    def __setitem__(self, k, v):
        if k == C: self.o.on = v
    def clear(self):
        self.o.on = None

class SupportSpring:
    """[stiffness, direction, activity] of one direction of a node"""
    _nowalk = True
    def __init__(self, o, d, k, s): self.o, self.d, self.k, self.s = o, d, k, s
    def __getitem__(self, i):
        return (self.k, self.s, getattr(self.o, 'act' + self.d))[i]
    def __setitem__(self, i, v):
        if i != 2: raise KeyError(i)
        setattr(self.o, 'act' + self.d, v if not isinstance(v, dict) else v.get(C, True))

def prepare(h):
    m = FakeModel()
    m._D = {'old': 1}
    def elem(b):
        o = Obj(); o.on = h.bool('was:' + b); o.active = ByCombo(h, o)
        return b, o
    def node(b):
        n = Obj()
        for d in DOF:
            setattr(n, d, {C: h.real('old%s:%s' % (d, b))})
            setattr(n, 'act' + d, h.bool('act%s:%s' % (d, b)))
            setattr(n, 'spring_' + d, SupportSpring(n, d, h.opt('k%s:%s' % (d, b)), word(h, d + b)))
        return b, n
    m.nodes = h.dict('nodes', node)
    m.springs = h.dict('springs', elem)
    m.members = h.dict('members', elem)
    def combo(b):
        c = Combo(h.word('name:' + b, ['A', 'B']), {})
        return c.name, c
    m.load_combos = h.dict_with('combos', combo, C, Combo(C, {}))
    m.meshes = {}
    log = []
    h.patch(Analysis, '_renumber', lambda mm: log.append(mm is m))
    h.cover('pre')
    Analysis._prepare_model(m)
    h.check('numbered once', log == [True])
    h.check('no displacements left', m._D == {})
    for n in m.nodes.values():
        for d in DOF:
            h.check('no displacements left', getattr(n, d) == {})
            if getattr(n, 'spring_' + d)[0] is not None: h.check('support spring active', getattr(n, 'act' + d) == True)
    for e in m.springs.values(): h.check('spring active', e.on == True)
    for e in m.members.values(): h.check('member active', e.on == True)

def axial_range(m, mem, c):
    f = [mem.axial(mem.L()*i/20, c) for i in range(21)]
    return min(f), max(f)

def whole(h):
    """a whole analysis with one-way members, springs and support springs in several combinations"""
    import copy, pickle
    m = models.frame(h, tc=True, combos=3, enf_fixed=True)
    fresh = pickle.dumps(m)
    sp = h.choice('sparse', [True, False])
    try:
        m.analyze(sparse=sp, check_stability=False)
    except Exception as ex:
        if 'diverge' in str(ex).lower(): h.skip()
        raise
    K = {c: m.K(c, False, False, False) for c in m.load_combos}
    for c in m.load_combos:
        D = m.D(c)
        res = K[c] @ D - (m.P(c) - m.FER(c))
        sc = float(np.abs(K[c]).max()*max(np.abs(D).max(), 1e-6)) + 1
        for n in m.nodes.values():
            for i, d in enumerate(DOF):
                if not getattr(n, 'support_' + d) and getattr(n, 'Enforced' + d) is None:
                    h.eq('equilibrium without the inactive ones', res[n.ID*6 + i, 0], 0, sc)
                s = getattr(n, 'spring_' + d)
                if s[0] is not None and s[1] is not None:
                    u = getattr(n, d)[c]
                    h.check('support spring active in its working direction', s[2].get(c, True) == ((u >= 0) if s[1] == '+' else (u <= 0)))
        for mem in m.members.values():
            if not mem.active[c]: continue
            lo, hi = axial_range(m, mem, c)
            if mem.tension_only: h.check('tension-only member in tension', hi <= 1e-9*sc)
            if mem.comp_only: h.check('compression-only member in compression', lo >= -1e-9*sc)
        for s in m.springs.values():
            if s.active[c] and s.tension_only: h.check('tension-only spring in tension', s.axial(c) <= 1e-9*sc)
            if s.active[c] and s.comp_only: h.check('compression-only spring in compression', s.axial(c) >= -1e-9*sc)
    # the other combinations do not matter
    c = h.rng.choice(list(m.load_combos))
    a = pickle.loads(fresh)
    a.load_combos = {c: a.load_combos[c]}
    a.analyze(sparse=sp, check_stability=False)
    for nm, n in a.nodes.items():
        for d in DOF: h.eq('independent of other combinations', getattr(m.nodes[nm], d)[c], getattr(n, d)[c], 1e-3 + abs(getattr(n, d)[c]))

A_ = 'PyNite.Analysis.'
UNITS = [UNIT('support-springs', support_springs, [A_ + '_check_TC_convergence'], runs=80),
         UNIT('springs', one_way('springs'), [A_ + '_check_TC_convergence'], runs=80),
         UNIT('members', one_way('members'), [A_ + '_check_TC_convergence'], runs=80),
         UNIT('prepare', prepare, [A_ + '_prepare_model'], runs=40),
         UNIT('whole-model', whole, ['PyNite.FEModel3D.FEModel3D.analyze'], runs=150, sym=False, bounded_text='bounded: frames of up to 5 nodes and 6 members, 3 combinations')]
