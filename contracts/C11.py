"""C11: support reactions balance the elements and the applied loads."""
import numpy as np
from contracts.common import *
from contracts import models
from PyNite import Analysis

DOF = models.DOF
RXN = models.RXN
DIR = ['FX', 'FY', 'FZ', 'MX', 'MY', 'MZ']

class Obj:
    pass

def vec24(h, nm, n):
    return [h.real('%s[%d]' % (nm, i)) for i in range(n)]

def element(h, b, corners, C):
    """an element whose end force vector in combination C is arbitrary; its nodes are any different nodes of the model"""
    o = Obj()
    k = h.node_refs(['%s:%s' % (c, b) for c in corners])
    for c, nd in zip(corners, k): setattr(o, c, nd)
    F = np.array(vec24(h, 'F:' + b, 6*len(corners))).reshape(-1, 1)
    o.calls = 0
    def force(name='Combo 1'):
        h.check('combination of the end forces', name == C)
        return F
    o.F = force
    o.vec = F
    return o

def reactions(kinds):
    def fn(h):
        C = 'C'
        h.merge()
        m = FakeModel()
        def mknode(b):
            n = h.new_node(b)
            for d in DOF:
                setattr(n, 'support_' + d, h.bool('sup%s:%s' % (d, b)))
                setattr(n, d, {C: h.real('%s:%s' % (d, b))})
                k = h.opt('k%s:%s' % (d, b), 'pos')
                setattr(n, 'spring_' + d, [k, None, {C: h.bool('act%s:%s' % (d, b)), 'X': True}])
            # a support and a support spring on one degree of freedom are not combined
                if not h.symbolic and k is not None: setattr(n, 'support_' + d, False)
                h.assume(h.either(h.neg(getattr(n, 'support_' + d)), k == None))
            for r in RXN: setattr(n, r, {C: h.real('stale%s:%s' % (r, b)), 'X': h.real('x%s:%s' % (r, b))})
            n.old = {r: getattr(n, r)['X'] for r in RXN}
            def load(lb):
                return (h.word('dir:' + lb, DIR), h.real('P:' + lb), h.name('case:' + lb))
            n.NodeLoads = h.seq('NL:' + b, load) if 'load' in kinds else []
            return b, n
        m.nodes = h.dict('nodes', mknode)
        def fam(name, corners, active):
            def make(b):
                o = element(h, b, corners, C)
                if active: o.active = {C: h.bool('on:' + b)}
                return b, o
            return h.dict(name, make) if name in kinds else {}
        m.springs = fam('springs', ['i_node', 'j_node'], True)
        m.plates = fam('plates', ['i_node', 'j_node', 'm_node', 'n_node'], False)
        m.quads = fam('quads', ['i_node', 'j_node', 'm_node', 'n_node'], False)
        def mkphys(b):
            o = Obj(); o.active = {C: h.bool('on:' + b)}
            def make(sb): return sb, element(h, sb, ['i_node', 'j_node'], C)
            o.sub_members = h.dict('sub:' + b, make)
            return b, o
        m.members = h.dict('members', mkphys) if 'members' in kinds else {}
        combo = Combo(C, h.dict('factors', lambda b: (h.name('fc:' + b), h.real('f:' + b))) if 'load' in kinds else {})
        tags = ['t']
        h.patch(Analysis, '_identify_combos', lambda mm, t=None: (h.check('tags', t is tags), [combo])[1])
        picks = [h.choice('dof', [0, 1, 2, 3, 4, 5])] if h.symbolic else [0, 1, 2, 3, 4, 5]
        h.cover('pre')
        Analysis._calc_reactions(m, False, tags)
        for pick in picks:
            d, r = DOF[pick], RXN[pick]
            for n in m.nodes.values():
                t = 0
                if getattr(n, 'support_' + d):
                    for e in m.springs.values():
                        if e.active[C]:
                            for k, c in enumerate(['i_node', 'j_node']):
                                if getattr(e, c) == n: t = t + e.vec[6*k + pick, 0]
                    for p in m.members.values():
                        if p.active[C]:
                            for e in p.sub_members.values():
                                for k, c in enumerate(['i_node', 'j_node']):
                                    if getattr(e, c) == n: t = t + e.vec[6*k + pick, 0]
                    for e in list_of(m.plates, m.quads):
                        for q in e.values():
                            for k, c in enumerate(['i_node', 'j_node', 'm_node', 'n_node']):
                                if getattr(q, c) == n: t = t + q.vec[6*k + pick, 0]
                    for l in n.NodeLoads:
                        for case, f in combo.factors.items():
                            if l[2] == case and l[0] == DIR[pick]: t = t - f*l[1]
                sp = getattr(n, 'spring_' + d)
                if sp[0] is not None and sp[2][C]:
                    t = t - sp[0]*getattr(n, d)[C]
                h.eq('reaction ' + r, getattr(n, r)[C], t, 10)
                for q in RXN: h.eq('other combination ' + q, getattr(n, q)['X'], n.old[q])
    return fn

def list_of(*a): return a

def total(h):
    """whole structure: reactions and applied loads are in equilibrium"""
    m = models.frame(h, tc=False, enf_fixed=True)
    how, sp = models.solve(h, m)
    for c, combo in m.load_combos.items():
        R = np.zeros(6); sc = 1.0
        def add(F, M, p):
            nonlocal sc
            F, M, p = np.asarray(F, float), np.asarray(M, float), np.asarray(p, float)
            R[:3] += F; R[3:] += M + np.cross(p, F)
            sc += np.abs(F).sum()*(1 + np.abs(p).max()) + np.abs(M).sum()
        for n in m.nodes.values():
            p = (n.X, n.Y, n.Z)
            rx = [getattr(n, r)[c] for r in RXN]
            add(rx[:3], rx[3:], p)
            for d, P, case in n.NodeLoads:
                v = [0.0]*6; v[DIR.index(d)] = P*combo.factors.get(case, 0)
                add(v[:3], v[3:], p)
        for mem in m.members.values():
            T = mem.T()[:3, :3]
            o = np.array([mem.i_node.X, mem.i_node.Y, mem.i_node.Z])
            for (d, P, x, case) in mem.PtLoads:
                P = P*combo.factors.get(case, 0)
                v = np.zeros(3); v['xyz'.index(d[1].lower())] = P
                if d[1].islower(): v = T.T @ v
                p = o + T[0]*x
                if d[0] == 'F': add(v, [0]*3, p)
                else: add([0]*3, v, p)
            for (d, w1, w2, x1, x2, case) in mem.DistLoads:
                f = combo.factors.get(case, 0)
                e = np.zeros(3); e['xyz'.index(d[1].lower())] = 1
                if d[1].islower(): e = T.T @ e
                tot = (w1 + w2)/2*(x2 - x1)*f
                mom = ((w1*(2*x1 + x2) + w2*(x1 + 2*x2))*(x2 - x1)/6)*f      # integral of w x
                add(tot*e, [0]*3, o)
                add([0]*3, np.cross(T[0], e)*mom, o)
        for i in range(6): h.eq('whole structure in equilibrium %d' % i, R[i], 0, sc)

A_ = 'PyNite.Analysis._calc_reactions'
UNITS = [UNIT('reactions-' + k.split('+')[0], reactions(k.split('+')), [A_], runs=60) for k in ('springs', 'members', 'plates', 'quads', 'load', 'springs+members+plates+quads+load')]
UNITS[-1].name = 'reactions-all'
UNITS.append(UNIT('whole-structure', total, [A_], runs=120, sym=False, bounded_text='bounded: frames of up to 5 nodes and 6 members'))
