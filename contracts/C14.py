"""C14: re-analysis depends only on the current model, not on earlier analyses."""
import numpy as np
from contracts.common import *
from contracts import models
from contracts.C12 import ByCombo, SupportSpring, word, C
from PyNite import Analysis
from PyNite.FEModel3D import FEModel3D
from PyNite.Member3D import Member3D
from PyNite.PhysMember import PhysMember
from PyNite.Node3D import Node3D
from PyNite.Material import Material
from PyNite.LoadCombo import LoadCombo

DOF, RXN = models.DOF, models.RXN
CACHE = ['SegmentsZ', 'SegmentsY', 'SegmentsX']

class Obj:
    pass

def prepare(h):
    """whatever state earlier analyses left behind, an analysis starts from the same state"""
    m = FakeModel()
    m._D = {'old': 1}
    m.solution = h.choice('solution', [None, 'Linear', 'Linear TC', 'P-Delta', 'Pushover'])
    log = []
    def elem(b):
        o = Obj(); o.on = h.bool('was:' + b); o.active = ByCombo(h, o); o.n = h.int('generated:' + b)
        return b, o
    def node(b):
        n = Obj()
        for d in DOF:
            setattr(n, d, {C: h.real('old%s:%s' % (d, b)), 'gone': h.real('gone%s:%s' % (d, b))})
            setattr(n, 'act' + d, h.bool('act%s:%s' % (d, b)))
            setattr(n, 'spring_' + d, SupportSpring(n, d, h.opt('k%s:%s' % (d, b)), word(h, d + b)))
        for r in RXN: setattr(n, r, {C: h.real('old%s:%s' % (r, b)), 'gone': h.real('gone%s:%s' % (r, b))})
        return b, n
    m.nodes = h.dict('nodes', node)
    m.springs = h.dict('springs', elem)
    m.members = h.dict('members', elem)
    def combo(b):
        c = Combo(h.word('name:' + b, ['A', 'B']), {})
        return c.name, c
    m.load_combos = h.dict_with('combos', combo, C, Combo(C, {}))
    m.meshes = {}
    h.patch(Analysis, '_renumber', lambda mm: log.append((mm is m, mm.solution is None)))
    h.cover('pre')
    Analysis._prepare_model(m)
    h.check('pieces and numbers made anew once, with the model marked unsolved', len(log) == 1 and log[0][0])
    h.check('marked unsolved', m.solution is None)
    h.check('no displacements left', m._D == {})
    for n in m.nodes.values():
        for d in DOF:
            h.check('no displacements left', getattr(n, d) == {})
            if getattr(n, 'spring_' + d)[0] is not None: h.check('support spring active', getattr(n, 'act' + d) == True)
        for r in RXN: h.check('no reactions left', getattr(n, r) == {})
    for e in m.springs.values(): h.check('spring active', e.on == True)
    for e in m.members.values(): h.check('member active', e.on == True)

class Poison(dict):
    """pieces of an earlier division: nothing of them may be used"""
    _nowalk = True
    def __getitem__(self, k): raise Stale()
    def values(self): raise Stale()
    def items(self): raise Stale()
    def keys(self): raise Stale()
    def __iter__(self): raise Stale()
class Stale(Exception): pass

def pieces(h):
    """the pieces are new: no segments, not solved, active"""
    m_ = FakeModel()
    m_.materials['M'] = Material('M', 1, 1, 0.3, 1, 50)
    m_.load_combos = {'C': Combo('C', {}), 'X': Combo('X', {})}
    i, j = Node3D('i', 0, 0, 0), Node3D('j', 4, 0, 0)
    k = h.choice('between', [0, 1, 2])
    m_.nodes = {'i': i, 'j': j}
    for a in range(k): m_.nodes['n%d' % a] = Node3D('n%d' % a, a + 1, 0, 0)
    m = PhysMember('M1', i, j, 'M', m_, 1, 1, 1, 1)
    m.active = {'C': h.bool('act'), 'X': h.bool('actx')}
    m.SegmentsZ = m.SegmentsY = m.SegmentsX = ['old']
    m._solved_combo = m_.load_combos['C']
    def pt(b): return (h.word('dir:' + b, ['Fx', 'Fy', 'FX', 'Mz']), h.real('P:' + b), h.real('x:' + b, 'nonneg', 0, 4), h.name('case:' + b))
    m.PtLoads = h.seq('pt', pt)
    m.sub_members = Poison({'M1a': 'old'})
    h.cover('pre')
    m.descritize()
    ps = list(m.sub_members.values())
    h.check('new pieces', len(ps) == k + 1 and not isinstance(m.sub_members, Poison))
    for p in ps:
        h.check('not solved', p._solved_combo is None and all(len(getattr(p, s)) == 0 for s in CACHE))
        h.check('active', p.active == {'C': True, 'X': True})
        h.check('own lists of loads', p.PtLoads is not m.PtLoads and p.DistLoads is not m.DistLoads and p.Releases is not m.Releases)

class Seg:
    """a segment whose results tell which combination it was made for (contract of BeamSegZ)"""
    def __init__(self, h, c, a, x1, x2): self.h, self.c, self.a, self.x1, self.x2 = h, c, a, x1, x2
    def tell(self, what, *x):
        return self.h.fn('%s:%s%s' % (what, self.a, self.c), *[v for v in x if not isinstance(v, bool)])
    def Shear(self, x): return self.tell('shear', x)
    def moment(self, x, P_delta=False): return self.tell('moment', x)
    def Torsion(self, x=0): return self.tell('torsion', 0)
    def axial(self, x): return self.tell('axial', x)
    def deflection(self, x, P_delta=False): return self.tell('deflection', x)
    def AxialDeflection(self, x): return self.tell('axialdeflection', x)
    # an extreme is beyond every value of the segment
    def ext(self, what, first, sign):
        e = self.tell(what)
        return first + sign*e*e
    def max_shear(self): return self.ext('max_shear', self.Shear(0), 1)
    def min_shear(self): return self.ext('min_shear', self.Shear(0), -1)
    def max_moment(self, P_delta=False): return self.ext('max_moment', self.moment(0), 1)
    def min_moment(self, P_delta=False): return self.ext('min_moment', self.moment(0), -1)
    def MaxTorsion(self): return self.ext('max_torsion', self.Torsion(), 1)
    def MinTorsion(self): return self.ext('min_torsion', self.Torsion(), -1)
    def max_axial(self): return self.ext('max_axial', self.axial(0), 1)
    def min_axial(self): return self.ext('min_axial', self.axial(0), -1)

ASK = {'shear-y': ('shear', ('Fy', 'x'), 'Shear:Z'), 'shear-z': ('shear', ('Fz', 'x'), 'Shear:Y'),
       'moment-y': ('moment', ('My', 'x'), 'moment:Y'), 'moment-z': ('moment', ('Mz', 'x'), 'moment:Z'),
       'torque': ('torque', ('x',), 'Torsion:X'), 'axial': ('axial', ('x',), 'axial:Z'),
       'deflection-x': ('deflection', ('dx', 'x'), 'AxialDeflection:Z'), 'deflection-y': ('deflection', ('dy', 'x'), 'deflection:Z'), 'deflection-z': ('deflection', ('dz', 'x'), 'deflection:Y'),
       'max-shear-y': ('max_shear', ('Fy',), 'max_shear:Z'), 'min-shear-z': ('min_shear', ('Fz',), 'min_shear:Y'), 'min-shear-y': ('min_shear', ('Fy',), 'min_shear:Z'), 'max-shear-z': ('max_shear', ('Fz',), 'max_shear:Y'),
       'max-moment-z': ('max_moment', ('Mz',), 'max_moment:Z'), 'min-moment-z': ('min_moment', ('Mz',), 'min_moment:Z'), 'max-moment-y': ('max_moment', ('My',), 'max_moment:Y'), 'min-moment-y': ('min_moment', ('My',), 'min_moment:Y'),
       'max-torque': ('max_torque', (), 'MaxTorsion:X'), 'min-torque': ('min_torque', (), 'MinTorsion:X'),
       'max-axial': ('max_axial', (), 'max_axial:Z'), 'min-axial': ('min_axial', (), 'min_axial:Z')}

def queries(which):
    """segments kept from an earlier query are used only for the combination they were made for; invariant of every query:
    either the member is not solved or its segments are those of the combination it is solved for"""
    def fn(h):
        m_ = FakeModel(); m_.materials['M'] = Material('M', 1, 1, 0.3, 1, 50)
        m_.load_combos = {c: Combo(c, {}) for c in ('A', 'B')}
        m_.solution = 'Linear'
        i, j = Node3D('i', 0, 0, 0), Node3D('j', 4, 0, 0)
        m = Member3D('M1', i, j, 'M', m_, 1, 1, 1, 1)
        m.active = {'A': True, 'B': True}
        made = []
        def segment(combo_name='Combo 1'):
            made.append(combo_name)
            for a in 'ZYX': setattr(m, 'Segments' + a, [Seg(h, combo_name, a, 0, 4)])
        h.patch(m, '_segment_member', segment)
        held = h.choice('held', [None, 'A', 'B', 'unsolved A'])
        if held:
            segment(held[-1]); made.clear()
            m._solved_combo = m_.load_combos[held] if held in 'AB' else None
        meth, args, want = ASK[which]
        x = h.real('x', 'nonneg', 0, 3)
        if h.symbolic: h.assume(x < 4)
        c = h.choice('asked', ['A', 'B'])
        h.cover('pre')
        r = getattr(m, meth)(*[x if a == 'x' else a for a in args], c)
        s = Seg(h, c, want[-1], 0, 4)
        f = getattr(s, want[:-2])
        y = f(x) if 'x' in args else f()
        h.eq('answer of the asked combination', r, y)
        s = m._solved_combo
        h.check('invariant', s is None or (s is m_.load_combos[s.name] and all(g[0].c == s.name for g in (m.SegmentsZ, m.SegmentsY, m.SegmentsX))))
    return fn

def iteration(h):
    """a tension/compression iteration leaves no member with segments of the displacements before it"""
    m = FakeModel(); m.nodes = {}; m.springs = {}
    def make(b):
        e = Obj(); e.active = {C: h.bool('act:' + b)}
        e.tension_only = h.bool('to:' + b); e.comp_only = h.bool('co:' + b)
        hi, lo = h.real('hi:' + b), h.real('lo:' + b)
        e.max_axial = lambda c='Combo 1': hi
        e.min_axial = lambda c='Combo 1': lo
        def sub(sb):
            o = Obj(); o.active = {C: h.bool('act:' + b)}; o._solved_combo = h.name('solved:' + sb)
            return sb, o
        e.sub_members = h.dict('sub:' + b, sub)
        return b, e
    m.members = h.dict('members', make)
    h.cover('pre')
    Analysis._check_TC_convergence(m, C, False, h.real('ts', 'nonneg'), h.real('tm', 'nonneg'))
    for e in m.members.values():
        for o in e.sub_members.values(): h.check('not solved', o._solved_combo is None)

def order(kind):
    """every analysis resets the model before it reads anything of it, and marks it solved by its own type at the end"""
    def fn(h):
        m = FEModel3D()
        m.add_load_combo('A', {'c': 1}); m.add_load_combo('B', {'c': 1})
        m.solution = h.choice('before', [None, 'Linear', 'Linear TC', 'P-Delta'])
        log = []
        z = np.zeros((0, 1)); zz = np.zeros((0, 0))
        def prep(mm): log.append('prepare'); mm.solution = None
        def note(what, r):
            def f(*a, **k):
                log.append(what)
                if what in ('K', 'Kg', 'tc') and kind != 'P-Delta': h.check('unsolved while it is analyzed', m.solution is None)
                return r
            return f
        h.patch(Analysis, '_prepare_model', prep)
        h.patch(Analysis, '_partition_D', note('partition_D', ([], [], z)))
        h.patch(Analysis, '_partition', lambda mm, M, a, b: (z, z) if M is z else (zz, zz, zz, zz))
        for w, r in (('K', zz), ('Kg', zz), ('P', z), ('FER', z)): h.patch(m, w, note(w, r))
        h.patch(Analysis, '_store_displacements', note('store', None))
        h.patch(Analysis, '_check_TC_convergence', note('tc', True))
        h.patch(Analysis, '_calc_reactions', note('reactions', None))
        kw = dict(sparse=False, check_stability=False)
        {'Linear': m.analyze_linear, 'Linear TC': m.analyze, 'P-Delta': m.analyze_PDelta}[kind](**kw)
        h.check('reset first and once', log[0] == 'prepare' and log.count('prepare') == 1)
        h.check('displacements of both combinations', log.count('store') >= 2)
        h.check('reactions last', log[-1] == 'reactions')
        h.check('flag', m.solution == kind)
    return fn

# ---- bounded: whole histories
def observe(m):
    """everything a user can read from an analyzed model"""
    out = {'solution': m.solution, 'combos': sorted(m.load_combos)}
    cs = sorted(m._D)
    out['analyzed'] = cs
    for c in cs: out['D', c] = m.D(c)
    for k, n in m.nodes.items():
        for d in DOF + RXN: out[k, d] = dict(getattr(n, d))
    for k, s in m.springs.items():
        for c in cs: out['spring', k, c] = (s.active[c], np.array(s.F(c)))
    for k, q in list(m.quads.items()) + list(m.plates.items()):
        for c in cs: out['plate', k, c] = (np.array(q.F(c)), np.array(q.moment(0.3, 0.2, combo_name=c)))
    for k, mem in m.members.items():
        L = mem.L()
        for c in cs:
            out['active', k, c] = mem.active[c]
            out['pieces', k, c] = [(p.name, p.L(), p.active[c], np.array(p.F(c))) for p in mem.sub_members.values()]
            out['ext', k, c] = [mem.max_shear('Fy', c), mem.max_axial(c), mem.min_axial(c), mem.max_torque(c)]
            # the second-order deflections and moments come from an iteration that does not end near the buckling load
            if m.solution == 'P-Delta' and max(abs(mem.max_axial(c)), abs(mem.min_axial(c)))*L**2/(2*mem.E*min(mem.Iy, mem.Iz)) > 0.5:
                continue
            out['ext2', k, c] = [mem.min_moment('Mz', c), mem.min_deflection('dy', c)]
            for x in (0, 0.37*L, L):
                out['at', k, c, x] = [mem.shear('Fy', x, c), mem.shear('Fz', x, c), mem.moment('My', x, c), mem.moment('Mz', x, c), mem.axial(x, c), mem.torque(x, c),
                                      mem.deflection('dx', x, c), mem.deflection('dy', x, c), mem.deflection('dz', x, c), mem.rel_deflection('dy', x, c)]
    return out

def same(a, b):
    if isinstance(a, dict): return isinstance(b, dict) and a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)): return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (bool, str)) or a is None: return a == b
    return bool(np.allclose(np.asarray(a, dtype=float), np.asarray(b, dtype=float), rtol=1e-7, atol=1e-7))

def differing(a, b):
    return [k for k in sorted(set(a) | set(b), key=str) if k not in a or k not in b or not same(a[k], b[k])]

def edit(h, r, m):
    """a random edit as a function of the model (it is applied to two models)"""
    free = list(m.nodes)
    mem = r.choice(list(m.members)); L = m.members[mem].L()
    fixed = [n for n in m.nodes if all(getattr(m.nodes[n], 'support_' + d) for d in DOF)]
    loose = [n for n in free if n not in fixed] or free
    u = r.uniform
    k = r.randrange(17)
    case = r.choice(['D', 'L', 'W'])
    if k == 0: a = ('add_node_load', r.choice(free), r.choice(['FX', 'FY', 'MZ']), u(-3, 3), case)
    elif k == 1: a = ('add_member_pt_load', mem, r.choice(['Fx', 'Fy', 'FZ', 'Mx']), u(-3, 3), u(0, L), case)
    elif k == 2: a = ('add_member_dist_load', mem, r.choice(['Fx', 'Fy', 'FZ']), u(-3, 3), u(-3, 3), u(0, L/3), u(L/2, L), case)
    elif k == 3: a = ('def_support', r.choice(loose), *[r.random() < 0.4 for _ in range(6)])
    elif k == 4: a = ('def_node_disp', r.choice(free), r.choice(DOF), r.choice([0.0, None, u(-0.1, 0.1)]))
    elif k == 5: a = ('def_support_spring', r.choice(loose), r.choice(DOF), u(5, 50), r.choice([None, '+', '-']))
    elif k == 6: a = ('def_releases', mem) + tuple([False]*5 + [True] + [False]*6)
    elif k == 7: a = ('add_load_combo', r.choice(list(m.load_combos) + ['N1', 'N2']), {c: round(u(-1.5, 1.5), 2) for c in r.sample(['D', 'L', 'W'], 2)}, r.choice([None, ['s'], ['s', 'u']]))
    elif k == 8: return lambda q: q.delete_loads()
    elif k == 9 and len(m.load_combos) > 1:
        c = r.choice(list(m.load_combos)); return lambda q: q.load_combos.pop(c)
    elif k == 10:
        i, j = m.members[mem].i_node, m.members[mem].j_node; t = u(0.2, 0.8)
        a = ('add_node', None, i.X + t*(j.X - i.X), i.Y + t*(j.Y - i.Y), i.Z + t*(j.Z - i.Z))
    elif k == 11 and len(free) > 1:
        x, y = r.sample(free, 2)
        if np.allclose([m.nodes[x].X, m.nodes[x].Y, m.nodes[x].Z], [m.nodes[y].X, m.nodes[y].Y, m.nodes[y].Z]): return None
        a = ('add_member', None, x, y, 'S', u(0.5, 2), u(0.5, 2), u(0.5, 2), u(0.5, 2), None, r.random() < 0.3)
    elif k == 12 and m.springs: a = ('delete_spring', r.choice(list(m.springs)))
    elif k == 13:
        extra = [n for n in m.members if n.startswith('X') or int(n[1:] or 0) >= h.chain]
        if not extra: return None
        a = ('delete_member', r.choice(extra))
    elif k == 14:
        n, d, v = r.choice(loose), r.choice('XYZ'), u(-0.3, 0.3)
        return lambda q: setattr(q.nodes[n], d, getattr(q.nodes[n], d) + v)
    elif k == 15:
        p, v = r.choice(['Iz', 'Iy', 'A', 'J']), u(0.5, 2)
        return lambda q: setattr(q.members[mem], p, v)
    elif k == 16 and m.springs:
        sn, v = r.choice(list(m.springs)), u(5, 50)
        return lambda q: setattr(q.springs[sn], 'ks', v)
    else: return None
    if a[0] == 'add_member':
        h.extra += 1; a = (a[0], 'X%d' % h.extra) + a[2:]
    if a[0] == 'add_node':
        h.extra += 1; a = (a[0], 'X%d' % h.extra) + a[2:]
    return lambda q: getattr(q, a[0])(*a[1:])

def run(m, how, tags, sparse):
    try:
        {'linear': m.analyze_linear, 'analyze': m.analyze, 'pdelta': m.analyze_PDelta}[how](sparse=sparse, check_stability=False, combo_tags=tags, **({} if how == 'linear' else {'max_iter': 6}))
    except Exception as ex:
        if type(ex).__name__ in ('TypeError', 'AttributeError', 'NameError', 'KeyError', 'UnboundLocalError'): raise
        return type(ex).__name__
    return None

def history(h):
    import pickle
    r = h.rng
    m = models.frame(h, tc=r.random() < 0.5, combos=2)
    h.chain, h.extra = len(m.nodes) - 1, 0
    if r.random() < 0.3:
        # a quadrilateral beside the frame
        n0 = m.nodes[[n for n in m.nodes if all(getattr(m.nodes[n], 'support_' + d) for d in DOF)][0]]
        for k, (x, y) in enumerate([(1.5, 0), (1.5, 1.2), (0, 1.2)]): m.add_node('Q%d' % k, n0.X + x, n0.Y + y, n0.Z)
        for k in range(3): m.def_support('Q%d' % k, *[r.random() < 0.3 for _ in range(6)])
        m.add_quad('QQ', n0.name, 'Q0', 'Q1', 'Q2', 0.3, 'S') if r.random() < 0.5 else m.add_plate('QQ', n0.name, 'Q0', 'Q1', 'Q2', 0.3, 'S')
    for c in m.load_combos.values(): c.combo_tags = r.choice([None, ['s'], ['u']])
    a, b = m, pickle.loads(pickle.dumps(m))
    for step in range(r.randint(1, 4)):
        # the past of a only
        if run(a, r.choice(['linear', 'analyze', 'pdelta']), r.choice([None, None, ['s']]), r.random() < 0.5) is None and r.random() < 0.7:
            try: observe(a)
            except Exception: pass
        for _ in range(r.randint(0, 2)):
            e = edit(h, r, a)
            if e: e(a); e(b)
    how, tags, sp = r.choice(['linear', 'analyze', 'analyze', 'pdelta']), r.choice([None, None, ['s']]), r.random() < 0.5
    x, y = run(a, how, tags, sp), run(b, how, tags, sp)
    h.check('same outcome', x == y, '%s %s' % (x, y))
    if x is not None: h.skip()
    if max([float(np.abs(d).max()) for d in b._D.values()] + [0]) > 1e6: h.skip()   # nearly unstable: rounding decides
    oa, ob = observe(a), observe(b)
    d = differing(oa, ob)
    h.check('same results as a freshly built model', not d, str([(k, oa.get(k), ob.get(k)) for k in d[:3]])[:400])

A_ = 'PyNite.Analysis.'
F_ = 'PyNite.FEModel3D.FEModel3D.'
M_ = 'PyNite.Member3D.Member3D.'
UNITS = [UNIT('prepare', prepare, [A_ + '_prepare_model'], runs=40),
         UNIT('new-pieces', pieces, ['PyNite.PhysMember.PhysMember.descritize'], runs=20),
         UNIT('iteration', iteration, [A_ + '_check_TC_convergence'], runs=40)]
UNITS += [UNIT('order-' + k, order(k), [F_ + {'Linear': 'analyze_linear', 'Linear TC': 'analyze', 'P-Delta': 'analyze_PDelta'}[k]], runs=8) for k in ('Linear', 'Linear TC', 'P-Delta')]
UNITS += [UNIT('kept-segments-' + w, queries(w), [M_ + ASK[w][0]], runs=20) for w in ASK]
UNITS.append(UNIT('histories', history, [F_ + 'analyze', F_ + 'analyze_linear', F_ + 'analyze_PDelta'], runs=120, sym=False, bounded_text='bounded: random histories of up to 4 analyses and 8 edits on frames of up to 5 nodes'))
