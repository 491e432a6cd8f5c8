"""C13: load combinations are selected by tag and superpose linearly."""
import numpy as np
from contracts.common import *
from contracts import models
from PyNite import Analysis
from PyNite.FEModel3D import FEModel3D
from PyNite.LoadCombo import LoadCombo

DOF = models.DOF
RXN = models.RXN

class Obj:
    pass

class Tags:
    """an arbitrary set of tags"""
    _nowalk = True
    def __init__(self, has): self.has = has
    def __contains__(self, t): return self.has(t)
    def __len__(self): return 1
    def __iter__(self): return iter([t for t in ('t0', 't1', 't2') if self.has(t)])

def identify(h):
    m = FakeModel()
    def make(b):
        c = Combo(h.name('name:' + b), {})
        c.tagged = h.flag('tagged:' + b)
        c.in_ = {t: h.bool('%s in:%s' % (t, b)) for t in ('t0', 't1', 't2')}
        c.combo_tags = Tags(lambda t: c.in_[t]) if c.tagged else None
        c.w = h.real('w:' + b)
        return b, c
    m.load_combos = h.dict('combos', make)
    given = h.choice('given', [None, [], ['t0'], ['t1', 't0'], ['t2', 't0', 't1']])
    h.cover('pre')
    r = Analysis._identify_combos(m, given)
    exp = 0
    got = h.sum_over(r, lambda c: c.w)
    for c in m.load_combos.values():
        want = True
        if given is not None:
            want = False
            for t in given: want = h.either(want, h.both(c.tagged, c.in_[t]))
        if want: exp = exp + c.w
    # with an arbitrary weight on every combination this is equality of the two collections
    h.eq('exactly the tagged combinations', got, exp)

def default_combo(h):
    m = FakeModel(); m._D = {}
    m.nodes = {}; m.springs = {}; m.members = {}; m.meshes = {}
    m.load_combos = {}
    h.patch(Analysis, '_renumber', lambda mm: None)
    Analysis._prepare_model(m)
    c = m.load_combos
    h.check('one default combination', list(c) == ['Combo 1'] and c['Combo 1'].name == 'Combo 1')
    h.check('of the default case', c['Combo 1'].factors == {'Case 1': 1} and len(c['Combo 1'].factors) == 1)
    user = LoadCombo('U', None, {'D': 2})
    m.load_combos = {'U': user}
    Analysis._prepare_model(m)
    h.check('no default combination beside those defined', list(m.load_combos) == ['U'] and m.load_combos['U'] is user and user.factors == {'D': 2})

def load_combo(h):
    """combinations are independent objects"""
    f = h.real('f')
    a, b = LoadCombo('A'), LoadCombo('B')
    a.AddLoadCase('D', f)
    c = LoadCombo('C', ['t'])
    h.eq('added case', a.factors['D'], f)
    h.check('only in its combination', len(b.factors) == 0 and len(c.factors) == 0)
    m = FEModel3D()
    fd, fl = h.real('fd'), h.real('fl')
    fac = {'D': fd, 'L': fl}
    m.add_load_combo('X', fac, ['t'])
    m.add_load_combo('Y', {'L': fl})
    h.check('stored under its name', m.load_combos['X'].name == 'X' and m.load_combos['Y'].name == 'Y')
    h.check('tags', m.load_combos['X'].combo_tags == ['t'] and m.load_combos['Y'].combo_tags is None)
    x = m.load_combos['X'].factors
    h.check('cases', list(x) == ['D', 'L'] and list(m.load_combos['Y'].factors) == ['L'])
    h.eq('factor', x['D'], fd); h.eq('factor', x['L'], fl); h.eq('factor', m.load_combos['Y'].factors['L'], fl)
    m.load_combos['X'].DeleteLoadCase('L')
    h.check('deleted case', list(m.load_combos['X'].factors) == ['D'] and list(m.load_combos['Y'].factors) == ['L'])

def combos3(h):
    """C = a A + b B over two load cases, listed in any order; plus a combination with only one case"""
    a, b = h.real('a'), h.real('b')
    f = {k: h.real('f' + k) for k in ('A1', 'A2', 'B1', 'B2')}
    C = [('c1', a*f['A1'] + b*f['B1']), ('c2', a*f['A2'] + b*f['B2'])]
    if h.flag('order'): C.reverse()
    return a, b, {'A': Combo('A', {'c1': f['A1'], 'c2': f['A2']}), 'B': Combo('B', {'c2': f['B2'], 'c1': f['B1']}), 'C': Combo('C', dict(C))}

def nodal(h):
    (x, y) = h.probe('x', 'y')
    h.assume(y == 0)
    m = FEModel3D()
    a, b, m.load_combos = combos3(h)
    def node(nb):
        n = Obj(); n.ID = h.int('ID:' + nb, 'nonneg', 0, 3) if not h.symbolic else h.int('ID:' + nb)
        n.NodeLoads = h.seq('NL:' + nb, lambda lb: (h.word('dir:' + lb, ['FX', 'FY', 'FZ', 'MX', 'MY', 'MZ']), h.real('P:' + lb), h.word('case:' + lb, ['c1', 'c2', 'c3'])))
        return nb, n
    m.nodes = h.dict('nodes', node)
    if not h.symbolic:
        for i, n in enumerate(m.nodes.values()): n.ID = i
    h.cover('pre')
    P = {c: m.P(c) for c in m.load_combos}
    e = {c: h.entry(P[c], (x, y)) for c in P}
    h.eq('nodal loads superpose', e['C'], a*e['A'] + b*e['B'], 100)

def member(which):
    from contracts import C04
    def fn(h):
        m, m_, L, T, k = C04.amember(h)
        a, b, m_.load_combos = combos3(h)
        C04.loads(h, m, L, which)
        case = lambda l: l
        h.cover('pre')
        f = {c: m._fer_unc(c) for c in 'ABC'}
        for i in range(12):
            h.eq('member loads superpose', f['C'][i, 0], a*f['A'][i, 0] + b*f['B'][i, 0], 100*(1 + (0 if h.symbolic else L)))
    return fn

def surface(kind):
    def fn(h):
        from PyNite.Plate3D import Plate3D
        from PyNite.Quad3D import Quad3D
        m_ = FakeModel()
        a, b, m_.load_combos = combos3(h)
        q = (Plate3D if kind == 'plate' else Quad3D).__new__(Plate3D if kind == 'plate' else Quad3D)
        q.model = m_
        q.pressures = h.seq('pressures', lambda pb: [h.real('p:' + pb), h.word('case:' + pb, ['c1', 'c2', 'c3'])])
        if kind == 'plate':
            w, t = h.real('w', 'pos'), h.real('t', 'pos')
            q.width = lambda: w
            q.height = lambda: t
        else:
            c = h.array('xy', (2, 4))
            q.x1, q.x2, q.x3, q.x4 = c[0]
            q.y1, q.y2, q.y3, q.y4 = c[1]
            J = h.array('J', (2, 2))
            q.J = lambda r, s: J
            q._local_coords = lambda: None
        h.cover('pre')
        f = {c: q.fer(c) for c in 'ABC'}
        for i in range(24):
            h.eq('pressures superpose', f['C'][i, 0], a*f['A'][i, 0] + b*f['B'][i, 0], 100)
    return fn

def results(m, c):
    out = []
    for n in m.nodes.values():
        out += [getattr(n, d)[c] for d in DOF + RXN]
    for mem in m.members.values():
        L = mem.L()
        for i in range(5):
            x = L*(0.05 + 0.225*i)
            out += [mem.shear('Fy', x, c), mem.shear('Fz', x, c), mem.moment('My', x, c), mem.moment('Mz', x, c), mem.axial(x, c), mem.torque(x, c),
                    mem.deflection('dx', x, c), mem.deflection('dy', x, c), mem.deflection('dz', x, c)]
    for s in m.springs.values(): out.append(s.axial(c))
    return np.array(out)

def whole(h):
    """superposition, order and selection in whole first-order analyses"""
    import pickle
    m = models.frame(h, tc=False, combos=3, enforced=False)
    cases = ['D', 'L', 'W']
    for c in cases: m.add_load_combo('case ' + c, {c: 1.0})
    data = pickle.dumps(m)
    how = h.choice('how', ['linear', 'analyze'])
    models.solve(h, m, how)
    base = {c: results(m, 'case ' + c) for c in cases}
    sc = max(np.abs(v).max() for v in base.values()) + 1
    for nm, combo in m.load_combos.items():
        exp = sum((combo.factors.get(c, 0)*base[c] for c in cases), 0*base['D'])
        got = results(m, nm)
        h.check('factored sum of the load cases', np.abs(got - exp).max() <= 1e-6*sc*(1 + sum(abs(f) for f in combo.factors.values())), '%s %g' % (nm, np.abs(got - exp).max()))
    # another order, only the tagged ones
    r = h.rng
    a = pickle.loads(data)
    order = list(a.load_combos); r.shuffle(order)
    a.load_combos = {c: a.load_combos[c] for c in order}
    for c in a.load_combos.values():
        f = list(c.factors.items()); r.shuffle(f); c.factors = dict(f)
        c.combo_tags = r.choice([None, ['s'], ['u', 's'], ['u'], ['v']])
    tags = r.choice([None, ['s'], ['s', 'v'], ['nothing', 'u'], ['nothing']])
    models.solve(h, a, how, combo_tags=tags, **({'check_statics': True} if r.random() < 0.1 else {}))
    for nm, c in a.load_combos.items():
        want = tags is None or (c.combo_tags is not None and bool(set(tags) & set(c.combo_tags)))
        for n in a.nodes.values(): h.check('solved exactly when tagged', all((nm in getattr(n, d)) == want for d in DOF))
        if want:
            x, y = results(a, nm), results(m, nm)
            h.check('whatever the order', np.abs(x - y).max() <= 1e-6*sc, '%s %g' % (nm, np.abs(x - y).max()))

def default_whole(h):
    a, b = models.frame(h, combos=0, loads=False), None
    r = h.rng
    models.add_loads(h, a, ['Case 1', 'Case 2'])
    import pickle
    b = pickle.loads(pickle.dumps(a))
    b.add_load_combo('Combo 1', {'Case 1': 1.0})
    models.solve(h, a); models.solve(h, b)
    h.check('default combination', list(a.load_combos) == ['Combo 1'])
    x, y = results(a, 'Combo 1'), results(b, 'Combo 1')
    h.check('is the first load case', np.abs(x - y).max() <= 1e-6*(1 + np.abs(y).max()))

A_ = 'PyNite.Analysis.'
M_ = 'PyNite.FEModel3D.FEModel3D.'
UNITS = [UNIT('identify', identify, [A_ + '_identify_combos'], runs=80),
         UNIT('default', default_combo, [A_ + '_prepare_model'], runs=5),
         UNIT('load-combo', load_combo, ['PyNite.LoadCombo.LoadCombo', M_ + 'add_load_combo'], runs=5),
         UNIT('nodal', nodal, [M_ + 'P'], runs=60),
         UNIT('member-pt', member('p'), ['PyNite.Member3D.Member3D._fer_unc'], runs=30),
         UNIT('member-dist', member('d'), ['PyNite.Member3D.Member3D._fer_unc'], runs=30),
         UNIT('plate', surface('plate'), ['PyNite.Plate3D.Plate3D.fer'], runs=30),
         UNIT('quad', surface('quad'), ['PyNite.Quad3D.Quad3D.fer'], runs=30),
         UNIT('whole-model', whole, [M_ + 'analyze', M_ + 'analyze_linear'], runs=60, sym=False, bounded_text='bounded: frames of up to 5 nodes and 6 members'),
         UNIT('whole-default', default_whole, [M_ + 'analyze', M_ + 'analyze_linear'], runs=20, sym=False, bounded_text='bounded: frames of up to 5 nodes and 6 members')]
