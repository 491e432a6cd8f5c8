"""random whole models for the bounded (concrete) units; every choice comes from h so that a run can be replayed"""
import math
from PyNite.FEModel3D import FEModel3D

def frame(h, plates=False, springs=True, tc=False, combos=2, stable=True, enforced=True, support_springs=True, planes=True, rel=True, loads=True, inter=True, enf_fixed=False):
    """a small space frame; with stable=True every node is connected to a fixed node by a chain of rigidly connected members"""
    r = h.rng
    m = FEModel3D()
    nn = r.randint(2, 5)
    names = ['N%d' % i for i in range(nn)]
    r.shuffle(names)
    pts = []
    while len(pts) < nn:
        p = (r.choice([0, 3, 6]) + r.choice([0, 0, 0.7]), r.choice([0, 4]), r.choice([0, 5]) + r.choice([0, 0, 0.3]))
        if all(math.dist(p, q) > 0.5 for q in pts): pts.append(p)
    for n, p in zip(names, pts): m.add_node(n, *p)
    m.add_material('S', r.uniform(1, 3)*1000, r.uniform(0.4, 1)*1000, 0.3, r.uniform(0.1, 1))
    k = 0
    for i in range(1, nn):
        j = r.randrange(i)
        a, b = (names[i], names[j]) if r.random() < 0.5 else (names[j], names[i])
        m.add_member('M%d' % k, a, b, 'S', r.uniform(0.5, 2), r.uniform(0.5, 2), r.uniform(0.5, 2), r.uniform(0.5, 2)); k += 1
    for _ in range(r.randint(0, 2)):
        a, b = r.sample(names, 2)
        m.add_member('M%d' % k, a, b, 'S', r.uniform(0.5, 2), r.uniform(0.5, 2), r.uniform(0.5, 2), r.uniform(0.5, 2),
                     tension_only=tc and r.random() < 0.4, comp_only=False)
        if tc and not m.members['M%d' % k].tension_only and r.random() < 0.4: m.members['M%d' % k].comp_only = True
        if rel and r.random() < 0.5:
            m.def_releases('M%d' % k, *[False]*3, r.random() < 0.3, r.random() < 0.5, r.random() < 0.5, False, False, False, False, r.random() < 0.5, r.random() < 0.5)
        k += 1
    if springs:
        for s in range(r.randint(0, 2)):
            a, b = r.sample(names, 2)
            m.add_spring('S%d' % s, a, b, r.uniform(1, 50), tension_only=tc and r.random() < 0.4, comp_only=False)
    if plates and nn >= 4:
        pass
    # supports: the first node fixed, others at random
    m.def_support(names[0], True, True, True, True, True, True)
    for n in names[1:]:
        if r.random() < 0.4: m.def_support(n, *[r.random() < 0.4 for _ in range(6)])
    if enforced:
        for n in names:
            for d in ('DX', 'DY', 'DZ', 'RX', 'RY', 'RZ'):
                if r.random() < 0.06:
                    if enf_fixed and not getattr(m.nodes[n], 'support_' + d): continue
                    m.def_node_disp(n, d, r.choice([0.0, r.uniform(-0.1, 0.1)]))
    if support_springs:
        for n in names[1:]:
            for d in ('DX', 'DY', 'DZ', 'RX', 'RY', 'RZ'):
                if r.random() < 0.08 and not getattr(m.nodes[n], 'support_' + d):
                    m.def_support_spring(n, d, r.uniform(5, 50), r.choice([None, '+', '-']) if tc else None)
    cases = ['D', 'L', 'W']
    for i in range(combos):
        m.add_load_combo('LC%d' % i, {c: round(r.uniform(-1.6, 1.6), 2) for c in r.sample(cases, r.randint(1, 3))})
    if loads: add_loads(h, m, cases)
    return m

def add_loads(h, m, cases, n=4):
    r = h.rng
    for _ in range(r.randint(1, n)):
        m.add_node_load(r.choice(list(m.nodes)), r.choice(['FX', 'FY', 'FZ', 'MX', 'MY', 'MZ']), r.uniform(-3, 3), r.choice(cases))
    for _ in range(r.randint(0, n)):
        nm = r.choice(list(m.members))
        L = m.members[nm].L()
        m.add_member_pt_load(nm, r.choice(['Fx', 'Fy', 'Fz', 'Mx', 'My', 'Mz', 'FX', 'FY', 'FZ', 'MX', 'MY', 'MZ']), r.uniform(-3, 3), r.uniform(0, L), r.choice(cases))
    for _ in range(r.randint(0, n)):
        nm = r.choice(list(m.members))
        L = m.members[nm].L()
        x1 = r.uniform(0, L*0.7)
        m.add_member_dist_load(nm, r.choice(['Fx', 'Fy', 'Fz', 'FX', 'FY', 'FZ']), r.uniform(-2, 2), r.uniform(-2, 2), x1, r.uniform(x1 + 0.1*L, L), r.choice(cases))

def solve(h, m, how=None, **k):
    how = how or h.choice('how', ['linear', 'analyze'])
    sp = h.choice('sparse', [True, False])
    f = {'linear': m.analyze_linear, 'analyze': m.analyze, 'pdelta': m.analyze_PDelta}[how]
    f(sparse=sp, check_stability=h.choice('cs', [True, False]), **k)
    return how, sp

DOF = ['DX', 'DY', 'DZ', 'RX', 'RY', 'RZ']
RXN = ['RxnFX', 'RxnFY', 'RxnFZ', 'RxnMX', 'RxnMY', 'RxnMZ']
