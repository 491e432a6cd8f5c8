"""C16: merging duplicate nodes keeps every connection, support and load"""
from PyNite.FEModel3D import FEModel3D
from PyNite.Node3D import Node3D
from contracts.C15 import ENDS, Section
F_ = 'PyNite.FEModel3D.FEModel3D.'
DOF = ['DX', 'DY', 'DZ', 'RX', 'RY', 'RZ']

class Obj: pass

def element(name, kind, nodes):
    o = Obj(); o.name = name
    for e, n in zip(ENDS[kind], nodes): setattr(o, e, n)
    return o

def build(h, n, fill=None):
    """n nodes anywhere in space"""
    m = FEModel3D()
    N, D = [], {}
    if h.symbolic:
        # the contract of Node3D.distance (unit `distance`): a symmetric function of the two nodes, zero for a node and itself
        for i in range(n):
            for j in range(i): D[frozenset(('N%d' % (i + 1), 'N%d' % (j + 1)))] = h.real('d%d%d' % (j, i), 'nonneg')
        h.patch(Node3D, 'distance', lambda a, b: 0 if a is b else D[frozenset((a.name, b.name))])
    for i in range(n):
        nd = Node3D('N%d' % (i + 1), h.real('X%d' % i, 'real', -1, 1), h.real('Y%d' % i, 'real', -1, 1), h.real('Z%d' % i, 'real', -1, 1))
        nd.NodeLoads = [('load', i, 0), ('load', i, 1)][:(i + 1) % 3]
        if fill: fill(i, nd)
        N.append(nd)
    order = N if n < 2 else h.choice('order', [N, N[::-1]])
    for nd in order: m.nodes[nd.name] = nd
    m.solution = 'Linear'
    return m, N, order

def dist2(a, b): return (a.X - b.X)**2 + (a.Y - b.Y)**2 + (a.Z - b.Z)**2

def close(h, a, b, tol):
    if h.symbolic: return a.distance(b) <= tol
    return dist2(a, b)**0.5 <= tol

def outcome(h, m, N, order, tol, res):
    """kept and removed nodes, and for each removed node the kept nodes within the tolerance"""
    kept = [n for n in N if n.name in m.nodes]
    gone = [n for n in N if n.name not in m.nodes]
    h.check('the removed nodes are reported', sorted(res) == sorted(n.name for n in gone) and len(set(res)) == len(res))
    h.check('the others stay the same objects', all(m.nodes[n.name] is n for n in kept) and len(m.nodes) == len(kept))
    for i, a in enumerate(kept):
        for b in kept[i + 1:]: h.check('kept nodes are further apart than the tolerance', h.neg(close(h, a, b, tol)))
    to = {}
    for g in gone:
        to[g.name] = [k for k in kept if bool(close(h, g, k, tol))]
        h.check('a removed node has a kept duplicate', len(to[g.name]) > 0)
    h.check('no longer solved', m.solution is None)
    return kept, gone, to

def candidates(kept, gone, to):
    """the assignments of removed nodes to kept nodes that the tolerance allows"""
    out = [{k.name: k for k in kept}]
    for g in gone: out = [dict(a, **{g.name: k}) for a in out for k in to[g.name]]
    return out

def tolerance(h):
    how = h.choice('tolerance', ['default', 'given'])
    return 0.001 if how == 'default' else h.real('tol', 'pos', 0.01, 1), how == 'default'

def near(h, N, tol, i, j):
    h.assume(close(h, N[i], N[j], tol))

def call(m, tol, default): return m.merge_duplicate_nodes() if default else m.merge_duplicate_nodes(tol)

def concrete_cluster(h, N):
    """spread random nodes over a few places so that duplicates occur"""
    if h.symbolic: return
    spots = [(h.rng.randint(0, 2), h.rng.randint(0, 1), 0) for i in range(2)]
    for nd in N:
        p = h.rng.choice(spots); s = h.rng.choice([0, 0.0004, 0.02, 0.3])
        nd.X, nd.Y, nd.Z = (v + h.rng.uniform(-s, s) for v in p)

def distance(h):
    """the distance of two nodes is the Euclidean one: what it is depends on nothing but the two places, and it is symmetric"""
    a, b = [Node3D('N%d' % i, *[h.real('%s%d' % (c, i), 'real', -5, 5) for c in 'XYZ']) for i in range(2)]
    h.cover('pre')
    d = a.distance(b)
    h.check('not negative', h.either(d > 0, d == 0))
    h.eq('square', d*d, dist2(a, b), 100)
    h.eq('symmetric', d, b.distance(a), 10)
    h.eq('zero', a.distance(a), 0, 1)

def geometry(n):
    def unit(h):
        tol, default = tolerance(h)
        m, N, order = build(h, n)
        concrete_cluster(h, N)
        pos = [(nd.X, nd.Y, nd.Z) for nd in N]; loads = [list(nd.NodeLoads) for nd in N]
        h.cover('pre')
        res = call(m, tol, default)
        kept, gone, to = outcome(h, m, N, order, tol, res)
        for nd, p in zip(N, pos): h.check('coordinates are kept', (nd.X, nd.Y, nd.Z) == p)
        ok = False
        for a in candidates(kept, gone, to):
            if all(sorted(k.NodeLoads) == sorted(sum((loads[int(x[1:]) - 1] for x in a if a[x] is k), [])) for k in kept): ok = True
        h.check('the nodal loads act on the kept node', ok)
    return unit

def connections(kind):
    def unit(h):
        tol, default = tolerance(h)
        m, N, order = build(h, 3)
        concrete_cluster(h, N)
        ends = [h.choice('end:' + e, N if i < 3 else N[:2]) for i, e in enumerate(ENDS[kind])]
        el = element('A', kind, ends)
        others = [element('B', kind, [N[0], N[1], N[2], N[1]]), element('C', kind, [N[2], N[0], N[1], N[0]])]
        setattr(m, kind, {o.name: o for o in [el] + others})
        for k in ENDS:
            if k != kind: setattr(m, k, {'D': element('D', k, [N[1], N[2], N[2], N[0]])})
        mesh = None
        if kind in ('plates', 'quads'):
            mesh = Obj(); mesh.nodes = {x.name: x for x in N}; mesh.elements = {'A': el}
            m.meshes = {'MSH1': mesh}
        allel = [(k, o) for k in ENDS for o in getattr(m, k).values()]
        old = [[getattr(o, e) for e in ENDS[k]] for k, o in allel]
        h.cover('pre')
        res = call(m, tol, default)
        kept, gone, to = outcome(h, m, N, order, tol, res)
        h.check('every element is kept', [(k, o) for k in ENDS for o in getattr(m, k).values()] == allel)
        ok = False
        for a in candidates(kept, gone, to):
            if all(getattr(o, e) is a[x.name] for (k, o), ends in zip(allel, old) for e, x in zip(ENDS[k], ends)): ok = True
        h.check('every end refers to the node kept at the same place', ok)
        if mesh:
            h.check('the mesh keeps its elements', mesh.elements == {'A': el})
            h.check('the mesh lists the kept nodes', {n: id(x) for n, x in mesh.nodes.items()} == {x.name: id(x) for x in kept})
    return unit

def merged(h, fill, n=2, idx=0):
    """a model whose first two nodes are duplicates"""
    tol, default = tolerance(h)
    m, N, order = build(h, n, fill)
    if not h.symbolic:
        for nd in N[1:]: nd.X, nd.Y, nd.Z = N[0].X, N[0].Y, N[0].Z + tol*h.rng.uniform(-0.5, 0.5)
    else:
        for i in range(1, n): near(h, N, tol, 0, i)
    h.cover('pre')
    res = call(m, tol, default)
    kept, gone, to = outcome(h, m, N, order, tol, res)
    return m, order, kept, gone

def supports(dof):
    def unit(h):
        sup = [h.bool('s%d' % i) for i in range(2)]
        oth = h.choice('others', [(False, False), (True, False), (False, True)])
        def fill(i, nd):
            for d in DOF: setattr(nd, 'support_' + d, sup[i] if d == dof else oth[i])
        m, order, kept, gone = merged(h, fill)
        if len(gone) != 1: return
        h.eq('supported if either was', h.iverson(getattr(kept[0], 'support_' + dof)), h.iverson(h.either(sup[0], sup[1])))
        for d in DOF:
            if d != dof: h.check('other directions', getattr(kept[0], 'support_' + d) == (oth[0] or oth[1]))
    return unit

SPR = [None, '+', '-']
def springs(dof):
    def unit(h):
        spec, S = [], []
        for i in range(2):
            on = h.choice('spring%d' % i, [False, True])
            S.append([h.real('k%d' % i, 'pos', 1, 100), h.choice('dir%d' % i, SPR), {}] if on else [None, None, None])
            spec.append(list(S[i][:2]))
        def fill(i, nd):
            setattr(nd, 'spring_' + dof, S[i])
        m, order, kept, gone = merged(h, fill)
        if len(gone) != 1: return
        a, b = spec[order.index(kept[0])], spec[order.index(gone[0])]
        a, b = spec[int(kept[0].name[1:]) - 1], spec[int(gone[0].name[1:]) - 1]
        r = getattr(kept[0], 'spring_' + dof)
        if a[0] is None and b[0] is None: h.check('no spring', r[0] is None and r[1] is None)
        elif a[0] is None or b[0] is None:
            s = b if a[0] is None else a
            h.eq('stiffness', r[0], s[0]); h.check('direction', r[1] == s[1])
        elif a[1] == b[1]:
            h.eq('springs act together', r[0], a[0] + b[0]); h.check('direction', r[1] == a[1])
        else:
            h.eq('the spring of the removed node acts on the kept one', r[0], b[0]); h.check('direction', r[1] == b[1])
        if r[0] is not None: h.check('flags by combination', r[2] == {})
        for d in DOF:
            if d != dof: h.check('other directions', getattr(kept[0], 'spring_' + d)[:2] == [None, None])
    return unit

def displacements(dof):
    def unit(h):
        E = [h.choice('disp%d' % i, [None, 1]) for i in range(2)]
        E = [None if e is None else h.real('e%d' % i) for i, e in enumerate(E)]
        def fill(i, nd): setattr(nd, 'Enforced' + dof, E[i])
        m, order, kept, gone = merged(h, fill)
        if len(gone) != 1: return
        a, b = E[int(kept[0].name[1:]) - 1], E[int(gone[0].name[1:]) - 1]
        r = getattr(kept[0], 'Enforced' + dof)
        if b is not None: h.eq('the removed node\'s displacement', r, b)
        elif a is not None: h.eq('the displacement stays', r, a)
        else: h.check('no displacement', r is None)
        for d in DOF:
            if d != dof: h.check('other directions', getattr(kept[0], 'Enforced' + d) is None)
    return unit

T = [F_ + 'merge_duplicate_nodes', 'PyNite.Node3D.Node3D.distance']
B3 = 'models of 3 nodes at any distances, any tolerance, one arbitrary element and fixed others'
UNITS = [UNIT('distance', distance, T[1:], runs=60)]
UNITS += [UNIT('nodes-%d' % n, geometry(n), T, runs=60, bounded_text='models of %d nodes at any distances, any tolerance' % n) for n in (1, 2, 3, 4)]
UNITS += [UNIT('ends-' + k, connections(k), T, runs=60, bounded_text=B3) for k in ENDS]
UNITS += [UNIT('support-' + d, supports(d), T, runs=20, bounded_text='one pair of duplicate nodes') for d in DOF]
UNITS += [UNIT('spring-' + d, springs(d), T, runs=20, bounded_text='one pair of duplicate nodes') for d in DOF]
UNITS += [UNIT('displacement-' + d, displacements(d), T, runs=20, bounded_text='one pair of duplicate nodes') for d in DOF]

# ------------------------------------------------------------------ real models
def clusters(h):
    """random models with groups of duplicate nodes: everything attached to a group acts on the node kept of it"""
    r = h.rng
    m = FEModel3D()
    m.add_material('S', 1000, 400, 0.3, 0.1)
    m.add_section('W', Section())
    tol = r.choice([None, 0.001, 0.01, 0.5])
    t = tol or 0.001
    places = [(3*i + r.random(), r.randint(-2, 2)*3.0, r.randint(-1, 1)*3.0) for i in range(r.randint(2, 5))]
    group = {}
    names = ['N%d' % i for i in range(1, r.randint(3, 9) + 1)]
    r.shuffle(names)
    for nm in names:
        g = r.randrange(len(places)); group[nm] = g
        m.add_node(nm, *[c + r.uniform(-1, 1)*t*0.28 for c in places[g]])
    nd = list(m.nodes)
    def ends(k): return [r.choice(nd) for i in range(k)]
    for i in range(r.randint(0, 3)): m.add_spring(None, *ends(2), 5)
    for i in range(r.randint(1, 5)): m.add_member(None, *ends(2), 'S', 1, 1, 1, 1)
    for i in range(r.randint(0, 3)): m.add_plate(None, *ends(4), 0.1, 'S')
    for i in range(r.randint(0, 3)): m.add_quad(None, *ends(4), 0.1, 'S')
    for n in nd:
        if r.random() < 0.4: m.def_support(n, *[r.random() < 0.4 for i in range(6)])
        for d in DOF:
            if r.random() < 0.2: m.def_support_spring(n, d, r.randint(1, 9), r.choice([None, None, '+']) )
            if r.random() < 0.1: m.def_node_disp(n, d, r.randint(1, 9))
        for i in range(r.randint(0, 2)): m.add_node_load(n, r.choice(['FX', 'MZ']), r.randint(1, 99))
    if r.random() < 0.5:
        m.add_rectangle_mesh('MSH', 1, 2, 1, 0.1, 'S', element_type=r.choice(['Quad', 'Rect']), origin=[50, 50, 50])
        m.meshes['MSH'].generate()
        for x in m.meshes['MSH'].nodes.values(): group[x.name] = 100 + len(group)
        if r.random() < 0.7:        # a second mesh along an edge of the first
            m.add_rectangle_mesh('MSH2', 1, 2, 1, 0.1, 'S', element_type='Quad', origin=[52, 50, 50])
            m.meshes['MSH2'].generate()
            for x in m.meshes['MSH2'].nodes.values():
                tw = [y for y in m.meshes['MSH'].nodes.values() if abs(x.X - y.X) + abs(x.Y - y.Y) + abs(x.Z - y.Z) < 1e-9]
                group[x.name] = group[tw[0].name] if tw else 200 + len(group)
    m.solution = 'Linear'
    N = dict(m.nodes)
    G = {}
    for n in N: G.setdefault(group[n], []).append(N[n])
    before = {n: ([getattr(o, 'support_' + d) for d in DOF], [list(getattr(o, 'spring_' + d)) for d in DOF], [getattr(o, 'Enforced' + d) for d in DOF], list(o.NodeLoads)) for n, o in N.items()}
    el = [(k, o, [getattr(o, e) for e in ENDS[k]]) for k in ENDS for o in getattr(m, k).values()]
    mesh = {k: ([n for n in x.nodes], dict(x.elements)) for k, x in m.meshes.items()}
    h.cover('pre')
    res = m.merge_duplicate_nodes() if tol is None else m.merge_duplicate_nodes(tol)
    keep = {}
    for g in G:
        k = [n for n in G[g] if n.name in m.nodes]
        h.check('one node is kept of each group', len(k) == 1)
        keep[g] = k[0]
    h.check('reported', sorted(res) == sorted(n for n in N if n not in m.nodes))
    h.check('not solved', m.solution is None)
    for k, o, e in el: h.check('ends', all(getattr(o, a) is keep[group[x.name]] for a, x in zip(ENDS[k], e)) and getattr(m, k).get(o.name) is o)
    for g in G:
        b = [before[n.name] for n in G[g]]; k = keep[g]
        for i, d in enumerate(DOF):
            h.check('supports', getattr(k, 'support_' + d) == any(x[0][i] for x in b))
            sp = [x[1][i] for x in b if x[1][i][0] is not None]
            s = getattr(k, 'spring_' + d)
            if not sp: h.check('no spring', s[0] is None)
            elif len({x[1] for x in sp}) == 1: h.check('springs', s[0] == sum(x[0] for x in sp) and s[1] == sp[0][1])
            e = [x[2][i] for x in b if x[2][i] is not None]
            h.check('enforced displacements', getattr(k, 'Enforced' + d) in e if e else getattr(k, 'Enforced' + d) is None)
        h.check('loads', sorted(k.NodeLoads) == sorted(sum((x[3] for x in b), [])))
    for name, x in m.meshes.items():
        h.check('mesh nodes', {a: id(o) for a, o in x.nodes.items()} == {keep[group[n]].name: id(keep[group[n]]) for n in mesh[name][0]})
        h.check('mesh elements', x.elements == mesh[name][1])
UNITS += [UNIT('clusters', clusters, T, runs=150, sym=False, bounded_text='random models of up to 9 nodes plus meshes, in groups of duplicates')]
