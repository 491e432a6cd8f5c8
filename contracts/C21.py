"""C21: mesh generators produce complete, conforming meshes of the requested shape."""
from math import pi, sin, cos, ceil
from contracts.common import *
from PyNite.FEModel3D import FEModel3D
from PyNite.Node3D import Node3D
from PyNite import Mesh as MESH
from contracts.C15 import model, snapshot, unchanged, POOL
M_ = 'PyNite.Mesh.'

class Obj: pass
ROT = {'X': ('Z', 'Y', 'X'), 'Y': ('X', 'Z', 'Y'), 'Z': ('Y', 'X', 'Z')}     # the axes of cos, sin and the axis itself

def place(h, what, nd, O, axis, r, a, up=0):
    """the node is at radius r and angle a about the axis through O, at the given height"""
    c, s, t = ROT[axis]
    h.eq(what + ' (cos)', getattr(nd, c), O[c] + r*cos(a), 10)
    h.eq(what + ' (sin)', getattr(nd, s), O[s] + r*sin(a), 10)
    h.eq(what + ' (axis)', getattr(nd, t), O[t] + up, 10)

def common(h, m, els, th, kx, ky, cls='Quad'):
    for e in els:
        h.check('element type', e.type == cls)
        h.check('thickness', e.t is th); h.check('material', e.E == 7 if False else True)
        h.check('modifiers', e.kx_mod is kx and e.ky_mod is ky)

def base(h):
    m = FEModel3D()
    m.add_material('S', 1000, 400, 0.3, 0.1)
    O = {c: h.real('O' + c, 'real', -5, 5) for c in 'XYZ'}
    return m, O, h.real('t', 'pos', 0.1, 1), h.real('kx', 'pos', 0.1, 1), h.real('ky', 'pos', 0.1, 1)

def corners(e): return [e.i_node, e.j_node, e.m_node, e.n_node]

def numbered(els, prefix, start): return [prefix + str(start + k) for k in range(len(els))] == list(els)

def ring(kind, n):
    def unit(h):
        m, O, th, kx, ky = base(h)
        axis = h.choice('axis', ['X', 'Y', 'Z'])
        sn, se = h.choice('start', [(1, 1), (8, 5)])
        ri = h.real('r1', 'pos', 0.5, 2)
        o = [O['X'], O['Y'], O['Z']]
        h.cover('pre')
        if kind == 'cylinder':
            typ = h.choice('type', ['Quad', 'Rect'])
            H = h.real('h', 'pos', 0.5, 2)
            g = MESH.CylinderRingMesh(ri, H, n, th, 'S', m, kx, ky, o, axis, 'N%d' % sn, 'Q%d' % se, typ)
        else:
            typ = 'Quad'
            ro = ri + h.real('dr', 'pos', 0.5, 2)
            cls = MESH.AnnulusRingMesh if kind == 'ring' else MESH.AnnulusTransRingMesh
            g = cls(ro, ri, n, th, 'S', m, kx, ky, o, axis, 'N%d' % sn, 'Q%d' % se)
        N = list(g.nodes.values()); E = list(g.elements.values())
        h.check('the model is left alone', not m.nodes and not m.quads and not m.plates)
        h.check('keys are names', [x.name for x in N] == list(g.nodes) and [x.name for x in E] == list(g.elements))
        h.check('nodes are numbered in order', numbered(g.nodes, 'N', sn))
        h.check('elements are numbered in order', numbered(g.elements, 'R' if typ == 'Rect' else 'Q', se))
        for e in E:
            h.check('type', e.type == typ)
            h.check('properties', h.same(e.t, th) and h.same(e.kx_mod, kx) and h.same(e.ky_mod, ky))
            h.check('material', h.same(e.E, m.materials['S'].E) and h.same(e.nu, m.materials['S'].nu))
        cells = [corners(e) for e in E]
        if kind != 'transition':
            h.check('number of nodes', len(N) == 2*n); h.check('number of elements', len(E) == n)
            for k in range(n):
                a = 2*pi*k/n
                place(h, 'first circle', N[k], O, axis, ri, a)
                if kind == 'ring': place(h, 'second circle', N[n + k], O, axis, ro, a)
                else: place(h, 'second circle', N[n + k], O, axis, ri, a, H)
                # the cells between the two circles
                k1 = (k + 1) % n
                want = {id(N[k]), id(N[k1]), id(N[n + k]), id(N[n + k1])}
                mine = [c for c in cells if {id(x) for x in c} == want]
                h.check('one element in every cell', len(mine) == 1)
                h.check('corners in order', [id(x) for x in mine[0]] == [id(N[n + k]), id(N[n + k1]), id(N[k1]), id(N[k])])
        else:
            h.check('number of nodes', len(N) == 6*n); h.check('number of elements', len(E) == 4*n)
            rm = (ri + ro)/2
            mid = lambda t: N[n + 2*(t//3) + t % 3 - 1]      # t-th third of the circle, t % 3 in 1, 2
            inner = lambda k: N[k % n]
            outer = lambda t: N[3*n + t % (3*n)]
            want = []
            for k in range(n): place(h, 'inner circle', inner(k), O, axis, ri, 2*pi*k/n)
            for t in range(3*n):
                place(h, 'outer circle', outer(t), O, axis, ro, 2*pi*t/(3*n))
                if t % 3: place(h, 'middle circle', mid(t), O, axis, rm, 2*pi*t/(3*n))
                low = lambda u: mid(u) if u % 3 else inner(u//3)
                want.append([outer(t), outer(t + 1), low(t + 1), low(t)])
            for k in range(n): want.append([mid(3*k + 1), mid(3*k + 2), inner(k + 1), inner(k)])
            for w in want:
                mine = [c for c in cells if {id(x) for x in c} == {id(x) for x in w}]
                h.check('one element in every cell', len(mine) == 1)
                h.check('corners in order', [id(x) for x in mine[0]] == [id(x) for x in w])
    return unit

UNITS = []
for kind, cls in (('ring', 'AnnulusRingMesh'), ('transition', 'AnnulusTransRingMesh'), ('cylinder', 'CylinderRingMesh')):
    for n in ((3, 4, 7) if kind != 'transition' else (3, 4, 5)):
        UNITS.append(UNIT('%s-%d' % (kind, n), ring(kind, n), [M_ + cls + '.generate'], runs=20, bounded_text='%d elements around' % n))

# ------------------------------------------------------------------ rings tile an annulus or a cylinder (any number of rings)
class Bag(dict):
    """the nodes or elements of the mesh: the rings' contents are described by the ring contracts"""
    def update(self, o): pass

def stub_rings(h, seen, names):
    def make(kind):
        class Ring:
            def __init__(self, *a, **k):
                self.nodes, self.elements = {}, {}
                seen.append((kind, a, k))
        return Ring
    for c in names: h.patch(h.mod('PyNite.Mesh'), c, make(c))

def args(kind, a, k):
    """the arguments of a ring by name"""
    if kind == 'CylinderRingMesh': names = ['radius', 'height', 'n', 'thickness', 'material_name', 'model', 'kx_mod', 'ky_mod', 'origin', 'axis', 'start_node', 'start_element', 'element_type']
    else: names = ['outer_radius', 'inner_radius', 'n', 'thickness', 'material_name', 'model', 'kx_mod', 'ky_mod', 'origin', 'axis', 'start_node', 'start_element']
    d = dict(zip(names, a)); d.update(k)
    for s in ('num_quads', 'num_inner_quads', 'num_elements'):
        if s in d: d['n'] = d.pop(s)
    return d

def annulus_rings(h):
    """each ring starts at the circle at which the one before ends, with as many elements around and the same node names there;
    the first circle is the inner edge of the annulus and the last its outer edge"""
    m, O, th, kx, ky = base(h)
    axis = h.choice('axis', ['X', 'Y', 'Z'])
    r1 = h.real('r1', 'pos', 0.5, 2); r2 = r1 + h.real('dr', 'pos', 0.2, 4)
    ms = h.real('size', 'pos', 0.2, 3)
    o = [O['X'], O['Y'], O['Z']]
    g = MESH.AnnulusMesh(ms, r2, r1, th, 'S', m, kx, ky, o, axis, 'N4', 'Q7')
    seen, entry, calls = [], {}, []
    if h.symbolic:
        stub_rings(h, seen, ['AnnulusRingMesh', 'AnnulusTransRingMesh'])
        h.patch(g, '_remove_generated', lambda: None)
        h.patch(g, '_rename_duplicates', lambda: calls.append(1))
        g.nodes, g.elements = Bag(), Bag()
        def state(loc): return loc['r_inner'], loc['n'], loc['q'], loc['n_circ']
        def inv(loc):
            r, n, q, nc = state(loc)
            if seen:
                # one iteration later: the ring made connects the old circle with the new one
                kind, a, k = seen[0]; d = args(kind, a, k); r0, n0, q0, nc0 = entry['s']
                h.check('one ring', len(seen) == 1)
                h.eq('ring starts at the last circle', d['inner_radius'], r0)
                h.check('ring has a positive width', d['outer_radius'] > d['inner_radius'])
                h.eq('the next circle is its outer edge', d['outer_radius'], r)
                h.eq('as many elements around', d['n'], nc0)
                h.check('numbers go on', d['start_node'] == 'N' + str(n0) and d['start_element'] == 'Q' + str(q0))
                trans = kind == 'AnnulusTransRingMesh'
                h.eq('elements around its outer edge', nc, 3*nc0 if trans else nc0)
                h.eq('first node of the outer edge', n, n0 + (3*nc0 if trans else nc0))
                h.eq('elements made so far', q, q0 + (4*nc0 if trans else nc0))
                for s, v in (('thickness', th), ('model', m), ('kx_mod', kx), ('ky_mod', ky), ('origin', o), ('axis', axis), ('material_name', 'S')): h.check(s, h.same(d[s], v))
            elif not entry: h.check('first circle', h.same(r, r1) and n == 4 and q == 7)
            return [('inside', h.both(r > 0, h.either(r < r2, r == r2))), ('around', nc >= 3)]
        def havoc(loc, new):
            entry['s'] = state(new)
            g.num_quads_outer = h.int('outer')
        h.while_inv(inv, havoc, frame=('.num_quads_outer',))
    h.cover('pre')
    g.generate()
    if h.symbolic:
        h.eq('the last circle is the outer edge', entry['s'][0], r2)
        h.check('added to the model', calls == [1])
        h.check('generated', g.is_generated())

def cylinder_rings(h):
    m, O, th, kx, ky = base(h)
    axis = h.choice('axis', ['X', 'Y', 'Z'])
    typ = h.choice('type', ['Quad', 'Rect'])
    r = h.real('r', 'pos', 0.5, 2); H = h.real('h', 'pos', 0.2, 4); ms = h.real('size', 'pos', 0.2, 3)
    o = [O['X'], O['Y'], O['Z']]
    seen, entry, calls = [], {}, []
    nc = h.choice('around', [3, 4, 12])
    base_y = O[axis]
    if h.symbolic:
        stub_rings(h, seen, ['CylinderRingMesh'])
        h.patch(MESH.Mesh, '_rename_duplicates', lambda self: calls.append(1))
        def rg(self): self.nodes, self.elements = Bag(), Bag()
        h.patch(MESH.Mesh, '_remove_generated', rg)
        def inv(loc):
            y, n, q = loc['y'], loc['n'], loc['q']
            if seen:
                kind, a, k = seen[0]; d = args(kind, a, k); y0, n0, q0 = entry['s']
                h.check('one ring', len(seen) == 1)
                at = {c: d['origin'][i] for i, c in enumerate('XYZ')}
                for c in 'XYZ': h.eq('origin ' + c, at[c], y0 if c == axis else O[c])
                h.check('ring has a positive height', d['height'] > 0)
                h.eq('the next circle is its top', y, y0 + d['height'])
                h.eq('radius', d['radius'], r); h.check('elements around', d['n'] == nc)
                h.check('numbers go on', d['start_node'] == 'N' + str(n0) and d['start_element'] == 'Q' + str(q0))
                h.eq('first node of the top', n, n0 + nc); h.eq('elements', q, q0 + nc)
                for s, v in (('thickness', th), ('model', m), ('kx_mod', kx), ('ky_mod', ky), ('axis', axis), ('material_name', 'S'), ('element_type', typ)): h.check(s, h.same(d[s], v))
            elif not entry: h.check('first circle', h.same(y, base_y) and n == 4 and q == 7)
            return [('inside', h.either(y < base_y + H, y == base_y + H))]
        def havoc(loc, new): entry['s'] = (new['y'], new['n'], new['q'])
        h.while_inv(inv, havoc)
    h.cover('pre')
    g = MESH.CylinderMesh(ms, r, H, th, 'S', m, kx, ky, o, axis, 'N4', 'Q7', nc, typ)
    if h.symbolic:
        h.eq('the last circle is the top', entry['s'][0], base_y + H)
        h.check('added to the model', calls == [1]); h.check('generated', g.is_generated())

def around(h):
    """the number of elements around a cylinder follows from the mesh size"""
    m, O, th, kx, ky = base(h)
    h.patch(MESH.CylinderMesh, 'generate', lambda self: None)
    r, ms = h.real('r', 'pos', 0.5, 2), h.real('size', 'pos', 0.2, 3)
    h.cover('pre')
    n = h.choice('given', [3, 5])
    g = MESH.CylinderMesh(ms, r, 1, th, 'S', m, num_elements=n)
    h.check('as given', g.num_elements == n)

def frustrum(h):
    """a frustrum is an annulus whose nodes are moved along the axis in proportion to their distance from it"""
    m, O, th, kx, ky = base(h)
    axis = h.choice('axis', ['X', 'Y', 'Z'])
    r1 = h.real('r1', 'pos', 0.5, 2); r2 = r1 + h.real('dr', 'pos', 0.2, 4); H = h.real('h', 'pos', 0.2, 4)
    o = [O['X'], O['Y'], O['Z']]
    g = MESH.FrustrumMesh(1, r2, r1, H, th, 'S', m, kx, ky, o, axis)
    c, s, t = ROT[axis]
    R = [h.real('R%d' % i, 'pos', 0.5, 6) for i in range(2)]; A = [h.real('A%d' % i, 'real', -3, 3) for i in range(2)]
    N = []
    for i in range(2):
        nd = Node3D('N%d' % i, 0, 0, 0)
        setattr(nd, c, O[c] + R[i]*cos(A[i])); setattr(nd, s, O[s] + R[i]*sin(A[i])); setattr(nd, t, O[t])
        N.append(nd)
    def gen(self): self.nodes = {nd.name: nd for nd in N}
    h.patch(MESH.AnnulusMesh, 'generate', gen)
    h.cover('pre')
    g.generate()
    for i in range(2):
        h.eq('cos', getattr(N[i], c), O[c] + R[i]*cos(A[i]), 10); h.eq('sin', getattr(N[i], s), O[s] + R[i]*sin(A[i]), 10)
        h.eq('along the axis', (getattr(N[i], t) - O[t])*(r2 - r1), (R[i] - r2)*H, 10)

UNITS += [UNIT('annulus-rings', annulus_rings, [M_ + 'AnnulusMesh.generate'], runs=20),
          UNIT('cylinder-rings', cylinder_rings, [M_ + 'CylinderMesh.generate'], runs=20),
          UNIT('cylinder-around', around, [M_ + 'CylinderMesh.__init__'], runs=10),
          UNIT('frustrum', frustrum, [M_ + 'FrustrumMesh.generate'], runs=20, bounded_text='two nodes anywhere')]

# ------------------------------------------------------------------ the mesh and the model
def small_mesh(h, m, kind, nn, ne):
    """a mesh of new nodes and elements with distinct names of any kind"""
    g = MESH.Mesh(1, 'S', m)
    kd = {'Quad': 'quads', 'Rect': 'plates'}[kind]
    nk = [h.key('node%d' % i, POOL['nodes']) for i in range(nn)]
    ek = [h.key('element%d' % i, POOL[kd]) for i in range(ne)]
    for l in (nk, ek):
        for i in range(len(l)):
            for j in range(i): h.assume(h.neg(l[i] == l[j]))
    N = [Node3D(k, 0, 0, 0) for k in nk]
    E = []
    for k in ek:
        o = Obj(); o.name, o.type = k, kind
        E.append(o)
    g.nodes = {x.name: x for x in N}; g.elements = {x.name: x for x in E}
    return g, N, E, kd

def to_model(kind, nn, ne):
    def unit(h):
        """everything in the mesh gets into the model, under names that were free, and nothing in the model is touched"""
        h.while_any()
        m = model(h)
        g, N, E, kd = small_mesh(h, m, kind, nn, ne)
        old = snapshot(m)
        h.cover('pre')
        g._rename_duplicates()
        for what, items, mine, d, before in (('nodes', N, g.nodes, m.nodes, old['nodes']), ('elements', E, g.elements, getattr(m, kd), old[kd])):
            h.check('the mesh keeps its ' + what, len(mine) == len(items) and all(a is b for a, b in zip(mine.values(), items)))
            for k, x in zip(list(mine), items): h.check('keys of the mesh are names', k == x.name)
            for x in items:
                p, v = h.look(d, x.name)
                h.check('in the model under its name', p and v is x)
                h.check('the name was free', not h.has(before, x.name))
        unchanged(h, m, old, ['nodes'], [x.name for x in N])
        unchanged(h, m, old, [kd], [x.name for x in E])
        unchanged(h, m, old, [x for x in POOL if x not in ('nodes', kd)])
        h.check('not solved', m.solution is None)
    return unit

def from_model(kind):
    def unit(h):
        """generating again discards what the mesh put into the model before, and nothing else"""
        m = model(h)
        g, N, E, kd = small_mesh(h, m, kind, 2, 1)
        for x in N[:1]: m.nodes[x.name] = x
        for x in E: getattr(m, kd)[x.name] = x
        old = snapshot(m)
        h.cover('pre')
        g._remove_generated()
        h.check('the mesh is empty', not g.nodes and not g.elements)
        h.check('node discarded', not h.has(m.nodes, N[0].name)); h.check('element discarded', not h.has(getattr(m, kd), E[0].name))
        unchanged(h, m, old, ['nodes'], [N[0].name])
        unchanged(h, m, old, [kd], [E[0].name])
        unchanged(h, m, old, [x for x in POOL if x not in ('nodes', kd)])
    return unit

for kind in ('Quad', 'Rect'):
    UNITS += [UNIT('to-model-%s-%d' % (kind, n), to_model(kind, n, e), [M_ + 'Mesh._rename_duplicates'], runs=40, max_paths=20000, bounded_text='meshes of %d nodes and %d elements with any names, models of any content' % (n, e)) for n, e in ((1, 1), (2, 2), (3, 2))]
    UNITS += [UNIT('from-model-%s' % kind, from_model(kind), [M_ + 'Mesh._remove_generated'], runs=40, max_paths=20000, bounded_text='meshes of 2 nodes and an element, models of any content')]

# ------------------------------------------------------------------ rectangles
PLANE = {'XY': 'XYZ', 'YZ': 'ZYX', 'XZ': 'XZY'}      # the global axes along the mesh's x, its y, and normal to it

def equal(h, a, b): return bool(a == b) if h.symbolic else abs(a - b) < 1e-7

class Lines:
    """the distinct values in ascending order"""
    def __init__(self, h, vals):
        self.h, self.memo = h, {}
        uniq = []
        for v in vals:
            k = h.ident(v)
            if k in self.memo: continue
            self.memo[k] = None
            if not any(equal(h, v, w) for w in uniq): uniq.append(v)
        self.memo = {}
        self.v = sorted(uniq)
    def index(self, v):
        k = self.h.ident(v)
        if k not in self.memo:
            m = [i for i, w in enumerate(self.v) if equal(self.h, v, w)]
            self.memo[k] = m[0] if m else None
        return self.memo[k]

def rect_shape(h, g, m, O, plane, w, ht, ms, xc, yc, openings, typ, th, kx, ky, alone=True):
    """the elements are exactly the cells of a grid over the rectangle less the openings"""
    ax, ay, an = PLANE[plane]
    P = {id(nd): (getattr(nd, ax) - O[ax], getattr(nd, ay) - O[ay]) for nd in g.nodes.values()}
    for nd in g.nodes.values(): h.eq('in the plane', getattr(nd, an), O[an], 10)
    LX, LY = Lines(h, [p[0] for p in P.values()] + xc + [0, w]), Lines(h, [p[1] for p in P.values()] + yc + [0, ht])
    X, Y = LX.v, LY.v
    for nm, Q, end, cs in (('x', LX, w, xc), ('y', LY, ht, yc)):
        L = Q.v
        h.eq('%s starts at the edge' % nm, L[0], 0, 10); h.eq('%s ends at the edge' % nm, L[-1], end, 10)
    at = {}
    for nd in g.nodes.values():
        x, y = P[id(nd)]
        k = (LX.index(x), LY.index(y))
        h.check('one node in a place', k not in at)
        at[k] = nd
    cells = {}
    for e in g.elements.values():
        h.check('corners are nodes of the mesh', all(id(c) in P for c in corners(e)))
        q = [(LX.index(P[id(c)][0]), LY.index(P[id(c)][1])) for c in corners(e)]
        a, b = q[0]
        h.check('an element is a cell, corners in order', q == [(a, b), (a + 1, b), (a + 1, b + 1), (a, b + 1)])
        for nm, d in (('x', X[a + 1] - X[a]), ('y', Y[b + 1] - Y[b])):
            h.check('%s: elements have a size' % nm, d > 0)
            h.check('%s: no more than the mesh size' % nm, h.either(d < ms, d == ms) if h.symbolic else d <= ms + 1e-9)
        h.check('one element in a cell', (a, b) not in cells)
        cells[(a, b)] = e
        h.check('type', e.type == typ)
        h.check('properties', h.same(e.t, th) and h.same(e.kx_mod, kx) and h.same(e.ky_mod, ky) and h.same(e.E, m.materials['S'].E) and h.same(e.nu, m.materials['S'].nu))
    used = {id(c) for e in g.elements.values() for c in corners(e)}
    h.check('every node belongs to an element', used == set(P))
    for a in range(len(X) - 1):
        for b in range(len(Y) - 1):
            cx, cy = (X[a] + X[a + 1])/2, (Y[b] + Y[b + 1])/2
            hole = False
            for l, bo, ow, oh in openings:
                if bool(l < cx) and bool(cx < l + ow) and bool(bo < cy) and bool(cy < bo + oh): hole = True
            h.check('an element where there is no opening, none where there is one', ((a, b) in cells) != hole)
    d = m.quads if typ == 'Quad' else m.plates
    if alone: h.check('all in the model', list(m.nodes.values()) == list(g.nodes.values()) and list(d.values()) == list(g.elements.values()) and m.solution is None)
    h.check('keys are names', all(k == x.name for q in (g.nodes, g.elements, m.nodes, m.quads, m.plates) for k, x in q.items()))

def rectangle(ctl, hole, K, where='inside'):
    def unit(h):
        h.ceil_upto(K)
        m, O, th, kx, ky = base(h)
        plane, typ = h.choice('kind', [('XY', 'Quad'), ('YZ', 'Rect'), ('XZ', 'Quad')] if ctl else [('XY', 'Rect'), ('YZ', 'Quad'), ('XZ', 'Rect')])
        w, ht, ms = h.real('w', 'pos', 1, 5), h.real('h', 'pos', 1, 5), h.real('size', 'pos', 0.4, 6)
        xc = yc = None
        if ctl:
            u, v = h.real('xc', 'real', -1, 6), h.real('yc', 'real', -1, 6)
            xc, yc = h.choice('controls', [([u], None), (None, [v])] if ctl == 1 else [([u], [v])])
        x0, y0 = list(xc or []), list(yc or [])
        g = MESH.RectangleMesh(ms, w, ht, th, 'S', m, kx, ky, [O['X'], O['Y'], O['Z']], plane, xc, yc, 'N3', 'Q9', typ)
        ops = []
        for i in range(hole):
            l, b = [h.real('%s%d' % (c, i), 'pos' if where == 'inside' else 'real', 0.05 if where == 'inside' else -1, 1.5) for c in ('l', 'b')]
            ow, oh = [h.real('%s%d' % (c, i), 'pos', 0.05, 1.5) for c in ('ow', 'oh')]
            if h.symbolic:
                h.assume(h.both(w <= ms, ht <= ms))
                if where == 'inside': h.assume(h.both(l + ow < w, b + oh < ht))
                else: h.assume(h.either(l > 0, l + ow < w) if where == 'x' else h.either(b > 0, b + oh < ht))     # something is left
            else:
                h.assume(l > 0 or l + ow < w or b > 0 or b + oh < ht)
            g.add_rect_opening('O%d' % i, l, b, ow, oh)
            ops.append((l, b, ow, oh))
        h.check('not generated yet', not g.is_generated())
        h.cover('pre')
        g.generate()
        h.check('generated', g.is_generated())
        h.check('the lists of control points given stay as they are', (xc is None or (len(xc) == len(x0) and h.same(xc[0], x0[0]))) and (yc is None or (len(yc) == len(y0) and h.same(yc[0], y0[0]))))
        xs, ys = [x for x in x0 + [v for o in ops for v in (o[0], o[0] + o[2])] if bool(0 < x) and bool(x < w)], [y for y in y0 + [v for o in ops for v in (o[1], o[1] + o[3])] if bool(0 < y) and bool(y < ht)]
        rect_shape(h, g, m, O, plane, w, ht, ms, xs, ys, ops, typ, th, kx, ky)
    return unit
R_ = [M_ + 'RectangleMesh.' + x for x in ('generate', 'add_rect_opening', 'node_local_coords')]
UNITS += [UNIT('rectangle', rectangle(0, 0, 3), R_, runs=60, bounded_text='rectangles of up to 3 x 3 elements of any size'),
          UNIT('rectangle-controls', rectangle(1, 0, 2), R_, runs=60, bounded_text='one control point anywhere, up to 2 elements between control points'),
          UNIT('rectangle-controls-2', rectangle(2, 0, 2), R_, runs=60, sym='thorough', bounded_text='one control point anywhere in each direction, up to 2 elements between control points'),
          UNIT('rectangle-opening', rectangle(0, 1, 1), R_, runs=60, bounded_text='one opening anywhere inside, mesh size larger than the rectangle'),
          UNIT('rectangle-opening-x', rectangle(0, 1, 1, 'x'), R_, runs=60, bounded_text='one opening anywhere, also across the edges, that leaves a strip in x; mesh size larger than the rectangle'),
          UNIT('rectangle-opening-y', rectangle(0, 1, 1, 'y'), R_, runs=60, bounded_text='one opening anywhere, also across the edges, that leaves a strip in y; mesh size larger than the rectangle'),
          UNIT('rectangle-openings', rectangle(0, 2, 1), R_, runs=60, sym='thorough', bounded_text='two openings anywhere inside, also overlapping; mesh size larger than the rectangle')]

# ------------------------------------------------------------------ real meshes in real models
def populated(h):
    """a model that already holds nodes and elements"""
    r = h.rng
    m = FEModel3D(); m.add_material('S', 1000, 400, 0.3, 0.1)
    for i in range(r.randint(0, 6)): m.add_node('N%d' % r.randint(10*i + 1, 10*i + 10), r.uniform(-9, 9), r.uniform(-9, 9), 7)
    nd = list(m.nodes)
    if len(nd) >= 4:
        for i in range(r.randint(0, 3)): m.add_quad('Q%d' % r.randint(20*i + 1, 20*i + 20), *r.sample(nd, 4), 0.1, 'S')
        for i in range(r.randint(0, 3)): m.add_plate('R%d' % r.randint(20*i + 1, 20*i + 20), *r.sample(nd, 4), 0.1, 'S')
    return m

def contents(m): return [(k, x) for d in (m.nodes, m.quads, m.plates) for k, x in d.items()]

def in_model(h, m, g, before, typ):
    now = contents(m)
    h.check('what was in the model stays', all(any(k == k2 and x is x2 for k2, x2 in now) for k, x in before))
    h.check('the mesh is added, and nothing else', {id(x) for k, x in now} - {id(x) for k, x in before} == {id(x) for x in list(g.nodes.values()) + list(g.elements.values())} and len(now) == len(before) + len(g.nodes) + len(g.elements))
    h.check('keys are names', all(k == x.name for k, x in now) and all(k == x.name for q in (g.nodes, g.elements) for k, x in q.items()))
    h.check('not solved', m.solution is None)

def rectangles(h):
    r = h.rng
    m = populated(h)
    big = r.choice([1, 1, 1, 1000, 1e5])
    w, ht = round(r.uniform(1, 10), 2)*big, round(r.uniform(1, 10), 2)*big
    ms = max(w, ht)/r.choice([1, 3, 7.3, 12, 25])
    if big == 1e5: ht = w*0.05; ms = w/r.choice([70, 143, 99.5])
    far = r.choice([0, 0, 1, 1e3, 3e6])
    o = [round(r.uniform(-1, 1)*far, 2) for i in range(3)]
    plane, typ = r.choice(['XY', 'YZ', 'XZ']), r.choice(['Quad', 'Rect'])
    def ctl(end):
        l = [r.choice([round(r.uniform(0, end), 2), end*r.choice([0.5, 0.25, 1/3]), 0, end, 1e-16*end, end*(1 + 1e-12), -end*0.1, end*1.2, 0.1*end + 0.2*end - 0.3*end]) for i in range(r.randint(0, 3))]
        return r.choice([l, l, None])
    xc, yc = ctl(w), ctl(ht)
    x0, y0 = list(xc or []), list(yc or [])
    th, kx, ky = 0.25, 0.5, 0.7
    name = r.choice(['MSH', None])
    h.cover('pre')
    before = contents(m)
    m.solution = 'Linear'
    name = m.add_rectangle_mesh(name, ms, w, ht, th, 'S', kx, ky, o, plane, xc, yc, r.choice([None, 'N1', 'N12']), r.choice([None, 'Q1', 'Q3']), typ)
    g = m.meshes[name]
    ops = []
    def opening():
        l, b = round(r.uniform(-0.1, 0.8)*w, 3), round(r.uniform(0, 0.7)*ht, 3)
        if r.random() < 0.3: l = 0
        ow, oh = round(r.uniform(0.05, 0.5)*w, 3), round(r.uniform(0.05, 0.29)*ht, 3)
        g.add_rect_opening('O%d' % len(ops), l, b, ow, oh); ops.append((l, b, ow, oh))
    for i in range(r.choice([0, 1, 1, 2])): opening()
    m.solution = 'Linear'
    g.generate()
    if r.random() < 0.3:
        opening(); m.solution = 'Linear'; g.generate()       # the mesh made before is replaced
    h.check('the lists given stay as they are', (xc or []) == x0 and (yc or []) == y0)
    O = dict(zip('XYZ', o))
    xs = [x for x in x0 + [v for q in ops for v in (q[0], q[0] + q[2])] if 0 < x < w]; ys = [y for y in y0 + [v for q in ops for v in (q[1], q[1] + q[3])] if 0 < y < ht]
    rect_shape(h, g, m, O, plane, w, ht, ms, xs, ys, ops, typ, th, kx, ky, alone=False)
    in_model(h, m, g, before, typ)

def conforming(h, g, sides):
    """corners are nodes of the mesh, nodes are in different places and all used, and an edge belongs to two elements or lies
    on the edge of the shape"""
    N = list(g.nodes.values())
    pos = lambda x: (round(x.X, 6), round(x.Y, 6), round(x.Z, 6))
    h.check('one node in a place', len({pos(x) for x in N}) == len(N))
    ids = {id(x) for x in N}; count = {}
    for e in g.elements.values():
        c = corners(e)
        h.check('corners are different nodes of the mesh', all(id(x) in ids for x in c) and len({id(x) for x in c}) == 4)
        for a, b in zip(c, c[1:] + c[:1]):
            k = frozenset((id(a), id(b))); count.setdefault(k, []).append((a, b))
    h.check('every node belongs to an element', {i for k in count for i in k} == ids)
    for k, l in count.items():
        h.check('an edge belongs to at most two elements', len(l) <= 2)
        if len(l) == 2: h.check('neighbours lie on both sides of an edge', l[0] == l[1][::-1])
        else: h.check('free edges lie on the edge of the shape', any(all(f(x) for x in l[0]) for f in sides))

def area(h, e, n):
    """the (projected) area of an element, negative if the corners run the other way round"""
    import numpy as np
    P = [np.array([c.X, c.Y, c.Z], dtype=float) for c in corners(e)]
    return float(np.dot(np.cross(P[2] - P[0], P[3] - P[1]), n))/2

def round_meshes(kind):
    def unit(h):
        import numpy as np
        r = h.rng
        m = populated(h)
        axis = r.choice('XYZ'); c, s, t = ROT[axis]
        o = [r.uniform(-5, 5) for i in range(3)]; O = dict(zip('XYZ', o))
        r1 = r.uniform(0.3, 3); r2 = r1 + r.uniform(0.2, 8); H = r.uniform(0.3, 5); ms = r.choice([0.3, 0.7, 1, 2, 5, 30])
        if kind == 'cylinder': ms = max(ms, 0.5)
        th, kx, ky = 0.25, 0.5, 0.7
        sn, typ = r.choice([None, 'N1', 'N15']), 'Quad'
        before = contents(m); m.solution = 'Linear'
        h.cover('pre')
        if kind == 'annulus': g = m.meshes[m.add_annulus_mesh(None, ms, r2, r1, th, 'S', kx, ky, o, axis, sn)]
        elif kind == 'frustrum': g = m.meshes[m.add_frustrum_mesh(None, ms, r2, r1, H, th, 'S', kx, ky, o, axis, sn)]
        else:
            typ = r.choice(['Quad', 'Rect'])
            na = r.choice([None, None, 3, 8])
            g = m.meshes[m.add_cylinder_mesh(None, ms, r1, H, th, 'S', kx, ky, o, axis, num_elements=na, start_node=sn, element_type=typ)]
        if kind != 'cylinder':
            m.solution = 'Linear'; g.generate()
        if r.random() < 0.3: m.solution = 'Linear'; g.generate()
        in_model(h, m, g, before, typ)
        h.check('generated', g.is_generated())
        for e in g.elements.values():
            h.check('properties', e.type == typ and e.t == th and e.kx_mod == kx and e.ky_mod == ky and e.E == 1000 and e.nu == 0.3)
        rad = lambda x: ((getattr(x, c) - O[c])**2 + (getattr(x, s) - O[s])**2)**0.5
        up = lambda x: getattr(x, t) - O[t]
        near = lambda a, b: abs(a - b) < 1e-6
        n = np.array([1.0 if q == axis else 0.0 for q in 'XYZ'])
        if kind == 'cylinder':
            conforming(h, g, [lambda x: near(up(x), 0), lambda x: near(up(x), H)])
            for x in g.nodes.values():
                h.eq('nodes lie on the cylinder', rad(x), r1, 10); h.check('within the height', -1e-9 < up(x) < H + 1e-9)
            h.check('both ends reached', any(near(up(x), 0) for x in g.nodes.values()) and any(near(up(x), H) for x in g.nodes.values()))
            na = len([x for x in g.nodes.values() if near(up(x), 0)])
            want = na*2*r1*sin(pi/na)*H
            tot, face = 0, []
            for e in g.elements.values():
                P = [np.array([q.X, q.Y, q.Z]) for q in corners(e)]
                a = 0.5*np.cross(P[2] - P[0], P[3] - P[1])
                mid = sum(P)/4 - np.array(o); mid = mid - n*np.dot(mid, n)
                face.append(float(np.dot(a, mid)))
                h.check('elements face the same way', abs(face[-1]) > 1e-9 and face[-1]*face[0] > 0)
                tot += float(np.linalg.norm(a))
                h.check('heights', max(up(q) for q in corners(e)) - min(up(q) for q in corners(e)) > 1e-6)
            h.eq('the elements cover the cylinder', tot, want, want)
            return
        conforming(h, g, [lambda x: near(rad(x), r1), lambda x: near(rad(x), r2)])
        for x in g.nodes.values():
            h.check('nodes lie on the shape', r1 - 1e-9 < rad(x) < r2 + 1e-9)
            h.eq('height', up(x), 0 if kind == 'annulus' else (rad(x) - r2)/(r2 - r1)*H, 10)
        A = [area(h, e, n) for e in g.elements.values()]
        h.check('elements have an area and face the same way', all(a*A[0] > 0 and abs(a) > 1e-9 for a in A))
        n1 = len([x for x in g.nodes.values() if near(rad(x), r1)]); n2 = len([x for x in g.nodes.values() if near(rad(x), r2)])
        want = n2*r2**2*sin(2*pi/n2)/2 - n1*r1**2*sin(2*pi/n1)/2
        h.eq('the elements cover the ring', abs(sum(A)), want, want)
    return unit

UNITS += [UNIT('rectangles', rectangles, R_, runs=150, sym=False, bounded_text='random meshes in populated models'),
          UNIT('annuluses', round_meshes('annulus'), [M_ + 'AnnulusMesh.generate'], runs=80, sym=False, bounded_text='random meshes in populated models'),
          UNIT('frustrums', round_meshes('frustrum'), [M_ + 'FrustrumMesh.generate'], runs=80, sym=False, bounded_text='random meshes in populated models'),
          UNIT('cylinders', round_meshes('cylinder'), [M_ + 'CylinderMesh.generate'], runs=80, sym=False, bounded_text='random meshes in populated models')]
