"""C15: model editing keeps names unique and references consistent."""
from contracts.common import *
from PyNite import FEModel3D as FM
from PyNite.FEModel3D import FEModel3D
from PyNite.Node3D import Node3D
from PyNite.Material import Material

DOF = ['DX', 'DY', 'DZ', 'RX', 'RY', 'RZ']
RXN = ['RxnFX', 'RxnFY', 'RxnFZ', 'RxnMX', 'RxnMY', 'RxnMZ']
POOL = {'nodes': ['N0', 'N1', 'N2', 'N3', 'A', 'B'], 'aux_nodes': ['AN0', 'AN1', 'AN2', 'A'], 'materials': ['M0', 'M1', 'M2', 'S'],
        'sections': ['W8', 'W10', 'S'], 'springs': ['S0', 'S1', 'S2', 'A'], 'members': ['M0', 'M1', 'M2', 'M3', 'A'],
        'plates': ['P0', 'P1', 'P2', 'R1', 'A'], 'quads': ['Q0', 'Q1', 'Q2', 'Q3', 'A'], 'meshes': ['MSH1', 'MSH2', 'MSH3', 'A']}
ENDS = {'springs': ['i_node', 'j_node'], 'members': ['i_node', 'j_node'], 'plates': ['i_node', 'j_node', 'm_node', 'n_node'], 'quads': ['i_node', 'j_node', 'm_node', 'n_node']}

class Obj:
    pass

class Section:
    def __init__(self): self.A, self.Iy, self.Iz, self.J = 1, 2, 3, 4

def model(h, ends=True):
    """a model in any state that editing it can lead to: names are keys and ends are nodes of the model"""
    m = FEModel3D()
    m.nodes = h.kmap('nodes', lambda k: Node3D(k, h.real('X:%s' % k), h.real('Y:%s' % k), h.real('Z:%s' % k)), POOL['nodes'])
    m.aux_nodes = h.kmap('aux_nodes', lambda k: Node3D(k, 0, 0, 0), POOL['aux_nodes'])
    m.materials = h.kmap('materials', lambda k: Material(k, 1, 1, 0.3, 1), POOL['materials'])
    m.sections = h.kmap('sections', lambda k: Section(), POOL['sections'])
    def elem(kind):
        def make(k):
            o = Obj(); o.name = k
            for e in ENDS[kind] if ends else (): setattr(o, e, m.nodes[h.key_in('%s:%s:%s' % (kind, e, k), m.nodes)])
            o.PtLoads, o.DistLoads, o.pressures, o.Releases, o.auxNode = [], [], [], [False]*12, None
            o.sub_members = {}
            o.length = h.real('L:%s' % k, 'pos')
            o.L = lambda: o.length
            return o
        return make
    for kind in ENDS: setattr(m, kind, h.kmap(kind, elem(kind), POOL[kind]))
    m.meshes = h.kmap('meshes', lambda k: Obj(), POOL['meshes'])
    m.solution = 'Linear'
    return m

def snapshot(m):
    s = {k: getattr(m, k).copy() for k in POOL}
    s['solution'] = m.solution
    return s

def unchanged(h, m, old, kinds, but=()):
    for kind in kinds:
        if type(getattr(m, kind)) is dict and type(old[kind]) is not dict:
            h.check('no part of the model replaced', False)
            return
        if h.untouched(getattr(m, kind), old[kind]): continue
        for K in h.probes(POOL[kind]):
            skip = False
            for b in but:
                if K == b: skip = True
            if skip: continue
            h.check('other %s unchanged' % kind, h.same_at(getattr(m, kind), old[kind], K))

def has(h, d, k): return h.has(d, k)

def attempt(f):
    """(result, refused)"""
    try: return f(), None
    except (NameError, KeyError) as e: return None, e
    except Exception as e:
        if type(e) is Exception: return None, e
        raise

class MeshStub:
    """mesh constructors only describe the mesh (contract checked in C21)"""
    def __init__(self, *a, **k): self.args, self.kw = a, k

def adder(kind, call, refs=(), mats=(), auto=True, flags=True, named=True):
    """call(m, name, reference names, material name)"""
    def unit(h):
        h.while_any()
        m = model(h)
        if kind == 'meshes':
            for c in ('RectangleMesh', 'AnnulusMesh', 'FrustrumMesh', 'CylinderMesh'): h.patch(h.mod('PyNite.FEModel3D'), c, MeshStub)
        given = h.key('new', POOL[kind])
        how = h.choice('naming', ['given', 'none', 'empty'] if auto else ['given'])
        name = given if how == 'given' else None if how == 'none' else ''
        ends = [h.key('end:%s' % r, POOL['nodes']) for r in refs]
        mat = [h.key('mat:%s' % r, POOL['materials']) for r in mats]
        old = snapshot(m)
        h.cover('pre')
        res, refused = attempt(lambda: call(m, name, ends, mat))
        taken = how == 'given' and has(h, old[kind], name)
        missing = False
        if not taken:
            for kd, e in [('nodes', e) for e in ends] + [('materials', e) for e in mat]:
                if not has(h, old[kd], e):
                    missing = True
                    break
        if refused is not None:
            h.check('refused only with a reason', taken or missing)
            unchanged(h, m, old, POOL)
            h.check('refused: solution kept', m.solution is old['solution'])
            return
        h.check('a name in use is refused', not taken)
        h.check('unknown nodes and materials are refused', not missing)
        new = h.added(getattr(m, kind), old[kind])
        h.check('one item added', len(new) == 1)
        k = new[0]
        h.check('not in use before', not has(h, old[kind], k))
        p, o = h.look(getattr(m, kind), k)
        if how == 'given': h.check('the requested name', k == name)
        h.check('stored', p)
        if named: h.check('its name is its key', o.name == k)
        if kind not in ('materials', 'sections'): h.check('the name is returned', res == k)
        for attr, e in zip(refs, ends): h.check('its %s is that node of the model' % attr, getattr(o, attr) is h.look(m.nodes, e)[1])
        unchanged(h, m, old, [kind], (k,))
        unchanged(h, m, old, [x for x in POOL if x != kind])
        if flags: h.check('not solved', m.solution is None)
    return unit

IJ, IJMN = ('i_node', 'j_node'), ('i_node', 'j_node', 'm_node', 'n_node')
ADD = {
 'node': adder('nodes', lambda m, n, e, mat: m.add_node(n, 1, 2, 3)),
 'auxnode': adder('aux_nodes', lambda m, n, e, mat: m.add_auxnode(n, 1, 2, 3)),
 'material': adder('materials', lambda m, n, e, mat: m.add_material(n, 1, 2, 0.3, 4), flags=False),
 'section': adder('sections', lambda m, n, e, mat: m.add_section(n, Section()), auto=False, flags=False, named=False),
 'spring': adder('springs', lambda m, n, e, mat: m.add_spring(n, e[0], e[1], 5), IJ),
 'member': adder('members', lambda m, n, e, mat: m.add_member(n, e[0], e[1], mat[0], 1, 2, 3, 4), IJ, ('member',)),
 'plate': adder('plates', lambda m, n, e, mat: m.add_plate(n, e[0], e[1], e[2], e[3], 0.5, mat[0]), IJMN, ('plate',)),
 'quad': adder('quads', lambda m, n, e, mat: m.add_quad(n, e[0], e[1], e[2], e[3], 0.5, mat[0]), IJMN, ('quad',)),
 'rectangle_mesh': adder('meshes', lambda m, n, e, mat: m.add_rectangle_mesh(n, 1, 3, 2, 0.5, 'S'), named=False),
 'plate_mesh': adder('meshes', lambda m, n, e, mat: m.add_rectangle_mesh(n, 1, 3, 2, 0.5, 'S', element_type='Rect'), named=False),
 'annulus_mesh': adder('meshes', lambda m, n, e, mat: m.add_annulus_mesh(n, 1, 3, 2, 0.5, 'S'), named=False),
 'frustrum_mesh': adder('meshes', lambda m, n, e, mat: m.add_frustrum_mesh(n, 1, 3, 2, 4, 0.5, 'S'), named=False),
 'cylinder_mesh': adder('meshes', lambda m, n, e, mat: m.add_cylinder_mesh(n, 1, 3, 2, 0.5, 'S'), named=False),
}
F_ = 'PyNite.FEModel3D.FEModel3D.'
UNITS = [UNIT('add-' + k, f, [F_ + 'add_' + ('rectangle_mesh' if k == 'plate_mesh' else k)], runs=40, max_paths=20000) for k, f in ADD.items()]

# ------------------------------------------------------------------ deleting
def del_item(kind, call):
    def unit(h):
        m = model(h)
        k = h.key('target', POOL[kind])
        if kind == 'aux_nodes': m.members = {}
        old = snapshot(m)
        h.cover('pre')
        res, refused = attempt(lambda: call(m, k))
        if refused is not None:
            h.check('only an unknown name is refused', not has(h, old[kind], k))
            unchanged(h, m, old, POOL)
            h.check('refused: solution kept', m.solution is old['solution'])
            return
        h.check('an unknown name is refused', has(h, old[kind], k))
        h.check('removed', not has(h, getattr(m, kind), k))
        unchanged(h, m, old, [kind], (k,))
        unchanged(h, m, old, [x for x in POOL if x != kind])
        h.check('not solved', m.solution is None)
    return unit

def delete_node(kind):
    """the node goes with everything attached to it and nothing else; stated for an arbitrary element of one kind"""
    def unit(h):
        m = model(h)
        k = h.key('target', POOL['nodes'])
        m.meshes = {}
        old = snapshot(m)
        h.cover('pre')
        res, refused = attempt(lambda: m.delete_node(k))
        if refused is not None:
            h.check('only an unknown name is refused', not has(h, old['nodes'], k))
            unchanged(h, m, old, POOL)
            h.check('refused: solution kept', m.solution is old['solution'])
            return
        h.check('an unknown name is refused', has(h, old['nodes'], k))
        h.check('not solved', m.solution is None)
        if kind == 'nodes':
            h.check('removed', not has(h, m.nodes, k))
            unchanged(h, m, old, ['nodes'], (k,))
            unchanged(h, m, old, ['aux_nodes', 'materials', 'sections', 'meshes'])
            return
        gone = h.look(old['nodes'], k)[1]
        for K in h.probes(POOL[kind]):
            p0, o = h.look(old[kind], K)
            p1 = has(h, getattr(m, kind), K)
            if not p0:
                h.check('no new element', not p1)
                continue
            attached = False
            for e in ENDS[kind]:
                if getattr(o, e) is gone:
                    attached = True
                    break
            h.check('exactly the attached elements are removed', p1 == (not attached))
            if p1:
                h.check('the same element', h.look(getattr(m, kind), K)[1] is o)
                for e in ENDS[kind]: h.check('ends are nodes of the model', h.look(m.nodes, getattr(o, e).name)[1] is getattr(o, e))
    return unit

def delete_node_mesh(h):
    """a mesh loses the node and the elements attached to it"""
    m = model(h)
    for kind in ('springs', 'members', 'plates'): setattr(m, kind, {})
    k = h.key('target', POOL['nodes'])
    msh = Obj(); msh.nodes = h.submap('mesh nodes', m.nodes, POOL['nodes']); msh.elements = h.submap('mesh elements', m.quads, POOL['quads'])
    m.meshes = {'MSH1': msh}
    on, oe = msh.nodes.copy(), msh.elements.copy()
    h.assume(has(h, m.nodes, k))
    gone = h.look(m.nodes, k)[1]
    h.cover('pre')
    m.delete_node(k)
    what = h.choice('part', ['nodes', 'elements'])
    if what == 'nodes':
        h.check('node removed', not has(h, msh.nodes, k))
        for K in h.probes(POOL['nodes']):
            if K == k: continue
            h.check('other nodes kept', h.same_at(msh.nodes, on, K))
        return
    for K in h.probes(POOL['quads']):
        p0, o = h.look(oe, K)
        p1 = has(h, msh.elements, K)
        if not p0:
            h.check('no new element', not p1)
            continue
        attached = False
        for e in ENDS['quads']:
            if getattr(o, e) is gone:
                attached = True
                break
        h.check('exactly the attached elements are removed', p1 == (not attached))

def delete_auxnode_members(h):
    """members that used the auxiliary node no longer do, all others keep theirs"""
    m = FEModel3D()
    m.solution = 'Linear'
    x, y = h.new_node('x'), h.new_node('y')
    h.assume(h.neg(h.same(x, y)))
    m.aux_nodes = {'AN1': x, 'AN2': y}
    def member(b):
        o = Obj(); o.name = b
        o.auxNode = o.before = h.choice('aux:' + b, [None, x, y])
        return b, o
    m.members = h.dict('members', member)
    h.cover('pre')
    m.delete_auxnode('AN1')
    for o in m.members.values():
        h.check('no reference left', o.auxNode is not x)
        if o.before is not x: h.check('others kept', o.auxNode is o.before)

UNITS += [UNIT('delete-auxnode-members', delete_auxnode_members, [F_ + 'delete_auxnode'], runs=40)]
UNITS += [UNIT('delete-' + n, del_item(k, f), [F_ + 'delete_' + n], runs=40) for n, k, f in
          (('spring', 'springs', lambda m, k: m.delete_spring(k)), ('member', 'members', lambda m, k: m.delete_member(k)), ('auxnode', 'aux_nodes', lambda m, k: m.delete_auxnode(k)))]
UNITS += [UNIT('delete-node-' + k, delete_node(k), [F_ + 'delete_node'], runs=40, max_paths=20000) for k in ('nodes', 'springs', 'members', 'plates', 'quads')]
UNITS += [UNIT('delete-node-mesh', delete_node_mesh, [F_ + 'delete_node'], runs=40, max_paths=20000)]

# ------------------------------------------------------------------ supports, loads and releases
NODE_FIELDS = ['support_' + d for d in DOF] + ['spring_' + d for d in DOF] + ['Enforced' + d for d in DOF]
def fields(o):
    f = {a: getattr(o, a) for a in NODE_FIELDS + ['NodeLoads'] if hasattr(o, a)}
    for a in ('PtLoads', 'DistLoads', 'pressures', 'Releases', 'NodeLoads'):
        if hasattr(o, a): f[a] = list(getattr(o, a))
    return f

def sameval(x, y):
    return len(x) == len(y) and all([p is q or p == q for p, q in zip(x, y)]) if isinstance(x, list) else x is y

def editor(kind, call):
    """call(h, m, name) -> (field, expected value as a function of the old one); an unknown item is refused and leaves the model as it was"""
    def unit(h):
        m = model(h, ends=False)
        k, K = h.key('target', POOL[kind]), h.key('other', POOL[kind])
        d = getattr(m, kind)
        p, o = h.look(d, k)
        q, w = h.look(d, K)
        old = snapshot(m)
        fo, fw = p and fields(o), q and fields(w)
        h.cover('pre')
        args = call(h)
        res, refused = attempt(lambda: args[0](m, k))
        h.check('an unknown name is refused, a known one is not', (refused is None) == p)
        unchanged(h, m, old, POOL)
        h.check('not solved exactly after an edit', m.solution is (None if p else 'Linear'))
        if q and (not p or w is not o):
            f = fields(w)
            for a in f: h.check('other items untouched', sameval(f[a], fw[a]))
        if p:
            f = fields(o)
            want = args[1](fo, o)
            for a in f: h.check('exactly the requested change', sameval(f[a], want.get(a, fo[a])))
    return unit

def e_support(h):
    v = [h.bool('s%d' % i) for i in range(6)]
    return lambda m, k: m.def_support(k, *v), lambda f, o: {'support_' + d: x for d, x in zip(DOF, v)}
def e_spring(h):
    d, s, ks = h.choice('dof', DOF), h.choice('direction', ['+', '-', None]), h.real('ks', 'pos')
    return lambda m, k: m.def_support_spring(k, d, ks, s), lambda f, o: {'spring_' + d: [ks, s, {}]}
def e_disp(h):
    d, v = h.choice('dof', DOF), h.real('v')
    return lambda m, k: m.def_node_disp(k, d, v), lambda f, o: {'Enforced' + d: v}
def e_nodeload(h):
    d, v = h.choice('dir', ['FX', 'FY', 'FZ', 'MX', 'MY', 'MZ']), h.real('P')
    return lambda m, k: m.add_node_load(k, d, v, 'D'), lambda f, o: {'NodeLoads': f['NodeLoads'] + [(d, v, 'D')]}
def e_releases(h):
    v = [h.bool('r%d' % i) for i in range(12)]
    return lambda m, k: m.def_releases(k, *v), lambda f, o: {'Releases': v}
def e_ptload(h):
    d, v, x = h.choice('dir', ['Fx', 'Fy', 'Fz', 'Mx', 'My', 'Mz', 'FX', 'FY', 'FZ', 'MX', 'MY', 'MZ']), h.real('P'), h.real('x')
    return lambda m, k: m.add_member_pt_load(k, d, v, x, 'D'), lambda f, o: {'PtLoads': f['PtLoads'] + [(d, v, x, 'D')]}
def e_distload(h):
    d, v, w = h.choice('dir', ['Fx', 'Fy', 'Fz', 'FX', 'FY', 'FZ']), h.real('w1'), h.real('w2')
    full = h.choice('range', ['whole', 'part'])
    x = [h.real('x1'), h.real('x2')] if full == 'part' else [None, None]
    return lambda m, k: m.add_member_dist_load(k, d, v, w, x[0], x[1], 'D'), lambda f, o: {'DistLoads': f['DistLoads'] + [(d, v, w, x[0], x[1], 'D') if full == 'part' else (d, v, w, 0, o.length, 'D')]}
def e_pressure(plate):
    def f(h):
        v = h.real('p')
        return (lambda m, k: getattr(m, 'add_%s_surface_pressure' % plate)(k, v, 'D')), lambda f, o: {'pressures': f['pressures'] + [[v, 'D']]}
    return f

EDITS = [('def_support', 'nodes', e_support), ('def_support_spring', 'nodes', e_spring), ('def_node_disp', 'nodes', e_disp), ('add_node_load', 'nodes', e_nodeload),
         ('def_releases', 'members', e_releases), ('add_member_pt_load', 'members', e_ptload), ('add_member_dist_load', 'members', e_distload),
         ('add_plate_surface_pressure', 'plates', e_pressure('plate')), ('add_quad_surface_pressure', 'quads', e_pressure('quad'))]
UNITS += [UNIT(n, editor(k, f), [F_ + n], runs=40, max_paths=20000) for n, k, f in EDITS]

def self_weight(h):
    """every member gets its own weight as one uniform load over its length"""
    m = FEModel3D()
    m.solution = 'Linear'
    m.materials = {'S': Material('S', 1, 1, 0.3, h.real('rhoS')), 'C': Material('C', 1, 1, 0.3, h.real('rhoC'))}
    f, d = h.real('factor'), h.choice('dir', ['FX', 'FY', 'FZ'])
    log = []
    def member(b):
        o = Obj(); o.name = b; o.material_name = h.choice('mat:' + b, ['S', 'C']); o.A = h.real('A:' + b); o.n = 0
        return b, o
    m.members = h.dict('members', member)
    def add(name, direction, w1, w2, x1=None, x2=None, case='Case 1'):
        for _, o in h.current(m.members):
            if o.name == name:
                h.check('direction, range and case', direction == d and x1 is None and x2 is None and case == 'D')
                h.eq('weight per length', w1, f*m.materials[o.material_name].rho*o.A)
                h.eq('uniform', w2, w1)
                o.n += 1
    h.patch(m, 'add_member_dist_load', add)
    h.cover('pre')
    m.add_member_self_weight(d, f, 'D')
    for o in m.members.values(): h.eq('once per member', o.n, 1)

UNITS += [UNIT('add_member_self_weight', self_weight, [F_ + 'add_member_self_weight'], runs=40)]

# ------------------------------------------------------------------ deleting all loads
def delete_loads(h):
    m = FEModel3D()
    m.solution = 'Linear'
    m._D = {'Combo 1': 1}
    def stale(o):
        o.PtLoads, o.DistLoads, o.pressures = [('Fx', 1, 2, 'D')], [('Fx', 1, 2, 3, 4, 'D')], [[1, 'D']]
        o.SegmentsX, o.SegmentsY, o.SegmentsZ, o._solved_combo = [1], [2], [3], 'combo'
        return o
    def piece(b): return b, stale(Obj())
    def member(b):
        o = stale(Obj())
        o.sub_members = h.dict('pieces of ' + b, piece)
        return b, o
    def node(b):
        n = Obj(); n.NodeLoads = [('FX', 1, 'D')]
        for a in DOF + RXN: setattr(n, a, {'Combo 1': h.real('%s:%s' % (a, b))})
        return b, n
    m.nodes, m.members = h.dict('nodes', node), h.dict('members', member)
    m.plates, m.quads = h.dict('plates', lambda b: (b, stale(Obj()))), h.dict('quads', lambda b: (b, stale(Obj())))
    h.cover('pre')
    m.delete_loads()
    h.check('no displacement vector', m._D == {})
    h.check('not solved', m.solution is None)
    def clear(o):
        for a in ('PtLoads', 'DistLoads', 'SegmentsX', 'SegmentsY', 'SegmentsZ'): h.check('no loads and no results', getattr(o, a) == [])
    for n in m.nodes.values():
        h.check('no nodal loads', n.NodeLoads == [])
        for a in DOF + RXN: h.check('no displacements and reactions', getattr(n, a) == {})
    for o in m.members.values():
        clear(o)
        for s in o.sub_members.values():
            clear(s)
            h.check('no segments kept', s._solved_combo is None)
    for o in m.plates.values(): h.check('no pressures', o.pressures == [])
    for o in m.quads.values(): h.check('no pressures', o.pressures == [])

UNITS += [UNIT('delete_loads', delete_loads, [F_ + 'delete_loads'], runs=40)]

# ------------------------------------------------------------------ renaming
PREFIX = {'nodes': 'N', 'springs': 'S', 'members': 'M', 'plates': 'P', 'quads': 'Q'}
def rename(kind):
    def unit(h):
        """every item is kept, in its order, under a distinct key that is its name"""
        m = FEModel3D()
        def item(b):
            o = Obj(); o.name = h.word('name:' + b, ['A', 'B', PREFIX[kind] + '1', PREFIX[kind] + '2', PREFIX[kind] + '3', PREFIX[kind] + '7'])
            return o
        n = h.choice('items', [0, 1, 2, 3, 4])
        items = [item('%s%d' % (kind, i)) for i in range(n)]
        for i in range(n):
            for j in range(i): h.assume(h.neg(items[i].name == items[j].name))
        d = {}
        for o in items: d[o.name] = o
        setattr(m, kind, d)
        if kind in ('nodes', 'quads'):
            msh = Obj(); msh.nodes, msh.elements = {}, {}
            setattr(msh, {'nodes': 'nodes', 'quads': 'elements'}[kind], {o.name: o for o in items[:2]})
            m.meshes = {'MSH1': msh}
        h.cover('pre')
        m.rename()
        new = getattr(m, kind)
        h.check('every item is kept', list(new.values()) == items)
        h.check('distinct keys', len(new) == n)
        for k, o in new.items(): h.check('the key is the name', k == o.name)
        if kind in ('nodes', 'quads'):
            part = msh.nodes if kind == 'nodes' else msh.elements
            h.check('mesh keeps its items', list(part.values()) == items[:2])
            for k, o in part.items(): h.check('the key is the name', k == o.name)
    return unit
UNITS += [UNIT('rename-' + k, rename(k), [F_ + 'rename'], runs=30, bounded_text='up to 4 items with arbitrary names (the insertion of items at computed keys in an unbounded loop is outside the loop rule)') for k in PREFIX]

# ------------------------------------------------------------------ sequences of edits on the real code
def fingerprint(m):
    f = [(k, [(n, id(o)) for n, o in getattr(m, k).items()]) for k in ('nodes', 'aux_nodes', 'materials', 'sections', 'springs', 'members', 'plates', 'quads', 'meshes')]
    f += [[(id(o), len(o.PtLoads), len(o.DistLoads), list(o.Releases)) for o in m.members.values()],
          [(id(o), len(o.NodeLoads), [getattr(o, a) for a in NODE_FIELDS]) for o in m.nodes.values()],
          [(id(o), len(o.pressures)) for o in list(m.plates.values()) + list(m.quads.values())], m.solution]
    return repr(f)

def histories(h):
    r = h.rng
    m = FEModel3D()
    m.add_material('S', 1000, 400, 0.3, 0.1)
    m.add_section('W', Section())
    names = {'nodes': ['N1', 'N2', 'N3', 'A', 'B', 'C'], 'aux_nodes': ['AN1', 'X'], 'springs': ['S1', 'S2', 'K'], 'members': ['M1', 'M2', 'B1'], 'plates': ['P1', 'R1'], 'quads': ['Q1', 'Q2', 'QQ']}
    def pick(kind, p=0.85):
        d = getattr(m, kind)
        return r.choice(list(d)) if d and r.random() < p else r.choice(names[kind])
    def nm(kind): return r.choice(names[kind] + [None, None, ''])
    last = [None, None]
    def add(kind, f, *a):
        n = nm(kind); last[:] = [kind, n]
        return f(n, *a)
    ops = {
     'node': lambda: add('nodes', m.add_node, r.choice([0, 1, 2, 5]), r.choice([0, 3]), r.choice([0, 1])),
     'auxnode': lambda: add('aux_nodes', m.add_auxnode, 1, 1, 1),
     'spring': lambda: add('springs', m.add_spring, pick('nodes'), pick('nodes'), 5),
     'member': lambda: add('members', m.add_member, pick('nodes'), pick('nodes'), r.choice(['S', 'S', 'nosuch']), 1, 1, 1, 1, pick('aux_nodes') if m.aux_nodes and r.random() < 0.4 else None),
     'plate': lambda: add('plates', m.add_plate, pick('nodes'), pick('nodes'), pick('nodes'), pick('nodes'), 0.1, 'S'),
     'quad': lambda: add('quads', m.add_quad, pick('nodes'), pick('nodes'), pick('nodes'), pick('nodes'), 0.1, 'S'),
     'mesh': lambda: (m.add_rectangle_mesh(r.choice(['MA', None]), 1, 2, 1, 0.1, 'S', element_type=r.choice(['Quad', 'Rect'])), [x.generate() for x in m.meshes.values() if not x.is_generated()]),
     'delete_node': lambda: m.delete_node(pick('nodes')),
     'delete_auxnode': lambda: m.delete_auxnode(pick('aux_nodes')),
     'delete_spring': lambda: m.delete_spring(pick('springs')),
     'delete_member': lambda: m.delete_member(pick('members')),
     'support': lambda: m.def_support(pick('nodes'), True, False, True, False, True, False),
     'spring support': lambda: m.def_support_spring(pick('nodes'), r.choice(DOF), 3, r.choice(['+', '-', None])),
     'disp': lambda: m.def_node_disp(pick('nodes'), r.choice(DOF), 0.1),
     'node load': lambda: m.add_node_load(pick('nodes'), 'FY', 1),
     'point load': lambda: m.add_member_pt_load(pick('members'), 'Fy', 1, 0.5),
     'dist load': lambda: m.add_member_dist_load(pick('members'), 'Fy', 1, 2),
     'pressure': lambda: m.add_quad_surface_pressure(pick('quads'), 1),
     'delete_loads': lambda: m.delete_loads(),
     'rename': lambda: m.rename(),
     'weight': lambda: m.add_member_self_weight('FY', -1),
    }
    h.cover('pre')
    for i in range(r.randint(0, 4)): m.add_node('N%d' % r.randint(10*i, 10*i + 5), i, r.randint(0, 2), 0)
    for step in range(r.randint(5, 40)):
        op = r.choice(list(ops) + ['node', 'member', 'member', 'quad', 'plate', 'spring'])
        m.solution = 'Linear'
        before, counts = fingerprint(m), {k: list(getattr(m, k).values()) for k in names}
        last[:] = [None, None]
        try: ops[op]()
        except (KeyError, NameError) as e:
            h.check('a refused %s leaves the model as it was' % op, fingerprint(m) == before)
            continue
        except Exception as e:
            if type(e) is not Exception: raise
            h.check('a refused %s leaves the model as it was' % op, fingerprint(m) == before)
            continue
        if op not in ('rename', 'weight', 'delete_auxnode'): h.check('%s marks the model as not solved' % op, m.solution is None)
        if last[0]:
            now = getattr(m, last[0])
            h.check('%s adds one item and keeps the others' % op, [x for x in now.values() if x not in counts[last[0]]] == list(now.values())[-1:] and len(now) == len(counts[last[0]]) + 1)
            if last[1]: h.check('under the requested name', list(now)[-1] == last[1])
        if op == 'rename':
            for k in ('nodes', 'springs', 'members', 'plates', 'quads'): h.check('rename keeps every item', sorted(map(id, counts[k])) == sorted(map(id, getattr(m, k).values())))
        if op == 'delete_loads':
            for o in m.members.values(): h.check('no member loads', not o.PtLoads and not o.DistLoads)
            for o in m.nodes.values(): h.check('no nodal loads', not o.NodeLoads)
            for o in list(m.quads.values()) + list(m.plates.values()): h.check('no pressures', not o.pressures)
        for k in ('nodes', 'aux_nodes', 'springs', 'members', 'plates', 'quads'):
            for n, o in getattr(m, k).items(): h.check('the key is the name', n == o.name)
        for k in ENDS:
            for o in getattr(m, k).values():
                for e in ENDS[k]: h.check('ends are nodes of the model', m.nodes.get(getattr(o, e).name) is getattr(o, e))
        for o in m.members.values(): h.check('auxiliary nodes are in the model', o.auxNode is None or m.aux_nodes.get(o.auxNode.name) is o.auxNode)
        for x in m.meshes.values():
            for n, o in x.nodes.items(): h.check('mesh nodes are nodes of the model', n == o.name and m.nodes.get(n) is o)
            for n, o in x.elements.items(): h.check('mesh elements are elements of the model', n == o.name and (m.quads.get(n) is o or m.plates.get(n) is o))

UNITS += [UNIT('histories', histories, [F_ + x for x in ('add_node', 'add_member', 'delete_node', 'rename', 'delete_loads')], runs=200, sym=False, bounded_text='random sequences of up to 40 edits')]
