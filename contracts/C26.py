"""C26: the extremes a mesh reports bound the results at the corners and centers of all its elements and are reached."""
import numpy as np
from contracts.common import *
from PyNite.Mesh import Mesh
from PyNite.LoadCombo import LoadCombo

class Element:
    """an element: its size and its results as functions of position, axes and combination (contract of Plate3D and Quad3D, C18 and C19)"""
    def __init__(self, h, b, kind):
        self.h, self.b, self.type = h, b, kind
        self.w, self.ht = h.real('w:' + b, 'pos', 0.1, 5), h.real('h:' + b, 'pos', 0.1, 5)
        self.name = h.name('name:' + b)
        self.kind = 0 if h.symbolic else h.choice('values:' + b, [0, 0, 1, 2, 3, 4])
    def width(self): return self.w
    def height(self): return self.ht
    def places(self):
        w, t = self.w, self.ht
        return {'i': (0, 0), 'j': (w, 0), 'm': (w, t), 'n': (0, t), 'c': (w/2, t/2)} if self.type == 'Rect' else {'i': (-1, -1), 'j': (1, -1), 'm': (1, 1), 'n': (-1, 1), 'c': (0, 0)}
    def at(self, what, i, local, c, x, y):
        v = self.h.fn(':'.join([self.b, what, str(i), 'local' if local else 'global', c]), x, y)
        # run concretely: ties, zeros, all of one sign
        return v if self.h.symbolic or self.kind == 0 else round(v) if self.kind == 1 else abs(round(v)) if self.kind == 2 else -abs(round(v)) if self.kind == 3 else 0*v
    def _r(self, what, n, x, y, local, c): return np.array([[self.at(what, i, local, c, x, y)] for i in range(n)])
    def shear(self, x, y, local=True, combo_name='Combo 1'): return self._r('shear', 2, x, y, local, combo_name)
    def moment(self, x, y, local=True, combo_name='Combo 1'): return self._r('moment', 3, x, y, local, combo_name)

CASES = [('shear', 'Qx', 0, True), ('shear', 'Qy', 1, True), ('shear', 'QX', 0, False), ('shear', 'QY', 1, False),
         ('moment', 'Mx', 0, True), ('moment', 'My', 1, True), ('moment', 'Mxy', 2, True), ('moment', 'MX', 0, False), ('moment', 'MY', 1, False), ('moment', 'MZ', 2, False)]

def extremes(kind, combos, asked, case):
    def f(h):
        h.merge_extremes()
        m_ = FakeModel()
        m_.load_combos = {c: LoadCombo(c) for c in combos}
        mesh = Mesh(0.1, 'M', m_)
        es = mesh.elements = h.dict('elements', lambda b: (h.name('key:' + b), Element(h, b, kind)))
        what, d, i, local = case
        h.cover('pre')
        for e, up, ext in (('max_', 1, max), ('min_', -1, min)):
            v = getattr(mesh, e + what)(d, asked)
            n, some = 0, False
            for q in es.values():
                n = n + 1
                each = [[q.at(what, i, local, c, x, y) for x, y in q.places().values()] for c in (combos if asked is None else [asked])]
                for ws, W in [(ws, W) for ws, W in zip(each, [ext(ws) for ws in each])]:
                    h.check('%s%s bounds the extreme of an element' % (e, d), up*(v - W) >= 0)
                    for w, p in zip(ws, q.places()): h.check('%s%s bounds %s' % (e, d, p), up*(v - w) >= 0)
                    if v == W: some = True
            if n > 0: h.check('%s%s reached' % (e, d), some)
    return f

N_ = 'any number of elements; bounded: %d load combinations'
UNITS = []
for c in CASES:
    T_ = ['PyNite.Mesh.Mesh.' + e + c[0] for e in ('max_', 'min_')]
    for k in ('Rect', 'Quad'):
        n = '%s-%s' % (k.lower(), c[1])
        UNITS.append(UNIT('one-combination-' + n, extremes(k, ['A'], None, c), T_, runs=40))
        UNITS.append(UNIT('asked-combination-' + n, extremes(k, ['A', 'B', 'C'], 'B', c), T_, runs=40))
        UNITS.append(UNIT('two-combinations-' + n, extremes(k, ['A', 'B'], None, c), T_, runs=40, bounded_text=N_ % 2))
