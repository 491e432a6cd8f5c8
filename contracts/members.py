"""shared set-up of a member with arbitrary loads, arbitrary load combination and an arbitrary local frame"""
import numpy as np
from PyNite.Member3D import Member3D
from PyNite.Node3D import Node3D
from PyNite.Material import Material
from contracts.common import *

PT = ['Fx', 'Fy', 'Fz', 'Mx', 'My', 'Mz', 'FX', 'FY', 'FZ', 'MX', 'MY', 'MZ']
DIST = ['Fx', 'Fy', 'Fz', 'FX', 'FY', 'FZ']
AX = ['x', 'y', 'z']

def rot(h):
    """an orthonormal frame: symbols with the contract of Member3D.T (C03)"""
    T = np.zeros((12, 12))
    c = h.array('c', (3, 3))
    for a in range(12):
        for b in range(12):
            if a//3 == b//3: T[a, b] = c[a % 3, b % 3]
    return T

def local_components(direction, T):
    """local component name -> coefficient for a unit load in the direction"""
    if direction[1] in 'xyz': return {direction: 1}
    g = 'XYZ'.index(direction[1])
    return {direction[0] + AX[a]: T[a, g] for a in range(3)}

def amember(h, Lmin=0.5):
    m_ = FakeModel()
    E = h.real('E', 'pos'); G = h.real('G', 'pos')
    m_.materials['M'] = Material('M', E, G, 0.3, 1)
    A = h.real('A', 'pos'); Iy = h.real('Iy', 'pos'); Iz = h.real('Iz', 'pos'); J = h.real('J', 'pos')
    L = h.real('L', 'pos', Lmin, 20) if not h.symbolic else h.real('L', 'pos')
    m = Member3D('M1', Node3D('i', 0, 0, 0), Node3D('j', L, 0, 0), 'M', m_, Iy, Iz, J, A)
    m.active = {'C': True, 'X': True}
    T = rot(h)
    h.patch(m, 'T', lambda: T.copy())
    return m, m_, L, T, beam_k(E, G, A, Iy, Iz, J, L)

def pick(h, b, opts):
    if h.symbolic:
        t = h.name('dir:' + b)
        c = t == opts[0]
        for o in opts[1:]: c = h.either(c, t == o)
        h.assume(c)
        return t
    return h.choice('dir:' + b, opts)

def loads(h, m, L, which='pd', grid=None):
    """arbitrary loads on the member; in concrete runs positions are drawn from a small grid part of the time so that they coincide"""
    def pos(name, lo, hi):
        if not h.symbolic and h.choice('grid:' + name, [0, 1]):
            return h.choice('gp:' + name, [lo, hi, lo + (hi - lo)*0.5, lo + (hi - lo)*0.25])
        return h.real(name, 'nonneg', lo, hi)
    def pt(b): return (pick(h, b, PT), h.real('P:' + b), pos('x:' + b, 0, L), h.name('case:' + b))
    def ds(b):
        x1 = pos('x1:' + b, 0, L)
        x2 = pos('x2:' + b, x1, L)
        h.assume(x2 > x1)
        if not h.symbolic: h.assume(x2 - x1 > 1e-6)
        return (pick(h, b, DIST), h.real('w1:' + b), h.real('w2:' + b), x1, x2, h.name('case:' + b))
    m.PtLoads = h.seq('pt', pt) if 'p' in which else []
    m.DistLoads = h.seq('dl', ds) if 'd' in which else []

def combo(h, m_):
    fs = h.dict('factors', lambda b: (h.name('fcase:' + b), h.real('factor:' + b)))
    m_.load_combos['C'] = Combo('C', fs)
    m_.load_combos['X'] = Combo('X', {'zz': 3})
    return fs
