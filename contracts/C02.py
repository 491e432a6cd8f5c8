"""C02: member stiffness is the exact beam stiffness, with end releases condensed exactly."""
from PyNite.Member3D import Member3D
from PyNite.Node3D import Node3D
from PyNite.Material import Material
from contracts.common import *

PLANE_OPTS = [[], [0], [1], [2], [3], [1, 3], [0, 1], [0, 3], [1, 2], [2, 3]]   # stable releases of (v_i, th_i, v_j, th_j)
PAIR_OPTS = [[], [0], [1]]

def member(h, aligned=True):
    m_ = FakeModel()
    E = h.real('E', 'pos'); G = h.real('G', 'pos')
    m_.materials['M'] = Material('M', E, G, h.real('nu', 'pos'), h.real('rho', 'pos'))
    A = h.real('A', 'pos'); Iy = h.real('Iy', 'pos'); Iz = h.real('Iz', 'pos'); J = h.real('J', 'pos')
    if aligned:
        L = h.real('L', 'pos')
        i, j = Node3D('i', 0, 0, 0), Node3D('j', L, 0, 0)
    else:
        c = [h.real(n) for n in ('Xi', 'Yi', 'Zi', 'Xj', 'Yj', 'Zj')]
        d2 = (c[3] - c[0])**2 + (c[4] - c[1])**2 + (c[5] - c[2])**2
        h.assume(d2 > 0)
        L = d2**0.5
        i, j = Node3D('i', c[0], c[1], c[2]), Node3D('j', c[3], c[4], c[5])
    m = Member3D('M1', i, j, 'M', m_, Iy, Iz, J, A)
    return m, beam_k(E, G, A, Iy, Iz, J, L), L

def releases(h, which):
    rel = [False]*12
    if 'z' in which:
        for a in h.choice('relz', PLANE_OPTS): rel[[1, 5, 7, 11][a]] = True
    if 'y' in which:
        for a in h.choice('rely', PLANE_OPTS): rel[[2, 4, 8, 10][a]] = True
    if 'x' in which:
        for a in h.choice('relx', PAIR_OPTS): rel[[0, 6][a]] = True
    if 't' in which:
        for a in h.choice('relt', PAIR_OPTS): rel[[3, 9][a]] = True
    return rel

def mag(h, k):
    return 0 if h.symbolic else max(abs(x) for r in k for x in r)

def general(h):
    m, k, L = member(h, False)
    h.cover('pre')
    h.eqs('k', m.k(), k, mag(h, k))

def released(which):
    def f(h):
        m, k, L = member(h)
        rel = releases(h, which)
        m.Releases = list(rel)
        h.cover('pre')
        got = m.k()
        mg = mag(h, k)
        h.eqs('k', got, condense_k(k, rel), mg)
        for i in range(12):
            for j in range(12):
                h.eq('symmetric', got[i, j], got[j, i], mg)
                if rel[i]:
                    h.eq('released-dof-carries-no-force', got[i, j], 0, mg)
        # a rigid translation or rotation of the member causes no end force
        rb = [[1, 0, 0, 0, 0, 0]*2, [0, 1, 0, 0, 0, 0]*2, [0, 0, 1, 0, 0, 0]*2, [0, 0, 0, 1, 0, 0]*2,
              [0, 0, 0, 0, 1, 0, 0, 0, -L, 0, 1, 0], [0, 0, 0, 0, 0, 1, 0, L, 0, 0, 0, 1]]
        for r, v in enumerate(rb):
            for i in range(12):
                tot = 0
                for j in range(12):
                    tot = tot + got[i, j]*v[j]
                h.eq('rigid-body%d' % r, tot, 0, mg*(1 + L))
    return f

M_ = 'PyNite.Member3D.Member3D.'
UNITS = [UNIT('general-direction', general, [M_ + 'k', M_ + '_k_unc', M_ + 'L', 'PyNite.Node3D.Node3D.distance']),
         UNIT('released-z-axial', released('zx'), [M_ + 'k', M_ + '_partition', M_ + '_partition_D'], runs=60),
         UNIT('released-y-torsion', released('yt'), [M_ + 'k', M_ + '_partition', M_ + '_partition_D'], runs=60),
         UNIT('released-zy', released('zy'), [M_ + 'k', M_ + '_partition', M_ + '_partition_D'], runs=60),
         UNIT('released-all', released('zyxt'), [M_ + 'k'], runs=150, sym='thorough', timeout=600)]
