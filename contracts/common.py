"""shared specification helpers (no code under test is used to compute an expected value)"""
from PyNite.Node3D import Node3D
from PyNite.Material import Material

def solve(A, B):
    """Gauss elimination A X = B for small lists of lists (spec-level)"""
    n = len(A)
    m = len(B[0])
    A = [list(r) + list(b) for r, b in zip(A, B)]
    for i in range(n):
        p = A[i][i]
        for j in range(i, n + m):
            A[i][j] = A[i][j]/p
        for k in range(n):
            if k != i:
                f = A[k][i]
                if is0(f):
                    continue
                for j in range(i, n + m):
                    A[k][j] = A[k][j] - f*A[i][j]
    return [r[n:] for r in A]

def is0(x):
    try:
        return not x.t
    except AttributeError:
        return x == 0

def matmul_(A, B):
    out = []
    for r in A:
        row = []
        for j in range(len(B[0])):
            t = 0
            for k in range(len(B)):
                if is0(r[k]) or is0(B[k][j]):
                    continue
                t = t + r[k]*B[k][j]
            row.append(t)
        out.append(row)
    return out

def transpose_(A):
    return [[A[i][j] for i in range(len(A))] for j in range(len(A[0]))]

class FakeModel:
    def __init__(self):
        self.materials = {}
        self.sections = {}
        self.load_combos = {}
        self.nodes = {}
        self.solution = 'Linear'
        self.members = {}

class Combo:
    def __init__(self, name, factors):
        self.name = name
        self.factors = factors
        self.combo_tags = None

def condense_k(k, rel):
    """exact static condensation of the released DOFs; released rows and columns are zero"""
    n = len(k)
    U = [i for i in range(n) if not rel[i]]
    Rr = [i for i in range(n) if rel[i]]
    out = [[0]*n for _ in range(n)]
    if Rr:
        X = solve([[k[a][b] for b in Rr] for a in Rr], [[k[a][b] for b in U] for a in Rr])
    for i in U:
        for jj, j in enumerate(U):
            v = k[i][j]
            for a, r in enumerate(Rr):
                if not is0(k[i][r]):
                    v = v - k[i][r]*X[a][jj]
            out[i][j] = v
    return out

def condense_f(k, f, rel):
    n = len(k)
    U = [i for i in range(n) if not rel[i]]
    Rr = [i for i in range(n) if rel[i]]
    out = [0]*n
    if Rr:
        x = solve([[k[a][b] for b in Rr] for a in Rr], [[f[a]] for a in Rr])
    for i in U:
        v = f[i]
        for a, r in enumerate(Rr):
            if not is0(k[i][r]):
                v = v - k[i][r]*x[a][0]
        out[i] = v
    return out

def beam_k(E, G, A, Iy, Iz, J, L):
    """exact Euler-Bernoulli member stiffness from the strain energy of the exact shape functions"""
    k = [[0]*12 for _ in range(12)]
    def put(dofs, sub):
        for a, i in enumerate(dofs):
            for b, j in enumerate(dofs):
                k[i][j] = sub[a][b]
    put([0, 6], [[E*A/L, -E*A/L], [-E*A/L, E*A/L]])
    put([3, 9], [[G*J/L, -G*J/L], [-G*J/L, G*J/L]])
    # integral of EI N_a'' N_b'' for the cubic Hermite functions
    c = [[0, 0, -3/L**2, 2/L**3], [0, 1, -2/L, 1/L**2], [0, 0, 3/L**2, -2/L**3], [0, 0, -1/L, 1/L**2]]
    dd = [[2*p[2], 6*p[3]] for p in c]          # second derivative a + b x
    def ip(p, q):
        return p[0]*q[0]*L + (p[0]*q[1] + p[1]*q[0])*L**2/2 + p[1]*q[1]*L**3/3
    z = [[E*Iz*ip(p, q) for q in dd] for p in dd]
    put([1, 5, 7, 11], z)
    s = [1, -1, 1, -1]                            # in the x-z plane slope = -rotation about y
    y = [[E*Iy*ip(p, q)*s[a]*s[b] for b, q in enumerate(dd)] for a, p in enumerate(dd)]
    put([2, 4, 8, 10], y)
    return k

def internal(ex):
    """exceptions that are not an answer of the code under contract"""
    if type(ex).__name__ in ('Unsupported', 'Fail', 'Skip', 'PathEnd', 'RestartLoop', 'RestartAll', 'Budget', 'Mismatch', 'TypeError', 'AttributeError', 'NameError', 'UnboundLocalError'): raise ex
