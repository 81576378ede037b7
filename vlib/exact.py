"""Exact rational geometry of simplices (the oracle for the geometric kernels)."""
from fractions import Fraction as Fr
import math


def frs(P):
    return [[Fr(float(x)) for x in p] for p in P]


def det(m):
    n = len(m)
    if n == 1:
        return m[0][0]
    if n == 2:
        return m[0][0] * m[1][1] - m[0][1] * m[1][0]
    s = 0
    for j in range(n):
        minor = [r[:j] + r[j + 1:] for r in m[1:]]
        s = s + (m[0][j] * det(minor) if j % 2 == 0 else -m[0][j] * det(minor))
    return s


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def volume(P):
    d = [sub(p, P[0]) for p in P[1:]]
    return det(d) / math.factorial(len(d))


class Dual:
    """a + b*eps with Fractions: exact directional derivatives."""
    __slots__ = ("a", "b")

    def __init__(self, a, b=Fr(0)):
        self.a, self.b = a, b

    @staticmethod
    def of(x):
        return x if isinstance(x, Dual) else Dual(Fr(x))

    def __add__(self, o):
        o = Dual.of(o)
        return Dual(self.a + o.a, self.b + o.b)
    __radd__ = __add__

    def __neg__(self):
        return Dual(-self.a, -self.b)

    def __sub__(self, o):
        o = Dual.of(o)
        return Dual(self.a - o.a, self.b - o.b)

    def __rsub__(self, o):
        return Dual.of(o) - self

    def __mul__(self, o):
        o = Dual.of(o)
        return Dual(self.a * o.a, self.a * o.b + self.b * o.a)
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = Dual.of(o)
        return Dual(self.a / o.a, (self.b * o.a - self.a * o.b) / (o.a * o.a))


def circum(P):
    """(centre, squared radius); P: dim+1 points in dim dimensions (Fractions or Duals). None when degenerate."""
    q = [sub(p, P[0]) for p in P[1:]]
    D = det(q)
    if (D.a if isinstance(D, Dual) else D) == 0:
        return None
    rhs = [dot(v, v) / 2 for v in q]
    n = len(q)
    c = []
    for j in range(n):
        m = [[rhs[i] if k == j else q[i][k] for k in range(n)] for i in range(n)]
        c.append(det(m) / D)
    return [a + b for a, b in zip(c, P[0])], dot(c, c)


def circumradius2_grad(P, i):
    """Gradient of the squared circumradius with respect to vertex i."""
    g = []
    for j in range(len(P[0])):
        Q = [[Dual(x, Fr(1) if (a == i and b == j) else Fr(0)) for b, x in enumerate(p)] for a, p in enumerate(P)]
        r = circum(Q)
        if r is None:
            return None
        g.append(r[1].b)
    return g


def dihedrals(P):
    """The six dihedral angles (sorted) of a tetrahedron, from exact normals."""
    out = []
    for i in range(4):
        for j in range(i + 1, 4):
            k, l = [x for x in range(4) if x not in (i, j)]
            e = sub(P[j], P[i])
            n1, n2 = cross(e, sub(P[k], P[i])), cross(e, sub(P[l], P[i]))
            # angle between the half planes: atan2(|n1 x n2|, n1.n2)
            c = cross(n1, n2)
            s2, co = dot(c, c), dot(n1, n2)
            if s2 == 0 and co == 0:
                out.append(None)
                continue
            if co == 0 or s2 > co * co * Fr(10) ** 32:
                out.append(math.pi / 2)
                continue
            a = math.atan(math.sqrt(float(s2 / (co * co))))
            out.append(a if co > 0 else math.pi - a)
    return out
