"""What the plate matrices have to be, derived from the formulation (edge-based
smoothed strains, discrete shear gap), independently of the analysed source."""
import numpy as np

import algebra as al
from algebra import Poly, ZERO, ONE
from fractions import Fraction as Fr
from world import strip

DOFS = 5


def C(x):
    return Poly.const(Fr(x))


def signed2(p1, p2, p3):
    """twice the signed area in the plane"""
    return (p2[0] - p1[0])*(p3[1] - p1[1]) - (p2[1] - p1[1])*(p3[0] - p1[0])


class Geo(object):
    """Geometry of the focus edge in terms of the node labels a b c d."""

    def __init__(self, S):
        cfg = S.cfg
        self.S = S
        X = S.coords
        self.X = X
        a, b, c = X[0], X[1], X[2]
        sg = ONE if cfg.orient == '+' else -ONE
        self.S1 = signed2(a, b, c)            # sign: cfg.orient
        self.A1 = self.S1*sg*C(Fr(1, 2))      # positive area
        self.tri = [(0, 1, 2)]
        self.area = [self.A1]
        if cfg.two:
            d = X[3]
            self.S2 = signed2(b, a, d)        # same sign as S1
            self.A2 = self.S2*sg*C(Fr(1, 2))
            self.tri.append((1, 0, 3))
            self.area.append(self.A2)
        self.part = [x*C(Fr(1, 3)) for x in self.area]
        self.Ac = sum(self.part[1:], self.part[0])
        self.n = 4 if cfg.two else 3

    def mid(self, t):
        i, j, k = self.tri[t]
        return [(self.X[i][m] + self.X[j][m] + self.X[k][m])*C(Fr(1, 3)) for m in range(3)]

    def tri_grad(self, t):
        """gradient of the linear shape functions of triangle t: {node: (gx, gy)}"""
        i, j, k = self.tri[t]
        X = self.X
        S2 = signed2(X[i], X[j], X[k])
        out = {}
        for p, q, r in ((i, j, k), (j, k, i), (k, i, j)):
            out[p] = ((X[q][1] - X[r][1])/S2, (X[r][0] - X[q][0])/S2)
        return out

    def smoothed(self):
        """area-weighted gradients over the smoothing domain: {node: (gx, gy)}"""
        out = {}
        for t, w in enumerate(self.part):
            g = self.tri_grad(t)
            for nd, (gx, gy) in g.items():
                ox, oy = out.get(nd, (ZERO, ZERO))
                f = w/self.Ac
                out[nd] = (ox + f*gx, oy + f*gy)
        return out

    def weights(self):
        """blend weights of the nodal properties"""
        if self.n == 3:
            return {0: C(Fr(4, 9)), 1: C(Fr(4, 9)), 2: C(Fr(1, 9))}
        return {0: C(Fr(5, 12)), 1: C(Fr(5, 12)), 2: C(Fr(1, 12)), 3: C(Fr(1, 12))}

    def blend(self, name):
        """property of the smoothing domain"""
        P = self.S.props
        if self.S.cfg.by_node:
            w = self.weights()
            parts = [(w[k], P['abcd'[k]].attrs[name]) for k in range(self.n)]
        elif self.n == 3:
            return P['1'].attrs[name]
        else:
            parts = [(self.part[0]/self.Ac, P['1'].attrs[name]), (self.part[1]/self.Ac, P['2'].attrs[name])]
        return mix(parts)


def mix(parts):
    """weighted sum of scalars or of matrices"""
    v0 = parts[0][1]
    if isinstance(v0, np.ndarray):
        out = np.empty(v0.shape, dtype=object)
        for ij in np.ndindex(*v0.shape):
            out[ij] = al.let(sum((f*m[ij] for f, m in parts), ZERO))
        return out
    return al.let(sum((f*m for f, m in parts), ZERO))


def strain_rows(g):
    """membrane and bending strain-displacement rows: lists of 3 dicts
    {(node, dof): coefficient}; dofs u v w phix phiy"""
    m = [{}, {}, {}]
    k = [{}, {}, {}]
    for nd, (gx, gy) in g.items():
        m[0][nd, 0] = gx
        m[1][nd, 1] = gy
        m[2][nd, 0] = gy
        m[2][nd, 1] = gx
        k[0][nd, 3] = gx
        k[1][nd, 4] = gy
        k[2][nd, 3] = gy
        k[2][nd, 4] = gx
    return m, k


def quad(rows1, Cm, rows2, scale):
    """scale * rows1^T Cm rows2 as {((node,dof),(node,dof)): value}"""
    out = {}
    for i, r1 in enumerate(rows1):
        for j, r2 in enumerate(rows2):
            cij = al.lift(Cm[i, j])*scale
            if not cij.t:
                continue
            for p, x in r1.items():
                cx = cij*x
                for q, y in r2.items():
                    out[p, q] = out.get((p, q), ZERO) + cx*y
    return out


def add(*ds):
    out = {}
    for d in ds:
        for k, v in d.items():
            out[k] = out.get(k, ZERO) + v
    return {k: v for k, v in out.items() if v.t}


def k0_spec(geo):
    m, k = strain_rows(geo.smoothed())
    A, B, D = geo.blend('A'), geo.blend('B'), geo.blend('D')
    return add(quad(m, A, m, geo.Ac), quad(m, B, k, geo.Ac), quad(k, B, m, geo.Ac), quad(k, D, k, geo.Ac))


def resultants(geo, disp):
    """membrane force resultants; disp(node, dof) -> value"""
    m, k = strain_rows(geo.smoothed())
    em = [sum((c*disp(*p) for p, c in r.items()), ZERO) for r in m]
    eb = [sum((c*disp(*p) for p, c in r.items()), ZERO) for r in k]
    A, B = geo.blend('A'), geo.blend('B')
    return [sum((al.lift(A[i, j])*em[j] + al.lift(B[i, j])*eb[j] for j in range(3)), ZERO) for i in range(3)]


def kG_spec(geo, disp):
    N = resultants(geo, disp)
    g = geo.smoothed()
    out = {}
    for p, (px, py) in g.items():
        for q, (qx, qy) in g.items():
            out[(p, 2), (q, 2)] = geo.Ac*(N[0]*px*qx + N[1]*py*qy + N[2]*(px*qy + py*qx))
    return out


# -- discrete shear gap ------------------------------------------------------
def dsg_rows(P, Q, R, over=None):
    """Shear strain rows of the discrete shear gap triangle with reference
    vertex P; each vertex is (coordinates, {node: weight}).  Returns
    [gamma_xz, gamma_yz] as {(node, dof): value}.  `over` replaces coordinate
    differences (used only to recognise a recorded deviation)."""
    (p, wp), (q, wq), (r, wr) = P, Q, R
    a, b = q[0] - p[0], q[1] - p[1]
    c, d = r[0] - p[0], r[1] - p[1]
    S2 = a*d - b*c
    if over:
        a, b, c, d = over(a, b, c, d)
    h = C(Fr(1, 2))
    rows = [{}, {}]

    def put(row, w, dof, val):
        for nd, f in w.items():
            row[nd, dof] = row.get((nd, dof), ZERO) + val*f
    x, y = rows
    put(x, wp, 2, (b - d)/S2)
    put(x, wq, 2, d/S2)
    put(x, wr, 2, -b/S2)
    put(x, wp, 3, h)
    put(x, wq, 3, a*d*h/S2)
    put(x, wq, 4, b*d*h/S2)
    put(x, wr, 3, -b*c*h/S2)
    put(x, wr, 4, -b*d*h/S2)
    put(y, wp, 2, (c - a)/S2)
    put(y, wq, 2, -c/S2)
    put(y, wr, 2, a/S2)
    put(y, wp, 4, h)
    put(y, wq, 3, -a*c*h/S2)
    put(y, wq, 4, -b*c*h/S2)
    put(y, wr, 3, a*c*h/S2)
    put(y, wr, 4, a*d*h/S2)
    return rows


def combine_rows(parts):
    """[(weight, rows)] -> weighted sum of the two rows"""
    out = [{}, {}]
    for w, rows in parts:
        for k in range(2):
            for key, v in rows[k].items():
                out[k][key] = out[k].get(key, ZERO) + w*v
    return out


def length(p, q):
    return al.psqrt(sum(((p[m] - q[m])**2 for m in range(3)), ZERO))


class Shear(object):
    """Required transverse shear stiffness of one smoothing cell.

    subs: list of (positive area, three vertices); vertex = (xyz, weights)"""

    def __init__(self, area, subs, mats, sides):
        self.area, self.subs, self.mats, self.sides = area, subs, mats, sides

    def rows(self, refs, over=None):
        parts = []
        for k, ((A, V), r) in enumerate(zip(self.subs, refs)):
            V = V[r:] + V[:r]
            parts.append((A/self.area, dsg_rows(V[0], V[1], V[2], over.get(k) if over else None)))
        return combine_rows(parts)

    def prop(self, name):
        return mix([(f, P.attrs[name]) for f, P in self.mats])

    def maxl2(self, from_area):
        if from_area:
            return self.area
        m = al.pmax(self.sides)
        return m*m

    def law(self, alpha, from_area, kind='documented'):
        """2x2 shear law including the Lyly correction h^2/(h^2 + alpha l^2)"""
        E = self.prop('E')
        k13, k23, h = self.prop('scf_k13'), self.prop('scf_k23'), self.prop('h')
        f = h*h/(h*h + alpha*self.maxl2(from_area))
        if kind == 'documented':
            m = [[k23*E[0, 0]*f, ZERO], [ZERO, k13*E[1, 1]*f]]
        else:
            x = al.pmin([k13, k23])*E[0, 1]*f
            m = [[k13*E[0, 0]*f, x], [x, k23*E[1, 1]*f]]
        out = np.empty((2, 2), dtype=object)
        for i in range(2):
            for j in range(2):
                out[i, j] = m[i][j]
        return out

    def lazy(self, refs, law, over=None):
        """(keys, entry) with the entries computed on demand"""
        R = self.rows(refs, over)
        keys = sorted(set(R[0]) | set(R[1]))

        def entry(p, q):
            v = ZERO
            for i in range(2):
                x = R[i].get(p)
                if x is None:
                    continue
                for j in range(2):
                    y = R[j].get(q)
                    if y is None:
                        continue
                    c = law[i, j]
                    if c.t:
                        v = v + (c*self.area)*(x*y)
            return v
        return keys, entry

    def stiffness(self, refs, law, over=None):
        R = self.rows(refs, over)
        return add(quad(R, law, R, self.area))


def one(k):
    return {k: ONE}


def shear_triangle(geo, t, smooth):
    """cell-based (three sub-triangles around the centroid) or plain"""
    S = geo.S
    i, j, k = geo.tri[t]
    X = geo.X
    P = S.props
    if S.cfg.by_node:
        mats = [(C(Fr(1, 3)), P['abcd'[n]]) for n in (i, j, k)]
    else:
        mats = [(ONE, P['12'[t]])]
    sides = [length(X[i], X[j]), length(X[j], X[k]), length(X[k], X[i])]
    A = geo.area[t]
    if not smooth:
        subs = [(A, [(X[i], one(i)), (X[j], one(j)), (X[k], one(k))])]
        return Shear(A, subs, mats, sides)
    third = C(Fr(1, 3))
    g = (geo.mid(t), {i: third, j: third, k: third})
    subs = [(A*third, [g, (X[p], one(p)), (X[q], one(q))]) for p, q in ((i, j), (j, k), (k, i))]
    return Shear(A, subs, mats, sides)


def shear_edge(geo):
    """edge-based: the two (or one) sub-triangles of the smoothing domain"""
    S = geo.S
    P = S.props
    X = geo.X
    third = C(Fr(1, 3))
    subs = []
    sides = [length(X[0], X[1])]
    for t, tri in enumerate(geo.tri):
        i, j, k = tri
        m = geo.mid(t)
        subs.append((geo.part[t], [(m, {i: third, j: third, k: third}), (X[i], one(i)), (X[j], one(j))]))
        sides += [length(X[0], m), length(X[1], m)]
    if S.cfg.by_node:
        wt = geo.weights()
        mats = [(wt[n], P['abcd'[n]]) for n in range(geo.n)]
    elif geo.n == 3:
        mats = [(ONE, P['1'])]
    else:
        mats = [(geo.part[t]/geo.Ac, P['12'[t]]) for t in range(2)]
    return Shear(geo.Ac, subs, mats, sides)
