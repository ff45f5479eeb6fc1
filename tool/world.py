"""Analysis contexts: representative meshes and inputs on which the functions of
the repository are analysed."""
import os
from fractions import Fraction as Fr

import numpy as np

import algebra as al
from algebra import Poly, ZERO, ONE
import engine as en
from engine import (Ctx, Interp, Repo, AList, ADict, ASet, SymColl, AObj, AMat, AVec, ExtClass, AbsRaise,
                    Undecided, Builtin, AStr, Opaque, objarray)
import models
import meshmodel as mm

REPO = os.environ.get('MESHLESS_REPO', '/repo')
_repo = []


def repo():
    if not _repo:
        _repo.append(Repo(REPO))
    return _repo[0]


def new(ctx):
    M = models.Models()
    I = Interp(repo(), ctx, M)
    return I, M


def function(I, module, name):
    m = I.module(module)
    f = m.ns.get(name)
    if f is None:
        raise Undecided('anchor vanished: %s.%s' % (module, name))
    return f


def letters(n):
    return 'abcdefgh'[:n]


def rank_nodes(ctx, order, cls='points', lower0=True):
    """order[k] = rank of representative k"""
    for k, r in enumerate(order):
        a = al.sym('pos(%s,%d)' % (cls, k))
        i = only_atom(a)
        ctx.ranks[i] = (cls, r)
        ctx.lower[i] = r


def only_atom(p):
    (m, c), = p.t.items()
    return m[0][0]


def strip(v):
    """LoopItem -> its value"""
    return v.value if isinstance(v, models.LoopItem) else v


def get(I, o, name, default=None):
    """attribute of an object, through its property when it has one; the default when missing"""
    if name in o.attrs and not isinstance(o.cls, en.AClass):
        return o.attrs[name]
    try:
        return I.getattr(o, name)
    except en.AbsRaise:
        return default


# --------------------------------------------------------------------------
# representative mesh
# --------------------------------------------------------------------------
class Cfg(object):
    """One analysis context of the plate functions.

    two     the focus edge is shared by two triangles (else on the boundary)
    perm1/2 node order of the triangles (index triples into a,b,c / b,a,d)
    order   rank of the nodes a,b,c,d in the mesh (numbering)
    torder  rank of the two triangles
    orient  sign of the triangle (a,b,c) in the plane
    by_node properties attached to nodes (else to triangles)
    rev     iteration order of sets reversed
    """

    def __init__(self, two=True, perm1=(0, 1, 2), perm2=(0, 1, 2), order=(0, 1, 2, 3), torder=(0, 1),
                 orient='+', by_node=False, rev=False, lowest0=False, focus='edge', reader='delaunay', geom='area', norder=None):
        self.__dict__.update(two=two, perm1=perm1, perm2=perm2, order=order, torder=torder, orient=orient,
                             by_node=by_node, rev=rev, lowest0=lowest0, focus=focus, reader=reader, geom=geom,
                             norder=norder or order, place=None, share='')

    def but(self, **kw):
        c = Cfg()
        c.__dict__.update(self.__dict__)
        c.__dict__.update(kw)
        return c

    def __str__(self):
        t = []
        t.append('interior edge' if self.two else 'boundary edge')
        if self.focus != 'edge':
            t = [self.focus]
        t.append('T1=' + ''.join('abc'[i] for i in self.perm1))
        if self.two:
            t.append('T2=' + ''.join('bad'[i] for i in self.perm2))
        n = 4 if self.two else 3
        t.append('numbering=' + '<'.join('abcd'[k] for k in sorted(range(n), key=lambda k: self.order[k])))
        if self.two and self.torder != (0, 1):
            t.append('T2 first')
        t.append('area sign ' + self.orient)
        t.append('properties by ' + ('node' if self.by_node else 'triangle'))
        if self.rev:
            t.append('reversed set order')
        if self.reader != 'delaunay':
            t.append('mesh from a Nastran deck, ids '
                     + '<'.join('abcd'[k] for k in sorted(range(n), key=lambda k: self.norder[k])))
        if self.lowest0:
            t.append('lowest index is 0')
        if self.place:
            t.append('plate ' + self.place)
        if self.share:
            t.append('one laminate for ' + ' and '.join(self.share))
        return ', '.join(t)


class Scene(object):
    pass


def geom_atoms(cfg):
    """b-a = (p, q), c-a = (r, s), d-a = (u, v).  In the 'area' chart s and v
    are expressed through the (positive) double areas of the two triangles,
    which covers every configuration with p != 0; 'xy' is the plain chart."""
    p, q, r, u = [al.sym(n) for n in ('p', 'q', 'r', 'u')]
    if cfg.geom == 'xy':
        return p, q, r, al.sym('s'), u, al.sym('v')
    sg = ONE if cfg.orient == '+' else -ONE
    S1, S2 = al.sym('S1', True), al.sym('S2', True)
    return p, q, r, (sg*S1 + q*r)/p, u, (q*u - sg*S2)/p


def coords(cfg):
    x, y, z = al.sym('xa'), al.sym('ya'), al.sym('z0')
    p, q, r, s, u, v = geom_atoms(cfg)
    pts = [mm.vec(x, y, z), mm.vec(x + p, y + q, z), mm.vec(x + r, y + s, z)]
    if cfg.two:
        pts.append(mm.vec(x + u, y + v, z))
    return [placed(cfg, pt) for pt in pts]


# changes of the frame and of the units: the plane part of the map of points
PLANE = {'turned': ((0, -1), (1, 0)), 'rotated': ((Fr(3, 5), -Fr(4, 5)), (Fr(4, 5), Fr(3, 5))), 'mirrored': ((-1, 0), (0, 1))}


def placed(cfg, v):
    k = cfg.place
    if k == 'moved':
        return mm.vec(*[c + al.sym(t) for c, t in zip(v, ('shift_x', 'shift_y', 'shift_z'))])
    if k == 'in another unit of length':
        f = al.sym('unit', True)
        return mm.vec(*[f*c for c in v])
    if k in PLANE:
        R = [[Poly.const(Fr(e)) for e in row] for row in PLANE[k]]
        return mm.vec(R[0][0]*v[0] + R[0][1]*v[1], R[1][0]*v[0] + R[1][1]*v[1], v[2])
    return v


def strain_map(R):
    """strains (with the engineering shear) in the old frame from those in the new one"""
    (a, b), (c, d) = [[Fr(e) for e in row] for row in R]
    # e = R^T e' R
    return [[a*a, c*c, a*c], [b*b, d*d, b*d], [2*a*b, 2*c*d, a*d + b*c]]


def placed_prop(cfg, nm, m):
    """a laminate matrix in the new frame or units"""
    k = cfg.place
    if k == 'in another unit of force':
        f = al.sym('unit', True)
        return np.array([[f*x for x in row] for row in m], dtype=object)
    if k not in PLANE:
        return m
    if nm == 'E':
        if k == 'turned':
            return np.array([[m[1, 1], -m[1, 0]], [-m[0, 1], m[0, 0]]], dtype=object)
        return np.array([[m[0, 0], -m[0, 1]], [-m[1, 0], m[1, 1]]], dtype=object)
    Q = strain_map(PLANE[k])
    out = np.empty((3, 3), dtype=object)
    for i in range(3):
        for j in range(3):
            out[i, j] = sum((m[p, q]*Poly.const(Q[p][i]*Q[q][j]) for p in range(3) for q in range(3) if Q[p][i]*Q[q][j]), ZERO)
    return out


def make_ctx(cfg, forced):
    ctx = Ctx(str(cfg), forced)
    n = 4 if cfg.two else 3
    rank_nodes(ctx, cfg.order[:n])
    for k in range(2 if cfg.two else 1):
        i = only_atom(al.sym('pos(simplices,%d)' % k))
        ctx.ranks[i] = ('simplices', cfg.torder[k])
        ctx.lower[i] = cfg.torder[k]
        i = only_atom(al.sym('pos(elems,%d)' % k))
        ctx.ranks[i] = ('elems', cfg.torder[k])
        ctx.lower[i] = cfg.torder[k]
        i = only_atom(al.sym('eid(%d)' % k, True))
        # the elements of a deck may be in any order: here by decreasing ids
        r = cfg.torder[k] if cfg.reader != 'nastran' or not cfg.two else 1 - cfg.torder[k]
        ctx.ranks[i] = ('eid', r)
        ctx.lower[i] = 1 + r
    if cfg.reader == 'nastran':
        rank_nodes(ctx, cfg.order[:n], 'grids')
        for k in range(n):
            i = only_atom(al.sym('nid(%d)' % k, True))
            ctx.ranks[i] = ('nid', cfg.norder[k])
            ctx.lower[i] = 1 + cfg.norder[k]
    p, q, r, s, u, v = geom_atoms(cfg)
    if cfg.geom == 'xy':
        ctx.add_fact(p*s - q*r, cfg.orient)
    if cfg.two and cfg.geom == 'xy':
        S2 = p*v - q*u
        ctx.add_fact(S2, '-' if cfg.orient == '+' else '+')
    ctx.set_reverse = cfg.rev
    for f in ('h', 'k13', 'k23'):
        for w in 'abcd12':
            al.sym('%s_%s' % (f, w), True)
    for nm in ('alpha',):
        al.sym(nm, True)
    return ctx


def sym_matrix(name, n, full=False):
    a = np.empty((n, n), dtype=object)
    if full:
        # entries across the diagonal are not known to be equal
        for i in range(n):
            for j in range(n):
                a[i, j] = al.sym('%s%d%d' % (name, i + 1, j + 1))
        return a
    for i in range(n):
        for j in range(i, n):
            a[i, j] = a[j, i] = al.sym('%s%d%d' % (name, i + 1, j + 1))
    return a


def make_prop(S, tag):
    o = AObj(ExtClass('Laminate'), 'prop_' + tag, True)
    for nm, n in (('A', 3), ('B', 3), ('D', 3), ('E', 2)):
        m = placed_prop(S.cfg, nm, sym_matrix('%s_%s_' % (nm, tag), n, getattr(S.cfg, 'unsym', False)))
        S.M.set_origin(m, 'the %s matrix of the property of %s' % (nm, tag))
        o.attrs[nm] = m
    full = np.empty((6, 6), dtype=object)
    full[:3, :3] = o.attrs['A']
    full[:3, 3:] = o.attrs['B']
    full[3:, :3] = o.attrs['B']
    full[3:, 3:] = o.attrs['D']
    o.attrs['ABD'] = full
    fe = np.empty((8, 8), dtype=object)
    fe[...] = ZERO
    fe[:6, :6] = full
    fe[6:, 6:] = o.attrs['E']
    o.attrs['ABDE'] = fe
    for i in range(3):
        for j in range(i, 3):
            for X in 'ABD':
                o.attrs['%s%d%d' % (X, (1, 2, 6)[i], (1, 2, 6)[j])] = o.attrs[X][i, j]
    o.attrs['E44'] = o.attrs['E'][0, 0]
    o.attrs['E45'] = o.attrs['E'][0, 1]
    o.attrs['E55'] = o.attrs['E'][1, 1]
    o.attrs['h'] = al.sym('h_' + tag, True)
    o.attrs['scf_k13'] = al.sym('k13_' + tag, True)
    o.attrs['scf_k23'] = al.sym('k23_' + tag, True)
    if S.cfg.place == 'in another unit of length':
        o.attrs['h'] = o.attrs['h']*al.sym('unit', True)
    if S.cfg.place == 'turned':
        o.attrs['scf_k13'], o.attrs['scf_k23'] = o.attrs['scf_k23'], o.attrs['scf_k13']
    o.protected = True
    for v in o.attrs.values():
        for x in (v.flat if isinstance(v, np.ndarray) else [v]):
            if isinstance(x, Poly) and len(x.t) == 1 and not x.is_const():
                al.LETTABLE.add(only_atom(x))
    return o


def flatten(o):
    """Make the containers of an object concrete: the representative topology
    is the whole incidence of the focus object."""
    for k, v in list(o.attrs.items()):
        if isinstance(v, AList):
            v.items = [strip(x) for x in v.items]
            v._coll = None
            v.birth = ()
        elif isinstance(v, (ASet, ADict)):
            v.birth = ()
            v.sym = None


def restrict(d, keep, name):
    ks, vs, ps = [], [], []
    old = d.sym.pos if d.sym is not None and len(d.sym.pos) == len(d.keys) else [None]*len(d.keys)
    for k, v, p in zip(d.keys, d.vals, old):
        v = strip(v)
        if keep(v):
            ks.append(k)
            vs.append(v)
            ps.append(p)
    d.keys, d.vals = ks, vs
    if hasattr(d, '_pos'):
        del d._pos
    d.birth = ()
    length = d.length if d.length is not None else al.sym('len(%s)' % name, True)
    c = SymColl(name, vs, ps if None not in ps else None, length)
    d.sym = SymColl(name, ks, c.pos, c.length)
    d.length = c.length
    d._one = False
    return d


def positions(name, n):
    return [al.sym('pos(%s,%d)' % (name, k)) for k in range(n)]


def ranked(name, reps, rank, length=None):
    """collection that lists its representatives in the order of their ranks;
    the position symbol stays with its representative"""
    p = positions(name, len(reps))
    o = sorted(range(len(reps)), key=lambda k: rank[k])
    return SymColl(name, [reps[k] for k in o], [p[k] for k in o], length)


def delaunay_input(S, cfg, dim3=True):
    pts = coords(cfg)
    S.coords = pts
    points = ranked('points', [x[:] if dim3 else x[:2].copy() for x in pts], cfg.order)
    points.is_array = True
    P = positions('points', len(pts))
    tri = AObj(ExtClass('Delaunay'), 'tri', True)
    t1 = [P[i] for i in cfg.perm1]
    sx = [t1]
    if cfg.two:
        sx.append([[P[1], P[0], P[3]][i] for i in cfg.perm2])
    reps = [objarray(t) for t in sx]
    for t in reps:
        S.M.mark_int(t)
    sc = ranked('simplices', reps, cfg.torder)
    sc.is_array = True
    tri.attrs['simplices'] = sc
    tri.attrs['vertices'] = sc
    tri.attrs['points'] = points
    tri.attrs['nsimplex'] = sc.length
    tri.attrs['npoints'] = points.length
    S.points, S.tri = points, tri
    return points, tri


def sym_dict(I, name, keys, vals, rank):
    d = I.new_dict()
    c = ranked(name, vals, rank)
    d.sym = ranked(name, keys, rank, c.length)
    d.keys, d.vals = list(d.sym.reps), list(c.reps)
    d.length = c.length
    return d


def nastran_input(S, cfg):
    """What pyNastran hands over for a deck with CTRIA3 elements."""
    I, M = S.I, S.M
    pts = coords(cfg)
    S.coords = pts
    mesh = mm.make_bdf(M, I)
    nids = [al.sym('nid(%d)' % k, True) for k in range(len(pts))]
    grids = [mm.make_grid(M, I, nids[k], pts[k].copy(), name='node_' + 'abcd'[k]) for k in range(len(pts))]
    idx = [list(cfg.perm1)]
    if cfg.two:
        idx.append([[1, 0, 3][i] for i in cfg.perm2])
    elems, eids = [], []
    for k, t in enumerate(idx):
        eid = al.sym('eid(%d)' % k, True)
        e = mm.make_shell(M, I, mm.CTRIA3, eid, I.new_list([nids[i] for i in t]), 'tria_%d' % (k + 1))
        e.attrs['nodes_ref'] = I.new_list([grids[i] for i in t])
        elems.append(e)
        eids.append(eid)
    mesh.attrs['nodes'] = sym_dict(I, 'grids', nids, grids, cfg.order)
    mesh.attrs['elements'] = sym_dict(I, 'elems', eids, elems, cfg.torder)
    S.deck, S.deck_nodes, S.deck_elems, S.nids, S.eids = mesh, grids, elems, nids, eids
    M.mesh_source = lambda I2: mesh
    return mesh


def read_nastran(S, cfg):
    nastran_input(S, cfg)
    f = function(S.I, 'meshless.espim.read_mesh', 'read_mesh')
    return S.I.call(f, ['deck.dat'], {})


def read_scene(ctx, cfg):
    """Analyse the reader on the representative points and triangles."""
    S = Scene()
    S.cfg, S.ctx = cfg, ctx
    S.I, S.M = new(ctx)
    I = S.I
    if cfg.reader == 'nastran':
        S.mesh = read_nastran(S, cfg)
    else:
        points, tri = delaunay_input(S, cfg)
        f = function(I, 'meshless.espim.read_mesh', 'read_delaunay')
        S.mesh = I.call(f, [points, tri], {})
    mesh = S.mesh
    S.nodes = [strip(v) for v in mesh.attrs['nodes'].vals]
    S.trias = [strip(v) for v in mesh.attrs['elements'].vals]
    n = 4 if cfg.two else 3
    if len(S.nodes) != n or len(S.trias) != (2 if cfg.two else 1):
        raise Undecided('the reader does not register every node and triangle')
    # readers may enumerate in any order: identify nodes by their position
    byx = {}
    for o in S.nodes:
        for k in range(n):
            if all(ctx.equal(al.lift(o.attrs['xyz'][j]), S.coords[k][j]) for j in range(3)):
                byx[k] = o
    if len(byx) != n:
        raise Undecided('the reader does not keep the node positions')
    S.nodes = [byx[k] for k in range(n)]
    for k, o in enumerate(S.nodes):
        o.name = 'node_' + 'abcd'[k]
        S.M.set_origin(o.attrs['xyz'], 'the coordinates of node %s' % 'abcd'[k])
    ed = mesh.attrs.get('edges')
    if not isinstance(ed, ADict):
        raise Undecided('mesh.edges is not a dictionary')
    S.all_edges = [strip(v) for v in ed.vals]
    return S


def edge_between(S, a, b):
    out = []
    for e in S.all_edges:
        ns = [e.attrs.get('n1'), e.attrs.get('n2')]
        if (ns[0] is a and ns[1] is b) or (ns[0] is b and ns[1] is a):
            out.append(e)
    if len(out) != 1:
        raise Undecided('no unique edge object for a pair of connected nodes')
    return out[0]


def plate_scene(ctx, cfg, props=True):
    S = read_scene(ctx, cfg)
    mesh = S.mesh
    a, b, c = S.nodes[:3]
    t1 = [t for t in S.trias if c in nodes_of(S, t)][0]
    t1.name = 'tria_1'
    S.T1, S.T2 = t1, None
    if cfg.two:
        S.T2 = [t for t in S.trias if t is not t1][0]
        S.T2.name = 'tria_2'
    S.edge = edge_between(S, a, b)
    S.edge.name = 'edge_ab'
    for o in S.all_edges + S.trias + S.nodes:
        flatten(o)
    focus = [S.edge] if cfg.focus == 'edge' else S.all_edges
    restrict(mesh.attrs['edges'], lambda v: v in focus, 'edges')
    restrict(mesh.attrs['elements'], lambda v: v in S.trias and (cfg.focus != 'tria' or v is t1), 'elements')
    restrict(mesh.attrs['nodes'], lambda v: True, 'nodes')
    mesh.attrs['nodes'].keys = [o.attrs['nid'] for o in [strip(v) for v in mesh.attrs['nodes'].vals]]
    S.props = {}
    if props:
        if cfg.by_node:
            for k, o in enumerate(S.nodes):
                S.props['abcd'[k]] = o.attrs['prop'] = make_prop(S, 'abcd'[k])
            for k, o in enumerate(S.nodes):
                if 'abcd'[k] in cfg.share:
                    S.props['abcd'[k]] = o.attrs['prop'] = S.props[cfg.share[0]]
        else:
            for k, o in enumerate([S.T1, S.T2]):
                if o is not None:
                    S.props['12'[k]] = o.attrs['prop'] = S.props['1'] if k and cfg.share else make_prop(S, '12'[k])
    S.others = {}
    if props and (cfg.orient == '-' or cfg.reader == 'nastran'):
        # the other kind of object carries laminates as well, which must not matter
        for k, o in enumerate(S.nodes if not cfg.by_node else [S.T1, S.T2]):
            if o is not None:
                tag = 'other_' + ('12'[k] if cfg.by_node else 'abcd'[k])
                S.others[tag] = o.attrs['prop'] = make_prop(S, tag)
    S.n = mesh.attrs['nodes'].length
    S.I.effects[:] = []
    S.read_calls = set(S.I.calls)
    return S


def nodes_of(S, t):
    v = t.attrs.get('nodes_ref')
    if v is None:
        v = t.attrs['nodes']
    return [strip(x) for x in v.items]


def assembled(mat, ctx):
    """Contributions added to a matrix: {(row, col): value}, problems."""
    out, bad = {}, []
    if mat.opaque:
        bad.append(('undecided', mat.opaque, None))
    for op, r, c, v, loc, loops in mat.writes:
        v = al.expand_defs(v)
        if op == 'Sub':
            v = -v
        elif op != 'Add':
            bad.append((op, v, loc))
            continue
        if not v.t:
            continue
        key = (ctx.reduce(r), ctx.reduce(c))
        out[key] = out.get(key, ZERO) + v
    return {k: v for k, v in out.items() if v.t}, bad
