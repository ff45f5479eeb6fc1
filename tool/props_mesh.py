"""Properties of the mesh readers."""
import numpy as np

import algebra as al
from algebra import Poly, ZERO, ONE
import engine as en
from engine import AbsRaise, Undecided, AList, ADict, ASet, AObj, SymColl, ExtClass, objarray, Ctx
import framework as fw
import meshmodel as mm
import world as w

TOPO = {
    'one triangle': [(0, 1, 2)],
    'two triangles sharing an edge': [(0, 1, 2), (1, 0, 3)],
    'two triangles sharing a vertex': [(0, 1, 2), (0, 3, 4)],
    'two separate triangles': [(0, 1, 2), (3, 4, 5)],
    'three triangles around a vertex': [(0, 1, 2), (0, 2, 3), (0, 3, 1)],
    'three triangles sharing an edge': [(0, 1, 2), (1, 0, 3), (0, 1, 4)],
    'a strip of three triangles': [(0, 1, 2), (2, 1, 3), (2, 3, 4)],
    'a triangle and a node in no triangle': [(0, 1, 2)],
    'two triangles on the same nodes': [(0, 1, 2), (0, 1, 2)],
}
EXTRA = {'a triangle and a node in no triangle': 1}


class Case(object):
    def __init__(self, topo, reader='delaunay', order=None, rot=(0, 0, 0), rev=False, torder=None, norder=None,
                 dim=3, bad=None, again=False):
        self.topo, self.reader, self.rot, self.rev, self.dim, self.bad = topo, reader, rot, rev, dim, bad
        self.again = again      # another mesh was read before
        t = TOPO[topo]
        self.n = max(max(x) for x in t) + 1 + EXTRA.get(topo, 0)
        self.order = tuple(order or range(self.n))
        self.norder = tuple(norder or self.order)
        self.torder = tuple(torder or range(len(t)))
        perms = [(0, 1, 2), (1, 2, 0), (2, 0, 1), (0, 2, 1), (2, 1, 0), (1, 0, 2)]
        self.tri = [tuple(x[i] for i in perms[r % 6]) for x, r in zip(t, rot)]

    def __str__(self):
        L = 'abcdef'
        s = '%s, %s reader, triangles %s, numbering %s' % (
            self.topo, self.reader, '+'.join(''.join(L[i] for i in t) for t in self.tri),
            '<'.join(L[k] for k in sorted(range(self.n), key=lambda k: self.order[k])))
        if self.reader == 'nastran':
            s += ', ids ' + '<'.join(L[k] for k in sorted(range(self.n), key=lambda k: self.norder[k]))
        if self.rev:
            s += ', reversed set order'
        if self.dim == 2:
            s += ', plane points'
        if self.bad:
            s += ', with a ' + self.bad
        if self.again:
            s += ', second mesh read'
        return s

    def but(self, **kw):
        c = Case(self.topo)
        c.__dict__.update(self.__dict__)
        c.__dict__.update(kw)
        return c


def make_ctx(case, forced):
    ctx = Ctx(str(case), forced)
    w.rank_nodes(ctx, case.order, 'points')
    w.rank_nodes(ctx, case.order, 'grids')
    for cls in ('simplices', 'elems'):
        for k, r in enumerate(case.torder):
            i = w.only_atom(al.sym('pos(%s,%d)' % (cls, k)))
            ctx.ranks[i] = (cls, r)
            ctx.lower[i] = r
    for k in range(case.n):
        i = w.only_atom(al.sym('nid(%d)' % k, True))
        ctx.ranks[i] = ('nid', case.norder[k])
        ctx.lower[i] = 1 + case.norder[k]
    for k in range(len(case.tri)):
        i = w.only_atom(al.sym('eid(%d)' % k, True))
        r = len(case.tri) - 1 - case.torder[k] if case.reader == 'nastran' and not case.rev else case.torder[k]
        ctx.ranks[i] = ('eid', r)
        ctx.lower[i] = 1 + r
    ctx.set_reverse = case.rev
    return ctx


class Scene(object):
    pass


def scene(ctx, case):
    S = Scene()
    S.case = case
    S.I, S.M = w.new(ctx)
    present(S, case)
    return S


def present(S, case, sfx=''):
    """the input of the reader; sfx: another mesh, same connectivity"""
    I, M = S.I, S.M
    S.pts = [objarray([al.sym('x%d' % k + sfx), al.sym('y%d' % k + sfx)] + ([al.sym('z%d' % k + sfx)] if case.dim == 3 else []))
             for k in range(case.n)]
    if case.reader == 'delaunay':
        points = w.ranked('points', [p.copy() for p in S.pts], case.order)
        S.P = P = w.positions('points', case.n)
        points.is_array = True
        for p in points.reps:
            M.set_origin(p, 'the points')
        sc = w.ranked('simplices', [objarray([P[i] for i in t]) for t in case.tri], case.torder)
        sc.is_array = True
        for t in sc.reps:
            M.mark_int(t)
            M.set_origin(t, 'the simplices')
        tri = AObj(ExtClass('Delaunay'), 'tri', True)
        tri.attrs.update(simplices=sc, vertices=sc, points=points, nsimplex=sc.length, npoints=points.length)
        S.points, S.tri = points, tri
    else:
        mesh = mm.make_bdf(M, I)
        S.nids = [al.sym('nid(%d)' % k, True) for k in range(case.n)]
        S.grids = [mm.make_grid(M, I, S.nids[k], S.pts[k].copy(), name='node_' + 'abcdef'[k]) for k in range(case.n)]
        for k, g in enumerate(S.grids):
            M.set_origin(g.attrs['xyz'], 'the coordinates of a node')
        S.elems, S.eids = [], []
        for k, t in enumerate(case.tri):
            eid = al.sym('eid(%d)' % k, True)
            cls = mm.CTRIA3
            ids, grids = [S.nids[i] for i in t], [S.grids[i] for i in t]
            kind = 'CTRIA3'
            if case.bad and k == len(case.tri) - 1:
                cls, n, kind = mm.OTHERS[case.bad]
                # a sixth node may be missing in the deck
                more = [i for i in range(case.n) if i not in t] + [None]*3
                ids = (ids + [None if i is None or n == 6 else S.nids[i] for i in more])[:n]
                grids = (grids + [None if i is None or n == 6 else S.grids[i] for i in more])[:n]
            e = mm.make_shell(M, I, cls, eid, I.new_list(ids), 'tria_%d' % (k + 1))
            e.attrs['type'] = kind
            e.attrs['nodes_ref'] = I.new_list(grids)
            S.elems.append(e)
            S.eids.append(eid)
        mesh.attrs['nodes'] = w.sym_dict(I, 'grids', S.nids, S.grids, case.order)
        mesh.attrs['elements'] = w.sym_dict(I, 'elems', S.eids, S.elems, case.torder)
        S.deck = mesh
        M.mesh_source = lambda I2: mesh


def read(S):
    I = S.I
    if S.case.again:
        # another mesh was read before; S keeps what describes the second one
        T = Scene()
        T.case, T.I, T.M = S.case.but(again=False), S.I, S.M
        present(T, T.case, "'")
        S.M.mesh_source = lambda I2: T.deck
        read(T)
        if S.case.reader != 'delaunay':
            S.M.mesh_source = lambda I2: S.deck
    S.since = len(I.effects)
    if S.case.reader == 'delaunay':
        f = w.function(I, 'meshless.espim.read_mesh', 'read_delaunay')
        return I.call(f, [S.points, S.tri], {})
    f = w.function(I, 'meshless.espim.read_mesh', 'read_mesh')
    return I.call(f, ['deck.dat'], {})


def explore(rec, case, body, construct):
    def run(ctx):
        S = scene(ctx, case)
        try:
            body(S, ctx)
        finally:
            rec.absorb(S.I)
    fw.explore(rec, None, lambda forced: make_ctx(case, forced), run, construct)


def items(v, what):
    if isinstance(v, (AList, ASet)):
        return [w.strip(x) for x in v.items]
    if isinstance(v, (tuple, list)):
        return [w.strip(x) for x in v]
    if isinstance(v, SymColl):
        return [w.strip(x) for x in v.reps]
    if isinstance(v, np.ndarray) and v.ndim == 1:
        return list(v)
    raise Undecided('%s is %r' % (what, v))


def setup(rec, S, ctx, c):
    """nodes and triangles of the mesh read, in the order of the case"""
    case = S.case
    S.mesh = mesh = read(S)
    for e in S.I.effects:
        if e.kind == 'partial-domain':
            rec.bad('every node and triangle is read', c, e.loc, 'the loop skips members: %s' % e.why)
            return False
        if e.kind == 'early-exit' and e.effects:
            rec.bad('every node and triangle is read', c, e.loc, 'the loop is left early')
            return False
    if not isinstance(mesh, AObj):
        raise Undecided('the reader returns %r' % (mesh,))
    nd, el = w.get(S.I, mesh, 'nodes'), w.get(S.I, mesh, 'elements')
    if not isinstance(nd, ADict) or not isinstance(el, ADict):
        raise Undecided('mesh.nodes or mesh.elements is not a dictionary')
    vs = [w.strip(v) for v in nd.vals]
    es = [w.strip(v) for v in el.vals]
    if not rec.check(len(vs) == case.n and len(es) == len(case.tri), 'every node and triangle is read', c, None,
                     lambda: '%d of %d nodes and %d of %d triangles are registered' % (len(vs), case.n, len(es), len(case.tri))):
        return False
    S.nodes = [None]*case.n
    for o in vs:
        for k in range(case.n):
            if ctx.equal(al.lift(w.get(S.I, o, 'xyz')[0]), S.pts[k][0]):
                S.nodes[k] = o
    if None in S.nodes:
        rec.bad('coordinates are kept', c, None, 'the x coordinate of a node differs from the input')
        return False
    S.trias = [None]*len(case.tri)
    for exact in (True, False):
        for o in es:
            if any(o is x for x in S.trias):
                continue
            ns = items(w.get(S.I, o, 'nodes'), 'the nodes of a triangle')
            for k, t in enumerate(case.tri):
                want = [S.nodes[i] for i in t]
                if S.trias[k] is None and (len(ns) == 3 and all(a is b for a, b in zip(ns, want)) if exact else
                                           set(map(id, ns)) == set(map(id, want))):
                    S.trias[k] = o
                    break
    if not rec.check(None not in S.trias, 'triangles keep their nodes', c, None,
                     'the nodes of a registered triangle are not those of the input'):
        return False
    for k, o in enumerate(S.nodes):
        o.name = 'node_' + 'abcdef'[k]
    return True


def eloc(S, attr):
    for e in S.I.effects:
        if e.kind == 'attr' and e.attr == attr:
            return e.loc
    return None


def incidence(rec, case):
    c = 'read_' + ('delaunay' if case.reader == 'delaunay' else 'mesh')

    def body(S, ctx):
        if not setup(rec, S, ctx, c):
            return
        pairs = {}
        for k, t in enumerate(case.tri):
            for i in range(3):
                pairs.setdefault(frozenset((t[i], t[(i + 1) % 3])), []).append(k)
        ed = w.get(S.I, S.mesh, 'edges')
        if not isinstance(ed, ADict):
            raise Undecided('mesh.edges is %r' % (ed,))
        es = [w.strip(v) for v in ed.vals]
        loc = eloc(S, 'edges')
        by = {}
        for key, e in zip(ed.keys, es):
            if not isinstance(e, AObj):
                raise Undecided('an edge is %r' % (e,))
            ends = [w.strip(w.get(S.I, e, 'n1')), w.strip(w.get(S.I, e, 'n2'))]
            if any(x not in S.nodes for x in ends):
                rec.bad('edges join nodes of the mesh', c, loc, 'an edge ends at %r' % (ends,))
                return
            p = frozenset(S.nodes.index(x) for x in ends)
            if not rec.check(p in pairs, 'one edge per connected pair of nodes', c, loc,
                             lambda: 'an edge between %s that no triangle has' % names(p)):
                return
            if not rec.check(p not in by, 'one edge per connected pair of nodes', c, loc,
                             lambda: 'two edges between %s' % names(p)):
                return
            by[p] = e
            rec.check(same_members(items(w.get(S.I, e, 'nodes'), 'edge.nodes'), ends),
                      'edge.nodes are the two ends', c, loc, lambda: 'edge.nodes of %s differ from its ends' % names(p))
            ids = items(w.get(S.I, e, 'node_ids'), 'edge.node_ids')
            own = [al.lift(w.get(S.I, b, 'nid')) for b in ends]
            got = [al.lift(a) for a in ids]
            rec.check(len(got) == 2 and any(all(ctx.equal(a, b) for a, b in zip(got, o)) for o in (own, own[::-1])),
                      'edge.node_ids are the ids of the two ends', c, loc, lambda: 'edge.node_ids of %s' % names(p))
            if isinstance(key, tuple) and len(key) == 2:
                nid = [al.lift(w.get(S.I, x, 'nid')) for x in ends]
                k2 = [al.lift(x) for x in key]
                rec.check(all(any(ctx.equal(a, b) for b in nid) for a in k2) and not ctx.equal(k2[0], k2[1]),
                          'edges are found under the ids of their ends', c, loc, lambda: 'key %s for %s' % (key, names(p)))
        for p in sorted(pairs, key=sorted):
            if not rec.check(p in by, 'one edge per connected pair of nodes', c, loc,
                             lambda: 'no edge between %s' % names(p)):
                return
        for p, e in by.items():
            ts = items(w.get(S.I, e, 'trias'), 'edge.trias')
            want = [S.trias[k] for k in pairs[p]]
            rec.check(same_members(ts, want), 'edge.trias are the triangles with both ends', c, eloc(S, 'trias') or loc,
                      lambda: 'edge %s lists %s, the mesh has %s' % (names(p), tn(S, ts), tn(S, want)))
        for k, t in enumerate(case.tri):
            want = [by[frozenset((t[i], t[(i + 1) % 3]))] for i in range(3)]
            got = items(w.get(S.I, S.trias[k], 'edges'), 'tria.edges')
            rec.check(same_members(got, want), 'tria.edges are its three edges', c, eloc(S, 'edges'),
                      lambda: 'triangle %d lists %d edges' % (k + 1, len(got)))
        for n, o in enumerate(S.nodes):
            want = [e for p, e in by.items() if n in p]
            got = items(w.get(S.I, o, 'edges'), 'node.edges')
            rec.check(same_members(got, want), 'node.edges are the edges of the node', c, eloc(S, 'edges'),
                      lambda: 'node %s lists %d edges, it has %d' % ('abcdef'[n], len(got), len(want)))
            want = [al.lift(w.get(S.I, S.trias[k], 'eid')) for k, t in enumerate(case.tri) if n in t]
            got = items(w.get(S.I, o, 'trias'), 'node.trias')
            good = len(got) == len(want) and all(isinstance(g, (Poly, int)) for g in got) and \
                all(any(ctx.equal(al.lift(g), x) for g in got) for x in want)
            rec.check(good, 'node.trias are the ids of the triangles around the node', c, eloc(S, 'trias'),
                      lambda: 'node %s lists %s, required %s' % ('abcdef'[n], [str(x) for x in got], [str(x) for x in want]))
    explore(rec, case, body, c)


def same_members(a, b):
    return len(a) == len(b) and sorted(map(id, a)) == sorted(map(id, b))


def names(p):
    return '-'.join('abcdef'[i] for i in sorted(p))


def tn(S, ts):
    return [str(S.trias.index(t) + 1) if t in S.trias else repr(t) for t in ts]


def registered(rec, case):
    c = 'read_delaunay'

    def body(S, ctx):
        if not setup(rec, S, ctx, c):
            return
        nd, el = w.get(S.I, S.mesh, 'nodes'), w.get(S.I, S.mesh, 'elements')
        for key, v in zip(nd.keys, nd.vals):
            o = w.strip(v)
            k = S.nodes.index(o)
            want = S.P[k] + ONE
            rec.check(ctx.equal(al.lift(w.get(S.I, o, 'nid')), want), 'node ids count the points from one', c, eloc(S, 'trias'),
                      lambda: 'point number p has node id %s' % al.poly_str(ctx.reduce(al.lift(w.get(S.I, o, 'nid')))))
            rec.check(ctx.equal(al.lift(key), al.lift(w.get(S.I, o, 'nid'))), 'nodes are registered under their id', c, eloc(S, 'trias'),
                      lambda: 'key %s' % (key,))
            xyz = list(S.pts[k]) + ([ZERO] if case.dim == 2 else [])
            got = w.get(S.I, o, 'xyz')
            rec.check(isinstance(got, np.ndarray) and got.shape == (3,) and all(
                ctx.equal(al.lift(g), x) for g, x in zip(got, xyz)), 'coordinates are kept, z = 0 in the plane', c,
                eloc(S, 'trias'), lambda: 'node of point (%s) at %s' % (', '.join(map(str, xyz)), got))
            rec.check(w.get(S.I, o, 'prop', 'missing') is None, 'nodes start without a property', c, eloc(S, 'prop'), 'prop is set')
        rec.check(nd.length is not None and ctx.equal(al.lift(nd.length), S.points.length), 'one node per point', c, None,
                  lambda: 'number of nodes: %s' % nd.length)
        for key, v in zip(el.keys, el.vals):
            o = w.strip(v)
            k = S.trias.index(o)
            rec.check(ctx.equal(al.lift(w.get(S.I, o, 'eid')), al.sym('pos(simplices,%d)' % k) + ONE),
                      'triangle ids count the simplices from one', c, eloc(S, 'trias'),
                      lambda: 'simplex number s has id %s' % al.poly_str(al.lift(w.get(S.I, o, 'eid'))))
            rec.check(ctx.equal(al.lift(key), al.lift(w.get(S.I, o, 'eid'))), 'triangles are registered under their id', c, None,
                      lambda: 'key %s' % (key,))
            tri_nodes(rec, S, ctx, c, o, k)
        rec.check(el.length is not None and ctx.equal(al.lift(el.length), w.get(S.I, S.tri, 'nsimplex')), 'one triangle per simplex',
                  c, None, lambda: 'number of triangles: %s' % el.length)
        for e in S.I.effects:
            if e.kind == 'mutate-input':
                rec.bad('the input arrays are kept', c, e.loc, '%s are modified' % e.what)
        rec.ok('the input arrays are kept', c)
    explore(rec, case, body, c)


def tri_nodes(rec, S, ctx, c, o, k):
    case = S.case
    for nm in ('nodes', 'nodes_ref'):
        ns = items(o.attrs.get(nm), 'tria.' + nm)
        rec.check([id(x) for x in ns] == [id(S.nodes[i]) for i in case.tri[k]], 'triangles keep the order of their nodes', c,
                  eloc(S, nm), lambda: '%s of a triangle: %s' % (nm, ns))
    ids = items(S.I.getattr(o, 'node_ids'), 'node_ids')
    rec.check(len(ids) == 3 and all(ctx.equal(al.lift(a), al.lift(w.get(S.I, S.nodes[i], 'nid'))) for a, i in zip(ids, case.tri[k])),
              'triangles keep the order of their nodes', c, None, lambda: 'node_ids are %s' % ids)
    rec.check(w.get(S.I, o, 'prop', 'missing') is None, 'triangles start without a property', c, eloc(S, 'prop'), 'prop is set')


def deck(rec, case):
    c = 'read_mesh'

    def body(S, ctx):
        if case.bad:
            try:
                read(S)
            except AbsRaise as e:
                rec.check(e.cls == 'NotImplementedError', 'elements other than CTRIA3 are rejected', c, e.loc,
                          '%s is raised: %s' % (e.cls, e.value))
                return
            rec.bad('elements other than CTRIA3 are rejected', c, S.I.loc, 'a deck with a %s is accepted' % case.bad)
            return
        if not setup(rec, S, ctx, c):
            return
        rd = [e for e in S.I.effects[S.since:] if e.kind == 'read-bdf']
        rec.check(len(rd) == 1 and rd[0].path == 'deck.dat', 'the named deck is read', c, rd[0].loc if rd else None,
                  lambda: 'read_bdf calls: %s' % rd)
        rec.check(rd and rd[0].kw.get('xref', True) is not False, 'the deck is cross-referenced', c, rd[0].loc if rd else None, '')
        for x in ('punch', 'skip_cards', 'read_cards'):
            rec.check(rd and not rd[0].kw.get(x), 'the whole deck is read', c, rd[0].loc if rd else None,
                      'read_bdf is called with ' + x)
        nd, el = w.get(S.I, S.mesh, 'nodes'), w.get(S.I, S.mesh, 'elements')
        for key, v in zip(nd.keys, nd.vals):
            o = w.strip(v)
            k = S.nodes.index(o)
            rec.check(ctx.equal(al.lift(w.get(S.I, o, 'nid')), S.nids[k]) and ctx.equal(al.lift(key), S.nids[k]),
                      'node ids are kept', c, None, lambda: 'node id %s' % (w.get(S.I, o, 'nid'),))
            rec.check(all(ctx.equal(al.lift(g), x) for g, x in zip(w.get(S.I, o, 'xyz'), S.pts[k])), 'coordinates are kept', c, None,
                      lambda: 'node at %s' % (w.get(S.I, o, 'xyz'),))
            rec.check(w.get(S.I, o, 'prop', 'missing') is None, 'nodes start without a property', c, eloc(S, 'prop'), 'prop is set')
        for key, v in zip(el.keys, el.vals):
            o = w.strip(v)
            k = S.trias.index(o)
            rec.check(ctx.equal(al.lift(w.get(S.I, o, 'eid')), S.eids[k]) and ctx.equal(al.lift(key), S.eids[k]),
                      'triangle ids are kept', c, None, lambda: 'triangle id %s' % (w.get(S.I, o, 'eid'),))
            tri_nodes(rec, S, ctx, c, o, k)
        for e in S.I.effects:
            if e.kind == 'mutate-input':
                rec.bad('coordinates are kept', c, e.loc, '%s are modified' % e.what)
    explore(rec, case, body, c)


def orders(n, m, seed=0):
    """m permutations of range(n), spread over all of them"""
    from itertools import permutations
    ps = list(permutations(range(n)))
    stride = {1: 1, 2: 1, 3: 5, 4: 7, 5: 47, 6: 311}[n]
    return [ps[(seed + i*stride) % len(ps)] for i in range(min(m, len(ps)))]


def cases(tier, readers=('delaunay', 'nastran'), topos=None, m=None, **kw):
    m = m or (4 if tier == 'quick' else 40)
    out = []
    for rd in readers:
        for ti, (topo, t) in enumerate(TOPO.items()):
            if topos and topo not in topos:
                continue
            n = max(max(x) for x in t) + 1 + EXTRA.get(topo, 0)
            for i, o in enumerate(orders(n, m, ti)):
                no = orders(n, 97, ti + 3)
                out.append(Case(topo, rd, o, rot=tuple((i*(j + 2) + j + ti) % 6 for j in range(len(t))), rev=i % 2 == 1,
                                torder=orders(len(t), 6, 0)[(i + ti) % min(len(t), 3)] if len(t) > 1 else None,
                                norder=no[(2*i + 1) % len(no)], again=i == 0 and not kw.get('bad'), **kw))
    return out
