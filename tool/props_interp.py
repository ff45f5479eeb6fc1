"""Properties of the Lagrangian interpolation and of the geometric helpers."""
from itertools import permutations

import numpy as np

import algebra as al
from algebra import Poly, ZERO, ONE
import engine as en
from engine import AbsRaise, Undecided, AList, AObj, ExtClass, objarray, Ctx, KArr, SymArr
import framework as fw
import meshmodel as mm
import world as w


class Case(object):
    def __init__(self, dims, order=0, points='array', kind='value'):
        self.dims, self.order, self.points, self.kind = dims, order, points, kind

    def __str__(self):
        s = ' x '.join(map(str, self.dims)) + ' nodes'
        s += ', nodes ' + ('increasing', 'decreasing', 'unordered')[self.order]
        s += ', evaluated at ' + {'array': 'an array', 'scalar': 'a point'}[self.points]
        if self.kind == 'shape':
            s += ', field of another shape'
        return s


def make_ctx(case, forced):
    ctx = Ctx(str(case), forced)
    # pairwise distinct nodes, ordered; the axes are apart so that nodes of
    # different axes differ as well
    flat = []
    for ax, n in enumerate(case.dims):
        ns = [al.sym('%s%d' % ('xyz'[ax], k)) for k in range(n)]
        if case.order == 1:
            ns = ns[::-1]
        elif case.order == 2 and n > 2:
            ns = ns[1:2] + ns[0:1] + ns[2:]
        flat += ns
    for i in range(len(flat)):
        for j in range(i):
            ctx.add_fact(flat[i] - flat[j], '+')
    return ctx


def lagrange(nodes, m, x):
    r = ONE
    for k, n in enumerate(nodes):
        if k != m:
            r = r*((x - n)/(nodes[m] - n))
    return r


def interpolation(rec, case):
    nd = len(case.dims)
    name = 'interpolate_lagrange_%dD' % nd

    def build(forced):
        return make_ctx(case, forced)

    def run(ctx):
        I, M = w.new(ctx)
        try:
            body(ctx, I, M)
        finally:
            rec.absorb(I)

    def body(ctx, I, M):
        f = w.function(I, 'meshless.interpolate', name)
        nodes = [objarray([al.sym('%s%d' % ('xyz'[ax], k)) for k in range(n)]) for ax, n in enumerate(case.dims)]
        shape = case.dims
        if case.kind == 'shape':
            # every axis in turn has one value more than nodes
            for ax in range(nd):
                sh = list(shape)
                sh[ax] += 1
                call_bad(ctx, I, M, f, nodes, sh, 'axis %d of the field is longer than its nodes' % (ax + 1))
            for sh in sorted(set(permutations(shape)) - {tuple(shape)}):
                call_bad(ctx, I, M, f, nodes, list(sh), 'the axes of the field are exchanged')
            call_bad(ctx, I, M, f, nodes, [1]*(nd - 1) + [int(np.prod(shape))], 'the field is flat')
            call_bad(ctx, I, M, f, nodes, list(shape) + [1], 'the field has one axis too many')
            call_bad(ctx, I, M, f, nodes, list(shape)[:-1], 'the field has one axis too few')
            return
        F = field(shape)
        K = 2 if case.points == 'array' else 1
        P = [[al.sym('%s_at%d' % ('xyz'[ax], k)) for k in range(K)] for ax in range(nd)]
        pts = [objarray(p) if case.points == 'array' else p[0] for p in P]
        if case.kind == 'int':
            for x in pts + nodes + [F]:
                if isinstance(x, np.ndarray):
                    M.int_input(x)
        keep = []
        for what, arrs in (('evaluation coordinates', pts), ('control node coordinates', nodes), ('nodal field', [F])):
            for a in arrs:
                if isinstance(a, np.ndarray):
                    M.set_origin(a, 'the ' + what)
                    keep.append((what, a, a.copy()))
        r = I.call(f, pts + nodes + [F], {})
        loc = (I.repo.rel(f.module.path), f.node.lineno, name)
        out = values(r, K)
        if out is None:
            if isinstance(r, (Poly, int, np.ndarray, AList)):
                rec.bad('interpolant of the control values', name, loc, 'the result has the wrong shape: %r' % (r,))
                return
            raise Undecided('%s returns %r' % (name, r))
        for k in range(K):
            want, slip = ZERO, ZERO
            for ix in np.ndindex(*shape):
                t = F[ix]
                u = F[ix]
                for ax in range(nd):
                    t = t*lagrange(list(nodes[ax]), ix[ax], P[ax][k])
                    u = u*(lagrange(list(nodes[ax]), ix[ax], P[ax][k]) if ax < 2 else recorded(nodes, ix, P[ax][k]))
                want = want + t
                slip = slip + u
            if ctx.equal(out[k], want):
                rec.ok('interpolant of the control values', name)
            elif nd == 3 and ctx.equal(out[k], slip):
                rec.ok('interpolant of the control values up to the recorded finding', name)
                rec.finding('interpolate-3d/third-axis-uses-y-nodes', loc,
                            'the basis polynomials of the third axis are built on the nodes of the second')
            else:
                rec.bad('interpolant of the control values', name, loc,
                        'the value at a point is not the Lagrange polynomial through the control values')
                return
        changed = False
        for e in I.effects:
            if e.kind == 'mutate-input':
                rec.bad('the arguments are kept', name, e.loc, '%s are modified' % e.what)
                changed = True
        for what, a, b in keep:
            if not all(x is y or ctx.equal(al.lift(x), al.lift(y)) for x, y in zip(a.flat, b.flat)):
                if not changed:
                    rec.bad('the arguments are kept', name, loc, 'the %s are modified' % what)
                changed = True
        if not changed:
            rec.ok('the arguments are kept', name, len(keep))

    def call_bad(ctx, I, M, f, nodes, sh, text):
        F = field(sh)
        P = [objarray([al.sym('%s_at%d' % ('xyz'[ax], k)) for k in range(2)]) for ax in range(nd)]
        try:
            I.call(f, P + [n.copy() for n in nodes] + [F], {})
        except AbsRaise as e:
            rec.ok('a field of another shape is rejected', name)
            return
        rec.bad('a field of another shape is rejected', name, I.loc, text + ', yet a value is returned')
    fw.explore(rec, None, build, run, name, 64)


def recorded(nodes, ix, x):
    """the recorded deviation: the third axis runs over the nodes of the second"""
    zp = nodes[2][ix[2]]
    r = ONE
    for k, n in enumerate(nodes[1]):
        if k != ix[2]:
            r = r*((x - n)/(zp - n))
    return r


def field(shape):
    F = np.empty(tuple(shape), dtype=object)
    for ix in np.ndindex(*F.shape):
        F[ix] = al.sym('F_' + '_'.join(map(str, ix)))
    return F


def values(r, K):
    if isinstance(r, (Poly, int)):
        return [al.expand_defs(al.lift(r))]*K      # the same value everywhere
    if isinstance(r, AList):
        r = [w.strip(x) for x in r.items]
    if isinstance(r, np.ndarray):
        if r.shape == ():
            return [al.expand_defs(al.lift(r[()]))]*K
        if r.shape != (K,):
            return None
        r = list(r)
    if isinstance(r, (list, tuple)) and len(r) == K and all(isinstance(x, (Poly, int)) for x in r):
        return [al.expand_defs(al.lift(x)) for x in r]
    return None


def extents(rec, nd):
    """node sets of arbitrary size: the loops are recognised as sums and
    products over an index.  Only ever confirms: an implementation this form
    does not cover is judged by the finite extents alone."""
    name = 'interpolate_lagrange_%dD' % nd

    def body(ctx):
        I, M = w.new(ctx)
        f = w.function(I, 'meshless.interpolate', name)
        n = [al.sym('N%d' % k, True) for k in range(nd)]
        nodes = [SymArr('xyz'[k] + '_nodes', (n[k],)) for k in range(nd)]
        F = SymArr('field_nodes', tuple(n))
        P = [KArr(al.sym('xyz'[k])) for k in range(nd)]
        try:
            r = I.call(f, P + nodes + [F], {})
        except (Undecided, AbsRaise, TypeError, AttributeError, ValueError, IndexError, KeyError):
            return      # a form the abstract arrays do not cover
        if isinstance(r, KArr):
            rec.symbolic = al.expand_defs(r.val)
            at = [p.val for p in P]
            if ctx.equal(rec.symbolic, symbolic_form(nodes, F, at, n)):
                rec.ok('interpolant for any number of control nodes', name)
            elif nd == 3 and any(ctx.equal(rec.symbolic, symbolic_form(nodes, F, at, n, 1, lv)) for lv in (0, 1, 2)):
                rec.ok('interpolant for any number of control nodes, up to the recorded finding', name)
            else:
                rec.note('for an arbitrary number of nodes the implementation is not in a recognised form')
    fw.explore(rec, None, lambda forced: Ctx('any number of nodes', forced), body, name, limit=16, confirm=True)


def differ(d):
    c, m, Q = al.canon(al.clear(d))
    return (('==', Poly({m: 1})*Q if m else Q), False)


def symbolic_form(nodes, F, at, n, third=2, level=1):
    b0 = [al.intern('bound', (str(k), 0), 'i0<%s>' % k) for k in n]
    i0 = [Poly.of_atom(b) for b in b0]
    t = F.entry(tuple(i0))
    for ax in range(len(n)):
        src = third if ax == 2 else ax
        b1 = al.intern('bound', (str(n[src]), level if ax == 2 else 1), 'i%d<%s>' % (level if ax == 2 else 1, n[src]))
        i1 = Poly.of_atom(b1)
        own, other = nodes[ax].entry((i0[ax],)), nodes[src].entry((i1,))
        g = {differ(i0[ax] - i1)}
        if src != ax:
            g.add(differ(own - other))
        g = frozenset(g)
        t = t*en.reduction('prod', b1, [(g, (at[ax] - other)/(own - other))])
    for b in reversed(b0):
        t = en.reduction('sum', b, [(frozenset(), t)])
    return t


def cases2(t):
    ds = [(1, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2), (3, 3), (5, 1), (1, 5), (7, 1), (1, 7)]
    if t == 'thorough':
        ds += [(4, 2), (2, 4), (4, 3), (3, 4), (4, 4), (5, 2), (2, 5)]
    return spread(ds) + [Case((2, 3), kind='int', points='array'), Case((2, 3), kind='shape'), Case((3, 2), kind='shape')]


def cases3(t):
    ds = [(1, 1, 1), (2, 1, 1), (1, 2, 1), (1, 1, 2), (2, 2, 2), (1, 2, 3), (1, 3, 2), (2, 1, 3), (2, 3, 1), (3, 1, 2), (3, 2, 1), (5, 1, 1), (1, 5, 1), (1, 1, 4)]
    if t == 'thorough':
        ds += [(2, 2, 3), (2, 3, 2), (3, 2, 2), (1, 3, 3), (3, 1, 3), (3, 3, 1), (1, 4, 2), (1, 2, 4)]
    return spread(ds) + [Case((1, 2, 2), kind='int', points='array'), Case((2, 3, 2), kind='shape'), Case((1, 2, 3), kind='shape')]


def spread(ds):
    out = []
    for i, d in enumerate(ds):
        out.append(Case(d, i % 3, 'array' if i % 2 == 0 or len(ds) > 12 else 'scalar'))
    return out


# -- geometry ----------------------------------------------------------------
def area(rec, n):
    name = 'area_of_polygon'

    def body(ctx):
        I, M = w.new(ctx)
        try:
            f = w.function(I, 'meshless.utils', name)
            X = [al.sym('x%d' % k) for k in range(n)]
            Y = [al.sym('y%d' % k) for k in range(n)]
            tw = ZERO
            for i in range(n):
                j = (i + 1) % n
                tw = tw + X[i]*Y[j] - X[j]*Y[i]
            ax, ay = objarray(X), objarray(Y)
            M.set_origin(ax, 'the x coordinates')
            M.set_origin(ay, 'the y coordinates')
            for how, args in (('arrays', [ax, ay]), ('lists', [AList(list(X)), AList(list(Y))]), ('integers', [ax, ay])):
                if how == 'integers':
                    M.int_input(ax)
                    M.int_input(ay)
                r = I.call(f, args, {})
                if not isinstance(r, (Poly, int)):
                    if isinstance(r, np.ndarray) and r.shape == ():
                        r = r[()]
                    else:
                        raise Undecided('%s returns %r' % (name, r))
                r = al.expand_defs(al.lift(r))
                want = al.pabs(tw)*Poly.const(al.Fraction(1, 2))
                rec.check(ctx.equal(r, want), 'area is half the absolute cross sum', name, I.loc,
                          lambda: 'area of a polygon with %d vertices is %s' % (n, al.poly_str(r)))
            for e in I.effects:
                if e.kind == 'mutate-input':
                    rec.bad('the arguments are kept', name, e.loc, '%s are modified' % e.what)
            rec.ok('the arguments are kept', name)
        finally:
            rec.absorb(I)
    fw.explore(rec, None, lambda forced: Ctx('polygon with %d vertices' % n, forced), body, name)


def helpers(rec, what):
    def body(ctx):
        I, M = w.new(ctx)
        try:
            globals()['h_' + what](rec, ctx, I, M)
        finally:
            rec.absorb(I)
    fw.explore(rec, None, lambda forced: Ctx(what, forced), body, what)


def vec_is(rec, ctx, got, want, rule, name, loc):
    if isinstance(got, AList):
        got = objarray([w.strip(x) for x in got.items])
    if not isinstance(got, np.ndarray):
        raise Undecided('%s returns %r' % (name, got))
    rec.check(got.shape == (len(want),), rule, name, loc, lambda: 'result has shape %s' % (got.shape,))
    if got.shape == (len(want),):
        for k, v in enumerate(want):
            rec.check(ctx.equal(al.expand_defs(al.lift(got[k])), v), rule, name, loc,
                      lambda: 'component %d is %s, required %s' % (k, al.poly_str(al.lift(got[k])), al.poly_str(v)))


def h_unitvec(rec, ctx, I, M):
    f = w.function(I, 'meshless.utils', 'unitvec')
    for n, ints in ((2, False), (3, False), (3, True)):
        v = objarray([al.sym('v%d' % k) for k in range(n)])
        M.set_origin(v, 'the vector')
        if ints:
            M.int_input(v)
        r = I.call(f, [v], {})
        if not isinstance(r, np.ndarray):
            raise Undecided('unitvec returns %r' % (r,))
        norm = al.psqrt(sum((x*x for x in v), ZERO))
        vec_is(rec, ctx, r, [x/norm for x in v], 'unit vector is v/|v|', 'unitvec', I.loc)
        mutations(rec, I, 'unitvec')


def mutations(rec, I, name):
    for e in I.effects:
        if e.kind == 'mutate-input':
            rec.bad('the arguments are kept', name, e.loc, '%s is modified' % e.what)
    rec.ok('the arguments are kept', name)


def nodes3(M, I, n):
    out = []
    for k in range(n):
        xyz = mm.vec(*[al.sym('%s%d' % (c, k)) for c in 'xyz'])
        o = mm.make_grid(M, I, al.sym('nid%d' % k, True), xyz, name='node %d' % k)
        M.set_origin(xyz, 'the coordinates of a node')
        out.append(o)
    return out


def h_getMid(rec, ctx, I, M):
    f = w.function(I, 'meshless.utils', 'getMid')
    for n, cls in ((3, mm.CTRIA3), (4, mm.CQUAD4)):
        ns = nodes3(M, I, n)
        e = mm.make_shell(M, I, cls, ONE, I.new_list([o.attrs['nid'] for o in ns]))
        e.attrs['nodes_ref'] = I.new_list(ns)
        r = I.call(f, [e], {})
        c = Poly.const(al.Fraction(1, n))
        vec_is(rec, ctx, r, [sum((o.attrs['xyz'][k] for o in ns), ZERO)*c for k in range(3)],
               'element centre is the mean of its corners', 'getMid', I.loc)
        mutations(rec, I, 'getMid')


def h_Edge(rec, ctx, I, M):
    E = w.function(I, 'meshless.espim.classes', 'Edge')
    a, b = nodes3(M, I, 2)
    e = I.call(E, [a, b], {})
    h = Poly.const(al.Fraction(1, 2))
    m = I.call(I.getattr(e, 'getMid'), [], {})
    vec_is(rec, ctx, m, [(a.attrs['xyz'][k] + b.attrs['xyz'][k])*h for k in range(3)],
           'edge centre is the mean of its ends', 'Edge.getMid', I.loc)
    mutations(rec, I, 'Edge.getMid')
    e2 = I.call(E, [b, a], {})
    for nm in ('trias', 'sdomain', 'ipts', 'nodes', 'node_ids'):
        rec.check(I.getattr(e, nm) is not I.getattr(e2, nm), 'edges do not share their lists', 'Edge', I.loc,
                  'two edges share the list ' + nm)


def h_IntegrationPoint(rec, ctx, I, M):
    P = w.function(I, 'meshless.espim.classes', 'IntegrationPoint')
    ns = nodes3(M, I, 3)
    f = [al.sym('f%d' % k) for k in range(3)]
    n = [al.sym('n' + c) for c in 'xyz']
    le = al.sym('le', True)
    t = AObj(ExtClass('CTRIA3'), 'tria', True)
    p = I.call(P, [t] + ns + f + n + [le], {})
    vec_is(rec, ctx, I.getattr(p, 'xyz'), [sum((f[k]*ns[k].attrs['xyz'][c] for k in range(3)), ZERO) for c in range(3)],
           'integration point at the weighted mean of its nodes', 'IntegrationPoint', I.loc)
    for nm, v in zip(('f1', 'f2', 'f3', 'nx', 'ny', 'nz', 'le'), f + n + [le]):
        rec.check(ctx.equal(al.lift(I.getattr(p, nm)), v), 'integration point keeps its data', 'IntegrationPoint', I.loc, nm)
    for nm, v in zip(('tria', 'n1', 'n2', 'n3'), [t] + ns):
        rec.check(I.getattr(p, nm) is v, 'integration point keeps its data', 'IntegrationPoint', I.loc, nm)
    mutations(rec, I, 'IntegrationPoint')
