"""Properties shared by the plate matrices: symmetry, rigid bodies, material
assignment, degree-of-freedom separation, geometric stiffness, dispatch,
additivity, independence of numbering, rejection of unsuitable meshes."""
import numpy as np

import algebra as al
from algebra import Poly, ZERO, ONE
import engine as en
from engine import AbsRaise, Undecided, AMat, AVec, AList, ADict, ASet, AObj, SymColl, Opaque
import framework as fw
import specs
import world as w
from props_k0 import (resulting, FUN, PERM3, PERM4, plate, fun, run_k0, matrix_terms, label_key, compare_terms, loops_ok,
                      cfgs_edge, term_loc, name_key, DOF)
import props_shear as ps
from props_shear import METHODS, call_shear, input_matrix, tria_cfgs

NAMES = {'k0': 'calc_k0', 'kG': 'calc_kG', 'cell': 'cell-based', 'nosmooth': 'cell-based-no-smoothing',
         'edge': 'edge-based'}


def cname(key, cfg):
    return NAMES[key] + (' (interior edge)' if cfg.two else ' (boundary edge)') if key == 'edge' else NAMES[key]


def call_kG(S, d=None):
    if d is None:
        d = getattr(S, 'dvec', None)
        if d is None:
            d = S.d = AVec('d', S.n*specs.C(5))
    return resulting(S.I, S.I.call(fun(S, 'kG'), [d, S.mesh, S.cfg.by_node], {}))


def disp_atom(S, ctx):
    def f(node, dof):
        i = ctx.reduce(al.lift(S.nodes[node].attrs['index']))
        return S.d.entry(i*specs.C(5) + specs.C(dof))
    return f


def displacement_at(S, ctx):
    f = disp_atom(S, ctx)
    return {(n, k): f(n, k) for n in range(len(S.nodes)) for k in range(5)}


def matrix_of(S, ctx, key, alpha=None, from_area=False):
    """the matrix one of the five functions contributes on this scene, after
    the constitutive stiffness prepared the mesh"""
    K = run_k0(S)
    S.K0 = K
    if key == 'k0':
        return K
    if key == 'kG':
        return call_kG(S)
    M = input_matrix(S)
    call_shear(S, key, M, al.sym('alpha', True) if alpha is None else alpha, from_area)
    return M


def keyed(rec, S, ctx, key, construct, **kw):
    since = len(S.I.effects)
    M = matrix_of(S, ctx, key, **kw)
    if not isinstance(M, AMat):
        raise Undecided('%s does not return a modelled matrix: %r' % (construct, M))
    loops_ok(rec, S.I, construct, since)
    got = matrix_terms(rec, S, ctx, M, construct)
    return M, got


def eq(ctx, a, b):
    return ctx.equal(a, b)


# -- symmetry ----------------------------------------------------------------
def symmetry(rec, arg):
    key, cfg, fa = arg
    c = cname(key, cfg)

    def body(S, ctx):
        M, got = keyed(rec, S, ctx, key, c, from_area=fa)
        if got is None:
            return
        for k in sorted(got):
            p, q = k
            if p > q and (q, p) in got:
                continue
            o = got.get((q, p), ZERO)
            if not rec.check(eq(ctx, got[k], o), 'entry equals its transpose', c, term_loc(S, ctx, M, k),
                             lambda: 'entries %s and %s differ: %s / %s' % (
                                 name_key(k), name_key((q, p)), al.poly_str(got[k]), al.poly_str(o))):
                return
    plate(rec, cfg, c, body)


# -- rigid bodies ------------------------------------------------------------
def rigid_modes(S, key):
    """displacement patterns that must not be resisted: name -> {(node, dof): v}"""
    X = S.coords
    N = range(len(S.nodes))
    x = [X[n][0] - X[0][0] for n in N]
    y = [X[n][1] - X[0][1] for n in N]
    if key == 'k0':
        return [('translation in x', {(n, 0): ONE for n in N}),
                ('translation in y', {(n, 1): ONE for n in N}),
                ('deflection', {(n, 2): x[n] for n in N}),
                ('rotation in the plane', dict([((n, 0), -y[n]) for n in N] + [((n, 1), x[n]) for n in N])),
                ('tilt about y', {(n, 3): ONE for n in N}),
                ('tilt about x', {(n, 4): ONE for n in N}),
                ('in-plane rotation of the normals', dict([((n, 3), -y[n]) for n in N] + [((n, 4), x[n]) for n in N]))]
    return [('deflection', {(n, 2): ONE for n in N}),
            ('tilt about y', dict([((n, 2), x[n]) for n in N] + [((n, 3), -ONE) for n in N])),
            ('tilt about x', dict([((n, 2), y[n]) for n in N] + [((n, 4), -ONE) for n in N]))]


def rigid(rec, arg):
    key, cfg = arg
    c = cname(key, cfg)

    def body(S, ctx):
        M, got = keyed(rec, S, ctx, key, c, alpha=ZERO)
        if got is None:
            return
        rows = sorted(set(p for p, q in got))
        for name, mode in rigid_modes(S, key):
            for p in rows:
                v = sum((got[p, q]*m for q, m in mode.items() if (p, q) in got), ZERO)
                if eq(ctx, v, ZERO):
                    rec.ok('no resistance to rigid motions', c)
                    continue
                k = next(k for k in sorted(got) if k[0] == p)
                if key == 'edge' and cfg.two and recorded_slip(S, ctx, got):
                    rec.finding('edge-based/interior/first-sub-triangle-dy-from-z', term_loc(S, ctx, M, k),
                                'a tilt of the plate is resisted by the interior edges')
                    return
                rec.bad('no resistance to rigid motions', c, term_loc(S, ctx, M, k),
                        'the %s produces a force on node %s dof %s: %s' % (
                            name, 'abcd'[p[0]], DOF[p[1]], al.poly_str(ctx.reduce(v))))
                return
    plate(rec, cfg, c, body)


def recorded_slip(S, ctx, got):
    """is this exactly the recorded interior-edge form (alpha = 0)?"""
    geo = specs.Geo(S)
    sh = specs.shear_edge(geo)
    first = ps.first_triangle(S)
    over = ps.interior_over(geo, S, first)
    refs = ps.deviant_refs(geo, S, first)
    for kind in ('interior', 'documented'):
        law = sh.law(ZERO, False, kind)
        if ps.same_terms(ctx, got, sh.lazy(refs, law, over)) is None:
            return True
    return False


# -- energy of constant strain states ---------------------------------------
def patch(rec, cfg):
    """a linear displacement field produces exactly the constant strains"""
    c = 'calc_k0'

    def body(S, ctx):
        M, got = keyed(rec, S, ctx, 'k0', c)
        if got is None:
            return
        geo = specs.Geo(S)
        X = S.coords
        N = range(len(S.nodes))
        e = [al.sym('eps%d' % i) for i in range(6)]
        disp = {}
        h = specs.C(1)/specs.C(2)
        for n in N:
            x, y = X[n][0] - X[0][0], X[n][1] - X[0][1]
            disp[n, 0] = e[0]*x + e[2]*h*y
            disp[n, 1] = e[1]*y + e[2]*h*x
            disp[n, 3] = e[3]*x + e[5]*h*y
            disp[n, 4] = e[4]*y + e[5]*h*x
        want = ZERO
        A, B, D = geo.blend('A'), geo.blend('B'), geo.blend('D')
        for i in range(3):
            for j in range(3):
                want = want + geo.Ac*(e[i]*e[j]*A[i, j] + specs.C(2)*e[i]*e[j+3]*B[i, j] + e[i+3]*e[j+3]*D[i, j])
        tot = ZERO
        for (p, q), v in got.items():
            if p in disp and q in disp:
                tot = tot + al.expand_defs(v)*disp[p]*disp[q]
        rec.check(eq(ctx, tot, want), 'energy of a constant strain state', c, term_loc(S, ctx, M, sorted(got)[0]) if got else None,
                  lambda: 'the energy of a linear displacement field differs from Ac e^T C e: %s' % al.poly_str(tot - want))
    plate(rec, cfg, c, body)


# -- uniform laminate: both ways of assigning agree --------------------------
def uniform(rec, arg):
    key, cfg = arg
    c = cname(key, cfg)

    def body(S, ctx):
        p = S.props[list(S.props)[0]]
        for o in list(S.props):
            S.props[o] = p
        for o in (S.nodes if S.cfg.by_node else S.trias):
            o.attrs['prop'] = p
        M, got = keyed(rec, S, ctx, key, c)
        if got is None:
            return
        S2 = w.plate_scene(ctx, cfg.but(by_node=not cfg.by_node))
        try:
            p2 = w.make_prop(S2, S.uniform_tag)
            for o in (S2.nodes if S2.cfg.by_node else S2.trias):
                o.attrs['prop'] = p2
            M2, got2 = keyed(rec, S2, ctx, key, c)
        finally:
            rec.absorb(S2.I)
        if got2 is None:
            return
        for k in sorted(set(got) | set(got2)):
            g, s = got.get(k, ZERO), got2.get(k, ZERO)
            if not rec.check(eq(ctx, g, s), 'node-wise and triangle-wise assignment agree', c, term_loc(S2, ctx, M2, k),
                             lambda: 'entry %s: %s with the laminate on the %s, %s with it on the %s' % (
                                 name_key(k), al.poly_str(g), 'nodes' if cfg.by_node else 'triangles', al.poly_str(s),
                                 'triangles' if cfg.by_node else 'nodes')):
                return

    def run(S, ctx):
        S.uniform_tag = '1'
        if S.cfg.by_node:
            S.uniform_tag = 'a'
        body(S, ctx)
    plate(rec, cfg, c, run)


# -- separation of the degrees of freedom ------------------------------------
ALLOWED = {'k0': lambda p, q: p != 2 and q != 2, 'kG': lambda p, q: p == 2 and q == 2}


def separation(rec, arg):
    key, cfg = arg
    c = cname(key, cfg)
    ok = ALLOWED.get(key, lambda p, q: p in (2, 3, 4) and q in (2, 3, 4))

    def body(S, ctx):
        if key == 'k0':
            for P in S.props.values():
                if S.sym_B:
                    P.attrs['B'][...] = ZERO
        M, got = keyed(rec, S, ctx, key, c)
        if got is None:
            return
        for k in sorted(got):
            p, q = k[0][1], k[1][1]
            fine = ok(p, q)
            if key == 'k0' and S.sym_B:
                fine = fine and (p < 2) == (q < 2)
            if fine:
                rec.ok('only the documented degrees of freedom are coupled', c)
                continue
            if not rec.check(eq(ctx, got[k], ZERO), 'only the documented degrees of freedom are coupled', c,
                             term_loc(S, ctx, M, k), lambda: 'entry %s couples %s and %s%s: %s' % (
                                 name_key(k), DOF[p], DOF[q], ' of a symmetric laminate' if S.sym_B else '',
                                 al.poly_str(got[k]))):
                return

    for sb in ((False, True) if key == 'k0' else (False,)):
        def run(S, ctx):
            S.sym_B = sb
            body(S, ctx)
        plate(rec, cfg, c, run)


# -- geometric stiffness -----------------------------------------------------
def kG_value(rec, cfg):
    c = 'calc_kG'

    def body(S, ctx):
        M, got = keyed(rec, S, ctx, 'kG', c)
        if got is None:
            return
        geo = specs.Geo(S)
        compare_terms(rec, S, ctx, M, got, specs.kG_spec(geo, disp_atom(S, ctx)), 'kG = Ac G^T N G', c)
        rec.check(shape_is(ctx, M, S), 'kG has five rows per node', c, None, lambda: 'shape is %s' % (M.shape,))
    plate(rec, cfg, c, body)


def kG_rows(rec, cfg):
    """a displacement vector with additional unknowns at its end"""
    c = 'calc_kG'

    def body(S, ctx):
        run_k0(S)
        d = S.d = AVec('d', S.n*specs.C(5) + specs.C(3))
        try:
            M = call_kG(S, d)
        except AbsRaise as e:
            rec.note('a displacement vector with additional unknowns ends in %s' % e.cls)
            return
        if not isinstance(M, AMat):
            raise Undecided('calc_kG returns %r' % (M,))
        rec.check(shape_is(ctx, M, S), 'kG has five rows per node', c, None, lambda: 'shape is %s for %s displacements' % (
            M.shape, d.length))
    plate(rec, cfg, c, body)


def shape_is(ctx, M, S):
    n5 = S.n*specs.C(5)
    return len(M.shape) == 2 and all(ctx.equal(al.lift(x), n5) for x in M.shape)


def kG_linear(rec, cfg):
    c = 'calc_kG'

    def body(S, ctx):
        M, got = keyed(rec, S, ctx, 'kG', c)
        if got is None:
            return
        D = displacement_at(S, ctx)
        # a case distinction on the displacements is harmless only where every
        # case is the same linear form
        atoms = set(w.only_atom(v) for v in D.values()) | set(al.NORMS)
        if any(isinstance(x, Poly) and atoms & set(al.expand_lets(al.expand_defs(x)).all_atoms())
               for key, v, text in ctx.trail for x in key) \
                or any(set(al.NORMS) & set(al.expand_lets(al.expand_defs(v)).all_atoms()) for v in got.values()):
            if not compare_terms(rec, S, ctx, M, got, specs.kG_spec(specs.Geo(S), disp_atom(S, ctx)),
                                 'kG is linear in the membrane displacements and rotations', c):
                return
        t, u = al.sym('t_scale'), al.sym('u_scale')
        mem = {w.only_atom(v): v*t for k, v in D.items() if k[1] != 2}
        both = dict(mem)
        for k, v in D.items():
            if k[1] == 2:
                both[w.only_atom(v)] = u
        for k in sorted(got):
            v = al.expand_defs(got[k])
            if al.has_lets(v):
                v = al.expand_lets(v)
            if not rec.check(eq(ctx, al.subst(v, mem), v*t), 'kG is linear in the membrane displacements and rotations', c,
                             term_loc(S, ctx, M, k),
                             lambda: 'entry %s is not proportional to the in-plane displacements and rotations' % name_key(k)):
                return
            if not rec.check(eq(ctx, al.subst(v, both), v*t), 'kG does not depend on the deflection', c,
                             term_loc(S, ctx, M, k), lambda: 'entry %s depends on the deflection' % name_key(k)):
                return
    plate(rec, cfg, c, body)


def kG_rigid(rec, cfg):
    """no membrane force under a rigid motion, so no geometric stiffness"""
    c = 'calc_kG'

    def body(S, ctx):
        M, got = keyed(rec, S, ctx, 'kG', c)
        if got is None:
            return
        D = displacement_at(S, ctx)
        a, b, th, wa = [al.sym(n) for n in ('ra', 'rb', 'rt', 'rw')]
        c3, c4, c5 = [al.sym(n) for n in ('rp', 'rq', 'rr')]
        X = S.coords
        m = {}
        for n in range(len(S.nodes)):
            x, y = X[n][0] - X[0][0], X[n][1] - X[0][1]
            for k, v in enumerate((a - th*y, b + th*x, wa, c3 - c5*y, c4 + c5*x)):
                m[w.only_atom(D[n, k])] = v
        for k in sorted(got):
            v = al.expand_defs(got[k])
            if al.has_lets(v):
                v = al.expand_lets(v)
            r = al.subst(v, m)
            if not rec.check(eq(ctx, r, ZERO), 'no geometric stiffness from a rigid motion', c, term_loc(S, ctx, M, k),
                             lambda: 'entry %s is %s under a rigid motion' % (name_key(k), al.poly_str(r))):
                return
        # a uniformly stretched plate carries the stress of its laminate
    plate(rec, cfg, c, body)


# -- dispatch ----------------------------------------------------------------
def dispatch(rec, arg):
    what, cfg = arg
    c = 'add_k0s'

    def run(S, ctx, f, args, kw):
        K = input_matrix(S)
        r = S.I.call(f, [K, S.mesh, cfg.by_node] + list(args), dict(kw))
        rec.check(r is K, 'the matrix passed in is returned', c, None, lambda: 'the call returns %r' % (r,))
        return K, matrix_terms(rec, S, ctx, K, c)

    def same(S, ctx, key, A, B, rule, text):
        (K, a), (K2, b) = A, B
        if a is None or b is None:
            return
        for k in sorted(set(a) | set(b)):
            if not rec.check(eq(ctx, a.get(k, ZERO), b.get(k, ZERO)), rule, c, term_loc(S, ctx, K, k) or term_loc(S, ctx, K2, k),
                             lambda: '%s: entry %s differs' % (text, name_key(k))):
                return

    def body(S, ctx):
        run_k0(S)
        disp = fun(S, 'disp')
        al8 = al.lift(2)/al.lift(25)
        if what == 'invalid':
            for bad in ('edge', 'Cell-based', '', 'cell-based-no-smoothing-', None):
                K = input_matrix(S)
                n = len(K.writes)
                try:
                    S.I.call(disp, [K, S.mesh, cfg.by_node], dict(method=bad))
                    rec.bad('unknown methods are rejected', c, S.I.loc, 'method %r is accepted' % (bad,))
                except AbsRaise as e:
                    rec.check(e.cls == 'ValueError', 'unknown methods are rejected', c, e.loc,
                              'method %r raises %s instead of ValueError' % (bad, e.cls))
                rec.check(not K.writes and not K.opaque, 'nothing is added before an unknown method is rejected', c,
                          K.writes[0][4] if K.writes else None, 'method %r: the matrix was modified' % (bad,))
            return
        if what == 'defaults':
            A = run(S, ctx, disp, [], {})
            B = run(S, ctx, fun(S, 'cell'), [], dict(alpha=al8, maxl_from_area=False))
            same(S, ctx, 'cell', A, B, 'defaults: cell-based, alpha 0.08, longest edge',
                 'the default call differs from the cell-based method with alpha = 0.08 and the longest edge')
            return
        key = what
        f = fun(S, key)
        alpha = al.sym('alpha', True)
        for fa in (False, True):
            A = run(S, ctx, disp, [METHODS[key], alpha, fa], {})
            B = run(S, ctx, f, [], dict(alpha=alpha, maxl_from_area=fa))
            same(S, ctx, key, A, B, 'the selected method is the one applied',
                 'method %r with positional arguments differs from the direct call' % METHODS[key])
        A = run(S, ctx, disp, [], dict(method=METHODS[key], alpha=ZERO))
        B = run(S, ctx, f, [], dict(alpha=ZERO, maxl_from_area=False))
        same(S, ctx, key, A, B, 'the selected method is the one applied', 'alpha = 0 is not passed on to method %r' % METHODS[key])
        A = run(S, ctx, disp, [], dict(method=METHODS[key]))
        B = run(S, ctx, f, [], dict(alpha=al8, maxl_from_area=False))
        same(S, ctx, key, A, B, 'default constants agree', 'the defaults of method %r differ from 0.08 and the longest edge' % METHODS[key])
    plate(rec, cfg, c, body)


# -- additive, in place, mesh untouched --------------------------------------
def snap(v, depth=0):
    if isinstance(v, np.ndarray):
        return ('arr', v.shape, tuple(al.lift(x) if not isinstance(x, (str, type(None), AObj)) else x for x in v.flat))
    if isinstance(v, AList):
        return ('list', tuple(snap(w.strip(x), depth + 1) for x in v.items))
    if isinstance(v, ASet):
        return ('set', tuple(sorted((skey(w.strip(x)) for x in v.items), key=str)))
    if isinstance(v, ADict):
        return ('dict', tuple((skey(k), skey(w.strip(x))) for k, x in zip(v.keys, v.vals)))
    if isinstance(v, tuple):
        return ('tuple', tuple(snap(x, depth + 1) for x in v))
    if isinstance(v, (Poly, bool, int)):
        return ('num', al.lift(v) if not isinstance(v, bool) else v)
    return ('ref', skey(v))


def skey(v):
    if isinstance(v, (Poly, int, bool, str)) or v is None:
        return str(v) if not isinstance(v, Poly) else v.key() if hasattr(v, 'key') else al.poly_str(v, 50)
    if isinstance(v, tuple):
        return tuple(skey(x) for x in v)
    return id(v)


def same_snap(ctx, a, b):
    if a[0] != b[0]:
        return False
    if a[0] == 'num':
        if isinstance(a[1], bool) or isinstance(b[1], bool):
            return a[1] is b[1]
        return ctx.equal(a[1], b[1])
    if a[0] == 'arr':
        return a[1] == b[1] and all(x is y or (isinstance(x, Poly) and isinstance(y, Poly) and ctx.equal(x, y))
                                    or x == y for x, y in zip(a[2], b[2]))
    if a[0] in ('list', 'tuple'):
        return len(a[1]) == len(b[1]) and all(same_snap(ctx, x, y) for x, y in zip(a[1], b[1]))
    return a[1] == b[1]


def snapshot(S, ipts=True):
    objs = [('mesh', S.mesh)] + [(o.name, o) for o in S.nodes]
    objs += [(o.name, o) for o in S.trias]
    for k, e in enumerate(S.all_edges):
        objs.append((e.name or 'edge%d' % k, e))
        if ipts:
            for i, p in enumerate(en_items(e.attrs.get('ipts'))):
                if isinstance(p, AObj):
                    objs.append(('integration point %d of %s' % (i + 1, e.name), p))
    objs += [('property ' + k, p) for k, p in list(S.props.items()) + list(S.others.items())]
    out = {}
    for nm, o in objs:
        for a, v in o.attrs.items():
            out[nm, a] = snap(v)
    return out


def en_items(v):
    if isinstance(v, AList):
        return [w.strip(x) for x in v.items]
    if isinstance(v, (tuple, list)):
        return list(v)
    return []


def compare_snap(rec, S, ctx, before, after, rule, construct, allow=(), new=None):
    good = True
    for k in before:
        if k[1] in allow:
            continue
        if k not in after:
            rec.bad(rule, construct, write_of(S, k), 'attribute %s of %s is removed' % (k[1], k[0]))
            good = False
        elif not same_snap(ctx, before[k], after[k]):
            rec.bad(rule, construct, write_of(S, k), '%s of %s is changed' % (k[1], k[0]))
            good = False
    if new is not None:
        for k in after:
            if k not in before and k[1] not in new:
                rec.bad(rule, construct, write_of(S, k), 'attribute %s of %s is added' % (k[1], k[0]))
                good = False
    if good:
        rec.ok(rule, construct, len(before))


def write_of(S, k):
    for e in S.I.effects:
        if e.kind == 'attr' and e.attr == k[1] and getattr(e.obj, 'name', None) == k[0]:
            return e.loc
        if e.kind == 'mutate-input':
            return e.loc
    return None


def inplace(rec, arg):
    key, cfg = arg
    cfg = cfg.but(unsym=True)    # symmetrising a laminate matrix is a change
    c = cname(key, cfg)

    def body(S, ctx):
        if key == 'k0':
            before = snapshot(S)
            run_k0(S)
            compare_snap(rec, S, ctx, before, snapshot(S), 'coordinates, connectivity and properties are kept', c,
                         allow=('index', 'othernode1', 'othernode2', 'sdomain', 'Ac', 'ipts'))
            return
        run_k0(S)
        before = snapshot(S)
        since = len(S.I.effects)
        if key == 'kG':
            d = S.d = AVec('d', S.n*specs.C(5))
            K = call_kG(S, d)
            for e in S.I.effects[since:]:
                if e.kind == 'mutate-input' and e.what == 'd':
                    rec.bad('the displacements are kept', c, e.loc, 'the displacement vector is modified')
            rec.ok('the displacements are kept', c)
            rec.check(isinstance(K, AMat) and K.initial == 'zero' or K.opaque is not None, 'a new matrix is returned', c, None,
                      'calc_kG returns %r' % (K,))
        else:
            K = input_matrix(S)
            r = call_shear(S, key, K, al.sym('alpha', True), False)
            rec.check(r is K, 'the matrix passed in is returned', c, None, lambda: 'the call returns %r' % (r,))
            for e in S.I.effects[since:]:
                if e.kind == 'matrix-whole-write' and e.mat is K and e.op not in ('Add', 'Sub'):
                    rec.bad('existing content is kept', c, e.loc, 'the whole matrix is subject to %s' % e.op)
                    return
            if K.opaque:
                raise Undecided(K.opaque)
            n = 0
            for op, rr, cc, v, loc, loops in K.writes:
                n += 1
                rec.check(op in ('Add', 'Sub'), 'existing content is kept', c, loc,
                          lambda: 'an entry of the matrix passed in is overwritten (%s)' % op)
        compare_snap(rec, S, ctx, before, snapshot(S), 'the mesh is left unchanged', c, new=())
    plate(rec, cfg, c, body)


# -- independence of order and numbering -------------------------------------
def numbering(rec, arg):
    key, cfg, cfg2 = arg
    c = cname(key, cfg)

    def body(S, ctx):
        M, got = keyed(rec, S, ctx, key, c)
        if got is None:
            return
        got = canon_disp(S, ctx, got) if key == 'kG' else got
        other = {}

        def run2(ctx2):
            S2 = w.plate_scene(ctx2, cfg2)
            try:
                M2, g2 = keyed(rec, S2, ctx2, key, c)
                if g2 is not None and key == 'kG':
                    g2 = canon_disp(S2, ctx2, g2)
            finally:
                rec.absorb(S2.I)
            if g2 is None:
                return None
            for k in sorted(set(got) | set(g2)):
                g, s = got.get(k, ZERO), g2.get(k, ZERO)
                if not rec.check(ctx2.equal(g, s), 'entries do not depend on order or numbering', c,
                                 term_loc(S2, ctx2, M2, k),
                                 lambda: 'entry %s changes when the mesh is presented as [%s]: %s / %s' % (
                                     name_key(k), cfg2, al.poly_str(g), al.poly_str(s))):
                    return None
            return True
        for _ in en.explore(lambda forced: w.make_ctx(cfg2, forced), run2, keep=True):
            pass
    plate(rec, cfg, c, body)


def canon_disp(S, ctx, got, dof_map=None):
    D = displacement_at(S, ctx)
    m = {}
    for (n, i), v in D.items():
        T = dof_map[i] if dof_map else {i: ONE}
        m[w.only_atom(v)] = sum((f*al.sym('dd(%d,%d)' % (n, j)) for j, f in T.items()), ZERO)
    out = {}
    for k, v in got.items():
        v = al.expand_defs(v)
        if al.has_lets(v):
            v = al.expand_lets(v)
        out[k] = al.subst(v, m)
    return out


# -- other frames and units ----------------------------------------------------
def dof_map(place, key):
    """new degree of freedom -> the old ones it consists of"""
    out = {i: {i: ONE} for i in range(5)}
    if place in w.PLANE:
        R = [[specs.C(e) for e in row] for row in w.PLANE[place]]
        for o in (0, 3):
            for i in range(2):
                out[o + i] = {o + j: R[i][j] for j in range(2) if not R[i][j].is_zero()}
    elif place == 'in another unit of length':
        f = al.sym('unit', True)
        if key == 'kG':
            out = {i: {i: f} for i in range(5)}
        elif key != 'k0':
            out.update({i: {i: f} for i in (3, 4)})
    return out


def frame(rec, arg):
    """the same plate elsewhere, turned, mirrored or in other units"""
    key, cfg, place = arg
    c = cname(key, cfg)
    special = key == 'edge' and cfg.two
    kw = {'alpha': ZERO} if special else {}
    rule = 'matrices follow a change of frame or units'

    def body(S, ctx):
        M, got = keyed(rec, S, ctx, key, c, **kw)
        if got is None:
            return
        base = canon_disp(S, ctx, got) if key == 'kG' else {k: al.expand_defs(v) for k, v in got.items()}
        T = dof_map(place, key)
        want = {}
        if place == 'in another unit of force':
            base = {k: v*al.sym('unit', True) for k, v in base.items()}
        if key == 'kG':
            want = base
        else:
            nodes = range(len(S.nodes))
            for n in nodes:
                for m in nodes:
                    for i in range(5):
                        for j in range(5):
                            v = ZERO
                            for i2, f in T[i].items():
                                for j2, g in T[j].items():
                                    b = base.get(((n, i2), (m, j2)))
                                    if b is not None:
                                        v = v + f*g*b
                            if v.t:
                                want[(n, i), (m, j)] = v

        def run2(ctx2):
            S2 = w.plate_scene(ctx2, cfg.but(place=place))
            try:
                M2, g2 = keyed(rec, S2, ctx2, key, c, **kw)
                if g2 is not None and key == 'kG':
                    g2 = canon_disp(S2, ctx2, g2, T)
            finally:
                rec.absorb(S2.I)
            if g2 is None:
                return None
            for k in sorted(set(want) | set(g2)):
                g, s = want.get(k, ZERO), g2.get(k, ZERO)
                if ctx2.equal(g, s):
                    rec.ok(rule, c)
                    continue
                if special and recorded_slip(S, ctx, got):
                    rec.finding('edge-based/interior/first-sub-triangle-dy-from-z', term_loc(S, ctx, M, sorted(got)[0]),
                                'the shear of interior edges changes when the plate is %s' % place)
                    return None
                rec.bad(rule, c, term_loc(S2, ctx2, M2, k), 'entry %s of the plate %s: %s, it has to be %s' % (
                    name_key(k), place, al.poly_str(s), al.poly_str(g)))
                return None
            return True
        for _ in en.explore(lambda forced: w.make_ctx(cfg, forced), run2, keep=True):
            pass
    plate(rec, cfg, c, body)


# -- missing properties ------------------------------------------------------
def neighbour(S):
    t = AObj(S.T1.cls, 'tria_n', True)
    t.attrs.update(S.T1.attrs)
    t.attrs['prop'] = Opaque(('property of a neighbour',), 'obj')
    t.methods.update(S.T1.methods)
    t.getattr_hook = getattr(S.T1, 'getattr_hook', None)
    return t


def free_node(S):
    """a node that belongs to no triangle, as read by the reader at hand"""
    I, M = S.I, S.M
    k = len(S.nodes)
    nid = al.sym('nid(%d)' % k, True)
    o = AObj(S.nodes[0].cls, 'a node of no triangle', True)
    o.attrs.update(S.nodes[0].attrs)
    o.methods.update(S.nodes[0].methods)
    o.attrs.update(nid=nid, xyz=en.objarray([al.sym('xf'), al.sym('yf'), al.sym('z0')], (3,)), index=ASet(None, ()),
                   trias=ASet(None, ()), edges=ASet(None, ()), prop=None)
    d = S.mesh.attrs['nodes']
    coll = 'points' if S.cfg.reader == 'delaunay' else 'grids'
    pos = al.sym('pos(%s,%d)' % (coll, k))
    i = w.only_atom(pos)
    S.ctx.ranks[i] = (coll, k)
    S.ctx.lower[i] = k
    i = w.only_atom(nid)
    S.ctx.ranks[i] = ('nid', k)
    S.ctx.lower[i] = 1 + k
    d.keys.append(nid)
    d.vals.append(o)
    d.sym = SymColl('nodes', d.keys, list(d.sym.pos) + [pos], d.length)
    return o


def earlier(S):
    """the mesh carries the results of an earlier analysis"""
    for k, n in enumerate(S.nodes):
        n.attrs['index'] = al.sym('earlier index %d' % k)
    for k, e in enumerate(S.all_edges):
        e.attrs['Ac'] = al.sym('earlier area %d' % k, True)
        e.attrs['othernode1'] = S.nodes[k % 3]
        e.attrs['sdomain'] = en.objarray([al.sym('earlier point %d %d' % (k, i)) for i in range(9)], (3, 3))
        p = [AObj(en.ExtClass('IntegrationPoint'), 'earlier point', True) for _ in range(3)]
        l = S.I.new_list(p)
        l.birth = ()
        e.attrs['ipts'] = l


def missing(rec, arg):
    which, cfg = arg
    c = 'calc_k0'

    def body(S, ctx):
        o = S.nodes['abcd'.index(which)] if cfg.by_node else [S.T1, S.T2]['12'.index(which[0])]
        o.attrs['prop'] = None
        if which[1:] == 'n':
            # every edge of the triangle lists another triangle first
            for e in S.all_edges:
                ts = e.attrs['trias'].items
                if ts == [o]:
                    ts.insert(0, neighbour(S))
                elif ts[0] is o:
                    ts.reverse()
        if getattr(cfg, 'again', False):
            earlier(S)
        before = {id(n): n.attrs.get('index') for n in S.nodes}
        snap0 = snapshot(S)
        try:
            K = run_k0(S)
        except AbsRaise as e:
            rec.check(e.cls == 'ValueError', 'a missing property is reported', c, e.loc,
                      '%s raised instead of ValueError: %s' % (e.cls, e.value))
            compare_snap(rec, S, ctx, snap0, snapshot(S), 'nothing is changed when a property is missing', c,
                         allow=('index',), new=('index',))
            for n in S.nodes:
                rec.check(n.attrs.get('index') is before[id(n)] or isinstance(n.attrs.get('index'), ASet),
                          'nothing is numbered when a property is missing', c, e.loc,
                          'the nodes are numbered before the missing property is reported')
            return
        rec.bad('a missing property is reported', c, S.I.loc,
                'a matrix is returned although the %s %s has no property' % ('node' if cfg.by_node else 'triangle', which))
    plate(rec, cfg, c, body)


# -- edges shared by three triangles -----------------------------------------
def three(rec, arg):
    key, cfg = arg
    c = cname(key, cfg)

    def body(S, ctx):
        if key != 'k0':
            run_k0(S)
        e = S.edge
        t = AObj(S.T1.cls, 'tria_3', True)
        t.attrs.update(S.T1.attrs)
        t.methods.update(S.T1.methods)
        t.getattr_hook = getattr(S.T1, 'getattr_hook', None)
        e.attrs['trias'].items.append(t)
        try:
            if key == 'k0':
                run_k0(S)
            elif key == 'kG':
                call_kG(S)
            else:
                K = input_matrix(S)
                call_shear(S, key, K, al.sym('alpha', True), False)
        except AbsRaise as ex:
            rec.check(ex.cls in ('NotImplementedError', 'RuntimeError', 'ValueError', 'AssertionError'),
                      'edges of three triangles are rejected', c, ex.loc, '%s is raised: %s' % (ex.cls, ex.value))
            return
        rec.bad('edges of three triangles are rejected', c, S.I.loc,
                'an edge with three triangles is assembled')
    plate(rec, cfg, c, body)


# -- smoothing domains -------------------------------------------------------
def smoothing(rec, cfg):
    c = 'calc_k0'

    def body(S, ctx):
        run_k0(S)
        geo = specs.Geo(S)
        e = S.edge
        A = e.attrs
        loc = None
        for ef in S.I.effects:
            if ef.kind == 'attr' and ef.attr == 'ipts':
                loc = ef.loc

        def num(v):
            if not isinstance(v, (Poly, int, bool)):
                raise Undecided('unexpected value %r of a smoothing domain' % (v,))
            return al.expand_defs(al.lift(v))
        rec.check(eq(ctx, num(A['Ac']), geo.Ac), 'area of the smoothing domain', c, loc,
                  lambda: 'Ac is %s, required %s' % (al.poly_str(num(A['Ac'])), al.poly_str(geo.Ac)))
        # opposite nodes belong to the triangles in the order of edge.trias
        tr = en_items(A['trias'])
        for k, nm in enumerate(('othernode1', 'othernode2')):
            want = None
            if k < len(tr):
                want = S.nodes[2] if tr[k] is S.T1 else S.nodes[3]
            rec.check(w.strip(A.get(nm)) is want, 'opposite node of each triangle', c, loc,
                      lambda: '%s is %r' % (nm, A.get(nm)))
        sg = ONE if cfg.orient == '+' else -ONE
        third, half, sixth = specs.C(1)/specs.C(3), specs.C(1)/specs.C(2), specs.C(1)/specs.C(6)
        two3 = specs.C(2)/specs.C(3)
        want = []
        for t, (i, j, k) in enumerate(geo.tri):
            m = geo.mid(t)
            T = [S.T1, S.T2][t]
            want.append((T, {i: sixth, j: two3, k: sixth}, geo.X[j], m))
            want.append((T, {i: two3, j: sixth, k: sixth}, m, geo.X[i]))
            if geo.n == 3:
                want.append((T, {i: half, j: half}, geo.X[i], geo.X[j]))
        ip = en_items(A['ipts'])
        rec.check(len(ip) == len(want), 'one integration point per boundary segment', c, loc,
                  lambda: '%d integration points, %d segments' % (len(ip), len(want)))
        left = list(want)
        for p in ip:
            f = {}
            for a, b in (('n1', 'f1'), ('n2', 'f2'), ('n3', 'f3')):
                nd = w.strip(p.attrs[a])
                if nd not in S.nodes:
                    rec.bad('one integration point per boundary segment', c, loc, 'integration point with a foreign node')
                    return
                n = S.nodes.index(nd)
                f[n] = f.get(n, ZERO) + num(p.attrs[b])
            f = {k: v for k, v in f.items() if v.t}
            hit = None
            for s in left:
                if set(s[1]) == set(f) and all(ctx.equal(f[k], s[1][k]) for k in f) and \
                        (geo.n == 3 or w.strip(p.attrs['tria']) is s[0]):
                    hit = s
                    break
            if hit is None:
                rec.bad('one integration point per boundary segment', c, loc,
                        'integration point with shape function values %s does not belong to a boundary segment of the domain'
                        % {'abcd'[k]: str(v) for k, v in f.items()})
                return
            left.remove(hit)
            rec.ok('one integration point per boundary segment', c)
            T, fw_, P, Q = hit
            rec.check(w.strip(p.attrs['tria']) is T, 'triangle of the integration point', c, loc, 'wrong triangle')
            xyz = p.attrs['xyz']
            for k in range(3):
                rec.check(eq(ctx, al.expand_defs(al.lift(xyz[k])), sum((v*geo.X[n][k] for n, v in f.items()), ZERO)),
                          'integration point at the middle of its segment', c, loc, lambda: 'coordinate %d differs' % k)
            dx, dy = (Q[0] - P[0])*sg, (Q[1] - P[1])*sg
            le = num(p.attrs['le'])
            for nm, wv in (('nx', dy), ('ny', -dx), ('nz', ZERO)):
                g = num(p.attrs[nm])*le
                rec.check(eq(ctx, g, wv), 'outward normal times length', c, loc,
                          lambda: '%s times length is %s, required %s' % (nm, al.poly_str(g), al.poly_str(wv)))
            rec.check(eq(ctx, le*le, dx*dx + dy*dy), 'length of the segment', c, loc,
                      lambda: 'length squared is %s' % al.poly_str(le*le))
        # polygon
        sd = A['sdomain']
        if isinstance(sd, AList):
            sd = en_items(sd)
        if isinstance(sd, (np.ndarray, list)):
            pts = [[al.lift(r[k]) for k in range(3)] for r in sd]
            ring = [geo.X[0], geo.mid(0), geo.X[1]] + ([geo.mid(1)] if geo.n == 4 else [])

            def ident(p):
                for n, q in enumerate(ring):
                    if all(ctx.equal(p[k], q[k]) for k in range(3)):
                        return n
                return None
            ids = [ident(p) for p in pts]
            if len(ids) > 1 and ids[0] == ids[-1]:
                ids = ids[:-1]
            n = len(ring)
            good = None not in ids and len(ids) == n and len(set(ids)) == n and \
                len(set((ids[(i + 1) % n] - ids[i]) % n for i in range(n))) == 1 and (ids[1] - ids[0]) % n in (1, n - 1)
            rec.check(good, 'polygon of the smoothing domain', c, loc,
                      lambda: 'the stored polygon runs through %s' % ids)
        else:
            raise Undecided('sdomain is %r' % (sd,))
    plate(rec, cfg, c, body)


# -- node numbering ----------------------------------------------------------
def bijection(rec, cfg):
    c = 'calc_k0'
    names = ['a', 'b', 'c', 'd'][:4 if cfg.two else 3] + ['outside the triangles']

    def body(S, ctx):
        S.free = free_node(S) if cfg.by_node == cfg.two else None
        if getattr(cfg, 'again', False):
            earlier(S)
        K = run_k0(S)
        loc = None
        for ef in S.I.effects:
            if ef.kind == 'attr' and ef.attr == 'index':
                loc = ef.loc
            if ef.kind == 'partial-domain':
                rec.bad('every node is numbered once', c, ef.loc, 'the loop skips members: %s' % ef.why)
            if ef.kind == 'early-exit' and ef.effects:
                rec.bad('every node is numbered once', c, ef.loc, 'the loop over the nodes is left early')
        idx = []
        for n in S.nodes + ([S.free] if S.free is not None else []):
            v = n.attrs.get('index')
            if not isinstance(v, (Poly, int)):
                rec.bad('every node is numbered once', c, loc, 'index of %s is %r' % (n.name, v))
                return
            idx.append(ctx.reduce(al.expand_defs(al.lift(v))))
        kind = set()
        for k, p in enumerate(idx):
            pa = [(m, cf) for m, cf in p.t.items() if m and len(m) == 1 and m[0][1] == 1 and al.pos_name(m[0][0])]
            fine = False
            if len(pa) == 1:
                m, cf = pa[0]
                coll = al.pos_name(m[0][0])[4:]
                rest = p - Poly.of_atom(al.atom(m[0][0]))*specs.C(cf)
                length = al.LENGTHS.get(coll)
                whole = length is not None and ctx.equal(al.lift(length), S.n)
                if cf == 1 and not rest.t and whole:
                    fine = True
                    kind.add(('up', coll))
                elif cf == -1 and whole and ctx.equal(rest, S.n - ONE):
                    fine = True
                    kind.add(('down', coll))
            if not rec.check(fine, 'every node is numbered once', c, loc,
                             lambda: 'index of node %s is %s, not a numbering 0..n-1' % (names[k], al.poly_str(p))):
                return
        rec.check(len(kind) == 1, 'every node is numbered once', c, loc, lambda: 'different numberings are mixed: %s' % kind)
        for i in range(len(idx)):
            for j in range(i):
                d = idx[i] - idx[j]
                rec.check(bool(d.t) and not ctx.equal(d, ZERO), 'different nodes get different rows', c, loc,
                          lambda: 'nodes %s and %s share the index %s' % (names[i], names[j], al.poly_str(idx[i])))
        rec.check(shape_is(ctx, K, S), 'the matrix has five rows per node', c, None, lambda: 'shape is %s' % (K.shape,))
        got = matrix_terms(rec, S, ctx, K, c)
        if got is not None:
            rec.ok('entries addressed through the node numbering', c, max(1, len(got)))
    plate(rec, cfg, c, body)


# -- pipeline ----------------------------------------------------------------
def pipeline(rec, cfg):
    """both readers feed every function"""
    c = 'reader ' + cfg.reader

    def body(S, ctx):
        K = run_k0(S)
        rec.ok('completes without raising', 'calc_k0')
        for key in ('cell', 'nosmooth', 'edge'):
            for fa in (False, True):
                S.I.call(fun(S, 'disp'), [K, S.mesh, cfg.by_node], dict(method=METHODS[key], maxl_from_area=fa))
                rec.ok('completes without raising', NAMES[key])
        got = matrix_terms(rec, S, ctx, K, 'stiffness with shear')
        if got is not None:
            rec.ok('entries addressed through the node numbering', 'stiffness with shear', len(got))
        G = call_kG(S)
        rec.ok('completes without raising', 'calc_kG')
        got = matrix_terms(rec, S, ctx, G, 'calc_kG')
        if got is not None:
            rec.ok('entries addressed through the node numbering', 'calc_kG', len(got))
    plate(rec, cfg, c, body)


# -- repeated analysis --------------------------------------------------------
def repeated(rec, arg):
    """a mesh whose coordinates and laminates changed since an earlier analysis
    gives what a fresh mesh gives"""
    key, cfg, in_place = arg
    in_place = in_place == 'in place'
    c = cname(key, cfg)

    def body(S, ctx):
        M, got = keyed(rec, S, ctx, key, c)
        if got is None:
            return
        S2 = w.plate_scene(ctx, cfg)
        try:
            # the earlier state: another size, place and laminate
            two, sx, sy = specs.C(2), al.sym('shift_x'), al.sym('shift_y')
            now = [o.attrs['xyz'].copy() if in_place else o.attrs['xyz'] for o in S2.nodes]
            for k, o in enumerate(S2.nodes):
                X = S2.coords[k]
                old = w.mm.vec(two*X[0] + sx, two*X[1] + sy, X[2] + sx)
                if in_place:
                    o.attrs['xyz'][...] = old
                else:
                    o.attrs['xyz'] = old
            carriers = [(o, t) for o, t in (zip(S2.nodes, 'abcd') if cfg.by_node else zip([S2.T1, S2.T2], '12')) if o is not None]
            for o, t in carriers:
                o.attrs['prop'] = w.make_prop(S2, 'old' + t)
            d = S2.dvec = AVec('d_old', S2.n*specs.C(5))
            K = matrix_of(S2, ctx, key)
            G = call_kG(S2, d)
            # the present state
            for k, o in enumerate(S2.nodes):
                if in_place:
                    o.attrs['xyz'][...] = now[k]
                else:
                    o.attrs['xyz'] = now[k]
            for o, t in carriers:
                if in_place:
                    for n, v in S2.props[t].attrs.items():
                        if isinstance(v, np.ndarray):
                            o.attrs['prop'].attrs[n][...] = v
                        else:
                            o.attrs['prop'].attrs[n] = v
                else:
                    o.attrs['prop'] = S2.props[t]
            if in_place:
                d.name = 'd'
                d.length = S2.n*specs.C(5)
            else:
                S2.dvec = None
            M2, got2 = keyed(rec, S2, ctx, key, c)
        finally:
            rec.absorb(S2.I)
        if got2 is None:
            return
        for k in sorted(set(got) | set(got2)):
            g, s = got.get(k, ZERO), got2.get(k, ZERO)
            if not rec.check(eq(ctx, g, s), 'a repeated analysis uses the present data', c, term_loc(S2, ctx, M2, k),
                             lambda: 'entry %s: %s on a fresh mesh, %s after an earlier analysis' % (
                                 name_key(k), al.poly_str(g), al.poly_str(s))):
                return
    plate(rec, cfg, c, body)
