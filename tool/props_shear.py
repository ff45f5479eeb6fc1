"""Properties of the transverse shear stiffness."""
from itertools import product

import algebra as al
from algebra import Poly, ZERO, ONE
import engine as en
from engine import AbsRaise, Undecided, AMat, AList
import framework as fw
import specs
import world as w
from props_k0 import (FUN, PERM3, PERM4, plate, fun, run_k0, matrix_terms, label_key, compare_terms, loops_ok,
                      cfgs_edge, term_loc, name_key)

METHODS = {'cell': 'cell-based', 'nosmooth': 'cell-based-no-smoothing', 'edge': 'edge-based'}


def input_matrix(S):
    n5 = S.n*specs.C(5)
    return AMat('the stiffness matrix passed in', (n5, n5), 'input')


def call_shear(S, key, K, alpha, from_area, method=None):
    return S.I.call(fun(S, 'disp'), [K, S.mesh, S.cfg.by_node],
                    dict(method=method or METHODS[key], alpha=alpha, maxl_from_area=from_area))


def candidates(S, geo, key):
    """Admissible forms: (name, Shear, reference choices)"""
    if key == 'edge':
        sh = specs.shear_edge(geo)
        refs = [(0, 1), (0, 2), (0, 0), (1, 0), (2, 0)] + [r for r in product(range(3), repeat=2) if 0 not in r] \
            if geo.n == 4 else [(0,), (1,), (2,)]
        return sh, refs
    sh = specs.shear_triangle(geo, 0, key == 'cell')
    if key == 'cell':
        return sh, [(0, 0, 0)]
    return sh, [(0,), (1,), (2,)]


def same_terms(ctx, got, cand):
    """first entry where the matrix differs from the candidate form, or None"""
    keys, entry = cand
    ks = set(got) | set((p, q) for p in keys for q in keys)

    def order(k):
        (p, q) = k
        return (not (p == q), p[1] != 2 or q[1] != 2, k)
    for k in sorted(ks, key=order):
        g = got.get(k, ZERO)
        if not ctx.equal(g, entry(*k)):
            return k
    return None


def shear_body(key, mode):
    """mode 'form': alpha = 0;  'law': alpha > 0, both measures of length"""
    def body_for(rec, from_area):
        def body(S, ctx):
            construct = METHODS[key] + (' (boundary edge)' if key == 'edge' and not S.cfg.two else
                                        ' (interior edge)' if key == 'edge' else '')
            run_k0(S)
            K = input_matrix(S)
            alpha = ZERO if mode == 'form' else al.sym('alpha', True)
            since = len(S.I.effects)
            call_shear(S, key, K, alpha, from_area)
            loops_ok(rec, S.I, construct, since)
            got = matrix_terms(rec, S, ctx, K, construct)
            if got is None:
                return
            geo = specs.Geo(S)
            if key != 'edge' and not got:
                rec.bad('K = A Bs^T Es Bs', construct, None, 'no shear stiffness is added')
                return
            sh, refs = candidates(S, geo, key)
            rule = 'K = A Bs^T Es Bs (discrete shear gap)' if mode == 'form' else 'shear law with length correction'
            law = sh.law(alpha, from_area)
            miss = None
            for r in refs:
                cand = sh.lazy(r, law)
                k = same_terms(ctx, got, cand)
                if k is None:
                    rec.ok(rule, construct, max(1, len(got)))
                    return
                if miss is None:
                    miss = (k, cand[1](*k))
            if key == 'edge' and S.cfg.two:
                # recorded deviations of the interior edge, recognised exactly
                dlaw = sh.law(alpha, from_area, 'interior')
                first = first_triangle(S)
                over = interior_over(geo, S, first)
                for lname, l in (('', law), ('law', dlaw)):
                    for oname, o in (('', None), ('slip', over)):
                        if not lname and not oname:
                            continue
                        for r in refs[:2] if o is None else [deviant_refs(geo, S, first)]:
                            if same_terms(ctx, got, sh.lazy(r, l, o)) is None:
                                loc = term_loc(S, ctx, K, sorted(got)[0])
                                if oname:
                                    rec.finding('edge-based/interior/first-sub-triangle-dy-from-z', loc,
                                                'the y-difference of the first node of the first sub-triangle is taken from z')
                                if lname:
                                    rec.finding('edge-based/interior/shear-law-differs', loc,
                                                'E44 uses k13, E55 uses k23 and a coupling term min(k13,k23) E45 is kept, '
                                                'unlike the boundary edges and the other methods')
                                rec.ok(rule + ' up to the recorded finding', construct, max(1, len(got)))
                                return
            k, want = miss
            rec.bad(rule, construct, term_loc(S, ctx, K, k), 'entry %s is %s; for the documented formulation it is %s'
                    % (name_key(k), al.poly_str(ctx.reduce(got.get(k, ZERO))), al.poly_str(ctx.reduce(want))))
        return body
    return body_for


def first_triangle(S):
    t = [w.strip(x) for x in S.edge.attrs['trias'].items]
    return 0 if t[0] is S.T1 else 1


def oriented(geo, S, first):
    """(n1, n2) such that the first triangle is on the left of n1 -> n2"""
    i, j, k = geo.tri[first]
    # geo.tri lists triangle 0 as (a,b,c), triangle 1 as (b,a,d): both have the sign cfg.orient
    return (i, j) if S.cfg.orient == '+' else (j, i)


def deviant_refs(geo, S, first):
    """reference vertices in the analysed tree: centroid of the first triangle,
    first node in the second"""
    n1, n2 = oriented(geo, S, first)
    r = [0, 0]
    i, j, k = geo.tri[1 - first]
    r[1 - first] = 1 if i == n1 else 2
    return tuple(r)


def interior_over(geo, S, first):
    n1, n2 = oriented(geo, S, first)
    bad = geo.X[0][2] - geo.mid(first)[1]
    i, j, k = geo.tri[first]

    def over(a, b, c, d):
        # (a, b) belongs to vertex i, (c, d) to vertex j
        return (a, bad, c, d) if i == n1 else (a, b, c, bad)
    return {first: over}


def tria_cfgs(tier, by=(False, True), nq=6):
    out = []
    for by_node in by:
        for i, (o, p1) in enumerate([(o, p) for o in PERM3 for p in PERM3]):
            if tier != 'thorough' and i % (36//nq) != (i // (36//nq)) % 3:
                continue
            out.append(w.Cfg(two=False, perm1=p1, order=o, orient='+-'[(i + i//6) % 2], by_node=by_node,
                             rev=i % 4 == 1, focus='tria'))
    return out


def shear_task(rec, arg):
    key, mode, from_area, cfg = arg
    plate(rec, cfg, METHODS[key], shear_body(key, mode)(rec, from_area))
