"""Properties of the constitutive stiffness and of the smoothing domains."""
from itertools import permutations

import algebra as al
from algebra import Poly, ZERO, ONE
import engine as en
from engine import AbsRaise, Undecided, AMat, AList, MatDer
import framework as fw
import specs
import world as w

ESPIM = 'meshless.espim.'
FUN = {
    'k0': (ESPIM + 'plate2d_calc_k0', 'calc_k0'),
    'kG': (ESPIM + 'plate2d_calc_kG', 'calc_kG'),
    'cell': (ESPIM + 'plate2d_add_k0s_cell_based', 'add_k0s'),
    'nosmooth': (ESPIM + 'plate2d_add_k0s_cell_based_no_smoothing', 'add_k0s'),
    'edge': (ESPIM + 'plate2d_add_k0s_edge_based', 'add_k0s'),
    'disp': (ESPIM + 'plate2d_add_k0s', 'add_k0s'),
}
PERM3 = list(permutations(range(3)))
PERM4 = list(permutations(range(4)))


def fun(S, key):
    return w.function(S.I, *FUN[key])


def cfgs_edge(tier, by=(False, True), n_quick=8):
    """contexts over boundary/interior edge, node order of both triangles,
    node numbering, triangle numbering, orientation"""
    out = []
    for by_node in by:
        for two in (False, True):
            allc = []
            k = 0
            orders = PERM4 if two else PERM3
            for o in orders:
                for p1 in PERM3:
                    for p2 in (PERM3 if two else [(0, 1, 2)]):
                        k += 1
                        allc.append((o, p1, p2))
            if tier == 'thorough':
                m = min(len(allc), 96)
            else:
                m = n_quick
            step = len(allc)/float(m)
            # co-prime walk so that every component varies
            pick, seen = [], set()
            g = 1
            i = 0
            stride = 5 if not two else 137
            while len(pick) < m:
                j = (i*stride) % len(allc)
                i += 1
                if j in seen:
                    j = (j + 1) % len(allc)
                    if j in seen:
                        continue
                seen.add(j)
                pick.append(allc[j])
            for i, (o, p1, p2) in enumerate(pick):
                c = w.Cfg(two=two, perm1=p1, perm2=p2, order=o, torder=(0, 1) if (i//2) % 2 == 0 else (1, 0),
                          orient='+-'[(i + i//3) % 2], by_node=by_node, rev=(i % 3 == 1))
                out.append(c)
    return out


def label_key(S, ctx, key):
    """(row, col) polynomials -> ((node, dof), (node, dof)) or None"""
    res = []
    for r in key:
        hit = None
        for k, o in enumerate(S.nodes):
            d = r - ctx.reduce(al.lift(o.attrs['index']))*specs.C(5)
            c = en.const_int(d)
            if c is not None and 0 <= c < 5:
                hit = (k, c)
        if hit is None:
            return None
        res.append(hit)
    return tuple(res)


def matrix_terms(rec, S, ctx, mat, construct):
    """assembled contributions keyed by node and dof; None if not analysable"""
    vals, bad = w.assembled(mat, ctx)
    for kind, v, loc in bad:
        if kind == 'undecided':
            raise Undecided('%s: %s' % (construct, v))
        rec.bad('contributions accumulate', construct, loc,
                'a matrix entry is overwritten (%s) instead of accumulated' % kind)
        return None
    out = {}
    for key, v in vals.items():
        lk = label_key(S, ctx, key)
        if lk is None:
            if ctx.equal(v, ZERO):
                continue
            rec.bad('entries addressed through the node numbering', construct, write_loc(mat, ctx, key),
                    'entry (%s, %s) is not a degree of freedom of a node of the domain' % key)
            return None
        out[lk] = out.get(lk, ZERO) + v
    return out


def write_loc(mat, ctx, key):
    for op, r, c, v, loc, loops in mat.writes:
        if (ctx.reduce(r), ctx.reduce(c)) == key:
            return loc
    return None


def term_loc(S, ctx, mat, lk):
    for op, r, c, v, loc, loops in mat.writes:
        if label_key(S, ctx, (ctx.reduce(r), ctx.reduce(c))) == lk:
            return loc
    return None


NODE = 'abcd'
DOF = ['u', 'v', 'w', 'phix', 'phiy']


def name_key(lk):
    return '(%s %s, %s %s)' % (NODE[lk[0][0]], DOF[lk[0][1]], NODE[lk[1][0]], DOF[lk[1][1]])


def compare_terms(rec, S, ctx, mat, got, want, rule, construct):
    """entry-wise equality of two keyed forms"""
    good = True
    for k in sorted(set(got) | set(want)):
        g, s = got.get(k, ZERO), want.get(k, ZERO)
        if ctx.equal(g, s):
            rec.ok(rule, construct)
        else:
            good = False
            rec.bad(rule, construct, term_loc(S, ctx, mat, k) if mat is not None else None,
                    'entry %s is %s, required %s' % (name_key(k), al.poly_str(ctx.reduce(g)), al.poly_str(ctx.reduce(s))))
            return False
    return good


def loops_ok(rec, I, construct, since=0):
    """every member of the mesh contributes"""
    for e in I.effects[since:]:
        if e.kind == 'early-exit' and e.effects:
            rec.bad('every member is processed', construct, e.loc, 'the loop is left early (%s)' % e.how)
        elif e.kind == 'partial-domain':
            rec.bad('every member is processed', construct, e.loc, 'the loop skips members: %s' % e.why)
        elif e.kind == 'lost-update':
            rec.bad('contributions accumulate', construct, e.loc, 'repeated indices of a fancy update are lost')
        elif e.kind == 'unbound':
            rec.bad('names are bound', construct, e.loc, str(e))


def run_k0(S):
    return resulting(S.I, S.I.call(fun(S, 'k0'), [S.mesh, S.cfg.by_node], {}))


def resulting(I, K):
    """a result selected from an assembled matrix by the size of its entries
    is that matrix with some entries overwritten"""
    if isinstance(K, MatDer):
        I.models.mat_write(I, K.mat, K, 'set', al.ZERO)
        return K.mat
    return K


def plate(rec, cfg, construct, body, **kw):
    """analyse body(S, ctx) in every refinement of cfg"""
    def run(ctx):
        S = w.plate_scene(ctx, cfg, **kw)
        try:
            body(S, ctx)
        finally:
            rec.absorb(S.I)
    fw.explore(rec, cfg, lambda forced: w.make_ctx(cfg, forced), run, construct)


# -- P05 ---------------------------------------------------------------------
def k0_form(rec, cfg):
    def body(S, ctx):
        K = run_k0(S)
        if not isinstance(K, AMat):
            raise Undecided('calc_k0 does not return a modelled matrix: %r' % (K,))
        loops_ok(rec, S.I, 'calc_k0')
        got = matrix_terms(rec, S, ctx, K, 'calc_k0')
        if got is None:
            return
        geo = specs.Geo(S)
        compare_terms(rec, S, ctx, K, got, specs.k0_spec(geo), 'K = Ac B^T C B', 'calc_k0')
    plate(rec, cfg, 'calc_k0', body)
