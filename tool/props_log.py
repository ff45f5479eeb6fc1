"""Silence, logging helpers, absence of hidden side effects."""
import algebra as al
from algebra import Poly, ZERO, ONE
import engine as en
from engine import AbsRaise, Undecided, AStr, Opaque, Ctx
import framework as fw
import props_k0 as pk
import props_plate as pp
import props_shear as ps
import world as w

OUT = ('print', 'file-open', 'file-write')
TEXT = {'print': 'text is printed', 'file-open': 'a file is opened', 'file-write': 'a file is written',
        'global-write': 'module state is written', 'class-attr': 'class state is written'}


def side_effects(rec, I, since, construct, rule):
    bad = [e for e in I.effects[since:] if e.kind in OUT or e.kind == 'read-bdf' and talks(e)]
    for e in bad[:1]:
        rec.bad(rule, construct, e.loc, TEXT.get(e.kind) or 'pyNastran is asked to print its debug messages')
    if not bad:
        rec.ok(rule, construct)


def talks(e):
    """read_bdf() prints unless debug=False or None (default True); a logger
    that is passed in decides itself"""
    if e.kw.get('log') is not None or e.n > 4:
        return False
    return e.kw.get('debug', True) not in (False, None)


def silent(rec, cfg):
    rule = 'nothing is printed or written by default'

    def run(ctx):
        S = None
        try:
            I, M = w.new(ctx)
            S = w.read_scene(ctx, cfg)
            side_effects(rec, S.I, 0, 'reader ' + cfg.reader, rule)
            rec.absorb(S.I)
            S = w.plate_scene(ctx, cfg)
            k = len(S.I.effects)
            K = pk.run_k0(S)
            side_effects(rec, S.I, k, 'calc_k0', rule)
            for key in ('cell', 'nosmooth', 'edge'):
                k = len(S.I.effects)
                S.I.call(pk.fun(S, 'disp'), [K, S.mesh, cfg.by_node], dict(method=ps.METHODS[key]))
                side_effects(rec, S.I, k, ps.METHODS[key], rule)
            for extra in (0, 2):
                # also a displacement vector with entries of an incomplete node
                k = len(S.I.effects)
                pp.call_kG(S, en.AVec('d', S.n*al.lift(5) + al.lift(extra)))
                side_effects(rec, S.I, k, 'calc_kG', rule)
        finally:
            if S is not None:
                rec.absorb(S.I)
    fw.explore(rec, cfg, lambda forced: w.make_ctx(cfg, forced), run, 'analysis chain')


def verbose(rec, cfg):
    """silent=False prints messages and changes nothing else"""
    def run(ctx):
        S = w.plate_scene(ctx, cfg)
        try:
            K = pk.run_k0(S)
            a = pk.matrix_terms(rec, S, ctx, K, 'calc_k0')
            n = len(S.I.effects)
            K2 = S.I.call(pk.fun(S, 'k0'), [S.mesh, cfg.by_node], dict(silent=False))
            b = pk.matrix_terms(rec, S, ctx, K2, 'calc_k0')
            printed(rec, S.I, n, 'calc_k0')
            if a is not None and b is not None:
                pk.compare_terms(rec, S, ctx, K2, b, a, 'messages do not change the matrix', 'calc_k0')
            n = len(S.I.effects)
            d = S.d = en.AVec('d', S.n*Poly.const(5))
            S.I.call(pk.fun(S, 'kG'), [d, S.mesh, cfg.by_node], dict(silent=False))
            printed(rec, S.I, n, 'calc_kG')
            I, M = w.new(ctx)
            S2 = w.Scene()
            S2.I, S2.M, S2.cfg, S2.ctx = I, M, cfg, ctx
            if cfg.reader == 'nastran':
                w.nastran_input(S2, cfg)
                I.call(w.function(I, 'meshless.espim.read_mesh', 'read_mesh'), ['deck.dat'], dict(silent=False))
            else:
                p, t = w.delaunay_input(S2, cfg)
                I.call(w.function(I, 'meshless.espim.read_mesh', 'read_delaunay'), [p, t], dict(silent=False))
            printed(rec, I, 0, 'reader ' + cfg.reader)
            rec.absorb(I)
        finally:
            rec.absorb(S.I)
    fw.explore(rec, cfg, lambda forced: w.make_ctx(cfg, forced), run, 'messages')


def printed(rec, I, since, c):
    n = [e for e in I.effects[since:] if e.kind == 'print']
    rec.check(bool(n), 'messages are printed on request', c, I.loc, 'silent=False prints nothing')


def text(v):
    """parts of a string"""
    if isinstance(v, AStr):
        return list(v.parts)
    return [v]


def join_parts(parts):
    out = []
    for p in parts:
        for q in text(p):
            if isinstance(q, str) and out and isinstance(out[-1], str):
                out[-1] += q
            elif q != '':
                out.append(q)
    return out


def known(ctx, v):
    """repetitions whose number is known are written out"""
    out = []
    for q in text(v):
        if isinstance(q, Opaque) and q.key[:1] == ('repeat',) and isinstance(q.key[2], Poly):
            n = ctx.reduce(q.key[2])
            if n.is_const():
                q = q.key[1]*int(n.t.get((), 0))
        out.append(q)
    return en.mkstr(out)


def same_text(a, b):
    a, b = join_parts([a]), join_parts([b])
    return len(a) == len(b) and all((x == y) if isinstance(x, str) or isinstance(y, str) else
                                    getattr(x, 'key', x) == getattr(y, 'key', y) for x, y in zip(a, b))


def logger(rec, name):
    # an arbitrary level where the text can be followed, some levels otherwise
    first = fw.Rec(rec.label)
    logger_levels(first, name, True)
    if first.und and not first.viol:
        logger_levels(rec, name, False)
        return
    for k, n in first.oks.items():
        rec.ok(k[0], k[1], n)
    for a in ('viol', 'finds', 'und', 'notes'):
        getattr(rec, a).extend(getattr(first, a))
    rec.funcs |= first.funcs
    rec.stmts |= first.stmts
    rec.steps += first.steps
    rec.contexts += first.contexts


def logger_levels(rec, name, symbolic):
    prefix = {'msg': '', 'warn': 'WARNING: ', 'error': 'ERROR: '}[name]

    def run(ctx):
        I, M = w.new(ctx)
        try:
            f = w.function(I, 'meshless.logger', name)
            t = Opaque(('the message',), 'str')
            L = al.sym('level')

            def case(how, kw, shown, level):
                n = len(I.effects)
                r = I.call(f, [t], dict(kw))
                rec.check(isinstance(r, (str, AStr, Opaque)) and same_text(r, en.mkstr([prefix, t]) if prefix else t),
                          'the message is returned with its prefix', name, I.loc, lambda: '%s: returns %r' % (how, r))
                p = [e for e in I.effects[n:] if e.kind == 'print']
                if not shown:
                    rec.check(not p, 'printed unless silent', name, I.loc, '%s: prints' % how)
                    return
                tabs = Opaque(('repeat', '\t', level), 'str') if isinstance(level, Poly) else '\t'*level
                want = en.mkstr([tabs, prefix, t, '\n'])
                rec.check(all(e.file in (None, 'stdout') for e in p) and
                          same_text(known(ctx, en.mkstr([e.text for e in p])), known(ctx, want)),
                          'printed unless silent', name, I.loc, lambda: '%s: prints %r' % (how, [e.text for e in p]))
            case('default', {}, True, 0)
            case('silent', dict(silent=True), False, 0)
            if symbolic:
                case('any level', dict(level=L), True, L)
                case('any level, silent', dict(level=L, silent=True), False, L)
            else:
                for k in (1, 2, 3, 7, 12):
                    case('level %d' % k, dict(level=Poly.const(k)), True, k)
                    case('level %d, silent' % k, dict(level=Poly.const(k), silent=True), False, k)
        finally:
            rec.absorb(I)
    fw.explore(rec, None, lambda forced: Ctx(name, forced), run, name)
