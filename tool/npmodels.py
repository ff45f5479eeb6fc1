"""Function models: Python built-ins, numpy, math, itertools, pyNastran,
sympy/re (opaque)."""
import numpy as np

import algebra as al
import engine as en
from algebra import Poly, lift, ZERO, ONE, Fraction
from engine import (Undecided, AbsRaise, Top, AList, ADict, ASet, SymColl, SymSeq,
                    AObj, AClass, ExtClass, AFunc, AMethod, Builtin, AModule,
                    AStr, mkstr, Opaque, AMat, AMatT, MatDer, AVec, SymArr, KArr, Slice,
                    as_poly, const_int, objarray)
import models as md
from models import (IdxSeq, DictView, ListIter, NpType, PYEXC, isarr, SymArrView,
                    GridIx, LoopItem, AMatView)


def B(name):
    def deco(f):
        f.bname = name
        return f
    return deco


def vmax(I, M, items, kind):
    items = [x for x in items]
    ps = []
    for x in items:
        if isinstance(x, Top):
            return x
        p = as_poly(x)
        if p is None:
            return None
        ps.append(al.expand_defs(p))
    if not ps:
        raise AbsRaise('ValueError', 'empty sequence', I.loc)
    return al.pmax(ps) if kind == 'max' else al.pmin(ps)


def make_builtins(M):
    bi = dict(PYEXC)
    bi.pop('BoundName', None)

    def reg(name):
        def deco(f):
            bi[name] = Builtin(name, f)
            return f
        return deco

    bi['True'], bi['False'], bi['None'], bi['NotImplemented'] = True, False, None, Opaque('NotImplemented')
    bi['__name__'] = None
    bi['Ellipsis'] = Ellipsis
    bi['__debug__'] = True

    @reg('print')
    def _print(I, a, k):
        f, parts = k.get('file'), []
        for i, x in enumerate(a):
            if i:
                parts.append(' ' if k.get('sep') is None else k['sep'])
            parts.append(x if isinstance(x, (str, AStr, Opaque)) else I.call(bi['str'], [x], {}))
        parts.append('\n' if k.get('end') is None else k['end'])
        text = en.mkstr(parts)
        if isinstance(f, AObj) and 'write' in f.methods:
            f.methods['write'](I, [text], {})
        else:
            I.effect('print', args=a, file=f, text=text)

    @reg('len')
    def _len(I, a, k):
        v = a[0]
        if isinstance(v, DictView):
            v = v.d
        if isinstance(v, (AList, ADict)) and I.loops:
            p = M.growing_length(I, v)
            if p is not None:
                return p
        if isinstance(v, (AList, ADict, ASet)):
            d = M.iterate(I, v)
            if isinstance(d, list):
                return Poly.const(len(d))
            M.colls[al.expand_defs(d.length)] = d
            return d.length
        if isinstance(v, (tuple, str)):
            return Poly.const(len(v))
        if isarr(v):
            if v.ndim == 0:
                raise AbsRaise('TypeError', 'len', I.loc)
            return Poly.const(v.shape[0])
        if isinstance(v, SymColl):
            M.colls[al.expand_defs(v.length)] = v
            return v.length
        if isinstance(v, SymArr):
            return v.lens[0]
        if isinstance(v, SymArrView):
            return v.arr.lens[len(v.idx)]
        if isinstance(v, AVec):
            return v.length if v.ncol is None else v.length/v.ncol
        if isinstance(v, AMat):
            return v.shape[0]
        if isinstance(v, (Opaque, AStr)):
            a_ = al.intern('sym', ('len', repr(M.keyof(v))), 'len(%s)' % (M.keyof(v),))
            return Poly.of_atom(a_)
        if isinstance(v, AObj):
            if '__len__' in v.methods:
                return v.methods['__len__'](I, [], {})
            if isinstance(v.cls, AClass):
                f = v.cls.lookup('__len__')
                if f is not None:
                    return I.call(f, [v], {})
        if isinstance(v, IdxSeq):
            I.undecided('length of a symbolic sequence')
        if isinstance(v, KArr):
            return al.sym('K', True)
        raise AbsRaise('TypeError', 'len', I.loc)

    @reg('range')
    def _range(I, a, k):
        lo, hi, st = ZERO, None, ONE
        if len(a) == 1:
            hi = as_poly(a[0])
        else:
            lo, hi = as_poly(a[0]), as_poly(a[1])
            if len(a) > 2:
                st = as_poly(a[2])
        if lo is None or hi is None:
            if any(isinstance(x, Opaque) for x in a):
                return Opaque(('range', M.keyof(tuple(a))), 'any')
            raise AbsRaise('TypeError', 'range', I.loc)
        lo, hi = al.expand_defs(lo), al.expand_defs(hi)
        cl, ch, cs = const_int(lo), const_int(hi), const_int(st)
        if cl is not None and ch is not None and cs is not None:
            return tuple(Poly.const(i) for i in range(cl, ch, cs))
        n = const_int(hi - lo)
        if n is not None and cs == 1:
            return tuple(lo + i for i in range(n))
        if cs is not None and cs > 1 and cl is not None and 0 <= cl < cs and hi/Poly.const(cs) in M.colls:
            # every cs-th number: one for each member of a collection
            c = M.colls[hi/Poly.const(cs)]
            return SymColl('range(%d, %d*%s, %d)' % (cl, cs, c.name, cs), [lo + st*p for p in c.pos], c.pos, c.length)
        if cs != 1:
            I.undecided('symbolic range with a step')
        if hi in M.colls:
            c = M.colls[hi]
            if cl == 0:
                r = SymColl('range(%s)' % c.name, list(c.pos), c.pos, c.length)
                r.partial = c.partial
                return r
            I.undecided('range that skips members')
        if lo - ONE in M.colls or (hi - lo) in M.colls:
            c = M.colls.get(hi - lo)
            if c is not None:
                return SymColl('range(%s)' % c.name, [lo + p for p in c.pos], c.pos, c.length)
        if cl == 0:
            return IdxSeq(str(hi), lambda i: i)
        I.undecided('range(%s, %s)' % (lo, hi))

    bi['xrange'] = bi['range']

    def enum(I, a, k):
        start = as_poly(a[1]) if len(a) > 1 else as_poly(k.get('start', ZERO))
        v = a[0]
        if isinstance(v, (SymArr, SymArrView, IdxSeq)):
            if isinstance(v, IdxSeq):
                return IdxSeq(v.key, lambda i: (i + start, v.mk(i)))
            n = v.lens[0] if isinstance(v, SymArr) else v.arr.lens[len(v.idx)]
            get = (lambda i: SymArrView(v, ()).index(i)) if isinstance(v, SymArr) else v.index
            return IdxSeq(str(n), lambda i: (i + start, get(i)))
        d = M.iterate(I, v)
        if isinstance(d, list):
            return tuple((start + i, x) for i, x in enumerate(d))
        if isinstance(d, SymColl):
            c = SymColl('enumerate(%s)' % d.name, [(start + p, x) for p, x in zip(d.pos, d.reps)], d.pos, d.length)
            c.partial = d.partial
            return c
        I.undecided('enumerate')
    bi['enumerate'] = Builtin('enumerate', enum)

    @reg('zip')
    def _zip(I, a, k):
        seqs = []
        if a and all(isinstance(v, (SymArr, SymArrView, IdxSeq)) for v in a):
            def parts(v):
                if isinstance(v, IdxSeq):
                    return v.key, v.mk
                n = v.lens[0] if isinstance(v, SymArr) else v.arr.lens[len(v.idx)]
                vv = SymArrView(v, ()) if isinstance(v, SymArr) else v
                return str(n), vv.index
            ps = [parts(v) for v in a]
            if len(set(p[0] for p in ps)) != 1:
                I.effect('zip-mismatch', lengths=[p[0] for p in ps])
                I.undecided('zip of sequences of different lengths')
            return IdxSeq(ps[0][0], lambda i: tuple(p[1](i) for p in ps))
        counts = [isinstance(v, Counter) for v in a]
        for v in a:
            if isinstance(v, Counter):
                seqs.append(v)
            else:
                seqs.append(M.iterate(I, v))
        syms = [s for s in seqs if isinstance(s, SymColl)]
        if syms:
            c0 = syms[0]
            reps = []
            for j in range(len(c0.reps)):
                row = []
                for s in seqs:
                    if isinstance(s, SymColl):
                        if len(s.reps) != len(c0.reps) or any(p is not q and not al.equal(p, q)
                                                              for p, q in zip(s.pos, c0.pos)):
                            I.undecided('zip of different collections')
                        row.append(s.reps[j])
                    elif isinstance(s, Counter):
                        row.append(s.start + c0.pos[j]*s.step)
                    else:
                        I.undecided('zip of a fixed and an unknown length')
                reps.append(tuple(row))
            r = SymColl('zip(%s)' % c0.name, reps, c0.pos, c0.length)
            r.partial = [s.partial for s in syms if s.partial][0] if any(s.partial for s in syms) else None
            return r
        n = min(len(s) for s in seqs if not isinstance(s, Counter))
        out = []
        for j in range(n):
            out.append(tuple(s.start + s.step*j if isinstance(s, Counter) else s[j] for s in seqs))
        return tuple(out)

    @reg('list')
    def _list(I, a, k):
        if not a:
            return I.new_list()
        d = M.iterate(I, a[0])
        if isinstance(d, list):
            return I.new_list(d)
        if isinstance(d, SymColl):
            r = I.new_list()
            lid = ('list', M.name('l'))
            r.items = [LoopItem(lid, i, x, p, d) for i, (x, p) in enumerate(zip(d.reps, d.pos))]
            r.filtered = getattr(d, 'filtered', False)
            return r
        I.release_bound(d)
        if isinstance(a[0], (SymArr, SymArrView, IdxSeq)):
            return a[0]
        I.undecided('list of a symbolic range')

    @reg('tuple')
    def _tuple(I, a, k):
        if not a:
            return ()
        d = M.iterate(I, a[0])
        if isinstance(d, list):
            return tuple(d)
        if isinstance(d, SymColl):
            return d
        I.release_bound(d)
        return a[0]

    @reg('set')
    def _set(I, a, k):
        if not a:
            return I.new_set()
        r = M.as_set(I, a[0])
        if r is a[0]:
            return M.call_method(I, r, 'copy', [], {})
        return r
    bi['frozenset'] = bi['set']

    @reg('dict')
    def _dict(I, a, k):
        d = I.new_dict()
        if a:
            M.call_method(I, d, 'update', [a[0]], {})
        for kk, vv in k.items():
            M.dict_set(I, d, kk, vv)
        d.mut = []
        return d

    def fromkeys(I, a, k):
        d = I.new_dict()
        for x in M.concrete(I, a[0]):
            M.dict_set(I, d, x, a[1] if len(a) > 1 else None)
        return d
    bi['dict'].sub = {'fromkeys': Builtin('fromkeys', fromkeys)}

    def ext(kind):
        def f(I, a, k):
            if len(a) == 1:
                v = a[0]
                d = M.iterate(I, v)
                if isinstance(d, SymColl):
                    if 'key' in k:
                        I.undecided('%s over a collection of unknown length' % kind)
                    return al.fn(kind + '_over', d.name)
                if not isinstance(d, list):
                    I.undecided(kind)
                items = d
            else:
                items = a
            if not items:
                if 'default' in k:
                    return k['default']
                raise AbsRaise('ValueError', 'empty sequence', I.loc)
            key = k.get('key')
            if key is None:
                r = vmax(I, M, items, kind)
                if r is not None:
                    return r
            best = items[0]
            kb = I.call(key, [best], {}) if key is not None else best
            for x in items[1:]:
                kx = I.call(key, [x], {}) if key is not None else x
                if I.truth(M.compare(I, 'Gt' if kind == 'max' else 'Lt', kx, kb)):
                    best, kb = x, kx
            return best
        return f
    bi['max'] = Builtin('max', ext('max'))
    bi['min'] = Builtin('min', ext('min'))

    @reg('abs')
    def _abs(I, a, k):
        return M.elementwise(I, a[0], al.pabs)

    @reg('sum')
    def _sum(I, a, k):
        v = a[0]
        start = a[1] if len(a) > 1 else k.get('start', ZERO)
        if isinstance(v, SymSeq) or isinstance(v, (SymArr, SymArrView, IdxSeq)):
            return I.binop('Add', start, M.reduce_seq(I, 'sum', v))
        d = M.iterate(I, v)
        if isinstance(d, SymColl):
            ps = [as_poly(r) for r in d.reps]
            if all(p is not None for p in ps):
                if ps and all(p.is_const() and p.t == ps[0].t for p in ps):
                    return I.binop('Add', start, ps[0]*d.length)
                return I.binop('Add', start, al.fn('sum_over', d.name))
            I.undecided('sum over a collection of unknown length')
        r = start
        for x in d:
            r = I.binop('Add', r, x)
        return r

    @reg('sorted')
    def _sorted(I, a, k):
        d = M.iterate(I, a[0])
        if isinstance(d, list):
            return I.new_list(M.sort(I, d, k.get('key'), k.get('reverse', False)))
        if isinstance(d, SymColl):
            if k.get('key') is not None:
                for r in d.reps:
                    I.call(k['key'], [r], {})
            c = M.sorted_coll(I, d)
            r = I.new_list()
            r.items = [LoopItem(('sorted', c.name), i, x, p, c) for i, (x, p) in enumerate(zip(c.reps, c.pos))]
            return r
        I.undecided('sorted')

    @reg('reversed')
    def _reversed(I, a, k):
        d = M.iterate(I, a[0])
        if isinstance(d, list):
            return tuple(d[::-1])
        if isinstance(d, SymColl):
            c = SymColl('reversed(%s)' % d.name, d.reps[::-1], None, d.length)
            c.partial = d.partial
            return c
        I.undecided('reversed')

    def isinst(I, v, c):
        if isinstance(c, tuple):
            return any(isinst(I, v, x) for x in c)
        nm = getattr(c, 'name', None)
        if isinstance(v, AObj):
            if isinstance(v.cls, (AClass, ExtClass)):
                return nm in v.cls.mro_names() or nm == 'object'
        if isinstance(c, Builtin) or isinstance(c, NpType):
            if nm in ('int', 'integer', 'int64', 'Integral'):
                return isinstance(v, bool) or isinstance(v, Poly) and M.integral(al.expand_defs(v))
            if nm in ('float', 'float64', 'floating', 'Real', 'Number'):
                return isinstance(v, Poly)
            if nm == 'str':
                return isinstance(v, (str, AStr)) or isinstance(v, Opaque) and v.kind == 'str'
            if nm == 'list':
                return isinstance(v, AList) or isinstance(v, SymColl) and not v.is_array
            if nm == 'tuple':
                return isinstance(v, tuple)
            if nm == 'dict':
                return isinstance(v, ADict)
            if nm in ('set', 'frozenset'):
                return isinstance(v, ASet)
            if nm == 'bool':
                return isinstance(v, bool) or isinstance(v, Opaque) and v.kind == 'bool'
            if nm == 'ndarray':
                return isarr(v) or isinstance(v, (AMat, AVec, SymArr, KArr)) or isinstance(v, SymColl) and v.is_array
            if nm == 'object':
                return True
        if isinstance(v, Opaque):
            return I.ctx.choose(('isinstance', repr(v.key), nm), 'isinstance(%s, %s)' % (v, nm))
        if isinstance(c, (AClass, ExtClass)):
            return False
        if isinstance(c, Opaque):
            return I.ctx.choose(('isinstance', repr(M.keyof(v)), repr(c.key)), 'isinstance(%s, %s)' % (v, c.key))
        I.undecided('isinstance')

    @reg('isinstance')
    def _isinstance(I, a, k):
        return isinst(I, a[0], a[1])

    @reg('issubclass')
    def _issubclass(I, a, k):
        return getattr(a[1], 'name', None) in a[0].mro_names()

    @reg('type')
    def _type(I, a, k):
        v = a[0]
        if isinstance(v, AObj):
            return v.cls
        if isinstance(v, (str, AStr)):
            return bi['str']
        if isinstance(v, AList):
            return bi['list']
        return Opaque(('type', M.keyof(v)), 'obj')

    @reg('str')
    def _str(I, a, k):
        if not a:
            return ''
        if isinstance(a[0], AObj) and isinstance(a[0].cls, AClass):
            f = a[0].cls.lookup('__str__') or a[0].cls.lookup('__repr__')
            if f is not None:
                return I.call(f, [a[0]], {})
        return M.fmt(I, a[0], None)
    bi['repr'] = Builtin('repr', lambda I, a, k: a[0] and _str(I, a, k) if not isinstance(a[0], str) else repr(a[0]))
    bi['repr'] = Builtin('repr', lambda I, a, k: repr(a[0]) if isinstance(a[0], str) else M.fmt(I, a[0], None))
    bi['format'] = Builtin('format', lambda I, a, k: M.fmt(I, a[0], a[1] if len(a) > 1 else None))

    @reg('int')
    def _int(I, a, k):
        if not a:
            return ZERO
        v = a[0]
        if isinstance(v, Opaque):
            return Poly.of_atom(al.intern('sym', ('int', repr(v.key)), 'int(%s)' % (v.key,)))
        if isinstance(v, str):
            try:
                return Poly.const(int(v))
            except ValueError:
                raise AbsRaise('ValueError', 'int', I.loc)
        if isinstance(v, AStr):
            return Poly.of_atom(al.intern('sym', ('int', repr(M.keyof(v))), 'int()'))
        return M.elementwise(I, v, lambda p: M.trunc(p))

    @reg('float')
    def _float(I, a, k):
        if not a:
            return ZERO
        if isinstance(a[0], Opaque):
            return Poly.of_atom(al.intern('sym', ('float', repr(a[0].key)), 'float(%s)' % (a[0].key,)))
        if isinstance(a[0], str):
            try:
                return Poly.const(float(a[0]))
            except ValueError:
                if a[0].strip('+-').lower() in ('inf', 'nan', 'infinity'):
                    return Top('float(%r)' % a[0])
                raise AbsRaise('ValueError', 'float', I.loc)
        if isarr(a[0]) and a[0].size == 1:
            return as_poly(a[0].flat[0])
        p = as_poly(a[0])
        if p is None:
            if isinstance(a[0], Top):
                return a[0]
            raise AbsRaise('TypeError', 'float', I.loc)
        r = Poly(dict(p.t))
        return r

    @reg('bool')
    def _bool(I, a, k):
        return I.truth(a[0]) if a else False

    def anyall(kind):
        def f(I, a, k):
            v = a[0]
            d = M.iterate(I, v) if not isinstance(v, SymSeq) else v
            if isinstance(d, SymColl):
                # members not represented are like the represented ones
                ts = [I.truth(x) for x in d.reps]
                d_eff = [x for x in ts]
                return any(d_eff) if kind == 'any' else all(d_eff)
            if not isinstance(d, list):
                I.undecided(kind)
            for x in d:
                t = I.truth(x)
                if kind == 'any' and t:
                    return True
                if kind == 'all' and not t:
                    return False
            return kind == 'all'
        return f
    bi['any'] = Builtin('any', anyall('any'))
    bi['all'] = Builtin('all', anyall('all'))

    @reg('map')
    def _map(I, a, k):
        f = a[0]
        if len(a) > 2:
            z = bi['zip'].fn(I, a[1:], {})
            d = M.iterate(I, z)
            if isinstance(d, list):
                return tuple(I.call(f, list(x), {}) for x in d)
            I.undecided('map')
        d = M.iterate(I, a[1])
        if isinstance(d, list):
            return tuple(I.call(f, [x], {}) for x in d)
        if isinstance(d, SymColl):
            return map_coll(I, d, f)
        r = IdxSeq(d.key, lambda i: I.call(f, [d.mk(i)], {}))
        I.release_bound(d)
        return r

    def map_coll(I, d, f):
        I.loop_n += 1
        lid = 'map%d' % I.loop_n
        reps = []
        for r, x in enumerate(d.reps):
            I.loops.append((lid, r, d.pos[r], d))
            try:
                reps.append(I.call(f, [x], {}))
            finally:
                I.loops.pop()
        c = SymColl('map(%s)' % d.name, reps, d.pos, d.length)
        c.partial = d.partial
        return c

    @reg('filter')
    def _filter(I, a, k):
        d = M.iterate(I, a[1])
        if isinstance(d, list):
            return tuple(x for x in d if I.truth(x if a[0] is None else I.call(a[0], [x], {})))
        I.undecided('filter')

    @reg('hasattr')
    def _hasattr(I, a, k):
        try:
            I.getattr(a[0], a[1])
            return True
        except AbsRaise as e:
            if e.cls == 'AttributeError':
                return False
            raise

    @reg('getattr')
    def _getattr(I, a, k):
        if not isinstance(a[1], str):
            I.undecided('getattr with a computed name')
        try:
            return I.getattr(a[0], a[1])
        except AbsRaise as e:
            if e.cls == 'AttributeError' and len(a) > 2:
                return a[2]
            raise

    @reg('setattr')
    def _setattr(I, a, k):
        if not isinstance(a[1], str):
            I.undecided('setattr with a computed name')
        I.setattr(a[0], a[1], a[2])

    @reg('delattr')
    def _delattr(I, a, k):
        I.effect('attr-del', obj=a[0], attr=a[1])
        if isinstance(a[0], AObj):
            a[0].attrs.pop(a[1], None)

    @reg('open')
    def _open(I, a, k):
        path = a[0] if a else k.get('file')
        mode = a[1] if len(a) > 1 else k.get('mode', 'r')
        return make_file(M, I, path, mode)

    @reg('iter')
    def _iter(I, a, k):
        d = M.iterate(I, a[0])
        if isinstance(d, list):
            return ListIter(d)
        return d

    @reg('next')
    def _next(I, a, k):
        v = a[0]
        if isinstance(v, ListIter):
            if v.i < len(v.items):
                v.i += 1
                return v.items[v.i-1]
            if len(a) > 1:
                return a[1]
            raise AbsRaise('StopIteration', None, I.loc)
        if isinstance(v, Counter):
            return v.advance(I)
        d = M.iterate(I, v)
        if isinstance(d, list):
            # generator expressions are evaluated eagerly to lists
            if d:
                if isinstance(v, AList):
                    v.items.pop(0)
                return d[0]
            if len(a) > 1:
                return a[1]
            raise AbsRaise('StopIteration', None, I.loc)
        I.undecided('next of a collection of unknown length')

    @reg('round')
    def _round(I, a, k):
        p = as_poly(a[0])
        if p is not None and p.is_const() and len(a) == 1:
            return Poly.const(round(Fraction(p.const_value())))
        return M.elementwise(I, a[0], lambda q: al.fn('round', q))

    @reg('divmod')
    def _divmod(I, a, k):
        return (I.binop('FloorDiv', a[0], a[1]), I.binop('Mod', a[0], a[1]))

    @reg('pow')
    def _pow(I, a, k):
        return I.binop('Pow', a[0], a[1])

    @reg('slice')
    def _slice(I, a, k):
        if len(a) == 1:
            return Slice(None, a[0], None)
        return Slice(a[0], a[1], a[2] if len(a) > 2 else None)

    @reg('callable')
    def _callable(I, a, k):
        return isinstance(a[0], (AFunc, AMethod, Builtin, AClass, ExtClass))

    @reg('id')
    def _id(I, a, k):
        return Opaque(('id', id(a[0])), 'any')

    @reg('hash')
    def _hash(I, a, k):
        return Opaque(('hash', M.keyof(a[0])), 'any')

    @reg('vars')
    def _vars(I, a, k):
        return I.getattr(a[0], '__dict__')

    @reg('super')
    def _super(I, a, k):
        fr = I.frames[-1]
        f = fr.fn
        slf = fr.locals.get(f.node.args.args[0].arg) if f is not None and f.node.args.args else None
        o = AObj(ExtClass('super'), 'super', True)
        base = None
        if f is not None and f.cls is not None:
            for b in f.cls.bases:
                if isinstance(b, AClass):
                    base = b
                    break

        def hook(I2, o2, name):
            if base is not None:
                v = base.lookup(name)
                if isinstance(v, AFunc):
                    return (AMethod(v, slf),)
                if v is not None:
                    return (v,)
            if name == '__init__':
                return (Builtin('__init__', lambda I3, a3, k3: None),)
            return None
        o.getattr_hook = hook
        return o

    def prop(I, a, k):
        import copy
        if k or not a or len(a) > 2 or not all(isinstance(x, AFunc) for x in a):
            I.undecided('property()')
        f = copy.copy(a[0])
        f.kind = 'property'
        f.setter = a[1] if len(a) > 1 else None
        return f
    bi['property'] = Builtin('property', prop)
    bi['staticmethod'] = Builtin('staticmethod', lambda I, a, k: a[0])
    bi['classmethod'] = Builtin('classmethod', lambda I, a, k: a[0])
    bi['object'] = ExtClass('object')
    bi['complex'] = NpType('complex')
    bi['bytes'] = NpType('bytes')
    return bi


class Counter(object):
    """itertools.count"""

    def __init__(self, start, step, I=None):
        self.start, self.step = start, step
        self.made_in = tuple(l[0] for l in I.loops) if I is not None else ()

    def advance(self, I):
        new = [l for l in I.loops if l[0] not in self.made_in]
        if not new:
            r = self.start
            self.start = r + self.step
            return r
        if len(new) > 1:
            I.undecided('a counter advanced in nested loops')
        lid, r, pos, dom = new[0]
        # one step per pass; checked at the end of every pass of the loop
        I.counters.setdefault(lid, []).append((self, r))
        return self.start + self.step*pos


def make_file(M, I, path, mode):
    f = AObj(ExtClass('file'), 'file', True)
    I.effect('file-open', path=path, mode=mode, file=f)

    def write(I2, a, k):
        I2.effect('file-write', path=path, mode=mode, text=a[0], file=f)
        return None

    def writelines(I2, a, k):
        for x in M.concrete(I2, a[0]):
            I2.effect('file-write', path=path, mode=mode, text=x, file=f)
    f.methods['write'] = write
    f.methods['writelines'] = writelines
    f.methods['close'] = lambda I2, a, k: I2.effect('file-close', path=path, file=f) and None
    f.methods['flush'] = lambda I2, a, k: None
    f.methods['read'] = lambda I2, a, k: Opaque(('read', M.keyof(path)), 'str')
    f.methods['__enter__'] = lambda I2, a, k: f
    f.methods['__iter__'] = lambda I2, a, k: Opaque(('lines', M.keyof(path)), 'str')
    return f


# --------------------------------------------------------------------------
# external modules
# --------------------------------------------------------------------------
TYPES = ('float64', 'float32', 'float_', 'int64', 'int32', 'int_', 'intp', 'uint8', 'bool_', 'complex128', 'integer',
         'floating', 'number', 'double', 'float128', 'longdouble', 'uint64', 'int8', 'float16', 'object_')


class Field(object):
    def __init__(self, default, factory, init):
        self.default, self.factory, self.init = default, factory, init


def dataclasses_attr(M, I, attr):
    if attr == 'field':
        def field(I2, a, k):
            d = (lambda I3: k['default']) if 'default' in k else None
            f = (lambda I3: I3.call(k['default_factory'], [], {})) if 'default_factory' in k else None
            return Field(d, f, I2.truth(k.get('init', True)))
        return Builtin(attr, field)
    if attr == 'dataclass':
        def build(I2, c, k):
            if not isinstance(c, AClass):
                I2.undecided('dataclass of %r' % (c,))
            got = {}
            for b in reversed(c.mro()):
                if isinstance(b, AClass) and b is not c and b.fields is not None:
                    got.update((f[0], f) for f in b.fields)
            for n, ann in c.annotated:
                if 'ClassVar' in ann:
                    continue
                if 'InitVar' in ann:
                    I2.undecided('InitVar')
                d, init = None, True
                if n in c.ns:
                    v = c.ns[n]
                    if isinstance(v, Field):
                        c.ns.pop(n)
                        d, init = v.default or v.factory, v.init
                    else:
                        d = lambda I3, v=v: v
                got[n] = (n, d, init)
            if I2.truth(k.get('frozen', False)) and c.lookup('__post_init__') is not None:
                I2.undecided('a frozen data class with __post_init__')
            c.fields = list(got.values())
            return c

        def dataclass(I2, a, k):
            if a:
                return build(I2, a[0], k)
            return Builtin('dataclass', lambda I3, b, kw: build(I3, b[0], k))
        return Builtin(attr, dataclass)
    if attr == 'astuple':
        return Builtin(attr, lambda I2, a, k: tuple(a[0].attrs[f[0]] for f in a[0].cls.fields))
    if attr == 'replace':
        return Builtin(attr, lambda I2, a, k: I2.call(a[0].cls, [], dict({f[0]: a[0].attrs[f[0]] for f in a[0].cls.fields if f[2]}, **k)))
    I.undecided('dataclasses.%s' % attr)


def external(M, I, mod, attr):
    if (mod, attr) in M.ext:
        return M.ext[(mod, attr)]
    if mod == 'numpy' or mod.startswith('numpy.') or mod in ('scipy', 'math', 'cmath', 'scipy.linalg'):
        return np_attr(M, I, mod, attr)
    if mod == 'collections':
        if attr == 'defaultdict':
            def dd(I2, a, k):
                d = I2.new_dict()
                d.default = a[0] if a else None
                if len(a) > 1:
                    M.call_method(I2, d, 'update', [a[1]], {})
                return d
            return Builtin('defaultdict', dd)
        if attr == 'OrderedDict':
            return M.builtin('dict')
        if attr == 'deque':
            return M.builtin('list')
        if attr == 'namedtuple':
            def nt(I2, a, k):
                fields = a[1]
                if isinstance(fields, str):
                    fields = fields.replace(',', ' ').split()
                else:
                    fields = M.concrete(I2, fields)
                name = a[0]

                dflt = M.concrete(I2, k['defaults']) if 'defaults' in k else []
                dflt = dict(zip(fields[len(fields) - len(dflt):], dflt))

                def mk(I3, b, kw):
                    return M.fill_namedtuple(I3, AObj(cls, name, True), fields, dflt, b, kw)
                cls = ExtClass(name, mk)
                cls.tuple_fields, cls.tuple_defaults = list(fields), dflt
                cls.statics = {'_make': lambda I3, b, kw: mk(I3, M.concrete(I3, b[0]), {})}
                return cls
            return Builtin('namedtuple', nt)
        if attr == 'Counter':
            def cn(I2, a, k):
                d = I2.new_dict()
                d.default = Builtin('int', lambda I3, a3, k3: ZERO)
                if a:
                    for x in M.concrete(I2, a[0]):
                        i = d.find(x, I2)
                        if i >= 0:
                            d.vals[i] = d.vals[i] + 1
                        else:
                            d.keys.append(x)
                            d.vals.append(ONE)
                return d
            return Builtin('Counter', cn)
    if mod == 'itertools':
        return itertools_attr(M, I, attr)
    if mod == 'typing' and attr == 'NamedTuple':
        return Builtin('NamedTuple', lambda I2, a, k: I2.undecided('typing.NamedTuple called'))
    if mod == 'dataclasses':
        return dataclasses_attr(M, I, attr)
    if mod == 'functools':
        if attr == 'cached_property':
            return Builtin(attr, lambda I2, a, k: I2.undecided('cached_property called'))
        if attr == 'total_ordering':
            return Builtin(attr, lambda I2, a, k: a[0])
        if attr == 'partial':
            def partial(I2, a, k):
                f, pa, pk = a[0], list(a[1:]), dict(k)
                return Builtin('partial', lambda I3, b, kw: I3.call(f, pa + list(b), dict(pk, **kw)))
            return Builtin('partial', partial)
        if attr == 'reduce':
            def red(I2, a, k):
                d = M.concrete(I2, a[1])
                d = list(d)
                r = a[2] if len(a) > 2 else d.pop(0)
                for x in d:
                    r = I2.call(a[0], [r, x], {})
                return r
            return Builtin('reduce', red)
        if attr in ('wraps', 'update_wrapper'):
            return Builtin(attr, lambda I2, a, k: Builtin('wrapped', lambda I3, b, kw: b[0]))
        if attr in ('lru_cache', 'cache'):
            return Builtin(attr, lambda I2, a, k: en.memoized(a[0]) if a and isinstance(a[0], AFunc)
                           else Builtin('lru', lambda I3, b, kw: en.memoized(b[0])))
    if mod == 'operator':
        if attr == 'itemgetter':
            return Builtin(attr, lambda I2, a, k: Builtin('getter', lambda I3, b, kw: M.get_item(I3, b[0], a[0])
                           if len(a) == 1 else tuple(M.get_item(I3, b[0], x) for x in a)))
        if attr == 'attrgetter':
            return Builtin(attr, lambda I2, a, k: Builtin('getter', lambda I3, b, kw: I3.getattr(b[0], a[0])
                           if len(a) == 1 else tuple(I3.getattr(b[0], x) for x in a)))
        ops = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mult', 'truediv': 'Div', 'pow': 'Pow', 'mod': 'Mod',
               'floordiv': 'FloorDiv', 'matmul': 'MatMult'}
        if attr in ops:
            return Builtin(attr, lambda I2, a, k: I2.binop(ops[attr], a[0], a[1]))
    if mod.startswith('pyNastran'):
        import meshmodel
        r = meshmodel.pynastran(M, I, attr)
        if r is not None:
            return r
    if mod == 'warnings' and attr == 'warn':
        return Builtin('warn', lambda I2, a, k: I2.effect('print', args=a, file='warnings', text=a[0]) and None)
    if mod == 'sys':
        if attr in ('stdout', 'stderr'):
            f = AObj(ExtClass('file'), attr, True)
            f.methods['write'] = lambda I2, a, k: I2.effect('print', args=a, file=attr, text=a[0]) and None
            f.methods['flush'] = lambda I2, a, k: None
            return f
    if mod == 'logging':
        return Opaque(('logging', attr), 'any')
    if mod == 'copy':
        return Builtin(attr, lambda I2, a, k: py_copy(M, I2, a[0], attr == 'deepcopy'))
    if mod == 'io' and attr == 'open':
        return M.builtin('open')
    if mod in ('pathlib',) and attr == 'Path':
        def path(I2, a, k):
            p = AObj(ExtClass('Path'), 'path', True)
            pv = a[0]
            p.methods['write_text'] = lambda I3, b, kw: (make_file(M, I3, pv, 'w').methods['write'](I3, [b[0]], {}), None)[1]
            p.methods['open'] = lambda I3, b, kw: make_file(M, I3, pv, b[0] if b else kw.get('mode', 'r'))
            p.methods['__str__'] = lambda I3, b, kw: pv
            return p
        return ExtClass('Path', path)
    if mod == 'sympy' and attr in ('cse',):
        def cse(I2, a, k):
            key = ('cse', M.keyof(a[0]))
            return (Opaque(key + ('subs',), 'any'), Opaque(key + ('m',), 'any'))
        return Builtin('cse', cse)
    if mod == 'typing':
        return Opaque(('typing', attr), 'obj')
    if mod == 're':
        return re_attr(M, I, attr)
    return Opaque((mod, attr), 'any')


def re_attr(M, I, attr):
    def call(I2, a, k):
        return Opaque(('re', attr, tuple(M.keyof(x) for x in a)), 'str')
    return Builtin('re.' + attr, call)


def py_copy(M, I, v, deep):
    if isinstance(v, AList):
        r = I.new_list()
        r.items = list(v.items)
        return r
    if isarr(v):
        return M.keep_int(v, v.copy())
    if isinstance(v, (ADict,)):
        return M.call_method(I, v, 'copy', [], {})
    if isinstance(v, ASet):
        return M.call_method(I, v, 'copy', [], {})
    if isinstance(v, AMat):
        return I.call(M.mat_attr(I, v, 'copy'), [], {})
    if isinstance(v, (Poly, bool, str, tuple)) or v is None:
        return v
    if isinstance(v, Opaque):
        return Opaque(('copy', v.key), v.kind)
    if isinstance(v, KArr):
        return KArr(v.val)
    if isinstance(v, AObj):
        if 'copy' in v.methods:
            return v.methods['copy'](I, [], {})
    I.undecided('copy of %s' % type(v).__name__)


def itertools_attr(M, I, attr):
    import itertools as it

    def conc(I2, v):
        return M.concrete(I2, v)
    if attr == 'count':
        return Builtin('count', lambda I2, a, k: Counter(as_poly(a[0]) if a else as_poly(k.get('start', ZERO)),
                                                       as_poly(a[1]) if len(a) > 1 else as_poly(k.get('step', ONE)), I2))
    if attr == 'chain':
        def chain(I2, a, k):
            out = I2.new_list()
            for s in a:
                M.list_extend(I2, out, s)
            return out
        b = Builtin('chain', chain)
        b.sub = {'from_iterable': Builtin('from_iterable', lambda I2, a, k: chain(I2, conc(I2, a[0]), k))}
        return b
    if attr == 'product':
        def product(I2, a, k):
            n = const_int(k.get('repeat', ONE))
            return tuple(it.product(*[conc(I2, s) for s in a], repeat=n))
        return Builtin('product', product)
    if attr in ('permutations', 'combinations'):
        return Builtin(attr, lambda I2, a, k: tuple(getattr(it, attr)(conc(I2, a[0]),
                       *([const_int(a[1])] if len(a) > 1 else []))))
    if attr in ('combinations_with_replacement',):
        return Builtin(attr, lambda I2, a, k: tuple(getattr(it, attr)(conc(I2, a[0]), const_int(a[1]))))
    if attr == 'repeat':
        return Builtin(attr, lambda I2, a, k: tuple([a[0]]*const_int(a[1])))
    if attr == 'islice':
        return Builtin(attr, lambda I2, a, k: tuple(it.islice(conc(I2, a[0]), *[const_int(x) if x is not None else None for x in a[1:]])))
    if attr in ('zip_longest', 'izip_longest'):
        return Builtin(attr, lambda I2, a, k: tuple(it.zip_longest(*[conc(I2, s) for s in a], fillvalue=k.get('fillvalue'))))
    if attr == 'starmap':
        return Builtin(attr, lambda I2, a, k: tuple(I2.call(a[0], conc(I2, x), {}) for x in conc(I2, a[1])))
    if attr == 'pairwise':
        return Builtin(attr, lambda I2, a, k: tuple(zip(conc(I2, a[0])[:-1], conc(I2, a[0])[1:])))
    if attr == 'cycle':
        return Opaque(('cycle',), 'any')
    if attr == 'accumulate':
        def acc(I2, a, k):
            out = []
            for x in conc(I2, a[0]):
                out.append(x if not out else I2.binop('Add', out[-1], x))
            return tuple(out)
        return Builtin(attr, acc)
    return Opaque(('itertools', attr), 'any')


# --------------------------------------------------------------------------
# numpy
# --------------------------------------------------------------------------
def axis_of(a, k, i, default=None):
    v = a[i] if len(a) > i else k.get('axis', default)
    if v is None:
        return None
    if isinstance(v, tuple):
        return v
    return const_int(v)


def shape_of(M, I, v):
    if isinstance(v, (AList, tuple)):
        return [as_poly(x) for x in M.concrete(I, v)]
    if isarr(v) and v.ndim:
        return [as_poly(x) for x in v]
    p = as_poly(v)
    if p is None:
        I.undecided('array shape')
    return [p]


def filled(M, I, shape, val, dtype, what):
    cs = [const_int(p) for p in shape]
    if all(c is not None for c in cs):
        if any(c < 0 for c in cs):
            raise AbsRaise('ValueError', 'negative dimensions', I.loc)
        a = np.empty(tuple(cs), dtype=object)
        a[...] = val
        if dtype is not None and M.int_type(dtype, I):
            M.mark_int(a)
        elif M.lossy_type(I, dtype) == 'single':
            a = M.to_single(I, a)
        return a
    if len(shape) == 2 and isinstance(val, Poly) and not val.t:
        m = AMat('%s@%s' % (what, I.loc[2]), tuple(al.expand_defs(s) for s in shape))
        m.dtype = dtype
        I.effect('matrix-create', mat=m)
        return m
    if len(shape) == 1 and isinstance(val, Poly):
        c = M.colls.get(al.expand_defs(shape[0]))
        if c is not None:
            r = SymColl('%s(%s)' % (what, c.name), [val for _ in c.reps], c.pos, c.length)
            r.is_array = True
            return r
        if as_poly(shape[0]) is not None and al.sym('K', True).t == shape[0].t:
            return KArr(val)
    return Top('array of shape %s at %s' % (tuple(shape), I.where()))


def fold(op):
    def f(xs):
        for x in xs:
            if isinstance(x, Top):
                return x
        if op == 'sum':
            s = ZERO
            for x in xs:
                s = s + lift_any(x)
            return s
        if op == 'prod':
            s = ONE
            for x in xs:
                s = s*lift_any(x)
            return s
        if op == 'mean':
            s = ZERO
            for x in xs:
                s = s + lift_any(x)
            return s/len(xs)
        if op == 'max':
            return al.pmax([lift_any(x) for x in xs])
        return al.pmin([lift_any(x) for x in xs])
    return f


def lift_any(x):
    p = as_poly(x)
    if p is None:
        if isinstance(x, KArr):
            return x
        raise Undecided('reduction over %s' % type(x).__name__)
    return p


def np_attr(M, I, mod, attr):
    if attr in ('linalg', 'random', 'lib', 'testing', 'ma', 'core', 'sparse', 'spatial') and mod in ('numpy', 'scipy'):
        return I.module(mod + '.' + attr)
    if mod == 'math' and attr in ('prod', 'sumprod'):
        def mprod(I2, a, k):
            if attr == 'sumprod':
                xs = [I2.binop('Mult', x, y) for x, y in zip(M.concrete(I2, a[0]), M.concrete(I2, a[1]))]
            elif isinstance(a[0], (SymSeq, SymArr, SymArrView, IdxSeq, SymColl)) and not k:
                return NPF['prod'](M, I2, a, k)
            else:
                xs = M.concrete(I2, a[0])
            r = k.get('start', ONE if attr == 'prod' else ZERO)
            for x in xs:
                r = I2.binop('Mult' if attr == 'prod' else 'Add', r, x)
            return r
        return Builtin(attr, mprod)
    if mod in ('math', 'cmath') and attr == 'isclose':
        return Builtin('isclose', lambda I2, a, k: math_isclose(M, I2, a, k))
    if attr in TYPES:
        return NpType(attr)
    if attr == 'newaxis':
        return None
    if attr == 'pi':
        a = al.intern('sym', 'pi', 'pi')
        a.pos = True
        return Poly.of_atom(a)
    if attr in ('inf', 'nan', 'Inf', 'NaN', 'infty'):
        return Top('np.' + attr)
    if attr == 'ndarray':
        return NpType('ndarray')
    f = NPF.get(attr)
    if f is None:
        return Opaque((mod, attr), 'any')
    def call(I2, a, k):
        if any(isinstance(x, (AMat, AMatT, AMatView)) for x in a[:1]) and attr in ('copyto', 'put', 'place', 'putmask') \
                or any(isinstance(x, (AMat, AMatT, AMatView)) for x in (k.get('out'),) + tuple(a[2:])) and attr != 'where':
            I2.undecided('numpy.%s() into a matrix' % attr)
        if attr != 'fill_diagonal' and any(isinstance(x, MatDer) for x in a) or attr in MAT_DERIVED and any(isinstance(x, (AMat, AMatT)) for x in a[:2]):
            if attr in ('isnan', 'isinf'):
                return MatDer(getattr(a[0], 'mat', a[0]), attr, False)
            if attr == 'isfinite':
                return MatDer(getattr(a[0], 'mat', a[0]), attr, True)
            if attr in ('any', 'all') and isinstance(a[0], MatDer):
                return a[0]
            if attr in ('allclose', 'array_equal', 'isclose') and len(a) > 1 and any(
                    isinstance(x, AMatT) and x.base is y for x, y in ((a[0], a[1]), (a[1], a[0]))):
                return MatDer(getattr(a[0], 'base', a[0]), attr, True)    # symmetry is a rule of its own
            return M.derived(I2, attr, *a)
        return f(M, I2, a, k)
    b = Builtin('np.' + attr, call)
    if attr in ('add', 'multiply', 'subtract', 'maximum', 'minimum'):
        b.sub = {'at': Builtin('at', lambda I2, a, k: ufunc_at(M, I2, attr, a)),
                 'reduce': Builtin('reduce', lambda I2, a, k: NPF[{'add': 'sum', 'multiply': 'prod', 'maximum': 'max',
                                                                 'minimum': 'min'}[attr]](
                     M, I2, a if len(a) > 1 or 'axis' in k else [a[0], ZERO], k)),
                 'outer': Builtin('outer', lambda I2, a, k: outer(M, I2, a, {'add': 'Add', 'subtract': 'Sub',
                                                                            'multiply': 'Mult'}.get(attr)))}
    return b


def ufunc_at(M, I, attr, a):
    op = {'add': 'Add', 'subtract': 'Sub', 'multiply': 'Mult'}.get(attr)
    if isinstance(a[0], AMat):
        M.mat_write(I, a[0], a[1], op, a[2], accumulate=True)
        return None
    if isarr(a[0]):
        idx = M.np_index(I, a[1], a[0].shape)
        tgt = a[0]
        n = np.arange(tgt.size).reshape(tgt.shape)[idx]
        v = a[2]
        v = M.arr(I, v)
        V = np.broadcast_to(v, n.shape)
        flat = tgt.reshape(-1)
        I.note_array_write(tgt)
        for i, x in zip(np.ravel(n), V.flat):
            flat[i] = I.binop(op, flat[i], x)
        return None
    I.undecided('ufunc.at')


def outer(M, I, a, op):
    x, y = M.arr(I, a[0]), M.arr(I, a[1])
    if not isarr(x) or not isarr(y):
        I.undecided('outer product')
    return M.arr_binop(I, op, x.reshape(-1, 1), y.reshape(1, -1))


NPF = {}
MAT_DERIVED = ('max', 'min', 'sum', 'mean', 'any', 'all', 'abs', 'isnan', 'isinf', 'isfinite', 'allclose', 'isclose',
               'sqrt', 'square', 'sign', 'amax', 'amin', 'absolute', 'fabs', 'array_equal', 'argmax', 'argmin',
               'count_nonzero', 'trace', 'diag', 'diagonal', 'nonzero', 'where', 'less', 'greater')


def npf(*names):
    def deco(f):
        for n in names:
            NPF[n] = f
        return f
    return deco


@npf('array', 'asarray', 'asanyarray', 'ascontiguousarray', 'asfarray', 'atleast_1d', 'copy', 'asfortranarray')
def np_array(M, I, a, k):
    v = a[0]
    dt = k.get('dtype', a[1] if len(a) > 1 else None)
    if isinstance(v, (SymSeq,)):
        I.undecided('array over a symbolic index range')
    if isinstance(v, AMat):
        if k.get('copy', True) is False:
            return maybe_copied(M, I, v, dt)
        return I.call(M.mat_attr(I, v, 'astype' if dt is not None else 'copy'), [dt] if dt is not None else [], {})
    if isinstance(v, AVec) and k.get('copy', True) is not False:
        return I.call(I.getattr(v, 'copy'), [], {})
    if isinstance(v, ASet):
        return objarray([v], ())
    r = M.arr(I, v)
    if isarr(r):
        if r is v or r.base is v:
            if k.get('copy', True) is not False:
                r2 = r.copy()
                if M.is_int(r):
                    M.mark_int(r2)
                r = r2
        if dt is not None:
            if M.int_type(dt):
                r = M.trunc(r)
                M.mark_int(r)
            elif M.lossy_type(I, dt) == 'single':
                r = M.to_single(I, r)
            elif M.is_int(r):
                r = r.copy()
        elif M.is_single(v):
            M.singles[id(r)] = r
    return r


def maybe_copied(M, I, v, dt, layout=None):
    """np.asarray and relatives: the matrix itself where type and memory layout
    fit, a copy otherwise."""
    own = v.initial == 'zero'     # created here, in C order
    if isinstance(dt, NpType) and dt.name == 'float' or isinstance(dt, Builtin) and dt.name == 'float':
        dt = NpType('float64')
    mine = getattr(v, 'dtype', None)
    if dt is not None and (M.lossy_type(I, dt) or not own or mine is not None):
        if repr(dt) != repr(mine) and (not own or M.lossy_type(I, dt) or M.lossy_type(I, mine)):
            if I.ctx.choose(('type', v.name, repr(dt)), '%s is of another type' % v.name):
                return I.call(M.mat_attr(I, v, 'astype'), [dt], {})
    if layout is not None:
        if own and layout == 'F' or not own and I.ctx.choose(('layout', v.name, layout), '%s is stored in another order' % v.name):
            return I.call(M.mat_attr(I, v, 'copy'), [], {})
    return v


def _asarray_of(layout):
    def f(M, I, a, k):
        v = a[0]
        dt = k.get('dtype', a[1] if len(a) > 1 else None)
        o = k.get('order', a[2] if len(a) > 2 else None)
        lay = layout or (o if o in ('C', 'F') else None)
        if isinstance(v, AMat):
            return maybe_copied(M, I, v, dt, lay)
        if isinstance(v, AVec):
            if dt is not None and I.ctx.choose(('type', v.name, repr(dt)), '%s is of another type' % v.name):
                return I.call(I.getattr(v, 'astype'), [dt], {})
            return v
        if isarr(v) and (dt is None or not (M.is_int(v) or M.is_single(v) or M.int_type(dt) or M.lossy_type(I, dt))):
            return v
        return np_array(M, I, a[:2], dict((x, y) for x, y in k.items() if x == 'dtype'))
    return f


NPF['asarray'] = NPF['asanyarray'] = _asarray_of(None)
NPF['ascontiguousarray'] = _asarray_of('C')
NPF['asfortranarray'] = _asarray_of('F')


@npf('zeros', 'empty')
def np_zeros(M, I, a, k):
    sh = shape_of(M, I, a[0] if a else k['shape'])
    return filled(M, I, sh, ZERO, k.get('dtype', a[1] if len(a) > 1 else None), 'zeros')


@npf('ones')
def np_ones(M, I, a, k):
    sh = shape_of(M, I, a[0] if a else k['shape'])
    return filled(M, I, sh, ONE, k.get('dtype', a[1] if len(a) > 1 else None), 'ones')


@npf('full')
def np_full(M, I, a, k):
    sh = shape_of(M, I, a[0])
    v = a[1] if len(a) > 1 else k['fill_value']
    r = filled(M, I, sh, as_poly(v), k.get('dtype'), 'full')
    if isarr(r) and isinstance(v, Poly) and v.li and 'dtype' not in k:
        M.mark_int(r)
    return r


@npf('zeros_like', 'empty_like')
def np_zeros_like(M, I, a, k):
    return like(M, I, a[0], ZERO, k.get('dtype'))


@npf('ones_like')
def np_ones_like(M, I, a, k):
    return like(M, I, a[0], ONE, k.get('dtype'))


@npf('full_like')
def np_full_like(M, I, a, k):
    return like(M, I, a[0], as_poly(a[1]), k.get('dtype'))


def like(M, I, v, val, dt):
    if isinstance(v, (AList, tuple)):
        v = M.arr(I, v)
    if isarr(v):
        r = np.empty(v.shape, dtype=object)
        r[...] = val
        if M.int_type(dt) or (dt is None and M.is_int(v)):
            M.mark_int(r)
        return r
    if isinstance(v, KArr):
        return KArr(val)
    if isinstance(v, AMat) and not val.t:
        m = AMat(M.name('zeros'), v.shape)
        I.effect('matrix-create', mat=m)
        return m
    if isinstance(v, SymColl):
        return M.coll_map(I, v, lambda r: like(M, I, r, val, dt) if isarr(r) else val)
    p = as_poly(v)
    if p is not None:
        return val
    I.undecided('zeros_like')


@npf('eye', 'identity')
def np_eye(M, I, a, k):
    n = const_int(a[0])
    if n is None:
        I.undecided('identity of unknown size')
    r = np.empty((n, n), dtype=object)
    r[...] = ZERO
    for i in range(n):
        r[i, i] = ONE
    return r


@npf('diag')
def np_diag(M, I, a, k):
    v = M.arr(I, a[0])
    if not isarr(v):
        I.undecided('diag')
    if v.ndim == 2:
        return objarray([v[i, i] for i in range(min(v.shape))])
    r = np.empty((v.size, v.size), dtype=object)
    r[...] = ZERO
    for i in range(v.size):
        r[i, i] = v[i]
    return r


@npf('arange')
def np_arange(M, I, a, k):
    r = M.builtin('range').fn(I, a, {})
    if isinstance(r, tuple):
        out = objarray(list(r))
        if all(isinstance(x, Poly) and M.integral(x) for x in r):
            M.mark_int(out)
        return out
    if isinstance(r, SymColl):
        c = SymColl(r.name, r.reps, r.pos, r.length)
        c.is_array = True
        c.partial = r.partial
        return c
    return r


@npf('diag_indices')
def np_diag_indices(M, I, a, k):
    r = np_arange(M, I, a[:1], {})
    return tuple([r]*(const_int(a[1]) if len(a) > 1 else 2))


@npf('fill_diagonal')
def np_fill_diagonal(M, I, a, k):
    if not isinstance(a[0], AMat):
        I.undecided('fill_diagonal')
    r = np_arange(M, I, [a[0].shape[0]], {})
    M.mat_write(I, a[0], (r, r), 'set', a[1])


@npf('linspace')
def np_linspace(M, I, a, k):
    n = const_int(a[2] if len(a) > 2 else k.get('num', Poly.const(50)))
    lo, hi = as_poly(a[0]), as_poly(a[1])
    if n is None or lo is None or hi is None:
        I.undecided('linspace')
    return objarray([lo + (hi - lo)*Poly.const(Fraction(i, n-1)) for i in range(n)])


def reducer(kind):
    def f(M, I, a, k):
        v = a[0]
        if isinstance(v, (SymSeq, SymArr, SymArrView, IdxSeq)):
            if kind in ('sum', 'prod'):
                return M.reduce_seq(I, kind, v)
            I.undecided('%s over a symbolic range' % kind)
        if isinstance(v, (AList, tuple)):
            v = M.arr(I, v)
        if isinstance(v, SymColl):
            return M.coll_method(I, v, kind, list(a[1:]), k)
        if isinstance(v, AVec) and len(a) == 1 and not k:
            return M.reduce_vec(I, kind, v)
        if isinstance(v, (Opaque, AMat, AVec)):
            return Top('%s of %s' % (kind, type(v).__name__))
        if isinstance(v, KArr):
            I.undecided('reduction of an evaluation array')
        if isarr(v) and v.size and all(isinstance(x, KArr) for x in v.flat):
            if v.ndim != 1 or axis_of(a, k, 1) is None:
                I.undecided('%s over the elements of an evaluation array' % kind)
            return karr_reduce(M, I, kind, v, axis_of(a, k, 1))
        return M.reduce_axis(I, v, axis_of(a, k, 1), fold(kind), I.truth(k.get('keepdims', False)))
    return f


def karr_reduce(M, I, kind, v, ax):
    r = None
    op = 'Add' if kind == 'sum' else 'Mult'
    for x in v.flat:
        r = x if r is None else I.binop(op, r, x)
    return r


for _k in ('sum', 'prod', 'mean', 'max', 'min'):
    NPF[_k] = reducer(_k)
NPF['amax'], NPF['amin'] = NPF['max'], NPF['min']
NPF['average'] = lambda M, I, a, k: NPF['mean'](M, I, a, k) if 'weights' not in k and len(a) < 3 else average(M, I, a, k)
NPF['nansum'], NPF['nanmax'] = NPF['sum'], NPF['max']
NPF['fsum'] = NPF['sum']


def average(M, I, a, k):
    w = M.arr(I, k.get('weights', a[2] if len(a) > 2 else None))
    v = M.arr(I, a[0])
    ax = axis_of(a, k, 1)
    if not isarr(v) or not isarr(w):
        I.undecided('average')
    if v.ndim > w.ndim and ax is not None:
        sh = [1]*v.ndim
        sh[ax] = w.size
        wb = w.reshape(sh)
    else:
        wb = w
    num = M.reduce_axis(I, M.arr_binop(I, 'Mult', v, wb), ax, fold('sum'))
    return I.binop('Div', num, fold('sum')(list(w.flat)))


@npf('dot', 'matmul', 'inner', 'vdot')
def np_dot(M, I, a, k):
    x = a[0] if not isinstance(a[0], (AList, tuple)) else M.arr(I, a[0])
    y = a[1] if not isinstance(a[1], (AList, tuple)) else M.arr(I, a[1])
    if isinstance(x, SymColl) and isarr(y):
        return M.coll_map(I, x, lambda r: np_dot(M, I, [r, y], {}))
    if isarr(x) and isarr(y):
        if x.ndim == 0 or y.ndim == 0:
            return I.binop('Mult', x.item() if x.ndim == 0 else x, y.item() if y.ndim == 0 else y)
        return M.matmul(I, x, y)
    if isinstance(x, Top) or isinstance(y, Top):
        return Top('product')
    if as_poly(x) is not None or as_poly(y) is not None:
        return I.binop('Mult', x, y)
    return M.matmul(I, x, y)


@npf('multi_dot')
def np_multi_dot(M, I, a, k):
    xs = M.concrete(I, a[0])
    r = xs[0]
    for x in xs[1:]:
        r = np_dot(M, I, [r, x], {})
    return r


@npf('cross')
def np_cross(M, I, a, k):
    x, y = M.arr(I, a[0]), M.arr(I, a[1])
    if isinstance(x, SymColl) or isinstance(y, SymColl) or not isarr(x) or not isarr(y):
        I.undecided('cross product')
    if x.ndim > 1 or y.ndim > 1:
        if x.ndim == 1:
            x = np.broadcast_to(x, y.shape[:-1] + x.shape)
        if y.ndim == 1:
            y = np.broadcast_to(y, x.shape[:-1] + y.shape)
        out = [np_cross(M, I, [p, q], {}) for p, q in zip(x.reshape(-1, x.shape[-1]), y.reshape(-1, y.shape[-1]))]
        return M.arr(I, tuple(out)).reshape(x.shape[:-1] + (3,)) if isarr(out[0]) else objarray(out, x.shape[:-1])
    if x.size == 2 and y.size == 2:
        return x[0]*y[1] - x[1]*y[0]
    X = list(x) + [ZERO]*(3 - x.size)
    Y = list(y) + [ZERO]*(3 - y.size)
    return objarray([X[1]*Y[2] - X[2]*Y[1], X[2]*Y[0] - X[0]*Y[2], X[0]*Y[1] - X[1]*Y[0]])


@npf('norm')
def np_norm(M, I, a, k):
    v = M.arr(I, a[0])
    if isinstance(v, SymColl):
        ax = axis_of(a, k, 2)
        if ax is not None and ax != 0:
            return M.coll_map(I, v, lambda r: np_norm(M, I, [r], {}))
        I.undecided('norm of a collection')
    if isinstance(v, AVec) and v.factor == ONE and len(a) == 1 and not k:
        return M.vec_number('normabs', v.name)
    if isinstance(v, (Top, Opaque, AVec, AMat)):
        return Top('norm')
    if len(a) > 1 and a[1] is not None or k.get('ord') is not None:
        if const_int(a[1] if len(a) > 1 else k['ord']) != 2 or v.ndim > 1 and axis_of(a, k, 2) is None:
            I.undecided('norm order')
    ax = axis_of(a, k, 2)

    def f(xs):
        s = ZERO
        for x in xs:
            s = s + lift_any(x)*lift_any(x)
        return al.psqrt(s)
    return M.reduce_axis(I, v, ax, f, I.truth(k.get('keepdims', False)))


@npf('det')
def np_det(M, I, a, k):
    v = M.arr(I, a[0])
    n = v.shape[0]
    if n == 2:
        return v[0, 0]*v[1, 1] - v[0, 1]*v[1, 0]
    if n == 3:
        return (v[0, 0]*(v[1, 1]*v[2, 2] - v[1, 2]*v[2, 1]) - v[0, 1]*(v[1, 0]*v[2, 2] - v[1, 2]*v[2, 0])
                + v[0, 2]*(v[1, 0]*v[2, 1] - v[1, 1]*v[2, 0]))
    I.undecided('determinant')


@npf('inv')
def np_inv(M, I, a, k):
    v = M.arr(I, a[0])
    n = v.shape[0]
    d = np_det(M, I, [v], {})
    if n == 2:
        r = M.arr(I, ((v[1, 1], -v[0, 1]), (-v[1, 0], v[0, 0])))
    elif n == 3:
        r = np.empty((3, 3), dtype=object)
        for i in range(3):
            for j in range(3):
                m = np.delete(np.delete(v, j, 0), i, 1)
                r[i, j] = (m[0, 0]*m[1, 1] - m[0, 1]*m[1, 0])*(1 if (i + j) % 2 == 0 else -1)
    else:
        I.undecided('inverse')
    return I.binop('Div', r, d)


def elem(name, f):
    NPF[name] = lambda M, I, a, k: M.elementwise(I, a[0], f)


elem('sqrt', al.psqrt)
elem('abs', al.pabs)
NPF['absolute'] = NPF['fabs'] = NPF['abs']
elem('square', lambda p: p*p)
elem('negative', lambda p: -p)
elem('positive', lambda p: p)
elem('reciprocal', lambda p: ONE/p)
for _n in ('sin', 'cos', 'tan', 'exp', 'log', 'arctan', 'arcsin', 'arccos', 'atan', 'asin', 'acos', 'ceil', 'floor', 'rint',
           'log10', 'deg2rad', 'rad2deg', 'radians', 'degrees', 'sinh', 'cosh', 'tanh', 'cbrt', 'log2', 'log1p', 'expm1'):
    elem(_n, (lambda nm: (lambda p: al.fn(nm, p)))(_n))


@npf('arctan2', 'atan2')
def np_arctan2(M, I, a, k):
    y, x = [M.arr(I, v) if isinstance(v, (AList, tuple)) else v for v in a[:2]]
    ok = [isarr(v) or as_poly(v) is not None for v in (x, y)]
    if not all(ok):
        I.undecided('arctan2')
    f = np.frompyfunc(lambda u, v: al.fn('arctan2', lift(u), lift(v)), 2, 1)
    r = f(y, x)
    return r if isarr(r) else as_poly(r)


for _n in ('around', 'round', 'round_'):
    elem(_n, lambda p: al.fn('round', p))
for _n in ('float64', 'real', 'squeeze'):
    elem(_n, lambda p: p)


def squeeze(M, I, a, k):
    v = M.arr(I, a[0])
    return np.squeeze(v) if isarr(v) else v


NPF['squeeze'] = squeeze


@npf('sign')
def np_sign(M, I, a, k):
    def f(p):
        s = al.sign(p)
        if s in ('+', '-', '0'):
            return Poly.const({'+': 1, '-': -1, '0': 0}[s])
        if I.decide('>', p):
            return ONE
        if I.decide('<', p):
            return Poly.const(-1)
        return ZERO
    return M.elementwise(I, a[0], f)


@npf('hypot')
def np_hypot(M, I, a, k):
    x, y = as_poly(a[0]), as_poly(a[1])
    if x is None or y is None:
        s = I.binop('Add', I.binop('Mult', a[0], a[0]), I.binop('Mult', a[1], a[1]))
        return M.elementwise(I, s, al.psqrt)
    return al.psqrt(x*x + y*y)


@npf('dist')
def math_dist(M, I, a, k):
    d = I.binop('Sub', M.arr(I, a[0]), M.arr(I, a[1]))
    return np_norm(M, I, [d], {})


def ufunc2(op):
    return lambda M, I, a, k: store_out(M, I, k, I.binop(op, num(M, I, a[0]), num(M, I, a[1])))


def num(M, I, v):
    return M.arr(I, v) if isinstance(v, (AList, tuple)) else v


def store_out(M, I, k, r):
    o = k.get('out')
    if o is not None:
        if isinstance(o, tuple):
            o = o[0]
        if isarr(o):
            I.note_array_write(o)
            o[...] = r
            return o
        if isinstance(o, KArr):
            if o.origin:
                I.effect('mutate-input', what=o.origin)
            o.val = r.val if isinstance(r, KArr) else as_poly(r)
            return o
        I.undecided('out argument')
    return r


for _n, _o in [('add', 'Add'), ('subtract', 'Sub'), ('multiply', 'Mult'), ('divide', 'Div'), ('true_divide', 'Div'),
               ('power', 'Pow'), ('pow', 'Pow'), ('floor_divide', 'FloorDiv'), ('mod', 'Mod'), ('remainder', 'Mod'),
               ('float_power', 'Pow'), ('fmod', 'Mod')]:
    NPF[_n] = ufunc2(_o)


def pairwise(kind):
    def f(M, I, a, k):
        x, y = num(M, I, a[0]), num(M, I, a[1])
        g = al.pmax if kind == 'max' else al.pmin
        if isarr(x) or isarr(y):
            X, Y = np.broadcast_arrays(x if isarr(x) else objarray([as_poly(x)], ()),
                                       y if isarr(y) else objarray([as_poly(y)], ()))
            return objarray([g([as_poly(p), as_poly(q)]) for p, q in zip(X.flat, Y.flat)], X.shape)
        if isinstance(x, KArr) or isinstance(y, KArr):
            px = x.val if isinstance(x, KArr) else as_poly(x)
            py = y.val if isinstance(y, KArr) else as_poly(y)
            return KArr(g([px, py]))
        return g([as_poly(x), as_poly(y)])
    return f


NPF['maximum'] = NPF['fmax'] = pairwise('max')
NPF['minimum'] = NPF['fmin'] = pairwise('min')


def cmpf(op):
    return lambda M, I, a, k: M.compare(I, op, num(M, I, a[0]), num(M, I, a[1]))


for _n, _o in [('less', 'Lt'), ('less_equal', 'LtE'), ('greater', 'Gt'), ('greater_equal', 'GtE'), ('equal', 'Eq'),
               ('not_equal', 'NotEq')]:
    NPF[_n] = cmpf(_o)


def within(M, I, x, y, rtol, atol, symmetric=False):
    """|x - y| <= atol + rtol*|y|: true of equal values, of others it may or
    may not be"""
    if symmetric:
        bound = al.pmax([rtol*al.pmax([al.pabs(x), al.pabs(y)]), atol])
    else:
        bound = atol + rtol*al.pabs(y)
    if not (x - y).t:
        return True
    return I.decide('<=', al.pabs(al.expand_defs(x - y)) - bound)


def tolerances(a, k, names, defaults):
    out = []
    for i, (n, v) in enumerate(zip(names, defaults)):
        p = as_poly(k[n]) if n in k else as_poly(a[2+i]) if len(a) > 2+i else None
        out.append(p if p is not None else Poly.const(v))
    return out


@npf('isclose')
def np_isclose(M, I, a, k):
    x, y = num(M, I, a[0]), num(M, I, a[1])
    if isinstance(x, AVec) and as_poly(y) is not None and not as_poly(y).t:
        x = M.vec_number('maxabs', x.name)
    rt, at = tolerances(a, k, ('rtol', 'atol'), (Fraction(1, 10**5), Fraction(1, 10**8)))
    if all(isarr(v) or as_poly(v) is not None for v in (x, y)):
        if not isarr(x) and not isarr(y):
            return within(M, I, as_poly(x), as_poly(y), rt, at)
        X, Y = np.broadcast_arrays(*[v if isarr(v) else objarray([as_poly(v)], ()) for v in (x, y)])
        if all(as_poly(v) is not None for v in list(X.flat) + list(Y.flat)):
            return objarray([within(M, I, as_poly(p), as_poly(q), rt, at) for p, q in zip(X.flat, Y.flat)], X.shape)
    return M.compare(I, 'Eq', x, y)


def math_isclose(M, I, a, k):
    x, y = as_poly(a[0]), as_poly(a[1])
    if x is None or y is None:
        I.undecided('math.isclose')
    rt, at = tolerances([], k, ('rel_tol', 'abs_tol'), (Fraction(1, 10**9), 0))
    if not at.t and not (x.t and y.t):
        return M.compare(I, 'Eq', x, y)
    return within(M, I, x, y, rt, at, True)


@npf('allclose')
def np_allclose(M, I, a, k):
    r = np_isclose(M, I, a, k)
    return all(I.truth(x) for x in (r.flat if isarr(r) else [r]))


@npf('array_equal')
def np_array_equal(M, I, a, k):
    r = M.compare(I, 'Eq', num(M, I, a[0]), num(M, I, a[1]))
    return all(I.truth(x) for x in (r.flat if isarr(r) else [r]))


@npf('isnan', 'isinf')
def np_isnan(M, I, a, k):
    return M.elementwise(I, a[0], lambda p: False) if isarr(a[0]) else False


@npf('isfinite')
def np_isfinite(M, I, a, k):
    return M.elementwise(I, a[0], lambda p: True) if isarr(a[0]) else True


def any_all(kind, test):
    def f(M, I, a, k):
        v = M.arr(I, a[0])
        ax = axis_of(a, k, 1)
        if isinstance(v, AVec):
            return M.reduce_vec(I, kind, v)
        if isarr(v) and ax is not None and v.ndim > 1:
            w = np.moveaxis(v, ax, -1)
            r = np.empty(w.shape[:-1], dtype=object)
            for ix in np.ndindex(*r.shape):
                r[ix] = test([I.truth(x) for x in w[ix]])
            return r
        if isarr(v):
            return test(I.truth(x) for x in v.flat)
        if isinstance(v, SymColl):
            return test(I.truth(x) for x in v.reps)
        return I.truth(v)
    return f


NPF['any'], NPF['all'] = any_all('any', any), any_all('all', all)


@npf('count_nonzero')
def np_count_nonzero(M, I, a, k):
    v = M.arr(I, a[0])
    return Poly.const(sum(1 for x in v.flat if I.truth(x)))


@npf('where')
def np_where(M, I, a, k):
    c = a[0]
    if len(a) == 1:
        v = M.arr(I, c)
        if isarr(v) and v.ndim == 1:
            return (M.mark_int(objarray([Poly.const(i) for i, x in enumerate(v) if I.truth(x)])),)
        I.undecided('where')
    if isarr(c):
        X, Y = [M.arr(I, x) for x in a[1:3]]
        C, X, Y = np.broadcast_arrays(c, X, Y)
        return objarray([x if I.truth(t) else y for t, x, y in zip(C.flat, X.flat, Y.flat)], C.shape)
    return a[1] if I.truth(c) else a[2]


@npf('nonzero', 'flatnonzero')
def np_nonzero(M, I, a, k):
    v = M.arr(I, a[0])
    r = M.mark_int(objarray([Poly.const(i) for i, x in enumerate(v) if I.truth(x)]))
    return r


NPF['nonzero'] = lambda M, I, a, k: (np_nonzero(M, I, a, k),)


def joiner(kind):
    def f(M, I, a, k):
        c = a[0]
        if isinstance(c, SymColl) and kind in ('stack', 'vstack') and const_int(axis_of(a, k, 1, ZERO)) in (0, None) and \
                all(isarr(r) and r.ndim == 1 for r in c.reps):
            return M.arr(I, c)
        xs = M.concrete(I, c)
        xs = [M.arr(I, x) for x in xs]
        if any(not isarr(x) for x in xs):
            I.undecided(kind)
        ax = axis_of(a, k, 1, ZERO)
        try:
            if kind == 'concatenate':
                return np.concatenate(xs, axis=ax)
            if kind == 'stack':
                return np.stack(xs, axis=ax)
            return getattr(np, kind)(xs)
        except ValueError:
            raise AbsRaise('ValueError', kind, I.loc)
    return f


for _n in ('concatenate', 'stack', 'hstack', 'vstack', 'column_stack', 'dstack'):
    NPF[_n] = joiner(_n)
NPF['row_stack'] = NPF['vstack']


@npf('block')
def np_block(M, I, a, k):
    def rec(v):
        if isinstance(v, (AList, tuple)):
            return [rec(x) for x in M.concrete(I, v)]
        v = M.arr(I, v)
        return v
    return np.block(rec(a[0]))


@npf('append')
def np_append(M, I, a, k):
    x, y = M.arr(I, a[0]), M.arr(I, a[1])
    if not isarr(x) or not isarr(y):
        I.undecided('append')
    ax = axis_of(a, k, 2)
    if ax is None:
        return np.concatenate([x.ravel(), y.ravel()])
    return np.concatenate([x, y], axis=ax)


@npf('insert', 'delete')
def np_ins(M, I, a, k):
    I.undecided('np.insert/delete')


def np_delete(M, I, a, k):
    v = M.arr(I, a[0])
    if isarr(v):
        i = M.np_index1(I, a[1])
        return np.delete(v, i, axis_of(a, k, 2))
    if isinstance(v, (SymArr, SymArrView, IdxSeq)):
        m = as_poly(a[1])
        s = M.seq_binop(I, 'Add', v, ZERO)
        return Deleted(s, m)
    I.undecided('delete')


class Deleted(object):
    """all elements of an index sequence but one"""

    def __init__(self, s, m):
        self.s, self.m = s, m


NPF['delete'] = np_delete


@npf('outer')
def np_outer(M, I, a, k):
    return outer(M, I, a, 'Mult')


@npf('kron')
def np_kron(M, I, a, k):
    x, y = M.arr(I, a[0]), M.arr(I, a[1])
    if x.ndim == 2 and y.ndim == 2:
        out = np.empty((x.shape[0]*y.shape[0], x.shape[1]*y.shape[1]), dtype=object)
        for i in range(x.shape[0]):
            for j in range(x.shape[1]):
                out[i*y.shape[0]:(i+1)*y.shape[0], j*y.shape[1]:(j+1)*y.shape[1]] = M.arr_binop(I, 'Mult', y, as_poly(x[i, j]))
        return out
    if x.ndim == 1 and y.ndim == 1:
        return outer(M, I, [x, y], 'Mult').reshape(-1)
    I.undecided('kron')


@npf('einsum')
def np_einsum(M, I, a, k):
    spec = a[0]
    ops = [M.arr(I, x) for x in a[1:]]
    if not isinstance(spec, str) or any(not isarr(x) for x in ops):
        I.undecided('einsum')
    spec = spec.replace(' ', '')
    if '...' in spec:
        I.undecided('einsum with an ellipsis')
    if '->' in spec:
        ins, out = spec.split('->')
    else:
        ins = spec
        letters = sorted(set(ins.replace(',', '')))
        out = ''.join(c for c in letters if ins.count(c) == 1)
    ins = ins.split(',')
    dims = {}
    for s, x in zip(ins, ops):
        if len(s) != x.ndim:
            raise AbsRaise('ValueError', 'einsum', I.loc)
        for c, n in zip(s, x.shape):
            if dims.setdefault(c, n) != n:
                raise AbsRaise('ValueError', 'einsum', I.loc)
    import itertools
    summed = [c for c in dims if c not in out]
    oshape = tuple(dims[c] for c in out)
    res = []
    for oi in itertools.product(*[range(dims[c]) for c in out]):
        env = dict(zip(out, oi))
        s = ZERO
        for si in itertools.product(*[range(dims[c]) for c in summed]):
            env.update(zip(summed, si))
            t = ONE
            for sub, x in zip(ins, ops):
                t = t*lift_any(x[tuple(env[c] for c in sub)])
                if not t.t:
                    break
            s = s + t
        res.append(s)
    if not oshape:
        return res[0]
    return objarray(res, oshape)


@npf('tensordot')
def np_tensordot(M, I, a, k):
    x, y = M.arr(I, a[0]), M.arr(I, a[1])
    ax = a[2] if len(a) > 2 else k.get('axes', Poly.const(2))
    n = const_int(ax)
    if n is None:
        l, r = M.concrete(I, ax)
        l = [const_int(t) for t in (M.concrete(I, l) if isinstance(l, (AList, tuple)) else [l])]
        r = [const_int(t) for t in (M.concrete(I, r) if isinstance(r, (AList, tuple)) else [r])]
    else:
        l = list(range(x.ndim - n, x.ndim))
        r = list(range(n))
    lx = [i for i in range(x.ndim) if i not in [t % x.ndim for t in l]]
    ry = [i for i in range(y.ndim) if i not in [t % y.ndim for t in r]]
    xt = x.transpose(lx + [t % x.ndim for t in l])
    yt = y.transpose([t % y.ndim for t in r] + ry)
    m = int(np.prod([x.shape[t] for t in l])) if l else 1
    out = M.matmul(I, xt.reshape(-1, m), yt.reshape(m, -1))
    shp = tuple(x.shape[i] for i in lx) + tuple(y.shape[i] for i in ry)
    return out.reshape(shp) if shp else out.item()


@npf('transpose')
def np_transpose(M, I, a, k):
    v = a[0] if not isinstance(a[0], (AList, tuple)) else M.arr(I, a[0])
    if isinstance(v, AMat):
        return AMatT(v)
    ax = a[1] if len(a) > 1 else k.get('axes')
    return v.transpose([const_int(x) for x in M.concrete(I, ax)]) if ax is not None else v.T


@npf('reshape')
def np_reshape(M, I, a, k):
    v = a[0] if not isinstance(a[0], (AList, tuple)) else M.arr(I, a[0])
    return I.call(I.getattr(v, 'reshape'), [a[1]], {})


@npf('ravel')
def np_ravel(M, I, a, k):
    v = a[0]
    o = k.get('order', a[1] if len(a) > 1 else 'C')
    if isinstance(v, AObj) and 'ravel' in v.methods:
        # numpy converts the matrix to an array in C order first
        if o == 'K' or o == 'A':
            o = 'C'
        return v.methods['ravel'](I, [], {'order': o})
    v = M.arr(I, v)
    if isarr(v):
        if o in ('K', 'A') and v.flags.f_contiguous and not v.flags.c_contiguous:
            o = 'F'
        return v.ravel(order=o if o in ('C', 'F') else 'C')
    if isinstance(v, Opaque):
        return Opaque(('ravel', v.key), 'any')
    return v


@npf('ndenumerate')
def np_ndenumerate(M, I, a, k):
    v = a[0]
    if isinstance(v, AObj) and 'ndenumerate' in v.methods:
        return v.methods['ndenumerate'](I, [], {})
    v = M.arr(I, v)
    if isarr(v):
        return tuple((tuple(Poly.const(i) for i in ix), v[ix]) for ix in np.ndindex(*v.shape))
    return Opaque(('ndenumerate', M.keyof(v)), 'any')


@npf('ndindex')
def np_ndindex(M, I, a, k):
    if len(a) == 1 and isinstance(a[0], (tuple, AList)):
        a = M.concrete(I, a[0])
    c = [const_int(x) for x in a]
    if any(x is None for x in c):
        I.undecided('ndindex')
    return tuple(tuple(Poly.const(i) for i in ix) for ix in np.ndindex(*c))


@npf('shape')
def np_shape(M, I, a, k):
    v = M.arr(I, a[0])
    return I.getattr(v, 'shape')


@npf('ndim')
def np_ndim(M, I, a, k):
    v = M.arr(I, a[0])
    return I.getattr(v, 'ndim')


@npf('size')
def np_size(M, I, a, k):
    v = M.arr(I, a[0])
    return I.getattr(v, 'size')


@npf('roll')
def np_roll(M, I, a, k):
    v = M.arr(I, a[0])
    n = const_int(a[1] if len(a) > 1 else k['shift'])
    if not isarr(v) or n is None:
        I.undecided('roll')
    return np.roll(v, n, axis=axis_of(a, k, 2))


@npf('flip', 'flipud', 'fliplr')
def np_flip(M, I, a, k):
    v = M.arr(I, a[0])
    return np.flip(v, axis=axis_of(a, k, 1))


@npf('diff')
def np_diff(M, I, a, k):
    v = M.arr(I, a[0])
    if not isarr(v):
        I.undecided('diff')
    v = np.moveaxis(v, axis_of(a, k, 2, Poly.const(-1)), -1)
    r = M.arr_binop(I, 'Sub', v[..., 1:], v[..., :-1])
    return np.moveaxis(r, -1, axis_of(a, k, 2, Poly.const(-1)))


@npf('cumsum')
def np_cumsum(M, I, a, k):
    v = M.arr(I, a[0])
    out = []
    s = ZERO
    for x in v.flat:
        s = s + lift_any(x)
        out.append(s)
    return objarray(out)


@npf('trace')
def np_trace(M, I, a, k):
    v = M.arr(I, a[0])
    return fold('sum')([v[i, i] for i in range(min(v.shape))])


@npf('sort')
def np_sort(M, I, a, k):
    v = M.arr(I, a[0])
    if isarr(v) and v.ndim == 1:
        return objarray(M.sort(I, list(v)))
    I.undecided('sort')


@npf('argsort')
def np_argsort(M, I, a, k):
    v = M.arr(I, a[0])
    if isinstance(v, SymColl):
        return M.argsort(I, v)
    if isarr(v) and v.ndim == 1:
        its = [(x, i) for i, x in enumerate(v)]
        out = M.sort(I, [Poly.const(i) for i in range(len(v))], Builtin('key', lambda I2, b, kw: v[const_int(b[0])]))
        return M.mark_int(objarray(out))
    I.undecided('argsort')


@npf('lexsort')
def np_lexsort(M, I, a, k):
    ks = M.concrete(I, a[0])
    v = M.arr(I, ks[-1])
    if isinstance(v, SymColl):
        return M.argsort(I, v)
    I.undecided('lexsort')


@npf('argmin', 'argmax')
def np_argmin(M, I, a, k):
    I.undecided('argmin')


def argext(kind):
    def f(M, I, a, k):
        v = M.arr(I, a[0])
        if not isarr(v) or v.ndim != 1:
            I.undecided('arg' + kind)
        best = 0
        for i in range(1, v.size):
            if I.truth(M.compare(I, 'Gt' if kind == 'max' else 'Lt', v[i], v[best])):
                best = i
        return Poly.const(best)
    return f


NPF['argmin'], NPF['argmax'] = argext('min'), argext('max')


@npf('unique')
def np_unique(M, I, a, k):
    v = M.arr(I, a[0])
    if isarr(v):
        out = []
        for x in v.flat:
            if not any(I.same(x, y) for y in out):
                out.append(x)
        srt = M.sort(I, out)
        r = objarray(srt)
        if M.is_int(v):
            M.mark_int(r)
        if I.truth(k.get('return_inverse', False)):
            inv = []
            for x in v.flat:
                for j, y in enumerate(srt):
                    if I.same(x, y):
                        inv.append(Poly.const(j))
                        break
            return (r, M.mark_int(objarray(inv)))
        return r
    I.undecided('unique')


@npf('searchsorted')
def np_searchsorted(M, I, a, k):
    v = M.arr(I, a[0])
    if not isarr(v):
        I.undecided('searchsorted')

    def one(x):
        n = 0
        for y in v:
            if I.truth(M.compare(I, 'Lt', y, x)):
                n += 1
            else:
                break
        return Poly.const(n)
    x = M.arr(I, a[1]) if isinstance(a[1], (AList, tuple)) else a[1]
    if isarr(x):
        return M.mark_int(objarray([one(p) for p in x.flat], x.shape))
    return one(x)


@npf('isin', 'in1d')
def np_isin(M, I, a, k):
    v, w = M.arr(I, a[0]), M.concrete(I, a[1])
    return objarray([any(I.same(x, y) for y in w) for x in v.flat], v.shape)


@npf('setdiff1d')
def np_setdiff1d(M, I, a, k):
    v, w = M.concrete(I, a[0]), M.concrete(I, a[1])
    out = []
    for x in v:
        if not any(I.same(x, y) for y in w) and not any(I.same(x, y) for y in out):
            out.append(x)
    return objarray(M.sort(I, out))


@npf('ix_')
def np_ix(M, I, a, k):
    arrs = [M.arr(I, x) for x in a]
    if any(not isarr(x) for x in arrs):
        I.undecided('ix_')
    n = len(arrs)
    out = []
    for i, x in enumerate(arrs):
        sh = [1]*n
        sh[i] = x.size
        out.append(x.reshape(sh))
    return tuple(out)


@npf('meshgrid')
def np_meshgrid(M, I, a, k):
    arrs = [M.arr(I, x) for x in a]
    if any(not isarr(x) for x in arrs) or len(arrs) != 2:
        I.undecided('meshgrid')
    x, y = arrs
    X = np.broadcast_to(x.reshape(1, -1), (y.size, x.size))
    Y = np.broadcast_to(y.reshape(-1, 1), (y.size, x.size))
    if k.get('indexing') == 'ij':
        return I.new_list([X.T, Y.T])
    return I.new_list([X, Y])


@npf('repeat')
def np_repeat(M, I, a, k):
    v = M.arr(I, a[0])
    n = const_int(a[1])
    if not isarr(v) or n is None:
        I.undecided('repeat')
    return np.repeat(v, n, axis=axis_of(a, k, 2))


@npf('tile')
def np_tile(M, I, a, k):
    v = M.arr(I, a[0])
    n = const_int(a[1])
    if n is None:
        n = tuple(const_int(x) for x in M.concrete(I, a[1]))
    return np.tile(v, n)


@npf('broadcast_to')
def np_broadcast_to(M, I, a, k):
    v = M.arr(I, a[0])
    return np.broadcast_to(v, tuple(const_int(x) for x in shape_of(M, I, a[1])))


@npf('expand_dims', 'atleast_2d')
def np_expand(M, I, a, k):
    v = M.arr(I, a[0])
    ax = axis_of(a, k, 1, ZERO)
    return np.expand_dims(v, ax)


@npf('clip')
def np_clip(M, I, a, k):
    lo, hi = a[1] if len(a) > 1 else None, a[2] if len(a) > 2 else None

    def f(p):
        if lo is not None:
            p = al.pmax([p, as_poly(lo)])
        if hi is not None:
            p = al.pmin([p, as_poly(hi)])
        return p
    return M.elementwise(I, a[0], f)


@npf('errstate', 'seterr', 'printoptions', 'set_printoptions')
def np_errstate(M, I, a, k):
    o = AObj(ExtClass('errstate'), 'errstate', True)
    return o


@npf('result_type', 'dtype', 'promote_types')
def np_dtype(M, I, a, k):
    return NpType('float64')


@npf('vectorize')
def np_vectorize(M, I, a, k):
    f = a[0]
    return Builtin('vectorized', lambda I2, b, kw: objarray([I2.call(f, [x], {}) for x in M.arr(I2, b[0]).flat],
                                                           M.arr(I2, b[0]).shape))


@npf('fromiter')
def np_fromiter(M, I, a, k):
    return np_array(M, I, [a[0]], {})


def triangle(keep):
    def f(M, I, a, k):
        v = M.arr(I, a[0])
        sh = const_int(a[1] if len(a) > 1 else k.get('k', ZERO))
        if not isarr(v) or v.ndim < 2 or sh is None:
            I.undecided('triangular part')
        r = v.copy()
        for ix in np.ndindex(*v.shape):
            if not keep(ix[-1] - ix[-2], sh):
                r[ix] = ZERO
        return r
    return f


NPF['triu'], NPF['tril'] = triangle(lambda d, k: d >= k), triangle(lambda d, k: d <= k)


@npf('triu_indices', 'tril_indices')
def np_tri_indices(M, I, a, k):
    I.undecided('indices of a triangular part')


@npf('may_share_memory', 'shares_memory')
def np_share(M, I, a, k):
    return Opaque(('shares',), 'bool')


@npf('isscalar')
def np_isscalar(M, I, a, k):
    return isinstance(a[0], Poly)


@npf('trapz', 'polyfit')
def np_unmodelled(M, I, a, k):
    I.undecided('numpy function')
