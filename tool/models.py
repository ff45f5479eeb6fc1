"""Models of the Python built-ins, numpy, pyNastran, sympy and re operations
used by the analysed program, over the abstract values of engine.py."""
import numpy as np

import algebra as al
from algebra import Poly, lift, ZERO, ONE, Fraction
import engine as en
from engine import (Undecided, AbsRaise, Top, Stale, AList, ADict, ASet, SymColl,
                    SymSeq, AObj, AClass, ExtClass, AFunc, AMethod, Builtin,
                    AModule, AStr, mkstr, Opaque, AMat, AMatT, MatDer, AVec, SymArr,
                    KArr, Slice, IndexDomain, as_poly, const_int, objarray,
                    reduction)


class LoopItem(object):
    """Item appended to an outer list by one representative of a summarised
    loop."""

    def __init__(self, lid, r, value, pos, dom):
        self.lid, self.r, self.value, self.pos, self.dom = lid, r, value, pos, dom

    def __repr__(self):
        return 'LoopItem(%s,%s,%r)' % (self.lid, self.r, self.value)


class DictView(object):
    def __init__(self, d, kind):
        self.d, self.kind = d, kind


def same_class(p, q, dof=5):
    """may two row numbers of a matrix agree? (not if they address different
    degrees of freedom)"""
    d = lift(p) - lift(q)
    c = d.t.get((), 0)
    for m, f in d.t.items():
        if m and (Fraction(f) / dof).denominator != 1 or m and any(al.atom(i).kind not in ('sym', 'app') for i, e in m):
            return True
    return (Fraction(c) / dof).denominator == 1


class IdxSeq(object):
    """Sequence indexed by an unknown number of integers."""

    def __init__(self, key, mk):
        self.key, self.mk = key, mk


class ListIter(object):
    def __init__(self, items):
        self.items = list(items)
        self.i = 0


class NpType(object):
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'dtype:' + self.name


class BoundName(object):
    pass


PYEXC = {}


def _exc(name, *bases):
    PYEXC[name] = ExtClass(name, None, tuple(PYEXC[b] for b in bases))


_exc('BaseException')
_exc('Exception', 'BaseException')
for _n, _b in [('ArithmeticError', 'Exception'), ('LookupError', 'Exception'),
               ('AssertionError', 'Exception'), ('AttributeError', 'Exception'),
               ('ImportError', 'Exception'), ('NameError', 'Exception'),
               ('OSError', 'Exception'), ('RuntimeError', 'Exception'),
               ('SyntaxError', 'Exception'), ('TypeError', 'Exception'),
               ('ValueError', 'Exception'), ('StopIteration', 'Exception'),
               ('Warning', 'Exception'), ('UserWarning', 'Warning'),
               ('DeprecationWarning', 'Warning'), ('RuntimeWarning', 'Warning'),
               ('KeyboardInterrupt', 'BaseException'),
               ('SystemExit', 'BaseException'),
               ('ZeroDivisionError', 'ArithmeticError'),
               ('FloatingPointError', 'ArithmeticError'),
               ('OverflowError', 'ArithmeticError'),
               ('KeyError', 'LookupError'), ('IndexError', 'LookupError'),
               ('ModuleNotFoundError', 'ImportError'),
               ('UnboundLocalError', 'NameError'),
               ('FileNotFoundError', 'OSError'),
               ('NotImplementedError', 'RuntimeError'),
               ('RecursionError', 'RuntimeError'),
               ('UnicodeError', 'ValueError')]:
    _exc(_n, _b)
PYEXC['IOError'] = PYEXC['OSError']
PYEXC['EnvironmentError'] = PYEXC['OSError']


def isarr(v):
    return isinstance(v, np.ndarray)


def pos_pad(shape):
    return shape


CMP = {'Lt': '<', 'LtE': '<=', 'Gt': '>', 'GtE': '>=', 'Eq': '==', 'NotEq': '!='}


class Models(object):
    def __init__(self):
        self.origins = {}      # id(array) -> (array, name)
        self.ints = {}         # id(array) -> array of integer dtype
        self.singles = {}      # id(array) -> array of single precision
        self.colls = {}
        self.loose = set()     # those of an arbitrary row or column
        self.entries = {}       # symbols of matrix entries that were read
        self.hooks = {}        # (module name, function name) -> callable
        self.ext = {}          # (module, attribute) -> modelled value
        self.text_helper = None
        self.opaque_truth = None
        self.mesh_source = None    # what read_bdf returns
        self.fresh = 0
        self.int_atoms = set()
        self.opaque_order = None   # known text of an opaque string
        self._bi = None

    # ------------------------------------------------------------------
    def name(self, p='v'):
        self.fresh += 1
        return '%s%d' % (p, self.fresh)

    def set_origin(self, arr, name):
        self.origins[id(arr)] = (arr, name)

    def array_origin(self, arr):
        a = arr
        n = 0
        while a is not None and n < 20:
            if id(a) in self.origins and self.origins[id(a)][0] is a:
                return self.origins[id(a)][1]
            a = getattr(a, 'base', None)
            n += 1
        return None

    def mark_int(self, arr):
        self.ints[id(arr)] = arr
        return arr

    def int_input(self, arr):
        """an input array of integer type"""
        for x in arr.flat:
            self.int_atoms |= set(x.all_atoms())
        return self.mark_int(arr)

    def is_int(self, arr, which=None):
        which = self.ints if which is None else which
        a = arr
        n = 0
        while a is not None and n < 20:
            if id(a) in which and which[id(a)] is a:
                return True
            a = getattr(a, 'base', None)
            n += 1
        return False

    def is_single(self, arr):
        return bool(self.singles) and self.is_int(arr, self.singles)

    def to_single(self, I, arr, mark=True):
        r = objarray([self.cast(I, 'float32', x) for x in arr.flat], arr.shape)
        if mark:
            self.singles[id(r)] = r
        return r

    def exc_names(self, name):
        c = PYEXC.get(name)
        return set(c.mro_names()) if c else set([name, 'Exception', 'BaseException'])

    def call_hook(self, I, f, loc):
        h = self.hooks.get((f.module.name, f.name)) or self.hooks.get(f.name)
        if h is None:
            if self.text_helper is not None:
                return self.text_helper(I, f, loc)
            return None
        return h(I, f, loc)

    def local_key(self, I, key):
        """Guards on distinct nodes: X[i]-X[m] vanishes iff i-m does."""
        p = key[1]
        if key[0] == '==' and len(p.t) == 2:
            (m1, c1), (m2, c2) = p.t.items()
            if len(m1) == 1 and len(m2) == 1 and m1[0][1] == 1 and m2[0][1] == 1 and c1 == -c2:
                a, b = al.atom(m1[0][0]), al.atom(m2[0][0])
                if a.kind == 'app' and b.kind == 'app' and a.args[0] == b.args[0] and len(a.args) == 2:
                    d = a.args[1] - b.args[1]
                    if not d.t:
                        return True
                    if d.is_const():
                        return False
                    c, m, Q = al.canon(d)
                    return ('==', Poly({m: 1})*Q if m else Q)
        return key

    # ------------------------------------------------------------------
    # iteration
    # ------------------------------------------------------------------
    def list_domain(self, I, lst):
        if not any(isinstance(x, LoopItem) for x in lst.items):
            return list(lst.items)
        its = lst.items
        lids = set(x.lid if isinstance(x, LoopItem) else None for x in its)
        reps, pos = [], []
        count = {}
        for x in its:
            if isinstance(x, LoopItem):
                reps.append(x.value)
                pos.append(x.pos)
                count[(x.lid, x.r)] = count.get((x.lid, x.r), 0) + 1
            else:
                reps.append(x)
                pos.append(None)
        c = getattr(lst, '_coll', None)
        if c is not None and len(c.reps) == len(reps) and all(a is b for a, b in zip(c.reps, reps)):
            return c
        dom = its[-1].dom if isinstance(its[-1], LoopItem) else None
        if len(lids) == 1 and None not in lids and all(v == 1 for v in count.values()) \
                and len(count) == len(dom.reps):
            c = SymColl('list(%s)' % dom.name, reps, pos, dom.length)
            c.partial = dom.partial
            if getattr(lst, 'filtered', False):
                c.filtered = True
        else:
            nm = self.name('list')
            c = SymColl(nm, reps)
            c.filtered = True
            if dom is not None:
                c.partial = dom.partial
        lst._coll = c
        return c

    def iterate(self, I, v):
        if isinstance(v, AList):
            return self.list_domain(I, v)
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, list):
            return v
        if isinstance(v, str):
            return list(v)
        if isarr(v):
            if v.ndim == 0:
                raise AbsRaise('TypeError', 'iteration over a 0-d array', I.loc)
            return [self.scalar(v[i]) for i in range(v.shape[0])]
        if isinstance(v, ADict):
            return self.iterate(I, DictView(v, 'keys'))
        if isinstance(v, DictView):
            d = v.d
            if v.kind == 'keys':
                its = list(d.keys)
            elif v.kind == 'values':
                its = list(d.vals)
            else:
                its = list(zip(d.keys, d.vals))
            if d.sym is not None:
                c = SymColl(d.sym.name, its, d.sym.pos if len(d.sym.pos) == len(its) else None,
                            d.length if d.length is not None else d.sym.length)
                c.partial = d.sym.partial
                return c
            return its
        if isinstance(v, ASet):
            its = list(v.items)
            if I.ctx.set_reverse:
                its = its[::-1]
            if v.sym is not None:
                c = SymColl(v.sym.name, its)
                c.unordered = True
                return c
            return its
        if isinstance(v, SymColl):
            return v
        if isinstance(v, IdxSeq):
            b = I.new_bound(v.key)
            return IndexDomain(v.key, b, v.mk)
        if isinstance(v, SymArr) and len(v.lens) == 1:
            b = I.new_bound(str(v.lens[0]))
            return IndexDomain(str(v.lens[0]), b, lambda i: v.entry((i,)))
        if isinstance(v, SymArr):
            b = I.new_bound(str(v.lens[0]))
            return IndexDomain(str(v.lens[0]), b, lambda i: SymArrView(v, (i,)))
        if isinstance(v, SymArrView):
            n = v.arr.lens[len(v.idx)]
            b = I.new_bound(str(n))
            return IndexDomain(str(n), b, lambda i: v.index(i))
        if isinstance(v, ListIter):
            r = v.items[v.i:]
            v.i = len(v.items)
            return r
        if isinstance(v, Opaque):
            c = SymColl(repr(v.key), [Opaque(('item', v.key), 'any')])
            return c
        if isinstance(v, AObj):
            h = v.methods.get('__iter__')
            if h:
                return self.iterate(I, h(I, [], {}))
            if isinstance(v.cls, AClass):
                f = v.cls.lookup('__iter__')
                if f is not None:
                    return self.iterate(I, I.call(f, [v], {}))
        if v is None or isinstance(v, (Poly, bool)):
            raise AbsRaise('TypeError', 'object is not iterable', I.loc)
        I.undecided('iteration over %s' % (v,))

    def scalar(self, x):
        return x

    def concrete(self, I, v, what='value'):
        d = self.iterate(I, v)
        if isinstance(d, list):
            return d
        I.undecided('%s of unknown length where a fixed length is needed' % what)

    def unpack(self, I, v, n, star):
        if isinstance(v, Top):
            return [Top(v.why) for _ in range(n)]
        if isinstance(v, Opaque):
            return [Opaque(('unpack', i, v.key), v.kind) for i in range(n)]
        d = self.iterate(I, v)
        if isinstance(d, list):
            return d
        if isinstance(d, SymColl) and isinstance(v, AList):
            I.undecided('unpacking a list of unknown length')
        I.undecided('unpacking %s' % (v,))

    # ------------------------------------------------------------------
    # lengths of collections that grow while they are read
    # ------------------------------------------------------------------
    def added(self, v, lid):
        """members added by the passes of the loop lid, members from before it;
        None when the collection is not of that simple kind"""
        if isinstance(v, AList):
            n = 0
            for x in v.items:
                if isinstance(x, LoopItem):
                    if x.lid != (lid,):
                        return None
                    n += 1
            return n, len(v.items) - n
        if isinstance(v, ADict):
            n = len(getattr(v, '_pos', ()))
            if v.sym is not None and not n:
                return None
            return n, len(v.keys) - n
        return None

    def growing_length(self, I, v):
        deep = self.deeper(I, v.birth)
        if len(deep) != 1:
            return None
        lid, r, pos = deep[0][:3]
        fact = (lid, I.loc)
        n = self.added(v, lid)
        if n is None:
            return None
        if fact not in I.ctx.growing:
            I.len_reads.setdefault(lid, []).append((v, fact))
            return None
        t = I.len_phis.setdefault(lid, {}).get(id(v))
        if t is None:
            if r != 0:
                I.undecided('length of a collection that grows in some passes only')
            t = I.len_phis[lid][id(v)] = {'v': v, 'base': n[1], 'total': 0, 'step': None, 'phi': None}
        if t['phi'] is None:
            t['phi'] = al.intern('phi', (lid, 'len%d' % len(I.len_phis[lid]), r, id(t)), 'size')
            if t['step'] is not None:
                t['phi'].defn = Poly.const(t['base']) + Poly.const(t['step'])*pos
        return Poly.of_atom(t['phi']) + Poly.const(n[0] - t['total'])

    def end_of_pass(self, I, lid, r, pos):
        for v, fact in I.len_reads.get(lid, ()):
            n = self.added(v, lid)
            if n is not None and n[0]:
                raise en.Restart(fact)
        for t in I.len_phis.get(lid, {}).values():
            n = self.added(t['v'], lid)
            step = None if n is None else n[0] - t['total']
            if step is None:
                I.undecided('a collection grows irregularly')
            if t['step'] is not None and step != t['step']:
                # some passes add a member and others do not: the length at
                # the start of a pass stays an unknown number
                t['irregular'] = True
            t['step'] = step
            t['total'] = n[0]
            if t['phi'] is not None and t['phi'].defn is None and not t.get('irregular'):
                t['phi'].defn = Poly.const(t['base']) + Poly.const(step)*pos
            t['phi'] = None

    # ------------------------------------------------------------------
    # lists, dicts, sets
    # ------------------------------------------------------------------
    def deeper(self, I, birth):
        cur = tuple(l[0] for l in I.loops)
        return [l for l in I.loops if l[0] not in birth]

    def touch(self, I, c):
        c.mut.append(I.loc)
        if c.origin:
            I.effect('mutate-input', what=c.origin)

    def list_append(self, I, lst, v):
        self.touch(I, lst)
        deep = self.deeper(I, lst.birth)
        if deep:
            lid = tuple(l[0] for l in deep)
            r = tuple(l[1] for l in deep)
            l = deep[-1]
            lst.items.append(LoopItem(lid, r, v, l[2], l[3]))
        else:
            lst.items.append(v)

    def list_extend(self, I, lst, v):
        d = self.iterate(I, v)
        if isinstance(d, list):
            for x in d:
                self.list_append(I, lst, x)
            return
        if isinstance(d, SymColl):
            self.touch(I, lst)
            lid = ('ext', self.name('x'))
            for r, x in enumerate(d.reps):
                lst.items.append(LoopItem(lid, r, x, d.pos[r], d))
            return
        I.undecided('list.extend')

    def set_add(self, I, s, v):
        if s.mut is not None:
            self.touch(I, s)
        if isinstance(v, (AList, ADict, ASet)) or isarr(v):
            raise AbsRaise('TypeError', 'unhashable', I.loc)
        if self.deeper(I, s.birth):
            s.open = True
        for x in s.items:
            if I.same(x, v):
                return
        s.items.append(v)

    def dict_set(self, I, d, k, v):
        self.touch(I, d)
        if isinstance(k, (AList, ADict, ASet)) or isarr(k):
            raise AbsRaise('TypeError', 'unhashable', I.loc)
        deep = self.deeper(I, d.birth)
        i = d.find(k, I)
        if i >= 0:
            d.vals[i] = v
            return
        d.keys.append(k)
        d.vals.append(v)
        if deep:
            l = deep[-1]
            if not hasattr(d, '_pos'):
                d._pos = []
                d._dom = l[3]
                d._one = True
            d._pos.append(l[2])
            if l[3] is not d._dom:
                d._one = False
            if d.sym is None:
                d.sym = SymColl('dict%s' % self.name('@'), [])
            if d._one and len(d._pos) == len(d.keys) and len(set(id(p) for p in d._pos)) == len(d._pos) \
                    and len(deep) == 1:
                d.sym.pos = list(d._pos)
                d.length = d._dom.length
            else:
                d.sym.pos = []
                d.length = None
                while len(d.sym.pos) < len(d.keys):
                    d.sym.pos.append(al.sym('pos(%s,%d)' % (d.sym.name, len(d.sym.pos))))

    # ------------------------------------------------------------------
    # indexing
    # ------------------------------------------------------------------
    def get_item(self, I, o, k):
        if isinstance(o, MatDer):
            return MatDer(o.mat, o.text, o.test)
        if isinstance(o, (AList, tuple)):
            if isinstance(k, Slice):
                items = self.iterate(I, o)
                if not isinstance(items, list):
                    if k.lo is None and k.hi is None and k.step is None:
                        return items
                    I.undecided('slice of a list of unknown length')
                r = items[self.pyslice(I, k, len(items))]
                return tuple(r) if isinstance(o, tuple) else I.new_list(r)
            dom = self.iterate(I, o)
            return self.index_list(I, dom, k)
        if isinstance(o, SymColl):
            if isinstance(k, tuple) and o.is_array:
                return self.coll_map(I, o, lambda r: self.get_item(I, r, k[1] if len(k) == 2 else k[1:])) \
                    if self.full(k[0]) else I.undecided('index of an array of unknown length')
            if isinstance(k, SymColl):
                c = SymColl('%s[%s]' % (o.name, k.name), [self.index_list(I, o, r) for r in k.reps],
                            k.pos, k.length)
                c.is_array = True
                c.partial = k.partial or o.partial
                return c
            if isinstance(k, Slice):
                if self.full(k):
                    return o
                if k.lo is None and k.hi is None and const_int(k.step) == -1:
                    c = SymColl(o.name, o.reps[::-1], None, o.length)
                    c.partial = o.partial
                    c.is_array = o.is_array
                    return c
                I.undecided('slice of a collection of unknown length')
            return self.index_list(I, o, k)
        if isinstance(o, ADict):
            i = o.find(k, I)
            if i >= 0:
                return o.vals[i]
            if o.default is not None:
                v = I.call(o.default, [], {})
                self.dict_set(I, o, k, v)
                return v
            if o.sym is not None or getattr(o, 'open', False):
                I.undecided('lookup of an unknown key in a dictionary of unknown size')
            raise AbsRaise('KeyError', k, I.loc)
        if isarr(o):
            if isinstance(k, SymColl):
                I.undecided('symbolic index array')
            kk = self.np_index(I, k, o.shape)
            try:
                r = o[kk]
            except IndexError:
                raise AbsRaise('IndexError', None, I.loc)
            return r
        if isinstance(o, AVec):
            return self.vec_item(I, o, k)
        if isinstance(o, SymArr):
            ks = k if isinstance(k, tuple) else (k,)
            return SymArrView(o, ()).index_many(I, ks)
        if isinstance(o, SymArrView):
            ks = k if isinstance(k, tuple) else (k,)
            return o.index_many(I, ks)
        if isinstance(o, KArr):
            return KArr(o.val) if isinstance(k, (Slice, tuple)) or k is None or k is Ellipsis else o.val
        if isinstance(o, str):
            if isinstance(k, Slice):
                return o[self.pyslice(I, k, len(o))]
            i = const_int(k)
            if i is None:
                I.undecided('string index')
            try:
                return o[i]
            except IndexError:
                raise AbsRaise('IndexError', None, I.loc)
        if isinstance(o, AStr):
            return Opaque(('stritem', self.keyof(o), self.keyof(k)), 'str')
        if isinstance(o, Opaque):
            return Opaque(('item', o.key, self.keyof(k)), o.kind if o.kind == 'str' else 'any')
        if isinstance(o, AMat):
            if isinstance(k, Slice) and self.full(k):
                return o
            if isinstance(k, tuple) and len(k) == 2 and all(self.full(x) for x in k):
                return o
            if k is Ellipsis:
                return o
            return AMatView(o, k) if True else None
        if isinstance(o, AMatT):
            return Top('element of a transposed matrix')
        if isinstance(o, Top):
            return Top(o.why)
        if isinstance(o, AObj):
            h = o.methods.get('__getitem__')
            if h:
                return h(I, [k], {})
            if isinstance(o.cls, AClass):
                f = o.cls.lookup('__getitem__')
                if f is not None:
                    return I.call(f, [o, k], {})
            raise AbsRaise('TypeError', 'not subscriptable', I.loc)
        if isinstance(o, DictView) or isinstance(o, ASet) or o is None or isinstance(o, (Poly, bool)):
            raise AbsRaise('TypeError', 'not subscriptable', I.loc)
        if isinstance(o, IdxSeq):
            return o.mk(as_poly(k))
        if isinstance(o, GridIx):
            return o.item(I, k)
        if isinstance(o, (ExtClass, AClass)):
            return o          # generic alias in annotations
        I.undecided('subscript of %s' % (o,))

    def full(self, k):
        return isinstance(k, Slice) and k.lo is None and k.hi is None and k.step is None

    def index_list(self, I, dom, k):
        if isinstance(dom, list):
            i = const_int(k)
            if i is None:
                if isinstance(k, Poly):
                    # an index decided by the context
                    for j in range(len(dom)):
                        if I.decide('==', k - j):
                            return dom[j]
                if isinstance(k, Top):
                    return Top(k.why)
                if isinstance(k, Opaque):
                    return Opaque(('item', self.keyof(tuple(dom)), k.key), 'any')
                if isarr(k) and k.ndim == 0:
                    return self.index_list(I, dom, k.item())
                raise AbsRaise('TypeError', 'list index', I.loc)
            try:
                return dom[i]
            except IndexError:
                raise AbsRaise('IndexError', i, I.loc)
        if isinstance(dom, SymColl):
            p = as_poly(k)
            if p is not None:
                p = al.expand_defs(p)
                for q, r in zip(dom.pos, dom.reps):
                    if q is not None and al.equal(al.expand_defs(q), p):
                        return r
                if p.is_const():
                    c = const_int(p)
                    return self.member_at(I, dom, c)
                if p.all_atoms() and all(str(al.atom_str(al.atom(i))).startswith(('nid(', 'eid(')) for i in p.all_atoms()):
                    # ids of a deck are arbitrary: nothing relates them to positions
                    raise AbsRaise('IndexError', 'position %s of a collection: ids of the deck are unrelated to positions' % (p,), I.loc)
            I.undecided('element %s of a collection of unknown length' % (k,))
        I.undecided('index')

    def member_at(self, I, dom, c):
        """first/last member: some member, not necessarily a representative"""
        if dom.reps and c in (0, -1):
            return Top('one of the members of a collection of unknown length')
        I.undecided('fixed position %s of a collection of unknown length' % c)

    def pyslice(self, I, k, n):
        def g(x):
            if x is None:
                return None
            c = const_int(x)
            if c is None:
                I.undecided('symbolic slice bound')
            return c
        return slice(g(k.lo), g(k.hi), g(k.step))

    def np_index(self, I, k, shape):
        if isinstance(k, tuple):
            return tuple(self.np_index1(I, x) for x in k)
        return self.np_index1(I, k)

    def np_index1(self, I, x):
        if x is None or x is Ellipsis:
            return x
        if isinstance(x, Slice):
            return self.pyslice(I, x, None)
        if isinstance(x, bool):
            return x
        c = const_int(x)
        if c is not None:
            return c
        if isinstance(x, (AList, tuple)):
            x = self.arr(I, x)
        if isarr(x):
            if x.size and isinstance(x.flat[0], bool):
                return x.astype(bool)
            out = np.empty(x.shape, dtype=int)
            for i, e in enumerate(x.flat):
                ci = const_int(e)
                if ci is None:
                    I.undecided('symbolic array index %s' % (e,))
                out.flat[i] = ci
            return out
        I.undecided('array index %s' % (x,))

    def vec_item(self, I, o, k):
        if o.ncol is not None:
            if isinstance(k, tuple):
                a, b = k[0], (k[1] if len(k) > 1 else Slice(None, None, None))
            else:
                a, b = k, Slice(None, None, None)
            if self.full(a) and isinstance(k, tuple):
                ci = const_int(b)
                if ci is not None:
                    return VecCol(o, ci)
                I.undecided('slice of a reshaped vector')
            rows = self.index_polys(I, a)
            nc = o.ncol
            if isinstance(b, Slice):
                cols = list(range(nc))[self.pyslice(I, b, nc)]
                out = [[o.entry(Poly.const(nc)*r + c) for c in cols] for r in (rows if isinstance(rows, list) else [rows])]
                A = self.arr(I, [np.array(x, dtype=object) for x in out])
                return A if isinstance(rows, list) else A[0]
            cc = self.index_polys(I, b)
            if isinstance(rows, list) and isinstance(cc, list):
                return objarray([o.entry(Poly.const(nc)*r + c) for r, c in zip(rows, cc)])
            if isinstance(rows, list):
                return objarray([o.entry(Poly.const(nc)*r + cc) for r in rows])
            if isinstance(cc, list):
                return objarray([o.entry(Poly.const(nc)*rows + c) for c in cc])
            return o.entry(Poly.const(nc)*rows + cc)
        if isinstance(k, tuple) and len(k) == 1:
            k = k[0]
        if isinstance(k, Slice) and self.full(k):
            return o
        if isinstance(k, Slice) and k.lo is not None and k.hi is not None or isinstance(k, Slice) and k.hi is not None:
            rows = self.index_polys(I, k)
            return objarray([o.entry(r) for r in rows])
        if isinstance(k, Slice):
            lo = const_int(k.lo) if k.lo is not None else 0
            st = const_int(k.step) if k.step is not None else 1
            if lo is not None and st is not None and 0 <= lo < st:
                return VecCol(AVec2(o, st), lo)
            I.undecided('open slice of a vector')
        if isarr(k) and k.ndim > 1:
            return objarray([o.entry(p) for p in k.flat], k.shape)
        rows = self.index_polys(I, k)
        if isinstance(rows, list):
            return objarray([o.entry(r) for r in rows])
        return o.entry(rows)

    def index_polys(self, I, k):
        """integer index or list of integer indices (symbolic)"""
        if isinstance(k, Slice):
            st = const_int(k.step) if k.step is not None else 1
            lo = as_poly(k.lo) if k.lo is not None else ZERO
            hi = as_poly(k.hi)
            if hi is None or st is None or st < 1:
                I.undecided('slice bounds')
            lo, hi = al.expand_defs(lo), al.expand_defs(hi)
            n = const_int(hi - lo)
            if n is None:
                I.undecided('slice of symbolic length')
            if lo.is_const() and hi.is_const():
                l, h = const_int(lo), const_int(hi)
                if l < 0 <= h:
                    return []
            return [lo + i for i in range(0, n, st)]
        if isinstance(k, Poly):
            return al.expand_defs(k)
        if isinstance(k, bool):
            return lift(k)
        if isinstance(k, (AList, tuple)):
            k = self.arr(I, k)
        if isarr(k):
            if k.ndim == 0:
                return al.expand_defs(as_poly(k.item()))
            return [al.expand_defs(as_poly(x)) if as_poly(x) is not None else I.undecided('index') for x in k.flat]
        I.undecided('index %s' % (k,))

    # writes -----------------------------------------------------------
    def set_item(self, I, o, k, v):
        if isinstance(o, AList):
            self.touch(I, o)
            dom = self.iterate(I, o)
            if not isinstance(dom, list):
                I.undecided('assignment into a list of unknown length')
            if isinstance(k, Slice):
                its = self.concrete(I, v)
                o.items[self.pyslice(I, k, len(o.items))] = its
                return
            i = const_int(k)
            if i is None:
                p = as_poly(k)
                if p is not None:
                    for j in range(len(dom)):
                        if I.decide('==', p - j):
                            o.items[j] = v
                            return
                    raise AbsRaise('IndexError', None, I.loc)
                I.undecided('list index')
            try:
                o.items[i] = v
            except IndexError:
                raise AbsRaise('IndexError', None, I.loc)
            return
        if isinstance(o, ADict):
            self.dict_set(I, o, k, v)
            return
        if isarr(o):
            I.note_array_write(o)
            kk = self.np_index(I, k, o.shape)
            if isinstance(v, (AList, tuple)):
                v = self.arr(I, v)
            if isinstance(v, Top):
                I.undecided('unmodelled value stored into an array: ' + v.why)
            if isinstance(v, KArr):
                I.undecided('array stored into an array')
            if self.is_int(o):
                v = self.trunc(v)
            if self.is_single(o):
                v = self.to_single(I, v) if isarr(v) else self.cast(I, 'float32', as_poly(v))
            try:
                o[kk] = v
            except IndexError:
                raise AbsRaise('IndexError', None, I.loc)
            except ValueError:
                raise AbsRaise('ValueError', 'shape mismatch', I.loc)
            return
        if isinstance(o, AMat):
            self.mat_write(I, o, k, 'set', v)
            return
        if isinstance(o, AMatView):
            I.undecided('chained indexing of a matrix')
        if isinstance(o, Opaque):
            I.effect('mutate-input', what='%s' % (o.key,))
            return
        if isinstance(o, AObj):
            if '__setitem__' in o.methods:
                o.methods['__setitem__'](I, [k, v], {})
                return
            if isinstance(o.cls, AClass):
                f = o.cls.lookup('__setitem__')
                if f is not None:
                    I.call(f, [o, k, v], {})
                    return
            I.effect('mutate-input', what=o.name)
            return
        if isinstance(o, KArr):
            if o.origin:
                I.effect('mutate-input', what=o.origin)
            if isinstance(k, Slice) and self.full(k) or k is Ellipsis:
                o.val = v.val if isinstance(v, KArr) else as_poly(v)
                return
            I.undecided('element write into an evaluation array')
        if isinstance(o, (AVec, SymArr)):
            if getattr(o, 'fresh', False):
                I.undecided('write into a copy of an input array')
            I.effect('mutate-input', what=o.name)
            I.tainted = 'the analysis goes on although an input array was written'
            return
        if isinstance(o, (tuple, str, AStr)) or o is None or isinstance(o, Poly):
            raise AbsRaise('TypeError', 'item assignment', I.loc)
        I.undecided('item assignment into %s' % (o,))

    def trunc(self, v):
        def t(x):
            if isinstance(x, bool):
                return ONE if x else ZERO
            p = as_poly(x)
            if p is None:
                return x
            if p.is_const():
                return Poly.const(int(Fraction(p.const_value())))
            if self.integral(p):
                return p
            f = self.floor(p)
            if f is not None and al.positive_poly(p):
                return f
            return al.fn('trunc', p)
        if isarr(v):
            return objarray([t(x) for x in v.flat], v.shape)
        return t(v)

    def integral(self, p):
        for m, c in p.t.items():
            if Fraction(c).denominator != 1:
                return False
            for a, e in m:
                at = al.atom(a)
                if e > 0 and a in self.int_atoms:
                    continue
                if e < 0 or not (at.kind == 'bound' or (at.name or '').startswith(('pos', 'len', 'N', 'id'))):
                    return False
        return True

    def aug_item(self, I, o, k, op, v):
        if isinstance(o, AMat):
            self.mat_write(I, o, k, op, v)
            return
        if isarr(o):
            kk = self.np_index(I, k, o.shape)
            try:
                cur = o[kk]
            except IndexError:
                raise AbsRaise('IndexError', None, I.loc)
            if isinstance(v, (AList, tuple)):
                v = self.arr(I, v)
            r = I.binop(op, cur, v)
            self.set_item(I, o, k, r)
            return
        cur = self.get_item(I, o, k)
        r = I.inplace(op, cur, v)
        if isinstance(o, AObj) and r is cur:
            pass
        self.set_item(I, o, k, r)

    def mat_axis(self, I, x):
        if isinstance(x, tuple):
            x = self.arr(I, x)
        if isinstance(x, AList):
            x = self.arr(I, x)
        if isarr(x) and x.ndim > 1:
            return x
        if isinstance(x, SymColl) and not x.partial and x.reps and all(as_poly(r) is not None for r in x.reps):
            # indices for every member of a collection: those of the representatives
            return objarray([as_poly(r) for r in x.reps])
        if isinstance(x, IdxSeq) and as_poly(x.mk(ZERO)) is not None:
            return objarray([as_poly(x.mk(al.sym('any of %s' % x.key)))])
        r = self.index_polys(I, x)
        if isinstance(r, list):
            return objarray(r)
        return r

    def mat_cells(self, I, o, k):
        """rows, cols (object arrays, broadcast), fancy flag"""
        if isinstance(k, GridIx):
            k = tuple(k.arrs)
        if not isinstance(k, tuple) or len(k) != 2:
            I.undecided('matrix index')
        kr, kc = k
        sl_r, sl_c = isinstance(kr, Slice), isinstance(kc, Slice)
        if (sl_r and kr.hi is None) or (sl_c and kc.hi is None):
            I.undecided('whole-row or whole-column matrix write')
        R, C = self.mat_axis(I, kr), self.mat_axis(I, kc)
        fancy = (isarr(R) and not sl_r) or (isarr(C) and not sl_c)
        if isarr(R) and isarr(C):
            if sl_r or sl_c:
                R2 = R.reshape(-1, 1) if R.ndim == 1 else R
                C2 = C.reshape(1, -1) if C.ndim == 1 else C
                if (not sl_r and R.ndim > 1) or (not sl_c and C.ndim > 1):
                    I.undecided('mixed matrix index')
                R, C = R2, C2
            R, C = np.broadcast_arrays(R, C)
        elif isarr(R):
            C2 = np.empty(R.shape, dtype=object)
            C2[...] = C
            C = C2
        elif isarr(C):
            R2 = np.empty(C.shape, dtype=object)
            R2[...] = R
            R = R2
        else:
            R, C = objarray([R], ()), objarray([C], ())
        return R, C, fancy

    def mat_read(self, I, view):
        """the present entries of a block, as symbols that remember when they
        were read"""
        o = view.mat
        R, C, fancy = self.mat_cells(I, o, view.k)
        out = np.empty(R.shape, dtype=object)
        for ix in np.ndindex(*R.shape):
            r, c = I.ctx.reduce(lift(R[ix])), I.ctx.reduce(lift(C[ix]))
            if o.initial == 'zero' and not o.opaque and not any(same_class(r, w[1]) and same_class(c, w[2]) for w in o.writes):
                # nothing has been written to entries of this kind
                out[ix] = ZERO
                continue
            a = al.intern('app', ('entry of %s after %d writes' % (o.name, len(o.writes)), r, c))
            self.entries[a.id] = (o, r, c, len(o.writes))
            if any((Fraction(f) / 5).denominator != 1 for p in (r, c) for m, f in p.t.items() if m):
                self.loose.add(a.id)
            out[ix] = Poly.of_atom(a)
        return out if R.shape else out[()]

    def mat_update(self, I, o, r, c, p):
        """operation and operand of the assignment of p to the entry (r, c)"""
        used = [i for i in p.all_atoms() if i in self.entries]
        if not used:
            return 'set', p
        for u in used:
            m, r0, c0, n = self.entries[u]
            rest = p - Poly.of_atom(al.atom(u))
            if m is o and u not in rest.atoms() and al.equal(r0, I.ctx.reduce(lift(r))) \
                    and al.equal(c0, I.ctx.reduce(lift(c))):
                self.mixed(I, rest)
                for w in o.writes[n:]:
                    if al.equal(I.ctx.reduce(lift(w[1])), r0) and al.equal(I.ctx.reduce(lift(w[2])), c0):
                        I.effect('lost-update', mat=o)
                return 'Add', rest
        I.undecided('an entry of a matrix is used in the value of another')

    def mixed(self, I, p):
        """a contribution computed from entries: an unknown amount, unless it
        may be the copy of an entry to its mirrored place"""
        if p.t and all(c in (1, -1) and len(m) == 1 and m[0][1] == 1 and m[0][0] in self.entries for m, c in p.t.items()):
            I.undecided('an entry of a matrix is used in the value of another')

    def derived(self, I, text, *vs):
        """the result of an operation on entries of a matrix, which has no
        influence on the matrix as long as nothing is written back"""
        m = None
        for v in vs:
            if isinstance(v, (MatDer, AMat, AMatT)):
                m = m or (v.mat if isinstance(v, MatDer) else v if isinstance(v, AMat) else v.base)
        return MatDer(m, '%s of %s' % (text, m.name))

    def mat_write(self, I, o, k, op, v, accumulate=False):
        if isinstance(k, (MatDer, AMat)) or isinstance(k, tuple) and any(isinstance(x, MatDer) for x in k):
            t = k.test if isinstance(k, MatDer) else None
            if t is not False:
                # entries are selected by their value
                r = al.intern('sym', ('selected', I.where()), 'selected')
                o.writes.append(('set by value' if op == 'set' else '%s by value' % op, Poly.of_atom(r), Poly.of_atom(r),
                                 ONE, I.loc, tuple(l[0] for l in I.loops)))
            return
        if isinstance(v, MatDer):
            if op not in ('Add', 'Sub'):
                I.undecided('entries of a matrix are computed from the matrix')
            # an amount that depends on the entries of a matrix
            a = al.intern('app', ('%s at %s' % (v.text, I.where()), ONE))
            self.entries[a.id] = (None, ZERO, ZERO, 0)
            v = Poly.of_atom(a)*Poly.const(2)
        if o.origin_protected if hasattr(o, 'origin_protected') else False:
            I.effect('mutate-input', what=o.name)
        if k is Ellipsis:
            k = (Slice(None, None, None), Slice(None, None, None))
        if isinstance(k, Slice) and self.full(k):
            k = (k, Slice(None, None, None))
        if isinstance(k, tuple) and len(k) == 2 and all(self.full(x) for x in k):
            if isinstance(v, AMat) or isinstance(v, AMatT):
                self.mat_whole(I, o, op, v)
                return
            I.effect('matrix-whole-write', mat=o, op=op, value=v)
            o.opaque = 'whole-matrix %s at %s' % (op, I.where())
            return
        if isinstance(v, (AList, tuple)):
            v = self.arr(I, v)
        if isinstance(v, AMatView):
            I.undecided('matrix block copied between matrices')
        if isinstance(v, Top):
            I.undecided('unmodelled value added to a matrix: ' + v.why)
        R, C, fancy = self.mat_cells(I, o, k)
        if isarr(v):
            try:
                V = np.broadcast_to(v, R.shape) if v.shape != R.shape else v
            except ValueError:
                raise AbsRaise('ValueError', 'could not broadcast into the matrix block', I.loc)
        else:
            p = as_poly(v)
            if p is None:
                I.undecided('value %s written into a matrix' % (v,))
            V = np.empty(R.shape, dtype=object)
            V[...] = p
        cells = []
        for r, c, x in zip(R.flat, C.flat, V.flat):
            p = as_poly(x)
            if p is None:
                I.undecided('value %s written into a matrix' % (x,))
            p = self.cast(I, getattr(o, 'dtype', None), p)
            if op == 'set' and self.entries:
                cells.append((r, c) + self.mat_update(I, o, r, c, p))
            else:
                self.mixed(I, p)
                cells.append((r, c, op, p))
        if fancy and cells and cells[0][2] != 'set' and not accumulate:
            # numpy's fancy in-place update keeps only the last duplicate
            seen = {}
            for r, c, op, p in cells:
                seen[(I.ctx.reduce(r), I.ctx.reduce(c))] = (r, c, op, p)
            if len(seen) != len(cells):
                I.effect('lost-update', mat=o)
            cells = list(seen.values())
        loops = tuple(l[0] for l in I.loops)
        for r, c, op, p in cells:
            o.writes.append((op, r, c, p, I.loc, loops))

    def mat_whole(self, I, o, op, v):
        if op in ('Add', 'Sub') and isinstance(v, AMat) and v.initial == 'zero' and not v.opaque and v is not o:
            for w in list(v.writes):
                if w[0] not in ('Add', 'Sub'):
                    I.undecided('matrix sum')
                s = w[0] if op == 'Add' else ('Sub' if w[0] == 'Add' else 'Add')
                o.writes.append((s,) + w[1:])
            return
        if op == 'set' and isinstance(v, AMat) and v is o:
            return
        o.opaque = 'whole-matrix %s at %s' % (op, I.where())
        I.effect('matrix-whole-write', mat=o, op=op, value=v)

    def del_item(self, I, o, k):
        if isinstance(o, ADict):
            self.touch(I, o)
            i = o.find(k, I)
            if i < 0:
                raise AbsRaise('KeyError', None, I.loc)
            del o.keys[i], o.vals[i]
            return
        if isinstance(o, AList):
            self.touch(I, o)
            dom = self.iterate(I, o)
            i = const_int(k)
            if isinstance(dom, list) and i is not None:
                del o.items[i]
                return
        I.undecided('del item')

    # ------------------------------------------------------------------
    # arithmetic
    # ------------------------------------------------------------------
    def coll_map(self, I, c, fn, name=None):
        r = c.map(name or ('f(%s)' % c.name), fn)
        r.is_array = True
        return r

    def keyof(self, v):
        if isinstance(v, Opaque):
            return v.key
        if isinstance(v, Poly):
            return v
        if isinstance(v, AStr):
            return ('str',) + tuple(self.keyof(p) for p in v.parts)
        if isinstance(v, tuple):
            return tuple(self.keyof(x) for x in v)
        if isinstance(v, AList):
            return ('list',) + tuple(self.keyof(x) for x in v.items)
        if isinstance(v, LoopItem):
            return ('loop', v.lid, v.r, self.keyof(v.value))
        if isinstance(v, (str, bool)) or v is None:
            return v
        if isinstance(v, Slice):
            return ('slice', self.keyof(v.lo), self.keyof(v.hi), self.keyof(v.step))
        if isinstance(v, ADict):
            return ('dict',) + tuple((self.keyof(k), self.keyof(x)) for k, x in zip(v.keys, v.vals))
        return ('id', id(v))

    NPOP = {'Add': '__add__', 'Sub': '__sub__', 'Mult': '__mul__', 'Div': '__truediv__'}

    def binop(self, I, op, a, b):
        if isinstance(a, Top):
            return a
        if isinstance(b, Top):
            return b
        if isinstance(a, (Opaque,)) or isinstance(b, (Opaque,)):
            if op == 'Mod' and isinstance(a, (str, AStr)):
                return self.percent(I, a, b)
            if (isinstance(a, (str, AStr, Opaque)) and isinstance(b, (str, AStr, Opaque)) and op == 'Add'
                    and (isinstance(a, (str, AStr)) or isinstance(b, (str, AStr))
                         or (a.kind == 'str' and b.kind == 'str'))):
                return mkstr([a, b])
            if isinstance(a, (str, AStr)) and op == 'Mult' or isinstance(b, (str, AStr)) and op == 'Mult':
                return Opaque((op, self.keyof(a), self.keyof(b)), 'str')
            if isinstance(a, Poly) and isinstance(b, Opaque) and b.kind == 'int' \
                    or isinstance(b, Poly) and isinstance(a, Opaque) and a.kind == 'int':
                pass
            if isinstance(a, KArr) or isinstance(b, KArr):
                I.undecided('array combined with an opaque value')
            kind = 'any'
            for x in (a, b):
                if isinstance(x, Opaque) and x.kind == 'str':
                    kind = 'str'
            return Opaque((op, self.keyof(a), self.keyof(b)), kind)
        if isinstance(a, (str, AStr)):
            if op == 'Add' and isinstance(b, (str, AStr)):
                return mkstr([a, b])
            if op == 'Mod':
                return self.percent(I, a, b)
            if op == 'Mult':
                n = const_int(b)
                if n is not None and isinstance(a, str):
                    return a*n
                return Opaque(('repeat', self.keyof(a), self.keyof(b)), 'str')
            raise AbsRaise('TypeError', 'string operand', I.loc)
        if isinstance(b, (str, AStr)):
            if op == 'Mult':
                return self.binop(I, op, b, a)
            raise AbsRaise('TypeError', 'string operand', I.loc)
        if isinstance(a, KArr) or isinstance(b, KArr):
            x = a.val if isinstance(a, KArr) else as_poly(a)
            y = b.val if isinstance(b, KArr) else as_poly(b)
            if x is None or y is None:
                I.undecided('array operand')
            return KArr(self.numop(I, op, x, y))
        if isinstance(a, SymColl) and a.is_array or isinstance(b, SymColl) and b.is_array:
            return self.coll_binop(I, op, a, b)
        if isinstance(a, AList) and isinstance(b, AList) and op == 'Add':
            r = I.new_list(a.items)
            r.items = list(a.items) + list(b.items)
            return r
        if isinstance(a, tuple) and isinstance(b, tuple) and op == 'Add':
            return a + b
        if isinstance(a, (AList, tuple)) and op == 'Mult' and as_poly(b) is not None:
            n = const_int(b)
            if n is None:
                nn = as_poly(b)
                its = self.iterate(I, a)
                if isinstance(its, list) and len(its) == 1:
                    return self.const_coll(I, nn, its[0])
                I.undecided('list repetition')
            if isinstance(a, tuple):
                return a*n
            return I.new_list(self.concrete(I, a)*n)
        if isinstance(b, (AList, tuple)) and op == 'Mult' and as_poly(a) is not None:
            return self.binop(I, op, b, a)
        if isinstance(a, (ASet, DictView)) and isinstance(b, (ASet, DictView)):
            return self.setop(I, op, a, b)
        if isinstance(a, MatDer) or isinstance(b, MatDer):
            return self.derived(I, op, a, b)
        if isinstance(a, (AMat, AMatT)) or isinstance(b, (AMat, AMatT)):
            return self.mat_binop(I, op, a, b)
        if isinstance(a, AMatView) or isinstance(b, AMatView):
            a = self.mat_read(I, a) if isinstance(a, AMatView) else a
            b = self.mat_read(I, b) if isinstance(b, AMatView) else b
        if isarr(a) or isarr(b):
            if isinstance(a, (AList, tuple)):
                a = self.arr(I, a)
            if isinstance(b, (AList, tuple)):
                b = self.arr(I, b)
            return self.arr_binop(I, op, a, b)
        if isinstance(a, (SymSeq, SymArr, SymArrView, IdxSeq)) or isinstance(b, (SymSeq, SymArr, SymArrView, IdxSeq)):
            return self.seq_binop(I, op, a, b)
        x, y = as_poly(a), as_poly(b)
        if x is not None and y is not None:
            return self.numop(I, op, x, y)
        if isinstance(a, AObj):
            names = {'Add': '__add__', 'Sub': '__sub__', 'Mult': '__mul__', 'Div': '__truediv__', 'Pow': '__pow__'}
            if isinstance(a.cls, AClass):
                f = a.cls.lookup(names.get(op, ''))
                if f is not None:
                    return I.call(f, [a, b], {})
            if 'binop' in a.methods:
                return a.methods['binop'](I, [op, b], {})
        if isinstance(b, AObj):
            if 'rbinop' in b.methods:
                return b.methods['rbinop'](I, [op, a], {})
        if isinstance(a, AVec) or isinstance(b, AVec):
            return self.vec_binop(I, op, a, b)
        if isinstance(a, (AObj, AList, ADict, ASet, tuple)) or a is None \
                or isinstance(b, (AObj, AList, ADict, ASet, tuple)) or b is None:
            raise AbsRaise('TypeError', 'unsupported operands for %s' % op, I.loc)
        I.undecided('operation %s on %s and %s' % (op, type(a).__name__, type(b).__name__))

    def floor(self, q):
        """floor of an integral quantity plus a number"""
        c = Fraction(q.t.get((), 0))
        if self.integral(q - Poly.const(c)):
            return q - Poly.const(c) + Poly.const(c.numerator//c.denominator)
        return None

    def vec_binop(self, I, op, a, b):
        f = as_poly(b if isinstance(a, AVec) else a)
        if f is not None and (op == 'Mult' or op == 'Div' and isinstance(a, AVec)):
            v = a if isinstance(a, AVec) else b
            if v.absolute or v.maps:
                return v.mapped((lambda x: x*f) if op == 'Mult' else (lambda x: self.divide(I, x, f)))
            if not v.absolute:
                r = AVec(v.name, v.length, v.ncol)
                r.fresh = True
                r.factor = v.factor*f if op == 'Mult' else self.divide(I, v.factor, f)
                return r
        if f is not None and op == 'Add':
            return (a if isinstance(a, AVec) else b).mapped(lambda x: x + f)
        if f is not None and op == 'Sub':
            return a.mapped(lambda x: x - f) if isinstance(a, AVec) else b.mapped(lambda x: f - x)
        I.undecided('arithmetic on the whole displacement vector')

    def seq_binop(self, I, op, a, b):
        def seq(x):
            if isinstance(x, (SymArr, IdxSeq)) or isinstance(x, SymArrView):
                return x
            return None
        # element-wise arithmetic on arrays over an index domain
        def getter(x):
            if isinstance(x, SymArr) and len(x.lens) == 1:
                return str(x.lens[0]), (lambda i: x.entry((i,)))
            if isinstance(x, SymArrView) and len(x.arr.lens) - len(x.idx) == 1:
                return str(x.arr.lens[-1]), (lambda i: x.index(i))
            if isinstance(x, IdxSeq):
                return x.key, x.mk
            p = as_poly(x)
            if p is not None:
                return None, (lambda i: p)
            if isinstance(x, KArr):
                return None, (lambda i: x)
            I.undecided('array arithmetic on %s' % type(x).__name__)
        ka, fa = getter(a)
        kb, fb = getter(b)
        if ka is not None and kb is not None and ka != kb:
            raise AbsRaise('ValueError', 'operands could not be broadcast', I.loc)
        return IdxSeq(ka or kb, lambda i: I.binop(op, fa(i), fb(i)))

    def numop(self, I, op, x, y):
        try:
            if op == 'Add':
                return x + y
            if op == 'Sub':
                return x - y
            if op == 'Mult':
                return x*y
            if op == 'Div':
                return self.divide(I, x, y)
            if op == 'Pow':
                return al.ppow(al.expand_defs(x), al.expand_defs(y))
        except al.AbsZeroDivision:
            raise AbsRaise('ZeroDivisionError', None, I.loc)
        x, y = al.expand_defs(x), al.expand_defs(y)
        if op in ('FloorDiv', 'Mod'):
            if x.is_const() and y.is_const():
                if not y.t:
                    raise AbsRaise('ZeroDivisionError', None, I.loc)
                q = Fraction(x.const_value())/Fraction(y.const_value())
                f = q.numerator//q.denominator
                return Poly.const(f) if op == 'FloorDiv' else x - y*f
            q = x/y
            if self.integral(q):
                return q if op == 'FloorDiv' else ZERO
            f = self.floor(q)
            if f is not None:
                return f if op == 'FloorDiv' else x - y*f
            f = al.fn('floor', q)
            if op == 'Mod':
                return al.fn('mod', x, y)
            return f
        if op == 'MatMult':
            raise AbsRaise('TypeError', 'matmul of scalars', I.loc)
        cx, cy = const_int(x), const_int(y)
        if cx is not None and cy is not None:
            if op == 'BitAnd':
                return Poly.const(cx & cy)
            if op == 'BitOr':
                return Poly.const(cx | cy)
            if op == 'BitXor':
                return Poly.const(cx ^ cy)
            if op == 'LShift':
                return Poly.const(cx << cy)
            if op == 'RShift':
                return Poly.const(cx >> cy)
        I.undecided('numeric operator %s' % op)

    def divide(self, I, x, y):
        if not y.t:
            raise AbsRaise('ZeroDivisionError', None, I.loc)
        return x/y

    def arr_binop(self, I, op, a, b):
        if op == 'MatMult':
            return self.matmul(I, a, b)
        if isarr(a) and a.dtype != object:
            a = a.astype(object)
        if isarr(b) and b.dtype != object:
            b = b.astype(object)
        A = a if isarr(a) else as_poly(a)
        B = b if isarr(b) else as_poly(b)
        if A is None or B is None:
            if (isinstance(a, AObj) or isinstance(b, AObj) or a is None or b is None):
                raise AbsRaise('TypeError', 'array operand', I.loc)
            I.undecided('array operand %s' % type(a if A is None else b).__name__)
        try:
            if isarr(A) and isarr(B):
                SA, SB = np.broadcast_arrays(A, B)
            elif isarr(A):
                SA, SB = A, None
            else:
                SA, SB = None, B
        except ValueError:
            raise AbsRaise('ValueError', 'shapes %s %s' % (getattr(A, 'shape', ()), getattr(B, 'shape', ())), I.loc)
        shape = (SA if SA is not None else SB).shape
        fa = SA.flat if SA is not None else None
        fb = SB.flat if SB is not None else None
        n = int(np.prod(shape)) if shape else 1
        out = []
        for i in range(n):
            x = fa[i] if fa is not None else A
            y = fb[i] if fb is not None else B
            out.append(self.elemop(I, op, x, y))
        return objarray(out, shape)

    def elemop(self, I, op, x, y):
        if isinstance(x, bool) and isinstance(y, bool) and op in ('BitAnd', 'BitOr', 'BitXor'):
            return {'BitAnd': x and y, 'BitOr': x or y, 'BitXor': x != y}[op]
        px, py = as_poly(x), as_poly(y)
        if px is None or py is None:
            return self.binop(I, op, x, y)
        if op == 'Div' and not py.t:
            if not px.t:
                return Top('0/0 at %s' % I.where())
            return Top('division by zero at %s' % I.where())
        return self.numop(I, op, px, py)

    def matmul(self, I, a, b):
        if isinstance(a, (AList, tuple)):
            a = self.arr(I, a)
        if isinstance(b, (AList, tuple)):
            b = self.arr(I, b)
        if isinstance(a, (AMat, AMatT)) or isinstance(b, (AMat, AMatT)):
            return Top('matrix product')
        if not isarr(a) or not isarr(b):
            if as_poly(a) is not None or as_poly(b) is not None:
                return self.binop(I, 'Mult', a, b)
            I.undecided('product of %s and %s' % (type(a).__name__, type(b).__name__))
        A = a if a.ndim > 1 else a.reshape(1, -1)
        B = b if b.ndim > 1 else b.reshape(-1, 1)
        if A.ndim != 2 or B.ndim != 2:
            try:
                return np.matmul(a, b)
            except ValueError:
                raise AbsRaise('ValueError', 'matmul', I.loc)
        if A.shape[1] != B.shape[0]:
            raise AbsRaise('ValueError', 'shapes not aligned', I.loc)
        out = np.empty((A.shape[0], B.shape[1]), dtype=object)
        for i in range(A.shape[0]):
            for j in range(B.shape[1]):
                s = ZERO
                for k in range(A.shape[1]):
                    x, y = as_poly(A[i, k]), as_poly(B[k, j])
                    if x is None or y is None:
                        t = A[i, k] if x is None else B[k, j]
                        if isinstance(t, Top):
                            s = t
                            break
                        I.undecided('product of non-numbers')
                    if x.t and y.t:
                        s = s + x*y
                out[i, j] = s
        if a.ndim == 1 and b.ndim == 1:
            return out[0, 0]
        if a.ndim == 1:
            return out[0]
        if b.ndim == 1:
            return out[:, 0]
        return out

    def coll_binop(self, I, op, a, b):
        ca = isinstance(a, SymColl)
        cb = isinstance(b, SymColl)
        if ca and cb:
            if len(a.reps) != len(b.reps) or any(p is not q and not al.equal(p, q) for p, q in zip(a.pos, b.pos)):
                I.undecided('arithmetic on different collections')
            reps = [I.binop(op, x, y) for x, y in zip(a.reps, b.reps)]
            c = a
        elif ca:
            if isinstance(b, (AList, tuple)):
                b = self.arr(I, b)
            reps = [I.binop(op, x, b) for x in a.reps]
            c = a
        else:
            if isinstance(a, (AList, tuple)):
                a = self.arr(I, a)
            reps = [I.binop(op, a, x) for x in b.reps]
            c = b
        r = SymColl('%s(%s)' % (op, c.name), reps, c.pos, c.length)
        r.is_array = True
        r.partial = (a.partial if ca else None) or (b.partial if cb else None)
        return r

    def const_coll(self, I, n, v):
        c = self.colls.get(al.expand_defs(n))
        if c is not None:
            r = SymColl('const(%s)' % c.name, [v for _ in c.reps], c.pos, c.length)
            r.is_array = True
            return r
        return IdxSeq(str(n), lambda i: v)

    def mat_binop(self, I, op, a, b):
        def ent(m):
            if isinstance(m, AMat):
                if m.opaque:
                    I.undecided('matrix after ' + m.opaque)
                return m
            return None
        if isinstance(a, AMat) and isinstance(b, AMat) and op in ('Add', 'Sub'):
            r = AMat(self.name('matrix'), a.shape, a.initial if a.initial != 'zero' else b.initial)
            if a.initial != 'zero' and b.initial != 'zero':
                I.undecided('sum of input matrices')
            r.base = a if a.initial != 'zero' else b if b.initial != 'zero' else None
            r.writes = list(a.writes)
            for w in b.writes:
                s = w[0] if op == 'Add' else {'Add': 'Sub', 'Sub': 'Add'}.get(w[0])
                if s not in ('Add', 'Sub'):
                    I.undecided('matrix sum')
                r.writes.append((s,) + w[1:])
            r.opaque = a.opaque or b.opaque
            return r
        if isinstance(a, AMat) and isinstance(b, AMatT) and op == 'Add' and a.initial == 'zero' and b.base.initial == 'zero':
            r = AMat(self.name('matrix'), a.shape)
            r.writes = list(a.writes) + [(w[0], w[2], w[1]) + w[3:] for w in b.base.writes]
            r.opaque = a.opaque or b.base.opaque
            if any(w[0] not in ('Add', 'Sub') for w in r.writes):
                I.undecided('matrix sum')
            return r
        if isinstance(a, AMatT) and isinstance(b, AMat):
            return self.mat_binop(I, op, b, a)
        p = as_poly(b) if isinstance(a, AMat) else as_poly(a)
        m = a if isinstance(a, AMat) else b
        if p is not None and isinstance(m, AMat) and m.initial == 'zero' and (op == 'Mult' or op == 'Div' and m is a):
            r = AMat(self.name('matrix'), m.shape)
            r.opaque = m.opaque
            r.writes = [w[:3] + (self.numop(I, op, w[3], p),) + w[4:] for w in m.writes]
            return r
        if p is not None and isinstance(m, AMat) and not p.t and op == 'Add':
            r = AMat(self.name('matrix'), m.shape, m.initial)
            r.writes = list(m.writes)
            r.opaque = m.opaque
            return r
        I.undecided('matrix operation %s' % op)

    def setop(self, I, op, a, b):
        a = self.as_set(I, a)
        b = self.as_set(I, b)
        r = I.new_set()
        r.mut = []
        if op == 'Sub':
            r.items = [x for x in a.items if not any(I.same(x, y) for y in b.items)]
        elif op == 'BitAnd':
            r.items = [x for x in a.items if any(I.same(x, y) for y in b.items)]
        elif op == 'BitOr':
            r.items = list(a.items) + [y for y in b.items if not any(I.same(x, y) for x in a.items)]
        elif op == 'BitXor':
            r.items = [x for x in a.items if not any(I.same(x, y) for y in b.items)] + \
                [y for y in b.items if not any(I.same(x, y) for x in a.items)]
        else:
            raise AbsRaise('TypeError', 'set operand', I.loc)
        for s in (a, b):
            if s.sym is not None:
                r.sym = s.sym
        return r

    def as_set(self, I, v):
        if isinstance(v, ASet):
            return v
        r = I.new_set()
        d = self.iterate(I, v)
        if isinstance(d, list):
            its = d
        elif isinstance(d, SymColl):
            its = d.reps
            r.sym = d
        else:
            I.undecided('set of a symbolic range')
        for x in its:
            self.set_add(I, r, x)
        r.mut = []
        return r

    def unary(self, I, op, v):
        if isinstance(v, Top):
            return v
        if isinstance(v, MatDer):
            return MatDer(v.mat, v.text, None if v.test is None or op != 'Invert' else not v.test)
        if op == 'UAdd':
            return v
        if isarr(v):
            return objarray([self.unary(I, op, x) for x in v.flat], v.shape)
        if isinstance(v, KArr):
            return KArr(-v.val)
        if isinstance(v, SymColl) and v.is_array:
            return self.coll_map(I, v, lambda r: self.unary(I, op, r))
        if isinstance(v, (SymArr, SymArrView, IdxSeq)):
            return self.seq_binop(I, 'Mult', Poly.const(-1), v)
        if isinstance(v, Opaque):
            return Opaque((op, v.key), v.kind)
        if isinstance(v, AMat) and op == 'USub':
            return self.mat_binop(I, 'Mult', v, Poly.const(-1))
        if op == 'Invert':
            if isinstance(v, bool):
                return not v
            c = const_int(v)
            if c is not None:
                return Poly.const(~c)
        p = as_poly(v)
        if p is not None and op == 'USub':
            r = -p
            if p.li:
                r.li = True
            return r
        if isinstance(v, AObj):
            if 'binop' in v.methods:
                return v.methods['binop'](I, ['Mult', Poly.const(-1)], {})
        if p is None:
            raise AbsRaise('TypeError', 'unary operand', I.loc)
        I.undecided('unary %s' % op)

    # ------------------------------------------------------------------
    # comparisons and truth
    # ------------------------------------------------------------------
    def compare(self, I, op, a, b):
        if op == 'Is':
            return self.identical(I, a, b)
        if op == 'IsNot':
            return not self.identical(I, a, b)
        if op in ('In', 'NotIn'):
            r = self.contains(I, b, a)
            return r if op == 'In' else not r
        if isinstance(a, Top) or isinstance(b, Top):
            I.undecided('comparison of an unmodelled value: %s' % (a.why if isinstance(a, Top) else b.why))
        if isinstance(a, AMatView):
            a = self.mat_read(I, a)
        if isinstance(b, AMatView):
            b = self.mat_read(I, b)
        if isinstance(a, MatDer) or isinstance(b, MatDer) or \
                any(isinstance(x, (AMat, AMatT)) for x in (a, b)) and any(as_poly(x) is not None for x in (a, b)):
            return self.derived(I, op, a, b)
        if isarr(a) or isarr(b):
            if (isarr(a) and (as_poly(b) is not None or isarr(b))) or as_poly(a) is not None:
                A, B = np.broadcast_arrays(a if isarr(a) else objarray([as_poly(a)], ()),
                                           b if isarr(b) else objarray([as_poly(b)], ()))
                return objarray([self.compare(I, op, x, y) for x, y in zip(A.flat, B.flat)], A.shape)
            if isinstance(a, (AList, tuple)) or isinstance(b, (AList, tuple)):
                return self.compare(I, op, self.arr(I, a), self.arr(I, b))
            if op == 'Eq':
                return False
            if op == 'NotEq':
                return True
        x, y = as_poly(a), as_poly(b)
        if x is not None and y is not None:
            if op in ('Eq', 'NotEq') and any(i in self.loose for i in (x - y).all_atoms()):
                # an arbitrary entry, which may be one that nothing was added to
                return I.ctx.choose((op, x, y), '%s %s %s' % (al.poly_str(x), op, al.poly_str(y)))
            return I.decide(CMP[op], x - y)
        if op in ('Eq', 'NotEq'):
            r = self.equal(I, a, b)
            return r if op == 'Eq' else not r
        if isinstance(a, (tuple, AList)) and isinstance(b, (tuple, AList)):
            la, lb = self.concrete(I, a), self.concrete(I, b)
            for p, q in zip(la, lb):
                if self.equal(I, p, q):
                    continue
                return self.compare(I, op, p, q)
            return {'Lt': len(la) < len(lb), 'LtE': len(la) <= len(lb), 'Gt': len(la) > len(lb),
                    'GtE': len(la) >= len(lb)}[op]
        if isinstance(a, str) and isinstance(b, str):
            return {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[op]
        if isinstance(a, ASet) and isinstance(b, ASet):
            sub = all(any(I.same(p, q) for q in b.items) for p in a.items)
            sup = all(any(I.same(p, q) for q in a.items) for p in b.items)
            return {'Lt': sub and not sup, 'LtE': sub, 'Gt': sup and not sub, 'GtE': sup}[op]
        if isinstance(a, KArr) or isinstance(b, KArr):
            I.undecided('comparison of an evaluation array')
        if isinstance(a, Opaque) or isinstance(b, Opaque) or isinstance(a, AStr) or isinstance(b, AStr):
            if self.opaque_order is not None:
                x, y = self.opaque_order(a), self.opaque_order(b)
                if x is not None and y is not None:
                    return {'Lt': x < y, 'LtE': x <= y, 'Gt': x > y, 'GtE': x >= y}[op]
            return I.ctx.choose((op, self.keyof(a), self.keyof(b)), '%s %s %s' % (a, op, b))
        if a is None or b is None or isinstance(a, AObj) or isinstance(b, AObj):
            raise AbsRaise('TypeError', 'ordering comparison', I.loc)
        I.undecided('comparison %s' % op)

    def identical(self, I, a, b):
        if a is b:
            return True
        if a is None or b is None:
            o = b if a is None else a
            if isinstance(o, Top):
                I.undecided('comparison of an unmodelled value with None: ' + o.why)
            if isinstance(o, Opaque) and o.kind == 'maybe':
                return I.ctx.choose(('isnone', o.key), '%s is None' % (o,))
            return False
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        if isinstance(a, (bool,)) != isinstance(b, (bool,)):
            o = b if isinstance(a, bool) else a
            if isinstance(o, Opaque) and o.kind == 'bool':
                t = self.truth(I, o)
                return t == (a if isinstance(a, bool) else b)
            return False
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if isinstance(a, Opaque) and isinstance(b, Opaque):
            return a.key == b.key
        if isinstance(a, Poly) and isinstance(b, Poly):
            return I.decide('==', a - b)
        return False

    def equal(self, I, a, b):
        if a is b:
            return True
        if isinstance(a, Top) or isinstance(b, Top):
            I.undecided('equality of an unmodelled value')
        x, y = as_poly(a), as_poly(b)
        if x is not None and y is not None:
            return I.decide('==', x - y)
        if isinstance(a, (str, AStr, Opaque)) and isinstance(b, (str, AStr, Opaque)):
            if isinstance(a, str) and isinstance(b, str):
                return a == b
            ka, kb = self.keyof(a), self.keyof(b)
            if ka == kb:
                return True
            if isinstance(a, AStr) or isinstance(b, AStr) or isinstance(a, Opaque) or isinstance(b, Opaque):
                s = sorted([repr(ka), repr(kb)])
                # a string cannot equal two different literals
                o, l = (a, b) if isinstance(b, str) else (b, a)
                if isinstance(l, str):
                    known = getattr(I.ctx, 'strval', None)
                    if known is None:
                        known = I.ctx.strval = {}
                    ko = self.keyof(o)
                    if ko in known:
                        return known[ko] == l
                    v = I.ctx.choose(('streq', repr(ko), l), '%s == %r' % (o, l))
                    if v:
                        known[ko] = l
                    return v
                return I.ctx.choose(('eq',) + tuple(s), '%s == %s' % (a, b))
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            if self.keyof(a) == self.keyof(b):
                return True
            if a is None or b is None:
                o = a if b is None else b
                if o.kind != 'maybe':
                    return False
            if self.opaque_truth is not None:
                o, z = (a, b) if isinstance(a, Opaque) else (b, a)
                if isinstance(z, Poly) and not z.t or isinstance(z, Opaque) and z.key == ('attr', ('sympy', 'S'), 'Zero'):
                    t = self.opaque_truth(o.key)
                    if t is not None:
                        return not t
            return I.ctx.choose(('eq', repr(self.keyof(a)), repr(self.keyof(b))), '%s == %s' % (a, b))
        if isinstance(a, (tuple, AList)) and isinstance(b, (tuple, AList)) and type(a) is type(b):
            la, lb = self.concrete(I, a), self.concrete(I, b)
            return len(la) == len(lb) and all(self.equal(I, p, q) for p, q in zip(la, lb))
        if isinstance(a, ASet) and isinstance(b, ASet):
            return all(any(I.same(p, q) for q in b.items) for p in a.items) and \
                all(any(I.same(p, q) for q in a.items) for p in b.items)
        if isinstance(a, AObj) and isinstance(a.cls, AClass):
            f = a.cls.lookup('__eq__')
            if f is not None:
                return I.truth(I.call(f, [a, b], {}))
        if isinstance(a, NpType) and isinstance(b, NpType):
            return a.name == b.name
        if type(a) is type(b) and isinstance(a, ADict):
            I.undecided('dictionary equality')
        return False

    def same(self, I, a, b):
        if a is b:
            return True
        if isinstance(a, Poly) and isinstance(b, Poly):
            if a.t == b.t:
                return True
            return I.decide('==', a - b)
        x, y = as_poly(a), as_poly(b)
        if (x is None) != (y is None):
            o = b if x is not None else a
            if not isinstance(o, (Opaque, Top)):
                return False
        return self.equal(I, a, b)

    def contains(self, I, c, x):
        if isinstance(c, (str, AStr, Opaque)):
            if isinstance(c, str) and isinstance(x, str):
                return x in c
            if isinstance(c, AStr) and isinstance(x, str) and any(isinstance(p, str) and x in p for p in c.parts):
                return True
            return I.ctx.choose(('in', repr(self.keyof(x)), repr(self.keyof(c))), '%s in %s' % (x, c))
        if isinstance(c, ADict):
            if c.find(x, I) >= 0:
                return True
            if c.sym is not None and not getattr(c, 'closed', False):
                # keys contributed by members that are not represented do not
                # coincide with the represented ones
                return False
            return False
        if isinstance(c, ASet):
            return any(I.same(y, x) for y in c.items)
        d = self.iterate(I, c)
        if isinstance(d, SymColl):
            d = d.reps
        elif isinstance(d, IndexDomain):
            I.undecided('membership in a symbolic range')
        return any(self.same(I, y, x) for y in d)

    def truth(self, I, v):
        if isinstance(v, MatDer):
            if v.test is not None:
                return v.test
            return I.ctx.choose(('entries', v.text, I.loc), '%s holds' % (v.text,))
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, Poly):
            return I.decide('!=', v)
        if isinstance(v, str):
            return bool(v)
        if isinstance(v, AStr):
            if any(isinstance(p, str) and p for p in v.parts):
                return True
            return I.ctx.choose(('truth', repr(self.keyof(v))), 'truth of %s' % (v,))
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, AList):
            return len(v.items) > 0
        if isinstance(v, ADict):
            return len(v.keys) > 0
        if isinstance(v, ASet):
            return len(v.items) > 0
        if isinstance(v, SymColl):
            if v.is_array:
                raise AbsRaise('ValueError', 'truth value of an array', I.loc)
            return len(v.reps) > 0
        if isarr(v):
            if v.size == 1:
                return self.truth(I, v.flat[0])
            raise AbsRaise('ValueError', 'truth value of an array', I.loc)
        if isinstance(v, Opaque):
            if v.kind in ('obj',):
                return True
            if self.opaque_truth is not None:
                t = self.opaque_truth(v.key)
                if t is not None:
                    return t
            return I.ctx.choose(('truth', repr(v.key)), 'truth of %s' % (v,))
        if isinstance(v, Top):
            I.undecided('branch on an unmodelled value: ' + v.why)
        if isinstance(v, AObj):
            if isinstance(v.cls, AClass):
                f = v.cls.lookup('__bool__') or v.cls.lookup('__len__')
                if f is not None:
                    return self.truth(I, I.call(f, [v], {}))
            if '__bool__' in v.methods:
                return v.methods['__bool__'](I, [], {})
            return True
        if isinstance(v, KArr):
            I.undecided('truth of an evaluation array')
        if isinstance(v, DictView):
            return len(v.d.keys) > 0
        if isinstance(v, (AFunc, AClass, ExtClass, Builtin, AModule, AMethod, NpType)):
            return True
        if isinstance(v, (AMat, AVec, SymArr)):
            raise AbsRaise('ValueError', 'truth value of an array', I.loc)
        I.undecided('truth of %s' % (v,))

    # ------------------------------------------------------------------
    # strings
    # ------------------------------------------------------------------
    def fmt(self, I, v, spec):
        if isinstance(v, (str, AStr)) and (spec is None or spec == ''):
            return v
        if isinstance(v, Opaque):
            if v.kind == 'str' and not spec:
                return v
            return Opaque(('str', v.key, self.keyof(spec)), 'str')
        if isinstance(v, bool) or v is None:
            return str(v)
        if isinstance(v, Poly):
            p = al.expand_defs(v)
            if p.is_const() and not spec:
                c = Fraction(p.const_value())
                if c.denominator == 1:
                    return str(int(c))
            return Opaque(('num', p, self.keyof(spec)), 'str')
        if isinstance(v, (AList, tuple)):
            return Opaque(('str', self.keyof(v)), 'str')
        return Opaque(('str', self.keyof(v)), 'str')

    def percent(self, I, f, args):
        if not isinstance(f, str):
            return Opaque(('percent', self.keyof(f), self.keyof(args)), 'str')
        import re
        if isinstance(args, tuple):
            av = list(args)
        elif isinstance(args, ADict):
            av = None
        else:
            av = [args]
        parts = []
        pos = 0
        i = 0
        for m in re.finditer(r'%(\((\w+)\))?([-+ #0]*\d*(?:\.\d+)?)([a-zA-Z%])', f):
            parts.append(f[pos:m.start()])
            pos = m.end()
            if m.group(4) == '%':
                parts.append('%')
                continue
            if m.group(2):
                v = self.get_item(I, args, m.group(2))
            else:
                if av is None or i >= len(av):
                    raise AbsRaise('TypeError', 'not enough arguments for format string', I.loc)
                v = av[i]
                i += 1
            sp = m.group(3) or None
            parts.append(self.fmt(I, v, sp))
        if av is not None and i < len(av):
            raise AbsRaise('TypeError', 'not all arguments converted', I.loc)
        parts.append(f[pos:])
        return mkstr(parts)

    def str_format(self, I, f, args, kw):
        if not isinstance(f, str):
            return Opaque(('format', self.keyof(f), self.keyof(tuple(args)),
                           tuple(sorted((k, repr(self.keyof(v))) for k, v in kw.items()))), 'str')
        import string
        parts = []
        auto = 0
        for lit, field, spec, conv in string.Formatter().parse(f):
            if lit:
                parts.append(lit)
            if field is None:
                continue
            import re as _re
            m = _re.match(r'^(\w*)(.*)$', field)
            head, rest = m.group(1), m.group(2)
            if head == '':
                v = args[auto] if auto < len(args) else None
                if auto >= len(args):
                    raise AbsRaise('IndexError', 'format', I.loc)
                auto += 1
            elif head.isdigit():
                if int(head) >= len(args):
                    raise AbsRaise('IndexError', 'format', I.loc)
                v = args[int(head)]
            else:
                if head not in kw:
                    raise AbsRaise('KeyError', head, I.loc)
                v = kw[head]
            for part in _re.findall(r'\.(\w+)|\[(\w+)\]', rest):
                if part[0]:
                    v = I.getattr(v, part[0])
                else:
                    k = Poly.const(int(part[1])) if part[1].isdigit() else part[1]
                    v = self.get_item(I, v, k)
            parts.append(self.fmt(I, v, spec or None))
        return mkstr(parts)

    def str_method(self, I, s, name, args, kw):
        if name == 'format':
            return self.str_format(I, s, args, kw)
        if name == 'join':
            return self.join(I, s, args[0])
        if isinstance(s, str) and all(isinstance(a, str) or const_int(a) is not None or a is None for a in args) and not kw:
            cargs = [a if isinstance(a, str) or a is None else const_int(a) for a in args]
            f = getattr(s, name, None)
            if f is None:
                raise AbsRaise('AttributeError', name, I.loc)
            if name in ('split', 'rsplit', 'splitlines', 'partition', 'rpartition'):
                r = f(*cargs)
                return tuple(r) if 'partition' in name else I.new_list(r)
            r = f(*cargs)
            if isinstance(r, bool) or isinstance(r, str):
                return r
            if isinstance(r, int):
                return Poly.const(r)
        key = ('strm', name, self.keyof(s), tuple(self.keyof(a) for a in args),
               tuple(sorted((k, repr(self.keyof(v))) for k, v in kw.items())))
        if name in ('startswith', 'endswith', 'isdigit', 'isalpha', 'isalnum', 'isidentifier', 'isspace'):
            return Opaque(key, 'bool')
        if name in ('find', 'count', 'index', 'rfind'):
            return Opaque(key, 'any')
        if name in ('split', 'rsplit', 'splitlines'):
            return Opaque(key, 'str')
        return Opaque(key, 'str')

    def join(self, I, sep, seq):
        if isinstance(seq, AList) and any(isinstance(x, LoopItem) for x in seq.items):
            parts = []
            for i, x in enumerate(seq.items):
                if i:
                    parts.append(sep)
                if isinstance(x, LoopItem):
                    parts.append(Opaque(('loopitem', x.lid, x.r, self.keyof(x.value)), 'str'))
                else:
                    parts.append(x)
            s = mkstr(parts)
            s.joined = (sep, seq, list(seq.items)) if isinstance(s, AStr) else None
            return s
        d = self.iterate(I, seq)
        if isinstance(d, list):
            parts = []
            for i, x in enumerate(d):
                if i:
                    parts.append(sep)
                if not isinstance(x, (str, AStr, Opaque)):
                    raise AbsRaise('TypeError', 'join of non-strings', I.loc)
                parts.append(x)
            return mkstr(parts)
        if isinstance(d, SymColl):
            return Opaque(('join', self.keyof(sep), d.name, tuple(self.keyof(r) for r in d.reps)), 'str')
        return Opaque(('join', self.keyof(sep), self.name('seq')), 'str')

    # ------------------------------------------------------------------
    # calls
    # ------------------------------------------------------------------
    def unknown_call(self, I, f, args, kw):
        if isinstance(f, Top):
            for a in list(args) + list(kw.values()):
                self.escape(I, a, f.why)
            return Top('call of %s' % f.why)
        for a in list(args) + list(kw.values()):
            self.escape(I, a, f.key)
        return Opaque(('call', f.key, tuple(self.keyof(a) for a in args),
                       tuple(sorted((k, repr(self.keyof(v))) for k, v in kw.items()))), 'any')

    def escape(self, I, a, why):
        if isinstance(a, (AMat, AVec)) or isarr(a) and a.size:
            pass
        if isinstance(a, AMat):
            a.opaque = 'passed to unmodelled %s' % (why,)

    def fill_namedtuple(self, I, o, fields, defaults, b, kw):
        kw = dict(kw)
        vals = list(b)
        if len(vals) > len(fields) or any(n in kw for n in fields[:len(b)]) or any(n not in fields for n in kw):
            raise AbsRaise('TypeError', 'constructor arguments', I.loc)
        for n in fields[len(b):]:
            if n in kw:
                vals.append(kw[n])
            elif n in defaults:
                vals.append(defaults[n])
            else:
                raise AbsRaise('TypeError', 'missing argument %s' % n, I.loc)
        for n, v in zip(fields, vals):
            o.attrs[n] = v
        o.frozen = set(fields)
        o.attrs['_fields'] = tuple(fields)
        o.methods['__iter__'] = lambda I4, a4, k4: tuple(vals)
        o.methods['__getitem__'] = lambda I4, a4, k4: self.get_item(I4, tuple(vals), a4[0])
        o.methods['__len__'] = lambda I4, a4, k4: Poly.const(len(vals))

        def again(I4, a4, k4):
            return I4.call(o.cls, [], dict(zip(fields, vals), **k4))

        def asdict(I4, a4, k4):
            d = I4.new_dict()
            for n, v in zip(fields, vals):
                d.keys.append(n)
                d.vals.append(v)
            return d
        o.methods['_replace'] = again
        o.methods['_asdict'] = asdict
        return o

    def list_extend_any(self, I, lst, v):
        self.list_extend(I, lst, v)

    def enter(self, I, cm):
        if isinstance(cm, AObj):
            if isinstance(cm.cls, AClass):
                f = cm.cls.lookup('__enter__')
                if f is not None:
                    return I.call(f, [cm], {})
            return cm
        return cm

    # attributes ---------------------------------------------------------
    def getattr(self, I, o, name):
        if isinstance(o, MatDer):
            if name in ('any', 'all', 'copy', 'astype', 'ravel', 'flatten', 'reshape'):
                return Builtin(name, lambda I2, a, k: o)
            if name in ('max', 'min', 'sum', 'mean'):
                return Builtin(name, lambda I2, a, k: self.derived(I2, name, o))
            if name == 'T':
                return o
            I.undecided('attribute %s of %s' % (name, o.text))
        if isinstance(o, AObj):
            v = o.cls.lookup(name) if isinstance(o.cls, AClass) else None
            if name in o.attrs and not (isinstance(v, AFunc) and v.kind == 'property'):
                v = o.attrs[name]
                return v
            if isinstance(o.cls, AClass):
                if v is not None:
                    if isinstance(v, AFunc):
                        if v.kind == 'cached_property':
                            r = I.call_func(v, [o], {})
                            I.setattr(o, name, r)
                            return r
                        if v.kind == 'property':
                            return I.call_func(v, [o], {})
                        if v.kind == 'staticmethod':
                            return v
                        if v.kind == 'classmethod':
                            return AMethod(v, o.cls)
                        return AMethod(v, o)
                    return v
                if name == '__class__':
                    return o.cls
                if name == '__dict__':
                    d = I.new_dict()
                    for k, v in o.attrs.items():
                        d.keys.append(k)
                        d.vals.append(v)
                    return d
            if name in o.methods:
                f = o.methods[name]
                return Builtin(name, f)
            if name == '__class__':
                return o.cls
            if o.getattr_hook is not None:
                r = o.getattr_hook(I, o, name)
                if r is not None:
                    return r[0]
            raise AbsRaise('AttributeError', '%s has no attribute %s' % (o.name, name), I.loc)
        if isinstance(o, AModule):
            return I.module_attr(o, name)
        if isinstance(o, AClass):
            v = o.lookup(name)
            if v is not None:
                if isinstance(v, AFunc) and v.kind == 'classmethod':
                    return AMethod(v, o)
                return v
            if name == '__name__':
                return o.name
            raise AbsRaise('AttributeError', name, I.loc)
        if isinstance(o, ExtClass):
            if name == '__name__':
                return o.name
            f = getattr(o, 'statics', {}).get(name)
            if f is not None:
                return Builtin(name, f)
            raise AbsRaise('AttributeError', name, I.loc)
        if isinstance(o, AFunc):
            if o.kind == 'property' and name in ('setter', 'getter'):
                def accessor(I2, a, k):
                    if name == 'getter' or not isinstance(a[0], AFunc):
                        I2.undecided('property.getter')
                    import copy
                    r = copy.copy(o)
                    r.setter = a[0]
                    return r
                return Builtin(name, accessor)
            if name in ('__name__', '__qualname__'):
                return o.name
            if name == '__doc__':
                return Opaque('doc', 'str')
            raise AbsRaise('AttributeError', name, I.loc)
        if isinstance(o, Top):
            return Top(o.why)
        if isarr(o):
            return self.arr_attr(I, o, name)
        if isinstance(o, KArr):
            if name == 'shape':
                return (al.sym('K', True),)
            if name == 'ndim':
                return ONE
            if name == 'size':
                return al.sym('K', True)
            if name == 'dtype':
                return NpType('float64')
            if name in ('copy', 'astype', 'ravel', 'flatten'):
                return Builtin(name, lambda I2, a, k: KArr(o.val, o.origin if name == 'ravel' else None))
            I.undecided('array attribute %s' % name)
        if isinstance(o, SymColl):
            return self.coll_attr(I, o, name)
        if isinstance(o, AVec):
            if name == 'shape':
                return (o.length,) if o.ncol is None else (o.length/o.ncol, Poly.const(o.ncol))
            if name == 'size':
                return o.length
            if name == 'ndim':
                return Poly.const(1 if o.ncol is None else 2)
            if name == 'reshape':
                return Builtin('reshape', lambda I2, a, k: self.vec_reshape(I2, o, a))
            if name in ('copy', 'flatten', 'astype'):
                def cp(I2, a, k):
                    r = o.like(o.ncol)
                    r.fresh = True
                    t = k.get('dtype', a[0] if a else None) if name == 'astype' else None
                    if t is not None and self.lossy_type(I2, t):
                        return r.mapped(lambda x: self.cast(I2, t, x))
                    return r
                return Builtin(name, cp)
            if name in ('max', 'min', 'sum', 'mean', 'any', 'all'):
                return Builtin(name, lambda I2, a, k: self.reduce_vec(I2, name, o))
            if name in ('ravel', 'view'):
                return Builtin(name, lambda I2, a, k: o)
            if name == 'dtype':
                return NpType('float64') if getattr(o, 'fresh', False) else NpType('input:' + o.name)
            I.undecided('vector attribute %s' % name)
        if isinstance(o, (SymArr, SymArrView)):
            lens = o.lens if isinstance(o, SymArr) else o.arr.lens[len(o.idx):]
            if name == 'shape':
                return tuple(lens)
            if name == 'ndim':
                return Poly.const(len(lens))
            if name == 'size':
                r = ONE
                for n in lens:
                    r = r*n
                return r
            if name in ('copy', 'astype', 'ravel', 'flatten') and (name in ('copy', 'astype') or len(lens) == 1):
                return Builtin(name, lambda I2, a, k: o)
            if name == 'dtype':
                return NpType('float64')
            if name in ('sum', 'prod', 'min', 'max', 'mean'):
                return Builtin(name, lambda I2, a, k: I2.call(self.external(I2, 'numpy', name), [o] + list(a), k))
            I.undecided('array attribute %s' % name)
        if isinstance(o, IdxSeq):
            if name in ('sum', 'prod'):
                return Builtin(name, lambda I2, a, k: self.reduce_seq(I2, name, o))
            if name == 'copy':
                return Builtin(name, lambda I2, a, k: o)
            I.undecided('array attribute %s' % name)
        if isinstance(o, SymSeq):
            I.undecided('attribute of a symbolic sequence')
        if isinstance(o, (AMat, AMatT)):
            return self.mat_attr(I, o, name)
        if isinstance(o, (AList, ADict, ASet, DictView, tuple, ListIter)):
            if self.has_method(o, name):
                return Builtin(name, lambda I2, a, k: self.call_method(I2, o, name, a, k))
            raise AbsRaise('AttributeError', name, I.loc)
        if isinstance(o, (str, AStr)):
            if not hasattr(str, name):
                raise AbsRaise('AttributeError', name, I.loc)
            return Builtin(name, lambda I2, a, k: self.str_method(I2, o, name, a, k))
        if isinstance(o, Opaque):
            if o.kind == 'str' and hasattr(str, name):
                return Builtin(name, lambda I2, a, k: self.str_method(I2, o, name, a, k))
            return Opaque(('attr', o.key, name), 'any')
        if isinstance(o, (Poly, bool)):
            if name in ('real',):
                return as_poly(o)
            if name in ('shape',):
                return ()
            if name == 'ndim':
                return ZERO
            if name in ('item', 'copy', 'conjugate', 'squeeze'):
                return Builtin(name, lambda I2, a, k: as_poly(o))
            if name == 'is_integer':
                return Builtin(name, lambda I2, a, k: self.integral(as_poly(o)))
            if name in ('sum', 'mean', 'max', 'min', 'prod', 'astype'):
                return Builtin(name, lambda I2, a, k: as_poly(o))
            raise AbsRaise('AttributeError', name, I.loc)
        if isinstance(o, NpType):
            if name == 'type':
                return o
            if name == '__name__':
                return o.name
            return Opaque(('attr', o.name, name), 'any')
        if isinstance(o, Builtin):
            sub = getattr(o, 'sub', {}).get(name)
            if sub is not None:
                return sub
            if name in ('__name__',):
                return o.name
            if o.name in self.UNBOUND and not name.startswith('__'):
                def unbound(I2, a, k):
                    if not a:
                        raise AbsRaise('TypeError', 'unbound method %s.%s() needs an argument' % (o.name, name), I2.loc)
                    return I2.call(I2.getattr(a[0], name), list(a[1:]), k)
                return Builtin('%s.%s' % (o.name, name), unbound)
            I.undecided('attribute %s of %s' % (name, o.name))
        if isinstance(o, AMethod):
            if name == '__name__':
                return o.func.name
        if o is None:
            raise AbsRaise('AttributeError', "None has no attribute %s" % name, I.loc)
        if isinstance(o, VecCol):
            I.undecided('column of the displacement vector')
        I.undecided('attribute %s of %s' % (name, type(o).__name__))

    def setattr(self, I, o, name, v):
        if isarr(o) and name == 'shape':
            I.undecided('array shape assignment')
        if isinstance(o, Opaque):
            I.effect('mutate-input', what='%s.%s' % (o.key, name))
            return
        if isinstance(o, (AFunc, Builtin)):
            I.effect('global-write', name='%s.%s' % (o.name, name))
            return
        raise AbsRaise('AttributeError', name, I.loc)

    def mat_attr(self, I, o, name):
        if name in ('max', 'min', 'sum', 'mean', 'any', 'all', 'trace', 'std', 'argmax', 'argmin', 'diagonal', 'nonzero'):
            return Builtin(name, lambda I2, a, k: self.derived(I2, name, o))
        if isinstance(o, AMatT):
            if name == 'T':
                return o.base
            if name == 'shape':
                return (o.base.shape[1], o.base.shape[0])
            I.undecided('attribute %s of a transposed matrix' % name)
        if name == 'T':
            return AMatT(o)
        if name == 'shape':
            return tuple(o.shape)
        if name == 'ndim':
            return Poly.const(2)
        if name == 'dtype':
            t = getattr(o, 'dtype', None)
            return t if t is not None else NpType('float64')
        if name == 'size':
            return o.shape[0]*o.shape[1]
        if name in ('copy', 'astype'):
            def cp(I2, a, k):
                r = AMat(o.name + "'", o.shape, o.initial)
                r.writes = list(o.writes)
                r.opaque = o.opaque
                r.copied = o
                t = k.get('dtype', a[0] if a else None) if name == 'astype' else None
                r.dtype = t if t is not None else getattr(o, 'dtype', None)
                if name == 'astype' and self.lossy_type(I2, t):
                    r.writes = [(w[0], w[1], w[2], self.cast(I2, t, w[3])) + tuple(w[4:]) for w in r.writes]
                return r
            return Builtin(name, cp)
        if name == 'transpose':
            return Builtin(name, lambda I2, a, k: AMatT(o))
        if name in ('fill',):
            return Builtin(name, lambda I2, a, k: self.mat_write(I2, o, Ellipsis, 'set', a[0]))
        if name == 'flags':
            return Opaque(('flags', o.name), 'any')
        I.undecided('matrix attribute %s' % name)

    def reduce_vec(self, I, kind, v):
        """a number that depends on the whole vector"""
        if v.maps:
            return Top('%s of a changed vector' % kind)
        if kind == 'any':
            return self.compare(I, 'NotEq', self.vec_number('maxabs', v.name), ZERO)
        if kind == 'all':
            return Opaque((kind, v.name), 'bool')
        if v.factor != ONE and not (kind in ('sum', 'mean') and not v.absolute):
            return Top('%s of a scaled vector' % kind)
        return self.vec_number(kind + ('abs' if v.absolute else ''), v.name)*v.factor

    def vec_number(self, kind, name):
        a = al.intern('sym', ('vector', kind, name), '%s(%s)' % (kind, name))
        al.NORMS[a.id] = (kind, name)
        return Poly.of_atom(a)

    def vec_reshape(self, I, o, a):
        if len(a) == 1 and isinstance(a[0], tuple):
            a = list(a[0])
        if len(a) == 1 and const_int(a[0]) == -1:
            return AVec2(o, None) if o.ncol else o
        if len(a) == 2:
            c = const_int(a[1])
            if c is not None and c > 0:
                return o.like(c)
        I.undecided('reshape of the displacement vector')

    def coll_attr(self, I, o, name):
        if name == 'shape':
            if o.reps and isarr(o.reps[0]):
                return (o.length,) + tuple(Poly.const(n) for n in o.reps[0].shape)
            return (o.length,)
        if name == 'size':
            return o.length
        if name == 'ndim':
            return Poly.const(1 + (o.reps[0].ndim if o.reps and isarr(o.reps[0]) else 0))
        if name == 'T':
            I.undecided('transpose of a collection of unknown length')
        if name in ('min', 'max', 'sum', 'mean', 'prod', 'argsort', 'copy', 'astype', 'tolist', 'round', 'any', 'all',
                    'argmin', 'argmax', 'std', 'dot'):
            return Builtin(name, lambda I2, a, k: self.coll_method(I2, o, name, a, k))
        if name in ('append', 'sort', 'remove', 'pop', 'extend', 'reverse', 'insert'):
            I.undecided('in-place %s on a collection of unknown length' % name)
        if name in ('index',):
            def ix(I2, a, k):
                for p, r in zip(o.pos, o.reps):
                    if self.same(I2, r, a[0]):
                        return p
                I2.undecided('index in a collection of unknown length')
            return Builtin(name, ix)
        I.undecided('attribute %s of a collection of unknown length' % name)

    def coll_method(self, I, o, name, a, k):
        ax = k.get('axis', a[0] if a and name not in ('astype', 'round') else None)
        ax = const_int(ax) if ax is not None else None
        if name in ('copy', 'astype', 'tolist', 'round'):
            return o
        elem_arr = bool(o.reps) and isarr(o.reps[0])
        if name == 'argsort':
            return self.argsort(I, o)
        if name in ('min', 'max', 'sum', 'mean', 'prod', 'std'):
            if elem_arr and ax is not None and ax != 0:
                kk = dict(k)
                kk['axis'] = Poly.const(ax - 1 if ax > 0 else ax)
                f = self.external(I, 'numpy', name)
                return self.coll_map(I, o, lambda r: I.call(f, [r], kk))
            if elem_arr and ax == 0:
                shp = o.reps[0].shape
                out = []
                for i in range(o.reps[0].size):
                    out.append(al.fn(name + '_over', o.name, i))
                return objarray(out, shp)
            return al.fn(name + '_over', o.name)
        if name in ('any', 'all'):
            return Opaque((name, o.name, self.name()), 'bool')
        I.undecided('%s of a collection of unknown length' % name)

    def argsort(self, I, o):
        nm = self.name('perm')
        pos = []
        for i, p in enumerate(o.pos):
            q = al.sym('pos(%s,%d)' % (nm, i))
            pos.append(q)
            self.copy_rank(I, p, q, nm)
        c = SymColl('argsort(%s)' % o.name, list(o.pos), pos, o.length)
        c.is_array = True
        c.partial = o.partial
        return c

    def copy_rank(self, I, p, q, cls):
        """A permutation of unknown effect: order of the representatives is
        taken from the context's order (all orders are enumerated there)."""
        a = [al.atom(i) for i in al.expand_defs(p).atoms()]
        b = al.atom(list(q.atoms())[0])
        for x in a:
            if x.id in I.ctx.ranks:
                I.ctx.ranks[b.id] = (cls, I.ctx.ranks[x.id][1])
                I.ctx.lower[b.id] = 0

    # containers' methods -------------------------------------------------
    LIST_M = ('append', 'extend', 'insert', 'pop', 'remove', 'sort', 'reverse', 'index', 'count', 'copy', 'clear')
    # types whose methods may be called through the class: set.union(a, b)
    UNBOUND = ('set', 'frozenset', 'list', 'dict', 'str', 'tuple', 'OrderedDict', 'defaultdict', 'float', 'int')
    DICT_M = ('keys', 'values', 'items', 'get', 'setdefault', 'pop', 'update', 'copy', 'clear', 'popitem', 'fromkeys')
    SET_M = ('add', 'update', 'remove', 'discard', 'pop', 'union', 'intersection', 'difference', 'issubset',
             'issuperset', 'copy', 'clear', 'symmetric_difference', 'difference_update', 'intersection_update',
             'isdisjoint')

    def has_method(self, o, name):
        if isinstance(o, AList):
            return name in self.LIST_M
        if isinstance(o, ADict):
            return name in self.DICT_M
        if isinstance(o, ASet):
            return name in self.SET_M
        if isinstance(o, tuple):
            return name in ('index', 'count')
        if isinstance(o, ListIter):
            return name in ('__next__', 'next')
        return False

    def call_method(self, I, o, name, a, k):
        if isinstance(o, (AList, tuple)):
            if name == 'append':
                self.list_append(I, o, a[0])
                return None
            if name == 'extend':
                self.list_extend(I, o, a[0])
                return None
            if name == 'copy':
                r = I.new_list()
                r.items = list(o.items)
                return r
            if name == 'clear':
                self.touch(I, o)
                o.items = []
                return None
            if name == 'insert':
                self.touch(I, o)
                i = const_int(a[0])
                if i is None:
                    I.undecided('list.insert')
                if self.deeper(I, o.birth):
                    I.undecided('list.insert in a summarised loop')
                o.items.insert(i, a[1])
                return None
            dom = self.iterate(I, o)
            if not isinstance(dom, list):
                if name == 'sort':
                    self.touch(I, o)
                    c = self.sorted_coll(I, dom)
                    o.items = [LoopItem(('sorted', c.name), i, r, p, c) for i, (r, p) in enumerate(zip(c.reps, c.pos))]
                    return None
                I.undecided('list.%s on a list of unknown length' % name)
            if name == 'pop':
                self.touch(I, o)
                i = const_int(a[0]) if a else -1
                try:
                    return o.items.pop(i)
                except IndexError:
                    raise AbsRaise('IndexError', None, I.loc)
            if name == 'remove':
                self.touch(I, o)
                for i, x in enumerate(dom):
                    if self.same(I, x, a[0]):
                        del o.items[i]
                        return None
                raise AbsRaise('ValueError', None, I.loc)
            if name == 'sort':
                self.touch(I, o)
                o.items = self.sort(I, dom, k.get('key'), k.get('reverse', False))
                return None
            if name == 'reverse':
                self.touch(I, o)
                o.items = dom[::-1]
                return None
            if name == 'index':
                for i, x in enumerate(dom):
                    if self.same(I, x, a[0]):
                        return Poly.const(i)
                raise AbsRaise('ValueError', None, I.loc)
            if name == 'count':
                return Poly.const(sum(1 for x in dom if self.same(I, x, a[0])))
        if isinstance(o, ADict):
            if name in ('keys', 'values', 'items'):
                return DictView(o, name)
            if name == 'get':
                i = o.find(a[0], I)
                if i >= 0:
                    return o.vals[i]
                return a[1] if len(a) > 1 else k.get('default')
            if name == 'setdefault':
                i = o.find(a[0], I)
                if i >= 0:
                    return o.vals[i]
                v = a[1] if len(a) > 1 else None
                self.dict_set(I, o, a[0], v)
                return v
            if name == 'pop':
                self.touch(I, o)
                i = o.find(a[0], I)
                if i >= 0:
                    v = o.vals[i]
                    del o.keys[i], o.vals[i]
                    return v
                if len(a) > 1:
                    return a[1]
                raise AbsRaise('KeyError', None, I.loc)
            if name == 'update':
                if a:
                    s = a[0]
                    if isinstance(s, ADict):
                        for kk, vv in zip(list(s.keys), list(s.vals)):
                            self.dict_set(I, o, kk, vv)
                        if s.sym is not None and o.sym is None:
                            o.sym = s.sym
                            o.length = s.length
                    else:
                        d = self.iterate(I, s)
                        if isinstance(d, SymColl):
                            for it in d.reps:
                                kk, vv = self.concrete(I, it)
                                self.dict_set(I, o, kk, vv)
                            o.sym, o.length = d, d.length
                        else:
                            for it in d:
                                kk, vv = self.concrete(I, it)
                                self.dict_set(I, o, kk, vv)
                for kk, vv in k.items():
                    self.dict_set(I, o, kk, vv)
                return None
            if name == 'copy':
                r = I.new_dict()
                r.keys, r.vals, r.sym, r.length, r.default = list(o.keys), list(o.vals), o.sym, o.length, o.default
                return r
            if name == 'clear':
                self.touch(I, o)
                o.keys, o.vals, o.sym = [], [], None
                return None
        if isinstance(o, ASet):
            if name == 'add':
                self.set_add(I, o, a[0])
                return None
            if name == 'update':
                for s in a:
                    d = self.iterate(I, s)
                    if isinstance(d, SymColl):
                        o.sym = d
                        d = d.reps
                    for x in d:
                        self.set_add(I, o, x)
                return None
            if name in ('union', 'intersection', 'difference', 'symmetric_difference'):
                op = {'union': 'BitOr', 'intersection': 'BitAnd', 'difference': 'Sub',
                      'symmetric_difference': 'BitXor'}[name]
                r = o
                for s in a:
                    r = self.setop(I, op, r, self.as_set(I, s))
                if not a:
                    r = self.setop(I, 'BitOr', o, I.new_set())
                return r
            if name in ('difference_update', 'intersection_update'):
                self.touch(I, o)
                r = self.setop(I, 'Sub' if name[0] == 'd' else 'BitAnd', o, self.as_set(I, a[0]))
                o.items = r.items
                return None
            if name in ('remove', 'discard'):
                self.touch(I, o)
                for i, x in enumerate(o.items):
                    if I.same(x, a[0]):
                        del o.items[i]
                        return None
                if name == 'remove' and o.sym is None:
                    raise AbsRaise('KeyError', None, I.loc)
                return None
            if name == 'pop':
                self.touch(I, o)
                if not o.items:
                    raise AbsRaise('KeyError', 'pop from an empty set', I.loc)
                if len(o.items) > 1 and not I.ctx.set_reverse:
                    return o.items.pop()
                return o.items.pop(0)
            if name == 'copy':
                r = I.new_set()
                r.items, r.sym = list(o.items), o.sym
                return r
            if name == 'clear':
                self.touch(I, o)
                o.items, o.sym = [], None
                return None
            if name == 'issubset':
                return self.compare(I, 'LtE', o, self.as_set(I, a[0]))
            if name == 'issuperset':
                return self.compare(I, 'GtE', o, self.as_set(I, a[0]))
            if name == 'isdisjoint':
                b = self.as_set(I, a[0])
                return not any(I.same(x, y) for x in o.items for y in b.items)
        if isinstance(o, ListIter):
            if o.i < len(o.items):
                o.i += 1
                return o.items[o.i-1]
            raise AbsRaise('StopIteration', None, I.loc)
        I.undecided('method %s' % name)

    def sort(self, I, items, key=None, reverse=False):
        keys = [I.call(key, [x], {}) if key is not None else x for x in items]
        rev = I.truth(reverse) if not isinstance(reverse, bool) else reverse
        out = []
        for x, kx in zip(items, keys):
            i = len(out)
            # insertion after all elements that are not greater (stable)
            while i > 0:
                less = self.compare(I, 'Lt' if not rev else 'Gt', kx, out[i-1][1])
                if not I.truth(less):
                    break
                i -= 1
            out.insert(i, (x, kx))
        return [x for x, _ in out]

    def sorted_coll(self, I, c):
        nm = self.name('sorted')
        pos = []
        for i, p in enumerate(c.pos):
            q = al.sym('pos(%s,%d)' % (nm, i))
            pos.append(q)
            if p is not None:
                self.copy_rank(I, p, q, nm)
        r = SymColl(nm, list(c.reps), pos, c.length)
        r.partial = c.partial
        return r

    # ------------------------------------------------------------------
    # arrays
    # ------------------------------------------------------------------
    def arr(self, I, v, copy=False):
        """numpy array of a nested sequence; SymColl when its length is
        unknown"""
        if isarr(v):
            return v.copy() if copy else v
        if isinstance(v, (SymColl,)):
            r = v.map(v.name, lambda x: self.arr(I, x) if isinstance(x, (AList, tuple)) else x)
            r.is_array = True
            return r
        if isinstance(v, (KArr, SymArr, SymArrView, IdxSeq, AVec, AMat, Top, Opaque, AMatT)):
            return v
        p = as_poly(v)
        if p is not None:
            return objarray([v if isinstance(v, bool) else p], ())
        if isinstance(v, AObj):
            if '__array__' in v.methods:
                return v.methods['__array__'](I, [], {})
            return objarray([v], ())
        if isinstance(v, (str, AStr)) or v is None:
            return objarray([v], ())
        d = self.iterate(I, v)
        if isinstance(d, SymColl):
            return self.arr(I, d)
        if isinstance(d, IndexDomain):
            I.release_bound(d)
            I.undecided('array over a symbolic index range')
        items = []
        for x in d:
            if isinstance(x, (AList, tuple, list)) or isarr(x):
                items.append(self.arr(I, x))
            elif isinstance(x, (SymColl, SymArr, IdxSeq, AVec, AMat)):
                I.undecided('array of arrays of unknown length')
            elif isinstance(x, KArr):
                items.append(x)
            elif isinstance(x, Top):
                items.append(x)
            else:
                items.append(x)
        if items and all(isarr(x) for x in items):
            shapes = set(x.shape for x in items)
            if len(shapes) != 1:
                raise AbsRaise('ValueError', 'inhomogeneous array', I.loc)
            shp = items[0].shape
            out = np.empty((len(items),) + shp, dtype=object)
            for i, x in enumerate(items):
                out[i] = x
            if all(self.is_int(x) for x in items):
                self.mark_int(out)
            return out
        if any(isarr(x) and x.ndim > 0 for x in items):
            raise AbsRaise('ValueError', 'inhomogeneous array', I.loc)
        items = [x.item() if isarr(x) else x for x in items]
        out = objarray([x if isinstance(x, bool) or as_poly(x) is None else as_poly(x) for x in items])
        if items and all((isinstance(x, Poly) and x.li) for x in items):
            self.mark_int(out)
        return out

    def arr_attr(self, I, o, name):
        if name == 'shape':
            return tuple(Poly.const(n) for n in o.shape)
        if name == 'ndim':
            return Poly.const(o.ndim)
        if name == 'size':
            return Poly.const(o.size)
        if name == 'T':
            return o.T
        if name == 'dtype':
            return NpType('int64' if self.is_int(o) else 'float32' if self.is_single(o) else 'float64')
        if name == 'flat':
            return o.reshape(-1)
        if name == 'real':
            return o
        fns = ('sum', 'mean', 'min', 'max', 'prod', 'dot', 'argsort', 'argmin', 'argmax', 'any', 'all', 'cumsum',
               'round', 'clip', 'trace', 'diagonal', 'squeeze', 'repeat', 'ptp', 'nonzero')
        if name in fns:
            f = self.external(I, 'numpy', name)
            return Builtin(name, lambda I2, a, k: I2.call(f, [o] + list(a), k))
        if name in ('copy', '__copy__'):
            return Builtin(name, lambda I2, a, k: self.keep_int(o, o.copy()))
        if name == 'flatten':
            return Builtin(name, lambda I2, a, k: self.keep_int(o, o.flatten()))
        if name == 'ravel':
            return Builtin(name, lambda I2, a, k: o.ravel(order=a[0] if a else k.get('order', 'C')))
        if name == 'astype':
            return Builtin(name, lambda I2, a, k: self.astype(I2, o, a[0] if a else k.get('dtype')))
        if name == 'reshape':
            def rs(I2, a, k):
                if len(a) == 1 and isinstance(a[0], (tuple, AList)):
                    a = self.concrete(I2, a[0])
                sh = [const_int(x) for x in a]
                if any(x is None for x in sh):
                    I2.undecided('reshape')
                try:
                    return o.reshape(sh)
                except ValueError:
                    raise AbsRaise('ValueError', 'reshape', I2.loc)
            return Builtin(name, rs)
        if name == 'tolist':
            def tl(I2, a, k):
                def rec(x):
                    return I2.new_list([rec(y) for y in x]) if isarr(x) and x.ndim else (x.item() if isarr(x) else x)
                return rec(o)
            return Builtin(name, tl)
        if name == 'item':
            return Builtin(name, lambda I2, a, k: self.get_item(I2, o.reshape(-1), a[0]) if a else o.reshape(-1)[0])
        if name == 'transpose':
            return Builtin(name, lambda I2, a, k: o.transpose(*[const_int(x) for x in a]))
        if name == 'swapaxes':
            return Builtin(name, lambda I2, a, k: o.swapaxes(*[const_int(x) for x in a]))
        if name == 'fill':
            def fl(I2, a, k):
                I2.note_array_write(o)
                o[...] = as_poly(a[0])
            return Builtin(name, fl)
        if name == 'sort':
            def so(I2, a, k):
                I2.note_array_write(o)
                if o.ndim != 1:
                    I2.undecided('sort of a matrix')
                o[...] = objarray(self.sort(I2, list(o)))
            return Builtin(name, so)
        if name == 'setflags':
            return Builtin(name, lambda I2, a, k: None)
        raise AbsRaise('AttributeError', name, I.loc)

    def keep_int(self, src, dst):
        if self.is_int(src):
            self.mark_int(dst)
        return dst

    def astype(self, I, o, t):
        r = o.copy()
        if self.int_type(t, I):
            r = self.trunc(r)
            self.mark_int(r)
        elif self.lossy_type(I, t) == 'single':
            r = self.to_single(I, r)
        elif self.lossy_type(I, t):
            r = objarray([self.cast(I, t, x) for x in r.flat], r.shape)
        return r

    def lossy_type(self, I, t):
        """Kind of the information lost when numbers are stored with a type."""
        if t is None:
            return None
        if isinstance(t, NpType):
            if t.name.startswith('input:'):
                return 'int' if I.ctx.choose(('dtype', t.name), '%s of integer type' % t.name[6:]) else None
            t = t.name
        if isinstance(t, Builtin):
            t = t.name
        if isinstance(t, str):
            t = t.lstrip('<>=|')
            if t.startswith(('int', 'uint')) or t in ('i', 'i1', 'i2', 'i4', 'i8', 'u1', 'u2', 'u4', 'u8', 'l', 'q', 'intp', 'long', 'longlong'):
                return 'int'
            if t.startswith('bool') or t in ('?', 'b1'):
                return 'bool'
            if t in ('float32', 'float16', 'single', 'half', 'f4', 'f2', 'f', 'e', 'complex64', 'F'):
                return 'single'
        return None

    def cast(self, I, t, p):
        """the number p after being stored with type t"""
        k = self.lossy_type(I, t)
        if k is None or not isinstance(p, Poly):
            return p
        if k == 'int':
            return self.trunc(p)
        if k == 'bool':
            return p if p.is_const() and not p.t else al.fn('truth', p)
        return p if self.integral(p) and p.is_const() else al.fn('single', p)

    def int_type(self, t, I=None):
        if isinstance(t, NpType) and t.name.startswith('input:') and I is not None:
            return self.lossy_type(I, t) == 'int'
        if isinstance(t, NpType):
            return t.name.startswith(('int', 'uint'))
        if isinstance(t, str):
            return t.startswith(('int', 'uint', 'i'))
        if isinstance(t, Builtin):
            return t.name == 'int'
        return False

    def elementwise(self, I, v, f):
        if isinstance(v, AVec) and (f is not al.pabs or v.maps):
            return v.mapped(f)
        if isinstance(v, AVec) and f is al.pabs:
            r = AVec(v.name, v.length, v.ncol)
            r.factor, r.fresh, r.absolute = v.factor, True, True
            return r
        if isinstance(v, Opaque) and v.kind in ('any', 'opaque'):
            return Opaque(('function', getattr(f, '__name__', 'f'), v.key), 'any')
        if isinstance(v, (AMat, AMatT, MatDer)):
            return self.derived(I, 'function', v)
        if isinstance(v, (AList, tuple)):
            v = self.arr(I, v)
        if isarr(v):
            return objarray([x if isinstance(x, Top) else f(as_poly(x)) for x in v.flat], v.shape)
        if isinstance(v, KArr):
            return KArr(f(v.val))
        if isinstance(v, AMatView):
            return self.elementwise(I, self.mat_read(I, v), f)
        if isinstance(v, SymColl):
            return self.coll_map(I, v, lambda r: self.elementwise(I, r, f))
        if isinstance(v, (SymArr, SymArrView, IdxSeq)):
            s = self.seq_binop(I, 'Add', v, ZERO)
            return IdxSeq(s.key, lambda i: self.elementwise(I, s.mk(i), f))
        if isinstance(v, Top):
            return v
        p = as_poly(v)
        if p is None:
            if isinstance(v, AObj) or v is None:
                raise AbsRaise('TypeError', 'numeric function', I.loc)
            I.undecided('numeric function of %s' % type(v).__name__)
        return f(al.expand_defs(p))

    def reduce_seq(self, I, kind, v):
        """sum/product over an index domain"""
        if isinstance(v, SymSeq):
            adds = []
            karr = False
            for g, x in v.paths:
                if isinstance(x, KArr):
                    karr = True
                    x = x.val
                p = as_poly(x)
                if p is None:
                    I.undecided('reduction of non-numbers')
                adds.append((g, al.expand_defs(p)))
            r = reduction(kind, v.bound, adds) if adds else (ZERO if kind == 'sum' else ONE)
            return KArr(r) if karr else r
        dom = self.iterate(I, v)
        if not isinstance(dom, IndexDomain):
            I.undecided('reduction')
        ps = I.local_paths(dom, lambda: dom.item(I))
        I.release_bound(dom)
        return self.reduce_seq(I, kind, SymSeq(ps, dom.bound))

    def reduce_axis(self, I, v, ax, f, keepdims=False):
        """f: list of elements -> element"""
        if isinstance(v, (AList, tuple)):
            v = self.arr(I, v)
        if isinstance(v, Top):
            return v
        if not isarr(v):
            p = as_poly(v)
            if p is not None:
                return f([p])
            I.undecided('reduction of %s' % type(v).__name__)
        if ax is None:
            r = f(list(v.flat))
            return objarray([r], (1,)*v.ndim) if keepdims else r
        if isinstance(ax, tuple):
            axs = sorted([(const_int(a) % v.ndim) for a in ax], reverse=True)
            for a in axs:
                v = self.reduce_axis(I, v, a, f)
            return v
        n = v.ndim
        if ax < -n or ax >= n:
            raise AbsRaise('ValueError', 'axis out of bounds', I.loc)
        m = np.moveaxis(v, ax, -1)
        shp = m.shape[:-1]
        m2 = m.reshape(int(np.prod(shp)) if shp else 1, m.shape[-1])
        out = objarray([f(list(row)) for row in m2], shp)
        if not shp:
            return out.item()
        if keepdims:
            return np.expand_dims(out, ax)
        return out

    # external names ---------------------------------------------------------
    def external(self, I, mod, attr):
        import npmodels
        return npmodels.external(self, I, mod, attr)

    def builtin(self, name):
        import npmodels
        if self._bi is None:
            self._bi = npmodels.make_builtins(self)
        return self._bi.get(name)


class SymArrView(object):
    def __init__(self, arr, idx):
        self.arr, self.idx = arr, idx

    def index(self, i):
        idx = self.idx + (i,)
        if len(idx) == len(self.arr.lens):
            return self.arr.entry(idx)
        return SymArrView(self.arr, idx)

    def index_many(self, I, ks):
        v = self
        for n, k in enumerate(ks):
            if isinstance(k, Slice) and k.lo is None and k.hi is None and k.step is None:
                if n == len(ks) - 1:
                    return v
                I.undecided('column of a nodal field')
            if k is Ellipsis:
                continue
            p = as_poly(k)
            if p is None:
                I.undecided('index of a nodal field')
            if not isinstance(v, SymArrView):
                raise AbsRaise('IndexError', 'too many indices', I.loc)
            v = v.index(al.expand_defs(p))
        return v


class VecCol(object):
    """d[c::ncol] / d.reshape(-1, ncol)[:, c]"""

    def __init__(self, vec, c):
        self.vec, self.c = vec, c


class AVec2(AVec):
    def __init__(self, v, ncol):
        AVec.__init__(self, v.name, v.length, ncol)
        self.factor, self.absolute, self.maps = v.factor, v.absolute, v.maps


class AMatView(object):
    def __init__(self, mat, k):
        self.mat, self.k = mat, k


class GridIx(object):
    def __init__(self, arrs):
        self.arrs = arrs

    def item(self, I, k):
        return self.arrs[const_int(k)]
