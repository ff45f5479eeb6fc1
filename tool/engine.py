"""Abstract interpreter for the Python/numpy subset used by the repository.

The analysed program is never imported or executed: its syntax trees are
interpreted over abstract values (see algebra.py for numbers).  Collections of
unknown size are summarised by representative members, loops over them are
analysed once per representative with loop-carried state generalised, and
branches that the analysis context does not decide are handled by trace
partitioning (the context is refined by the branch predicate, and every
refinement is analysed)."""
import ast
import os

import numpy as np

import algebra as al
from algebra import Poly, lift, ZERO, ONE


class Undecided(Exception):
    """The analysis met something it cannot interpret soundly."""

    def __init__(self, why, loc=None):
        Exception.__init__(self, why)
        self.why = why
        self.loc = loc


class AbsRaise(Exception):
    """The analysed program raises."""

    def __init__(self, cls, value=None, loc=None):
        Exception.__init__(self, cls)
        self.cls = cls
        self.value = value
        self.loc = loc


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class Infeasible(Exception):
    """The current refinement of the context is contradictory."""


# --------------------------------------------------------------------------
# context: facts about the inputs plus the refinement made by branches
# --------------------------------------------------------------------------
class Ctx(object):
    def __init__(self, name='', forced=()):
        self.name = name
        self.forced = list(forced)
        self.trail = []        # (key, value, text)
        self.assumed = {}
        self.weak = []
        self.facts = []        # (Poly, '+'/'-')
        self.ranks = {}        # atom id -> (class, rank)
        self.lower = {}        # atom id -> lower bound
        self.set_reverse = False
        self.growing = set()   # lengths read in a loop that changes them
        self.zero_subst = {}   # atom id -> Poly (from assumed equalities)
        self.notes = []

    # facts ------------------------------------------------------------
    def add_fact(self, p, s):
        self.facts.append((p, s))

    def _order_sign(self, p):
        """linear combination of ordered integer atoms plus a constant"""
        c = p.t.get((), 0)
        ts = []
        for m, k in p.t.items():
            if not m:
                continue
            if len(m) != 1 or m[0][1] != 1:
                return None
            ts.append((m[0][0], k))
        if not ts:
            return None
        if len(ts) == 1:
            a, k = ts[0]
            lo = self.lower.get(a)
            if lo is None and al.pos_name(a):
                lo = 0
            if lo is not None:
                if k > 0:
                    v = k*lo + c
                    if v > 0:
                        return '+'
                    if v == 0:
                        return '>=0'
                else:
                    v = k*lo + c
                    if v < 0:
                        return '-'
                    if v == 0:
                        return '<=0'
            return None
        if len(ts) == 2:
            (a, k), (b, l) = ts
            if k == -l and a in self.ranks and b in self.ranks:
                ca, ra = self.ranks[a]
                cb, rb = self.ranks[b]
                if ca == cb and ra != rb:
                    # |a-b| >= 1
                    if ra > rb:
                        lo = abs(k)
                        s = 1 if k > 0 else -1
                    else:
                        lo = abs(k)
                        s = -1 if k > 0 else 1
                    v = s*lo + c
                    if s > 0 and v > 0:
                        return '+'
                    if s < 0 and v < 0:
                        return '-'
        return None

    def sign(self, p):
        for _ in range(4):
            if not self.zero_subst:
                break
            q = al.subst(p, self.zero_subst)
            if q.t == p.t:
                break
            p = q
            s = al.basic_sign(p)
            if s is not None:
                return s
        s = self._order_sign(p)
        if s is not None:
            return s
        c, m, Q = al.canon(p)
        cs = 1 if c > 0 else -1
        for a, e in m:
            if e % 2 and not al.nonneg_atom(al.atom(a)):
                base = al.atom(a)
                sub = None
                if base.kind == 'den':
                    sub = self.sign(base.args[0])
                    sub = {'>=0': '+', '<=0': '-'}.get(sub, sub)
                else:
                    sub = self._fact_sign(Poly.of_atom(base))
                if sub == '+':
                    continue
                if sub == '-':
                    cs = -cs
                    continue
                return None
        if len(Q.t) == 1 and () in Q.t:
            return '+' if cs > 0 else '-'
        s = al.basic_sign(Q)
        if s is None:
            s = self._fact_sign(Q)
        if s is None:
            return None
        if s == '0':
            return s
        if cs < 0:
            s = {'+': '-', '-': '+', '>=0': '<=0', '<=0': '>=0'}[s]
        return s

    def _fact_sign(self, Q):
        if not Q.t:
            return '0'
        cQ, mQ, cq = al.canon(Q)
        for T, s in self.facts:
            cT, mT, ct = al.canon(T)
            if ct.t == cq.t and mT == mQ:
                pos = (cQ > 0) == (cT > 0)
                if s == '0':
                    return '0'
                return s if pos else ('-' if s == '+' else '+')
        for T, s in self.weak:
            cT, mT, ct = al.canon(T)
            if ct.t == cq.t and mT == mQ:
                if (cQ > 0) == (cT > 0):
                    return s
                return '<=0' if s == '>=0' else '>=0'
        # non-negative combination of facts
        rem = Q
        coefs = []
        for T, s in self.facts:
            if s not in '+-':
                continue
            if not rem.t:
                break
            others = set()
            for U, _ in self.facts:
                if U is not T:
                    others |= set(U.t)
            key = None
            for mono in T.t:
                if mono not in others and mono in rem.t:
                    key = mono
                    break
            if key is None:
                continue
            k = al.Fraction(rem.t[key])/T.t[key]
            rem = rem - T*Poly.const(k)
            coefs.append(k if s == '+' else -k)
        if coefs:
            extra = None
            if rem.t:
                extra = al.basic_sign(rem)
            if not rem.t or extra in ('+', '-'):
                sg = set('+' if k > 0 else '-' for k in coefs)
                if extra:
                    sg.add(extra)
                if len(sg) == 1:
                    return sg.pop()
        return None

    # decisions ---------------------------------------------------------
    def choose(self, key, text):
        """Trace partitioning on an undecided predicate."""
        if key in self.assumed:
            return self.assumed[key]
        i = len(self.trail)
        if i < len(self.forced):
            v = self.forced[i]
        else:
            v = True
        if i > 40:
            raise Undecided('too many undecided branches (last: %s)' % text)
        self.trail.append((key, v, text))
        self.assumed[key] = v
        return v

    def compare(self, op, d):
        """truth of  d op 0  for op in < <= > >= == != """
        d = al.expand_defs(d)
        if al.has_lets(d):
            s = al.sign(d)
            if s not in ('+', '-', '0'):
                d = al.expand_lets(d)
        if op in ('>', '>='):
            return self.compare('<' if op == '>' else '<=', -d)
        if op == '!=':
            return not self.compare('==', d)
        if op in ('<', '<=') and len(d.t) == 1:
            (m, c), = d.t.items()
            if len(m) == 1 and m[0][0] in al.NORMS and 'abs' in al.NORMS[m[0][0]][0]:
                # a norm is never negative: strictly positive means different from zero
                if op == '<':
                    return c < 0 and not self.compare('==', d)
                return c < 0 or self.compare('==', d)
        s = al.sign(d)
        if s is None and self.zero_subst:
            s = self.sign(d)
        if op == '<':
            if s == '-':
                return True
            if s in ('+', '0', '>=0'):
                return False
        elif op == '<=':
            if s in ('-', '0', '<=0'):
                return True
            if s == '+':
                return False
        elif op == '==':
            if s == '0':
                return True
            if s in ('+', '-'):
                return False
            dd = al.clear(d)
            if not dd.t:
                return True
            if len(d.t) == 2 and al.pos_distinct(d):
                return False
        c, m, Q = al.canon(d)
        core = d
        if op == '==':
            key = ('==', Poly({m: 1})*Q if m else Q)
            text = '%s == 0' % (key[1],)
        else:
            norm = Poly({m: 1})*Q
            if c > 0:
                key = (op, norm, 1)
                text = '%s %s 0' % (norm, op)
            else:
                # -norm op 0  <=> norm > 0 / norm >= 0  <=> not(norm <= 0)/not(norm < 0)
                key = ('<=' if op == '<' else '<', norm, 1)
                text = '%s %s 0' % (norm, key[0])
                v = self.choose(key, text)
                self._learn(key, norm, v)
                return not v
            core = norm
        v = self.choose(key, text)
        self._learn(key, core, v)
        return v

    def _learn(self, key, p, v):
        if key[0] == '==':
            if v:
                q = key[1]
                # solve for an atom that occurs linearly
                for mono in q.t:
                    if len(mono) == 1 and mono[0][1] == 1:
                        a = mono[0][0]
                        at = al.atom(a)
                        if at.kind not in ('sym', 'app', 'bound'):
                            continue
                        n = sum(1 for mm in q.t for x, _ in mm if x == a)
                        if n == 1:
                            rest = q - Poly({mono: q.t[mono]})
                            if a in rest.all_atoms():
                                continue
                            self.zero_subst[a] = rest*Poly.const(al.Fraction(-1)/q.t[mono])
                            if at.pos:
                                # contradicts a positivity declaration?
                                if al.basic_sign(self.zero_subst[a]) == '-':
                                    raise Infeasible()
                            self._recheck()
                            break
        elif key[0] == '<' and v:
            self.facts.append((p, '-'))
        elif key[0] == '<=' and not v:
            self.facts.append((p, '+'))
        elif key[0] == '<':
            self.weak.append((p, '>=0'))
        elif key[0] == '<=':
            self.weak.append((p, '<=0'))

    def _recheck(self):
        """an equality that was just assumed must not contradict what is known"""
        for f, s in self.facts:
            try:
                q = al.subst(f, self.zero_subst)
            except al.AbsZeroDivision:
                continue
            t = al.basic_sign(q)
            if t == '0' or (t in ('+', '-') and t != s):
                raise Infeasible()

    def reduce(self, p):
        p = al.expand_defs(lift(p))
        if self.zero_subst:
            p = al.expand_lets(p)
        for _ in range(4):
            if not self.zero_subst:
                return p
            q = al.subst(p, self.zero_subst)
            for i in self.zero_subst:
                if i in al.NORMS and not self.zero_subst[i].t and 'abs' in al.NORMS[i][0]:
                    # a vector whose largest entry is zero
                    q = al.subst(q, dict((j, ZERO) for j in q.all_atoms() if al.atom(j).kind == 'app'
                                         and al.atom(j).args[0] == al.NORMS[i][1]))
            if q.t == p.t:
                return q
            p = q
        return p

    def equal(self, p, q):
        return al.equal(self.reduce(p), self.reduce(q))

    def describe(self):
        t = ['%s%s' % ('' if v else 'not ', text) for _, v, text in self.trail]
        return self.name + ((' [' + '; '.join(t) + ']') if t else '')


class Restart(Exception):
    """The analysis of this refinement must start again knowing `fact`."""

    def __init__(self, fact):
        Exception.__init__(self, fact)
        self.fact = fact


def explore(build, run, limit=64, keep=False):
    """Analyse every refinement of a context.  build(forced)->Ctx ;
    run(ctx)->result.  Yields (ctx, result)."""
    todo = [[]]
    n = 0
    known = set()
    while todo:
        forced = todo.pop()
        n += 1
        if n > limit:
            raise Undecided('more than %d context refinements' % limit)
        if not keep:
            al.reset()
        ctx = build(forced)
        ctx.growing = known
        al.CTX.append(ctx)
        try:
            try:
                res = run(ctx)
            except Infeasible:
                res = None
            except Restart as e:
                if e.fact in known:
                    raise Undecided('a length read while the collection grows')
                known.add(e.fact)
                todo.append(forced)
                continue
            for i in range(len(forced), len(ctx.trail)):
                todo.append([v for _, v, _ in ctx.trail[:i]] + [not ctx.trail[i][1]])
            if res is not None:
                yield ctx, res
        finally:
            al.CTX.pop()


# --------------------------------------------------------------------------
# values
# --------------------------------------------------------------------------
class Top(object):
    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return 'Top(%s)' % self.why


class Stale(object):
    """Value left over from another iteration of a summarised loop."""

    def __init__(self, name):
        self.name = name


class AList(object):
    def __init__(self, items=None, birth=()):
        self.items = list(items or [])
        self.birth = birth
        self.sym = None      # domain (SymColl) when filled by a summarised loop
        self.pos = None      # positions of the representatives
        self.mut = []        # locations of mutations after creation
        self.origin = None   # set for containers that belong to the input
        self.tag = None


class ADict(object):
    def __init__(self, birth=()):
        self.keys = []
        self.vals = []
        self.birth = birth
        self.default = None
        self.sym = None
        self.length = None
        self.mut = []
        self.origin = None
        self.name = None

    def find(self, k, interp):
        for i, x in enumerate(self.keys):
            if interp.same(x, k):
                return i
        return -1


class ASet(object):
    def __init__(self, items=None, birth=()):
        self.items = list(items or [])
        self.birth = birth
        self.sym = None
        self.mut = []
        self.origin = None


class SymColl(object):
    """Collection of unknown size, represented by some of its members."""

    def __init__(self, name, reps, pos=None, length=None):
        self.name = name
        self.reps = list(reps)
        if pos is None:
            pos = [al.sym('pos(%s,%d)' % (name, i)) for i in range(len(self.reps))]
        self.pos = pos
        if length is None:
            length = al.sym('len(%s)' % name, True)
        self.length = length
        al.LENGTHS[name] = length
        self.partial = None   # text when it may miss members
        self.unique = True
        self.is_array = False

    def map(self, name, fn):
        c = SymColl(name, [fn(r) for r in self.reps], self.pos, self.length)
        c.partial = self.partial
        return c


class SymRange(object):
    """range() over an unknown number of integers [lo, hi)."""

    def __init__(self, lo, hi):
        self.lo = lo
        self.hi = hi


class SymSeq(object):
    """Result of mapping an expression over a symbolic index domain; only
    reductions consume it."""

    def __init__(self, paths, bound):
        self.paths = paths     # [(guards frozenset, value)]
        self.bound = bound


class AObj(object):
    """Instance of a class of the analysed program or of a modelled one."""
    _n = 0

    def __init__(self, cls, name=None, external=False):
        AObj._n += 1
        self.cls = cls
        self.attrs = {}
        self.name = name or ('%s#%d' % (getattr(cls, 'name', cls), AObj._n))
        self.external = external
        self.methods = {}
        self.getattr_hook = None

    def __repr__(self):
        return '<%s>' % self.name


class AClass(object):
    def __init__(self, name, bases, ns, module):
        self.name = name
        self.bases = bases
        self.ns = ns
        self.module = module
        self.annotated = []          # annotated names of the class body
        self.fields = None           # of a data class: [(name, default or None, in the constructor)]
        self.tuple_fields = None     # of a named tuple
        self.tuple_defaults = {}

    def mro(self):
        out = [self]
        for b in self.bases:
            out += b.mro() if isinstance(b, AClass) else [b]
        return out

    def lookup(self, n):
        if n in self.ns:
            return self.ns[n]
        for b in self.bases:
            if isinstance(b, AClass):
                r = b.lookup(n)
                if r is not None:
                    return r
        return None

    def mro_names(self):
        out = [self.name]
        for b in self.bases:
            if isinstance(b, AClass):
                out += b.mro_names()
            elif isinstance(b, ExtClass):
                out += [b.name]
        return out


class ExtClass(object):
    """Modelled external class (exception types, pyNastran classes...)."""

    def __init__(self, name, ctor=None, bases=()):
        self.name = name
        self.ctor = ctor
        self.bases = bases

    def mro_names(self):
        out = [self.name]
        for b in self.bases:
            out += b.mro_names()
        return out

    def __repr__(self):
        return 'ext:' + self.name


class AFunc(object):
    def __init__(self, node, module, defaults, kw_defaults, closure, name, cls=None):
        self.node = node
        self.module = module
        self.defaults = defaults
        self.kw_defaults = kw_defaults
        self.closure = closure
        self.name = name
        self.cls = cls
        self.kind = None     # staticmethod / classmethod / property / cached_property
        self.setter = None
        self._locals = None


class AMethod(object):
    def __init__(self, func, self_):
        self.func = func
        self.self_ = self_


class Builtin(object):
    def __init__(self, name, fn):
        self.name = name
        self.fn = fn

    def __repr__(self):
        return 'builtin:' + self.name


class AModule(object):
    def __init__(self, name, path=None):
        self.name = name
        self.path = path
        self.ns = {}
        self.external = path is None
        self.done = False

    def __repr__(self):
        return 'module:' + self.name


class AStr(object):
    """String with symbolic parts."""

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, AStr):
                sub = p.parts
            else:
                sub = [p]
            for q in sub:
                if isinstance(q, str):
                    if not q:
                        continue
                    if out and isinstance(out[-1], str):
                        out[-1] += q
                        continue
                out.append(q)
        self.parts = out

    def __repr__(self):
        return 'AStr%r' % (self.parts,)


def mkstr(parts):
    s = AStr(parts)
    if not s.parts:
        return ''
    if len(s.parts) == 1 and isinstance(s.parts[0], str):
        return s.parts[0]
    return s


class Opaque(object):
    """A value the analysis only tracks by identity of its construction."""

    def __init__(self, key, kind='opaque'):
        self.key = key
        self.kind = kind

    def __repr__(self):
        return 'Opaque%r' % (self.key,)


class AMat(object):
    """Two-dimensional global matrix of symbolic size (an accumulator)."""

    def __init__(self, name, shape, initial='zero'):
        self.name = name
        self.shape = shape
        self.initial = initial
        self.writes = []    # (op, row, col, value, loc)
        self.opaque = None  # reason when something unmodelled happened

    def __repr__(self):
        return '<matrix %s>' % self.name


class MatDer(object):
    """A value computed from the entries of an accumulated matrix (a norm, a
    mask).  test is True/False when the outcome of a test is known for every
    entry (finite entries)"""

    def __init__(self, mat, text, test=None):
        self.mat, self.text, self.test = mat, text, test

    def __repr__(self):
        return self.text


class AMatT(object):
    def __init__(self, base):
        self.base = base


class AVec(object):
    """One-dimensional input array of symbolic length."""

    def __init__(self, name, length, ncol=None):
        self.name = name
        self.length = length
        self.ncol = ncol     # reshaped to (-1, ncol)
        self.factor = ONE
        self.absolute = False
        self.maps = ()       # functions applied to every entry, after the factor

    def entry(self, i):
        x = Poly.of_atom(al.intern('app', (self.name, lift(i))))*self.factor
        if self.absolute:
            x = al.pabs(x)
        for f in self.maps:
            x = f(x)
        return x

    def like(self, ncol=None):
        r = AVec(self.name, self.length, ncol)
        r.factor, r.absolute, r.maps = self.factor, self.absolute, self.maps
        return r

    def mapped(self, f):
        r = self.like(self.ncol)
        r.maps = r.maps + (f,)
        r.fresh = True
        return r


class SymArr(object):
    """Array of symbolic extent in every axis: element access by index only
    (interpolation nodes, nodal fields)."""

    def __init__(self, name, lens):
        self.name = name
        self.lens = lens

    def entry(self, idx):
        return Poly.of_atom(al.intern('app', (self.name,) + tuple(lift(i) for i in idx)))


class KArr(object):
    """Array analysed element-wise (all elements alike); identity matters
    because augmented assignment works in place."""

    def __init__(self, val, origin=None):
        self.val = lift(val)
        self.origin = origin


class Slice(object):
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


def is_num(v):
    return isinstance(v, (Poly, bool)) and True


def as_poly(v):
    if isinstance(v, Poly):
        return v
    if isinstance(v, bool):
        return ONE if v else ZERO
    if isinstance(v, (int, float)):
        return Poly.const(v)
    if isinstance(v, np.ndarray) and v.ndim == 0:
        return as_poly(v.item())
    return None


def const_int(v):
    if isinstance(v, bool):
        return int(v)
    p = as_poly(v)
    if p is None:
        return None
    p = al.expand_defs(p)
    if p.is_const():
        c = al.Fraction(p.const_value())
        if c.denominator == 1:
            return int(c)
    return None


def objarray(items, shape=None):
    if shape is None:
        a = np.empty(len(items), dtype=object)
        for i, x in enumerate(items):
            a[i] = x
        return a
    a = np.empty(int(np.prod(shape)) if shape else 1, dtype=object)
    for i, x in enumerate(items):
        a[i] = x
    return a.reshape(shape)


class Frame(object):
    def __init__(self, fn, module, locals_, closure, localnames):
        self.fn = fn
        self.module = module
        self.locals = locals_
        self.closure = closure
        self.localnames = localnames
        self.globals_decl = set()
        self.nonlocals = set()


def assigned_names(body):
    """Names bound by statements (not entering nested functions)."""
    out = set()

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)

        def visit_FunctionDef(self, n):
            out.add(n.name)

        visit_AsyncFunctionDef = visit_FunctionDef

        def visit_ClassDef(self, n):
            out.add(n.name)

        def visit_Lambda(self, n):
            pass

        def _comp(self, n):
            # only the first iterator is evaluated outside, no names leak
            for g in n.generators:
                self.visit(g.iter)

        def visit_MatchAs(self, n):
            if n.name:
                out.add(n.name)
            self.generic_visit(n)

        visit_MatchStar = visit_MatchAs

        visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp

        def visit_ExceptHandler(self, n):
            if n.name:
                out.add(n.name)
            self.generic_visit(n)

        def visit_Import(self, n):
            for a in n.names:
                out.add((a.asname or a.name).split('.')[0])

        visit_ImportFrom = visit_Import
    v = V()
    for s in body:
        v.visit(s)
    return out


_READS = {}


def reads_self(body, name):
    """Whether some assignment to `name` in body also reads it (accumulation)."""
    key = id(body)
    if key not in _READS or _READS[key][0] is not body:
        out = set()
        for s in body:
            for n in ast.walk(s):
                if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                    out.add(n.target.id)
                if isinstance(n, ast.Assign):
                    tg = set()
                    for t in n.targets:
                        for x in ast.walk(t):
                            if isinstance(x, ast.Name):
                                tg.add(x.id)
                    if not tg:
                        continue
                    for x in ast.walk(n.value):
                        if isinstance(x, ast.Name) and x.id in tg:
                            out.add(x.id)
        _READS[key] = (body, out)
    return name in _READS[key][1]


class Effect(object):
    def __init__(self, kind, loc, **kw):
        self.kind = kind
        self.loc = loc
        self.__dict__.update(kw)

    def __repr__(self):
        return 'Effect(%s, %s)' % (self.kind, {k: v for k, v in self.__dict__.items() if k not in ('kind',)})


class Interp(object):
    MAX_STEPS = 3000000

    def __init__(self, repo, ctx, models):
        self.repo = repo
        self.ctx = ctx
        self.models = models
        self.modules = {}
        self.frames = []
        self.loc = ('?', 0, '?')
        self.effects = []
        self.loops = []         # active summarised loops: (id, rep index, pos)
        self.loop_n = 0
        self.counters = {}
        self.steps = 0
        self.calls = set()      # functions of the repository that were analysed
        self.branches = 0
        self.depth = 0
        self.bound_level = {}
        self.local_scopes = []  # local partitioning scopes of index loops
        self.mod_cache = {}
        self.stmts = set()
        self.len_reads = {}     # loop id -> lengths read of outer collections
        self.len_phis = {}      # loop id -> lengths that grow with the loop

    # -- bookkeeping ---------------------------------------------------
    def effect(self, kind, **kw):
        e = Effect(kind, self.loc, loops=tuple(l[0] for l in self.loops), **kw)
        self.effects.append(e)
        return e

    def where(self):
        return '%s:%s in %s' % self.loc

    def undecided(self, why):
        raise Undecided('%s (at %s)' % (why, self.where()), self.loc)

    def birth(self):
        return tuple(l[0] for l in self.loops)

    def new_list(self, items=None):
        return AList(items, self.birth())

    def new_dict(self):
        return ADict(self.birth())

    def new_set(self, items=None):
        return ASet(items, self.birth())

    # -- modules --------------------------------------------------------
    def module(self, name):
        if name in self.modules:
            return self.modules[name]
        if name == self.repo.package or name.startswith(self.repo.package + '.'):
            path = self.repo.module_path(name)
            if path is None:
                raise AbsRaise('ImportError', name, self.loc)
            m = AModule(name, path)
            self.modules[name] = m
            tree = self.repo.tree(path)
            m.ns['__name__'] = name
            m.ns['__file__'] = mkstr([Opaque('file')])
            fr = Frame(None, m, m.ns, None, None)
            saved, self.loops = self.loops, []
            self.frames.append(fr)
            try:
                self.exec_body(tree.body)
            finally:
                self.frames.pop()
                self.loops = saved
            m.done = True
            return m
        m = AModule(name)
        self.modules[name] = m
        return m

    def module_attr(self, m, name):
        if name in m.ns:
            return m.ns[name]
        if m.external:
            v = self.models.external(self, m.name, name)
            m.ns[name] = v
            return v
        sub = m.name + '.' + name
        if self.repo.module_path(sub):
            return self.module(sub)
        raise AbsRaise('AttributeError', '%s.%s' % (m.name, name), self.loc)

    # -- statements -------------------------------------------------------
    def exec_body(self, body):
        for s in body:
            self.exec(s)

    def exec(self, s):
        self.steps += 1
        if self.steps > self.MAX_STEPS:
            self.undecided('step limit reached')
        fr = self.frames[-1]
        if hasattr(s, 'lineno'):
            self.loc = (self.repo.rel(fr.module.path), s.lineno,
                        fr.fn.name if fr.fn else '<module>')
            self.stmts.add((fr.module.path, s.lineno))
        m = getattr(self, 'st_' + type(s).__name__, None)
        if m is None:
            self.undecided('statement %s' % type(s).__name__)
        m(s)

    def st_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value)

    def st_Pass(self, s):
        pass

    def st_Return(self, s):
        raise _Return(self.eval(s.value) if s.value is not None else None)

    def st_Break(self, s):
        raise _Break()

    def st_Continue(self, s):
        raise _Continue()

    def st_Assign(self, s):
        v = self.eval(s.value)
        for t in s.targets:
            self.assign(t, v)

    def st_AnnAssign(self, s):
        fr = self.frames[-1]
        if getattr(fr, 'is_class', False) and isinstance(s.target, ast.Name):
            fr.fields.append((s.target.id, ast.dump(s.annotation)))
        if s.value is not None:
            self.assign(s.target, self.eval(s.value))

    def st_NamedExpr(self, s):
        pass

    def st_AugAssign(self, s):
        op = type(s.op).__name__
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id)
            v = self.eval(s.value)
            self.store_name(t.id, self.inplace(op, cur, v))
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value)
            cur = self.getattr(o, t.attr)
            v = self.eval(s.value)
            self.setattr(o, t.attr, self.inplace(op, cur, v))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value)
            k = self.eval_index(t.slice)
            v = self.eval(s.value)
            self.loc = (self.loc[0], s.lineno, self.loc[2])
            self.models.aug_item(self, o, k, op, v)
        else:
            self.undecided('augmented target')

    def inplace(self, op, cur, v):
        if isinstance(cur, np.ndarray):
            r = self.binop(op, cur, v)
            if isinstance(r, np.ndarray) and r.shape == cur.shape:
                self.note_array_write(cur)
                if self.models.is_int(cur) and not all(isinstance(x, Poly) and self.models.integral(x) for x in r.flat):
                    raise AbsRaise('TypeError', 'in-place %s stores fractions in an array of integers' % op, self.loc)
                cur[...] = self.models.to_single(self, r, False) if self.models.is_single(cur) else r
                return cur
            raise AbsRaise('ValueError', 'in-place shape', self.loc)
        if isinstance(cur, KArr):
            r = self.binop(op, cur, v)
            if isinstance(r, KArr):
                if cur.origin:
                    self.effect('mutate-input', what=cur.origin)
                cur.val = r.val
                return cur
            return r
        if isinstance(cur, AList) and op == 'Add':
            self.models.list_extend(self, cur, v)
            return cur
        if isinstance(cur, ASet) and op in ('BitOr', 'Sub', 'BitAnd'):
            if op == 'BitOr':
                self.models.call_method(self, cur, 'update', [v], {})
            elif op == 'Sub':
                self.models.call_method(self, cur, 'difference_update', [v], {})
            else:
                self.models.call_method(self, cur, 'intersection_update', [v], {})
            return cur
        if isinstance(cur, AMat):
            self.models.aug_item(self, cur, (Slice(None, None, None), Slice(None, None, None)), op, v)
            return cur
        return self.binop(op, cur, v)

    def note_array_write(self, arr):
        org = self.models.array_origin(arr)
        if org:
            self.effect('mutate-input', what=org)

    def st_If(self, s):
        self.branches += 1
        if self.truth(self.eval(s.test)):
            self.exec_body(s.body)
        else:
            self.exec_body(s.orelse)

    def st_Assert(self, s):
        if not self.truth(self.eval(s.test)):
            raise AbsRaise('AssertionError', None, self.loc)

    def st_Raise(self, s):
        loc = self.loc
        if s.exc is None:
            raise AbsRaise('RuntimeError', 're-raise', loc)
        v = self.eval(s.exc)
        if isinstance(v, (ExtClass, AClass)):
            cls, val = v, None
        elif isinstance(v, AObj):
            cls, val = v.cls, v
        else:
            raise AbsRaise('TypeError', 'raise', loc)
        e = AbsRaise(cls.name, val, loc)
        e.names = cls.mro_names()
        self.effect('raise', cls=cls.name, value=val)
        raise e

    def st_Try(self, s):
        try:
            try:
                self.exec_body(s.body)
            except AbsRaise as e:
                names = set(getattr(e, 'names', [])) | self.models.exc_names(e.cls)
                for h in s.handlers:
                    if h.type is None:
                        ok = True
                    else:
                        ty = self.eval(h.type)
                        tys = ty if isinstance(ty, tuple) else (ty,)
                        ok = any(getattr(t, 'name', None) in names for t in tys)
                    if ok:
                        if h.name:
                            o = AObj(ExtClass(e.cls), external=True)
                            self.store_name(h.name, o)
                        for ef in reversed(self.effects):
                            if ef.kind == 'raise' and ef.cls == e.cls and not getattr(ef, 'caught', False):
                                ef.caught = True
                                break
                        self.exec_body(h.body)
                        break
                else:
                    raise
            else:
                self.exec_body(s.orelse)
        finally:
            if s.finalbody:
                self.exec_body(s.finalbody)

    def st_Match(self, s):
        v = self.eval(s.subject)
        for c in s.cases:
            if self.matches(c.pattern, v) and (c.guard is None or self.truth(self.eval(c.guard))):
                self.exec_body(c.body)
                return

    def matches(self, p, v):
        k = type(p).__name__
        if k == 'MatchValue':
            return bool(self.truth(self.models.compare(self, 'Eq', v, self.eval(p.value))))
        if k == 'MatchSingleton':
            if p.value is None:
                return bool(self.models.identical(self, v, None))
            return bool(self.models.identical(self, v, p.value))
        if k == 'MatchOr':
            return any(self.matches(q, v) for q in p.patterns)
        if k == 'MatchAs':
            if p.pattern is not None and not self.matches(p.pattern, v):
                return False
            if p.name:
                self.store_name(p.name, v)
            return True
        if k == 'MatchSequence':
            if any(isinstance(q, ast.MatchStar) for q in p.patterns):
                self.undecided('pattern %s' % k)
            d = self.domain(v) if isinstance(v, (AList, tuple)) else None
            if not isinstance(d, list):
                self.undecided('pattern %s of %r' % (k, v))
            return len(d) == len(p.patterns) and all(self.matches(q, x) for q, x in zip(p.patterns, d))
        if k == 'MatchClass' and not p.patterns and not p.kwd_patterns:
            return bool(self.truth(self.call(self.models.builtin('isinstance'), [v, self.eval(p.cls)], {})))
        self.undecided('pattern %s' % k)

    def st_With(self, s):
        for it in s.items:
            cm = self.eval(it.context_expr)
            v = self.models.enter(self, cm)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v)
        self.exec_body(s.body)

    def st_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.frames[-1].locals.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value)
                k = self.eval_index(t.slice)
                self.models.del_item(self, o, k)
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value)
                if isinstance(o, AObj) and t.attr in o.attrs:
                    self.effect('attr-del', obj=o, attr=t.attr)
                    del o.attrs[t.attr]
                else:
                    self.undecided('del attribute')

    def st_Global(self, s):
        self.frames[-1].globals_decl.update(s.names)

    def st_Nonlocal(self, s):
        self.frames[-1].nonlocals.update(s.names)

    def st_Import(self, s):
        for a in s.names:
            m = self.module(a.name)
            if a.asname:
                self.store_name(a.asname, m)
            else:
                top = a.name.split('.')[0]
                tm = self.module(top)
                self.store_name(top, tm)

    def st_ImportFrom(self, s):
        fr = self.frames[-1]
        if s.level:
            base = fr.module.name.split('.')
            if not fr.module.path.endswith('__init__.py'):
                base = base[:-1]
            base = base[:len(base) - (s.level - 1)]
            name = '.'.join(base + ([s.module] if s.module else []))
        else:
            name = s.module
        if name == '__future__':
            return
        m = self.module(name)
        for a in s.names:
            if a.name == '*':
                if m.external:
                    self.undecided('star import')
                for k, v in list(m.ns.items()):
                    if not k.startswith('_'):
                        self.store_name(k, v)
                continue
            try:
                v = self.module_attr(m, a.name)
            except AbsRaise:
                raise
            self.store_name(a.asname or a.name, v)

    def make_function(self, s, cls=None):
        fr = self.frames[-1]
        d = [self.eval(x) for x in s.args.defaults]
        kd = [self.eval(x) if x is not None else None for x in s.args.kw_defaults]
        name = getattr(s, 'name', '<lambda>')
        closure = fr if fr.fn is not None else None
        f = AFunc(s, fr.module, d, kd, closure, name)
        return f

    def st_FunctionDef(self, s):
        f = self.make_function(s)
        v = f
        for dec in reversed(s.decorator_list):
            dv = self.eval(dec)
            nm = getattr(dv, 'name', None)
            if isinstance(dv, Builtin) and nm in ('staticmethod', 'classmethod', 'property', 'cached_property'):
                f.kind = nm
            elif isinstance(dv, Builtin) and nm in ('lru_cache', 'cache'):
                v = memoized(v)
            else:
                v = self.call(dv, [v], {})
        self.store_name(s.name, v)

    def st_ClassDef(self, s):
        bases = [self.eval(b) for b in s.bases]
        fr = self.frames[-1]
        ns = {}
        # class bodies: assignments and function definitions
        cf = Frame(None, fr.module, ns, None, None)
        cf.fn = fr.fn
        cf.closure = fr.closure
        cf.outer = fr
        cf.is_class = True
        cf.fields = []
        self.frames.append(cf)
        try:
            self.exec_body(s.body)
        finally:
            self.frames.pop()
        c = AClass(s.name, bases, ns, fr.module)
        c.annotated = cf.fields
        if any(isinstance(b, Builtin) and b.name == 'NamedTuple' for b in bases):
            c.bases = [b for b in bases if not isinstance(b, Builtin)]
            c.tuple_fields = [f for f, _ in cf.fields]
            c.tuple_defaults = {f: ns.pop(f) for f, _ in cf.fields if f in ns}
        for v in ns.values():
            if isinstance(v, AFunc):
                v.cls = c
                for g in (v, v.setter):
                    if g is not None and g.closure is cf:
                        g.closure = fr if fr.fn is not None else None
        for dec in reversed(s.decorator_list):
            c = self.call(self.eval(dec), [c], {})
        self.store_name(s.name, c)

    def st_While(self, s):
        n = 0
        while True:
            n += 1
            if n > 2000:
                self.undecided('while loop bound')
            t = self.eval(s.test)
            if not self.truth(t):
                self.exec_body(s.orelse)
                return
            try:
                self.exec_body(s.body)
            except _Break:
                return
            except _Continue:
                continue

    # -- loops ------------------------------------------------------------
    def st_For(self, s):
        it = self.eval(s.iter)
        dom = self.domain(it)
        if isinstance(dom, list):
            for x in dom:
                self.assign(s.target, x)
                try:
                    self.exec_body(s.body)
                except _Break:
                    return
                except _Continue:
                    continue
            self.exec_body(s.orelse)
            return
        if isinstance(dom, SymColl):
            self.sym_loop(s, dom)
            self.exec_body(s.orelse)
            return
        if isinstance(dom, IndexDomain):
            self.index_loop(s, dom)
            self.exec_body(s.orelse)
            return
        self.undecided('iteration over %r' % (it,))

    def domain(self, it):
        return self.models.iterate(self, it)

    def sym_loop(self, s, dom):
        fr = self.frames[-1]
        names = assigned_names(s.body)
        tnames = assigned_names([ast.Assign(targets=[s.target], value=ast.Constant(0))])
        carried = [n for n in names if n in fr.locals and n not in tnames]
        loc0 = self.loc
        init = {}
        acc = {}
        for n in carried:
            init[n] = fr.locals[n]
            acc[n] = reads_self(s.body, n)
        self.loop_n += 1
        lid = 'loop%d@%s:%d' % (self.loop_n, loc0[0], loc0[1])
        if dom.partial:
            self.effect('partial-domain', coll=dom, why=dom.partial)
        res = {}
        guess, every, irregular = {}, {}, set()
        for r, rep in enumerate(dom.reps):
            phis = {}
            for n in carried:
                v0 = init[n]
                if acc[n] and isinstance(v0, (Poly, bool, int)):
                    a = al.intern('phi', (lid, n, r), 'phi(%s)' % n)
                    phis[n] = a
                    every.setdefault(n, []).append(a)
                    a.defn = None
                    if n in guess and n not in irregular:
                        a.defn = as_poly(v0) + guess[n]*dom.pos[r]
                    fr.locals[n] = Poly.of_atom(a)
                elif acc[n] and isinstance(v0, (str, AStr, Opaque)):
                    fr.locals[n] = Opaque(('loop', lid, n, self.models.keyof(v0)), 'str')
                elif acc[n]:
                    fr.locals[n] = v0       # mutable containers, arrays
                    if not isinstance(v0, (AList, ADict, ASet, AMat, np.ndarray, KArr)):
                        fr.locals[n] = Stale(n)
                elif isinstance(v0, (AList, ADict, ASet, AMat)):
                    fr.locals[n] = v0 if r == 0 and False else Stale(n)
                else:
                    fr.locals[n] = Stale(n)
            for n in names:
                if n not in init and n not in tnames:
                    fr.locals.pop(n, None)
            self.loops.append((lid, r, dom.pos[r], dom))
            n_eff = len(self.effects)
            try:
                self.assign(s.target, rep)
                try:
                    self.exec_body(s.body)
                except _Continue:
                    pass
                except _Break:
                    self.loops.pop()
                    self.loops.append((lid, r, dom.pos[r], dom))
                    self.effect('early-exit', coll=dom, how='break', line=loc0[1],
                                effects=len(self.effects) - n_eff)
                    dom_exit = True
                except _Return:
                    self.effect('early-exit', coll=dom, how='return', line=loc0[1],
                                effects=len(self.effects) - n_eff)
                    raise
            finally:
                self.loops.pop()
            self.models.end_of_pass(self, lid, r, dom.pos[r])
            used = self.counters.get(lid, ())
            for c in set(c for c, _ in used):
                if sum(1 for x, q in used if x is c and q == r) != 1 or \
                        any(sum(1 for x, q in used if x is c and q == p) != 1 for p in range(r)):
                    self.undecided('a counter does not advance once in every pass')
            for n in carried:
                v1 = fr.locals.get(n)
                if n in phis:
                    a = phis[n]
                    p1 = as_poly(v1)
                    if p1 is None:
                        res.setdefault(n, []).append(None)
                        continue
                    if n in irregular:
                        continue
                    if n in guess:
                        d = al.expand_defs(p1) - a.defn
                        if not (d - guess[n]).t:
                            res.setdefault(n, []).append(guess[n])
                        else:
                            # not in every pass: its values are unknown numbers
                            self.effect('irregular-counter', name=n)
                            irregular.add(n)
                            res[n].append(None)
                            for q in every[n]:
                                q.defn = None
                        continue
                    d = p1 - Poly.of_atom(a)
                    if a.id not in d.all_atoms():
                        res.setdefault(n, []).append(d)
                        if d.is_const():
                            a.defn = as_poly(init[n]) + d*dom.pos[r]
                            guess[n] = d
                    else:
                        res.setdefault(n, []).append(None)
        for c in set(c for c, _ in self.counters.pop(lid, ())):
            c.start = c.start + c.step*dom.length
        for n in carried:
            if n in res:
                ds = res[n]
                if ds and all(d is not None for d in ds) and all(d.t == ds[0].t for d in ds) and ds[0].is_const():
                    fr.locals[n] = as_poly(init[n]) + ds[0]*dom.length
                elif ds and all(d is not None for d in ds):
                    fr.locals[n] = as_poly(init[n]) + al.fn('sum_over', dom.name, *ds)
                else:
                    fr.locals[n] = Stale(n)
            elif acc[n] and isinstance(init[n], (str, AStr, Opaque)):
                fr.locals[n] = Opaque(('after-loop', lid, n, self.models.keyof(init[n]),
                                        self.models.keyof(fr.locals.get(n))), 'str')
            else:
                v = init[n]
                if acc[n] and isinstance(v, (AList, ADict, ASet, AMat, np.ndarray, KArr)) and fr.locals.get(n) is v:
                    pass
                else:
                    fr.locals[n] = Stale(n)
        for n in names | tnames:
            if n not in init:
                if n in fr.locals:
                    fr.locals[n] = Stale(n)

    def index_loop(self, s, dom):
        """Loop over a symbolic index range: recognised as a reduction."""
        fr = self.frames[-1]
        names = assigned_names(s.body)
        tnames = assigned_names([ast.Assign(targets=[s.target], value=ast.Constant(0))])
        carried = [n for n in names if n in fr.locals and n not in tnames]
        init = {n: fr.locals[n] for n in carried}
        snapshot = dict(fr.locals)
        self.loop_n += 1
        lid = 'idx%d' % self.loop_n
        phis = {}
        for n in carried:
            v0 = init[n]
            if as_poly(v0) is not None or isinstance(v0, KArr):
                phis[n] = al.intern('phi', (lid, n), 'phi(%s)' % n)

        def body():
            for n in carried:
                v0 = init[n]
                if n in phis:
                    if isinstance(v0, KArr):
                        fr.locals[n] = KArr(Poly.of_atom(phis[n]))
                    else:
                        fr.locals[n] = Poly.of_atom(phis[n])
                else:
                    fr.locals[n] = v0
            for n in names:
                if n not in init and n not in tnames:
                    fr.locals.pop(n, None)
            self.assign(s.target, dom.item(self))
            try:
                self.exec_body(s.body)
            except _Continue:
                pass
            except (_Break, _Return):
                self.undecided('early exit from an index loop')
            out = {}
            for n in carried:
                out[n] = fr.locals.get(n)
            return out
        paths = self.local_paths(dom, body)
        after = {}
        for n in carried:
            if n not in phis:
                after[n] = init[n] if all(o[n] is init[n] for _, o in paths) else Stale(n)
                continue
            a = phis[n]
            adds, muls, bad = [], [], False
            karr = isinstance(init[n], KArr)
            for g, o in paths:
                v = o[n]
                if isinstance(v, KArr):
                    karr = True
                    v = v.val
                v = as_poly(v)
                if v is None:
                    bad = True
                    break
                v = al.expand_defs(v)
                ph = Poly.of_atom(a)
                if v.t == ph.t:
                    continue
                d = v - ph
                if a.id not in d.all_atoms():
                    adds.append((g, d))
                    continue
                q = v/ph
                if a.id not in q.all_atoms():
                    muls.append((g, q))
                    continue
                bad = True
                break
            v0 = init[n].val if isinstance(init[n], KArr) else as_poly(init[n])
            if bad or (adds and muls):
                after[n] = Stale(n)
                continue
            if adds:
                r = v0 + reduction('sum', dom.bound, adds)
            elif muls:
                r = v0*reduction('prod', dom.bound, muls)
            else:
                r = v0
            after[n] = KArr(r) if karr else r
        fr.locals.clear()
        fr.locals.update(snapshot)
        for n in carried:
            if isinstance(init[n], KArr) and isinstance(after[n], KArr):
                init[n].val = after[n].val
                fr.locals[n] = init[n]
            else:
                fr.locals[n] = after[n]
        for n in (names | tnames):
            if n not in init:
                fr.locals[n] = Stale(n)
        self.release_bound(dom)

    def local_paths(self, dom, body):
        """Analyse body under every refinement on predicates that mention the
        bound index; returns [(guards, result)]."""
        todo = [[]]
        out = []
        n = 0
        while todo:
            forced = todo.pop()
            n += 1
            if n > 64:
                self.undecided('too many paths in an index loop')
            scope = LocalScope(dom.bound, forced)
            self.local_scopes.append(scope)
            n_eff = len(self.effects)
            try:
                try:
                    r = body()
                except Infeasible:
                    r = None
            finally:
                self.local_scopes.pop()
            if len(self.effects) != n_eff:
                kinds = set(e.kind for e in self.effects[n_eff:])
                if kinds - {'raise'}:
                    self.undecided('side effect inside an index loop (%s)' % ', '.join(sorted(kinds)))
            for i in range(len(forced), len(scope.trail)):
                todo.append([v for _, v in scope.trail[:i]] + [not scope.trail[i][1]])
            if r is not None:
                out.append((frozenset(scope.trail), r))
        return out

    def release_bound(self, dom):
        self.bound_level[dom.key] -= 1

    def new_bound(self, key):
        lv = self.bound_level.get(key, 0)
        self.bound_level[key] = lv + 1
        a = al.intern('bound', (key, lv), 'i%d<%s>' % (lv, key))
        return a

    # -- names ------------------------------------------------------------
    def lookup(self, name):
        fr = self.frames[-1]
        v = self._lookup(fr, name)
        if isinstance(v, Stale):
            self.effect('stale-read', name=name)
            raise AbsRaise('StaleRead', name, self.loc)
        return v

    def _lookup(self, fr, name):
        if name in fr.locals and name not in fr.globals_decl:
            return fr.locals[name]
        if fr.localnames is not None and name in fr.localnames and name not in fr.globals_decl \
                and name not in fr.nonlocals:
            self.effect('unbound', name=name)
            raise AbsRaise('UnboundLocalError', name, self.loc)
        if getattr(fr, 'is_class', False):
            return self._lookup(fr.outer, name)
        c = fr.closure
        while c is not None:
            if name in c.locals:
                return c.locals[name]
            c = c.closure
        if name in fr.module.ns:
            return fr.module.ns[name]
        b = self.models.builtin(name)
        if b is not None:
            return b
        self.effect('unbound', name=name)
        raise AbsRaise('NameError', name, self.loc)

    def store_name(self, name, v):
        fr = self.frames[-1]
        if al.LETTABLE:
            if isinstance(v, Poly):
                v = al.let(v)
            elif isinstance(v, np.ndarray) and v.dtype == object and v.size <= 64:
                for i in np.ndindex(*v.shape):
                    x = v[i]
                    if isinstance(x, Poly) and len(x.t) > 1:
                        v[i] = al.let(x)
        if name in fr.globals_decl:
            fr.module.ns[name] = v
            if fr.fn is not None:
                self.effect('global-write', name=name)
            return
        if name in fr.nonlocals:
            c = fr.closure
            while c is not None:
                if name in c.locals:
                    c.locals[name] = v
                    return
                c = c.closure
        fr.locals[name] = v

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.models.unpack(self, v, len(t.elts),
                                       any(isinstance(e, ast.Starred) for e in t.elts))
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                after = len(t.elts) - i - 1
                if len(items) < len(t.elts) - 1:
                    raise AbsRaise('ValueError', 'unpack', self.loc)
                for e, x in zip(t.elts[:i], items[:i]):
                    self.assign(e, x)
                self.assign(t.elts[i].value, self.new_list(items[i:len(items)-after]))
                for e, x in zip(t.elts[i+1:], items[len(items)-after:]):
                    self.assign(e, x)
                return
            if len(items) != len(t.elts):
                raise AbsRaise('ValueError', 'unpack', self.loc)
            for e, x in zip(t.elts, items):
                self.assign(e, x)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value)
            self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value)
            k = self.eval_index(t.slice)
            self.models.set_item(self, o, k, v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)
        else:
            self.undecided('assignment target %s' % type(t).__name__)

    # -- expressions --------------------------------------------------------
    def eval(self, e):
        m = getattr(self, 'ex_' + type(e).__name__, None)
        if m is None:
            self.undecided('expression %s' % type(e).__name__)
        return m(e)

    def ex_Constant(self, e):
        v = e.value
        if isinstance(v, bool) or v is None or isinstance(v, str):
            return v
        if isinstance(v, (int, float)):
            p = getattr(e, '_poly', None)
            if p is None:
                try:
                    p = Poly.const(v)
                    if isinstance(v, int):
                        p = Poly(dict(p.t))
                        p.li = True
                except ValueError:
                    return Top('non-finite literal')
                e._poly = p
            return p
        if v is Ellipsis:
            return Ellipsis
        return Top('constant %r' % (v,))

    def ex_Name(self, e):
        return self.lookup(e.id)

    def ex_Tuple(self, e):
        return tuple(self.elements(e.elts))

    def elements(self, elts):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                d = self.domain(self.eval(x.value))
                if not isinstance(d, list):
                    self.undecided('star of a symbolic collection')
                out.extend(d)
            else:
                out.append(self.eval(x))
        return out

    def ex_List(self, e):
        return self.new_list(self.elements(e.elts))

    def ex_Set(self, e):
        s = self.new_set()
        for x in self.elements(e.elts):
            self.models.set_add(self, s, x)
        return s

    def ex_Dict(self, e):
        d = self.new_dict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.eval(v)
                if not isinstance(o, ADict):
                    self.undecided('dict unpacking')
                for kk, vv in zip(o.keys, o.vals):
                    self.models.dict_set(self, d, kk, vv)
            else:
                self.models.dict_set(self, d, self.eval(k), self.eval(v))
        return d

    def ex_BinOp(self, e):
        a = self.eval(e.left)
        b = self.eval(e.right)
        return self.binop(type(e.op).__name__, a, b)

    def binop(self, op, a, b):
        if type(a) is Poly and type(b) is Poly:
            if op == 'Add':
                return a + b
            if op == 'Sub':
                return a - b
            if op == 'Mult':
                if al.LETTABLE:
                    # factors that average given quantities are named, so that
                    # products do not depend on whether the source named them
                    if len(a.t) > 1 and len(b.t) > 1:
                        a, b = al.let(a), al.let(b)
                return al.pmul(a, b)
        return self.models.binop(self, op, a, b)

    def ex_UnaryOp(self, e):
        v = self.eval(e.operand)
        op = type(e.op).__name__
        if op == 'Not':
            return not self.truth(v)
        return self.models.unary(self, op, v)

    def ex_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)
        v = None
        for x in e.values:
            v = self.eval(x)
            t = self.truth(v)
            if isand and not t:
                return v
            if not isand and t:
                return v
        return v

    def ex_Compare(self, e):
        left = self.eval(e.left)
        res = True
        for op, c in zip(e.ops, e.comparators):
            right = self.eval(c)
            res = self.models.compare(self, type(op).__name__, left, right)
            if len(e.ops) > 1:
                if not self.truth(res):
                    return False
            left = right
        return res

    def ex_IfExp(self, e):
        if self.truth(self.eval(e.test)):
            return self.eval(e.body)
        return self.eval(e.orelse)

    def ex_Attribute(self, e):
        return self.getattr(self.eval(e.value), e.attr)

    def ex_Subscript(self, e):
        o = self.eval(e.value)
        k = self.eval_index(e.slice)
        return self.models.get_item(self, o, k)

    def eval_index(self, s):
        if isinstance(s, ast.Slice):
            return self.ex_Slice(s)
        if isinstance(s, ast.Tuple):
            return tuple(self.eval_index(x) for x in s.elts)
        return self.eval(s)

    def ex_Slice(self, s):
        f = lambda x: self.eval(x) if x is not None else None
        return Slice(f(s.lower), f(s.upper), f(s.step))

    def ex_Lambda(self, e):
        fr = self.frames[-1]
        d = [self.eval(x) for x in e.args.defaults]
        kd = [self.eval(x) if x is not None else None for x in e.args.kw_defaults]
        return AFunc(e, fr.module, d, kd, fr if fr.fn is not None or getattr(fr, 'is_class', False) else None,
                     '<lambda>')

    def ex_Call(self, e):
        f = self.eval(e.func)
        args = self.elements(e.args)
        kw = {}
        for k in e.keywords:
            v = self.eval(k.value)
            if k.arg is None:
                if not isinstance(v, ADict):
                    self.undecided('** of a non-dict')
                for kk, vv in zip(v.keys, v.vals):
                    kw[kk] = vv
            else:
                kw[k.arg] = v
        loc = self.loc
        self.loc = (loc[0], e.lineno, loc[2])
        r = self.call(f, args, kw)
        self.loc = loc
        return r

    def ex_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                spec = None
                if v.format_spec is not None:
                    spec = self.eval(v.format_spec)
                parts.append(self.models.fmt(self, self.eval(v.value), spec))
        return mkstr(parts)

    def ex_FormattedValue(self, e):
        return self.models.fmt(self, self.eval(e.value), None)

    def ex_Starred(self, e):
        self.undecided('starred expression')

    def ex_NamedExpr(self, e):
        v = self.eval(e.value)
        self.store_name(e.target.id, v)
        return v

    # comprehensions ---------------------------------------------------------
    def comp(self, e, elt):
        """Evaluate a comprehension; returns list of values, SymColl or SymSeq."""
        fr = self.frames[-1]
        # comprehension scope: a child frame with its own locals
        cf = Frame(fr.fn, fr.module, {}, fr, None)
        cf.closure = fr
        cf.globals_decl = set()
        if getattr(fr, 'is_class', False):
            cf.closure = fr
        first = self.eval(e.generators[0].iter)

        def gen(i, it):
            g = e.generators[i]
            if it is None:
                it = self.eval(g.iter)
            dom = self.domain(it)

            def leaf(x):
                self.assign(g.target, x)
                for c in g.ifs:
                    if not self.truth(self.eval(c)):
                        return []
                if i + 1 < len(e.generators):
                    return gen(i+1, None)
                return [elt()]
            if isinstance(dom, list):
                out = []
                sym = None
                for x in dom:
                    r = leaf(x)
                    if isinstance(r, (SymColl, SymSeq)):
                        if len(dom) == 1:
                            return r
                        self.undecided('nested symbolic comprehension')
                    out.extend(r)
                return out
            if isinstance(dom, SymColl):
                reps = []
                full = True
                self.loop_n += 1
                lid = 'comp%d' % self.loop_n
                poss = []
                for r, x in enumerate(dom.reps):
                    self.loops.append((lid, r, dom.pos[r], dom))
                    try:
                        y = leaf(x)
                    finally:
                        self.loops.pop()
                    if isinstance(y, (SymColl, SymSeq)):
                        if len(dom.reps) == 1:
                            y.partial = dom.partial or y.partial
                            return y
                        self.undecided('nested symbolic comprehension')
                    if len(y) != 1:
                        full = False
                    reps.extend(y)
                    poss.extend([dom.pos[r]]*len(y))
                if not full:
                    nm = 'pos?%d' % self.loop_n
                    new = [al.sym('%s.%d' % (nm, k)) for k in range(len(reps))]
                    if len(set(id(p) for p in poss)) == len(poss):
                        # a selection keeps the order of what it selects
                        for p, q in zip(poss, new):
                            if p is not None:
                                self.models.copy_rank(self, p, q, nm)
                    poss = new
                c = SymColl('map(%s)' % dom.name, reps, poss,
                            dom.length if full else al.sym('len?%d' % self.loop_n, True))
                c.partial = dom.partial
                if not full:
                    c.filtered = True
                return c
            if isinstance(dom, IndexDomain):
                def body():
                    return leaf(dom.item(self))
                ps = self.local_paths(dom, body)
                paths = []
                for gset, r in ps:
                    if isinstance(r, (SymColl, SymSeq)):
                        self.undecided('nested symbolic comprehension')
                    if len(r) > 1:
                        self.undecided('comprehension yields several items per index')
                    if r:
                        paths.append((gset, r[0]))
                self.release_bound(dom)
                return SymSeq(paths, dom.bound)
            self.undecided('comprehension over %r' % (it,))
        self.frames.append(cf)
        try:
            return gen(0, first)
        finally:
            self.frames.pop()

    def ex_ListComp(self, e):
        r = self.comp(e, lambda: self.eval(e.elt))
        if isinstance(r, list):
            return self.new_list(r)
        return r

    def ex_GeneratorExp(self, e):
        return self.ex_ListComp(e)

    def ex_SetComp(self, e):
        r = self.comp(e, lambda: self.eval(e.elt))
        s = self.new_set()
        if isinstance(r, SymColl):
            s.sym = r
            r = r.reps
        elif isinstance(r, SymSeq):
            self.undecided('set of a symbolic sequence')
        for x in r:
            self.models.set_add(self, s, x)
        return s

    def ex_DictComp(self, e):
        r = self.comp(e, lambda: (self.eval(e.key), self.eval(e.value)))
        d = self.new_dict()
        if isinstance(r, SymColl):
            d.sym = r
            d.length = r.length
            r = r.reps
        elif isinstance(r, SymSeq):
            self.undecided('dict over a symbolic index')
        for k, v in r:
            i = d.find(k, self)
            if i >= 0:
                d.vals[i] = v
            else:
                d.keys.append(k)
                d.vals.append(v)
        return d

    # -- calls ---------------------------------------------------------------
    def call(self, f, args, kw):
        if isinstance(f, Builtin):
            return f.fn(self, args, kw)
        if isinstance(f, AFunc):
            return self.call_func(f, args, kw)
        if isinstance(f, AMethod):
            if isinstance(f.func, AFunc):
                return self.call_func(f.func, [f.self_] + list(args), kw)
            return self.call(f.func, [f.self_] + list(args), kw)
        if isinstance(f, AClass):
            return self.instantiate(f, args, kw)
        if isinstance(f, ExtClass):
            if f.ctor is not None:
                return f.ctor(self, args, kw)
            o = AObj(f, external=True)
            o.attrs['args'] = tuple(args)
            return o
        if isinstance(f, AObj):
            if isinstance(f.cls, AClass):
                c = f.cls.lookup('__call__')
                if isinstance(c, AFunc):
                    return self.call_func(c, [f] + list(args), kw)
            raise AbsRaise('TypeError', 'not callable', self.loc)
        if isinstance(f, Top):
            return self.models.unknown_call(self, f, args, kw)
        if isinstance(f, Opaque):
            return self.models.unknown_call(self, f, args, kw)
        if f is None or isinstance(f, (Poly, str, tuple, AList)):
            raise AbsRaise('TypeError', 'not callable', self.loc)
        self.undecided('call of %r' % (f,))

    def instantiate(self, c, args, kw):
        o = AObj(c)
        o.birth = self.birth()
        for b in c.mro():
            if getattr(b, 'tuple_fields', None) is not None:
                if c.lookup('__new__') is not None:
                    self.undecided('a named tuple with its own constructor')
                self.models.fill_namedtuple(self, o, b.tuple_fields, b.tuple_defaults, args, kw)
                return o
            if isinstance(b, Builtin):
                self.undecided('a class derived from %s' % b.name)
        init = c.lookup('__init__')
        if init is None and c.fields is not None:
            self.fill_fields(o, c, args, kw)
        elif init is not None:
            self.call_func(init, [o] + list(args), kw)
        elif 'Exception' in c.mro_names() or any(isinstance(b, ExtClass) for b in c.bases):
            o.attrs['args'] = tuple(args)
        elif args or kw:
            raise AbsRaise('TypeError', 'constructor arguments', self.loc)
        return o

    def fill_fields(self, o, c, args, kw):
        """the generated constructor of a data class"""
        args, kw = list(args), dict(kw)
        for name, default, taken in c.fields:
            if taken and args:
                if name in kw:
                    raise AbsRaise('TypeError', 'multiple values for %s' % name, self.loc)
                v = args.pop(0)
            elif taken and name in kw:
                v = kw.pop(name)
            elif default is not None:
                v = default(self)
            elif taken:
                raise AbsRaise('TypeError', 'missing argument %s' % name, self.loc)
            else:
                continue
            self.setattr(o, name, v)
        if args or kw:
            raise AbsRaise('TypeError', 'constructor arguments', self.loc)
        post = c.lookup('__post_init__')
        if post is not None:
            self.call_func(post, [o], {})

    def bind(self, f, args, kw):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        loc = {}
        kw = dict(kw)
        args = list(args)
        if len(args) > len(names):
            if a.vararg is None:
                raise AbsRaise('TypeError', '%s() takes %d positional arguments' % (f.name, len(names)), self.loc)
            loc[a.vararg.arg] = tuple(args[len(names):])
            args = args[:len(names)]
        elif a.vararg is not None:
            loc[a.vararg.arg] = ()
        for n, v in zip(names, args):
            loc[n] = v
        for n in names[len(args):]:
            if n in kw:
                loc[n] = kw.pop(n)
        for n in names[:len(args)]:
            if n in kw:
                raise AbsRaise('TypeError', '%s() got multiple values for %s' % (f.name, n), self.loc)
        nd = len(f.defaults)
        for n, v in zip(names[len(names)-nd:], f.defaults):
            if n not in loc:
                loc[n] = v
        for x, d in zip(a.kwonlyargs, f.kw_defaults):
            if x.arg in kw:
                loc[x.arg] = kw.pop(x.arg)
            elif d is not None or x.arg not in loc:
                if d is None and a.kw_defaults[a.kwonlyargs.index(x)] is None:
                    raise AbsRaise('TypeError', '%s() missing keyword %s' % (f.name, x.arg), self.loc)
                loc[x.arg] = d
        if kw:
            if a.kwarg is None:
                raise AbsRaise('TypeError', '%s() got an unexpected keyword %s' % (f.name, sorted(kw)[0]), self.loc)
            d = self.new_dict()
            for k, v in kw.items():
                d.keys.append(k)
                d.vals.append(v)
            loc[a.kwarg.arg] = d
        elif a.kwarg is not None:
            loc[a.kwarg.arg] = self.new_dict()
        missing = [n for n in names if n not in loc]
        if missing:
            raise AbsRaise('TypeError', '%s() missing argument %s' % (f.name, missing[0]), self.loc)
        return loc

    def call_func(self, f, args, kw):
        if self.depth > 60:
            self.undecided('recursion depth')
        loc = self.bind(f, args, kw)
        hook = self.models.call_hook(self, f, loc)
        if hook is not None:
            return hook[0]
        if f._locals is None:
            if isinstance(f.node, ast.Lambda):
                f._locals = set()
                f._gen = False
            else:
                f._locals = assigned_names(f.node.body)
                f._gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(f.node))
        fr = Frame(f, f.module, loc, f.closure, f._locals)
        self.calls.add((self.repo.rel(f.module.path), f.name))
        saved = self.loc
        self.frames.append(fr)
        self.depth += 1
        try:
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body)
            if f._gen:
                fr.yields = []
                try:
                    self.exec_body(f.node.body)
                except _Return:
                    pass
                return self.new_list(fr.yields)
            try:
                self.exec_body(f.node.body)
            except _Return as r:
                return r.v
            return None
        finally:
            self.depth -= 1
            self.frames.pop()
            self.loc = saved

    def ex_Yield(self, e):
        fr = self.frames[-1]
        while not hasattr(fr, 'yields'):
            self.undecided('yield')
        v = self.eval(e.value) if e.value is not None else None
        if self.loops and getattr(fr, 'loopdepth', 0) < len(self.loops):
            fr.symyield = True
        fr.yields.append(v)
        return None

    # -- attributes ----------------------------------------------------------
    def getattr(self, o, name):
        return self.models.getattr(self, o, name)

    def setattr(self, o, name, v):
        if isinstance(o, AObj):
            if isinstance(o.cls, AClass):
                p = o.cls.lookup(name)
                if isinstance(p, AFunc) and p.kind == 'property':
                    if p.setter is None:
                        raise AbsRaise('AttributeError', name, self.loc)
                    self.call_func(p.setter, [o, v], {})
                    return
            if name in (getattr(o, 'frozen', None) or ()):
                raise AbsRaise('AttributeError', name, self.loc)
            self.effect('attr', obj=o, attr=name, value=v, old=o.attrs.get(name))
            o.attrs[name] = v
            return
        if isinstance(o, AClass):
            o.ns[name] = v
            self.effect('class-attr', cls=o, attr=name)
            return
        if isinstance(o, AModule):
            self.effect('global-write', name='%s.%s' % (o.name, name))
            o.ns[name] = v
            return
        self.models.setattr(self, o, name, v)

    # -- truth / equality ------------------------------------------------------
    def truth(self, v):
        return self.models.truth(self, v)

    def same(self, a, b):
        """Equality of dictionary keys / set members."""
        return self.models.same(self, a, b)

    def decide(self, op, d):
        """numeric comparison d op 0"""
        d = al.expand_defs(lift(d))
        for sc in reversed(self.local_scopes):
            if sc.bound.id in d.all_atoms():
                return sc.compare(self, op, d)
        return self.ctx.compare(op, d)


def walk_own(fn):
    todo = list(ast.iter_child_nodes(fn))
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            todo.extend(ast.iter_child_nodes(n))


class IndexDomain(object):
    """Domain of a loop over symbolic indices."""

    def __init__(self, key, bound, mk):
        self.key = key
        self.bound = bound
        self.mk = mk

    def item(self, interp):
        return self.mk(Poly.of_atom(self.bound))


class LocalScope(object):
    def __init__(self, bound, forced):
        self.bound = bound
        self.forced = forced
        self.trail = []
        self.assumed = {}

    def compare(self, interp, op, d):
        if op in ('>', '>='):
            return self.compare(interp, '<' if op == '>' else '<=', -d)
        if op == '!=':
            return not self.compare(interp, '==', d)
        d = al.clear(d) if op == '==' else d
        if not d.t:
            return op in ('==', '<=')
        c, m, Q = al.canon(d)
        if op == '==':
            key = ('==', Poly({m: 1})*Q if m else Q)
        else:
            key = (op, Poly({m: 1})*Q, 1 if c > 0 else -1)
        norm = interp.models.local_key(interp, key)
        if norm is True or norm is False:
            return norm
        key = norm
        if key in self.assumed:
            return self.assumed[key]
        i = len(self.trail)
        v = self.forced[i] if i < len(self.forced) else True
        self.trail.append((key, v))
        self.assumed[key] = v
        return v


def reduction(kind, bound, paths):
    """Canonical sum/product over a bound index of guarded terms."""
    bounds = {bound}
    merged = {}
    for g, p in paths:
        merged[g] = merged.get(g, ZERO if kind == 'sum' else ONE)
        merged[g] = merged[g] + p if kind == 'sum' else merged[g]*p
    if kind == 'sum' and len(merged) == 1:
        (g, p), = merged.items()
        # flatten nested sums: sum_m c*sum_n e -> sum_{m,n} c*e
        out = ZERO
        groups = {}
        for m, c in p.t.items():
            bs = [(bound, g)]
            rest = []
            body = ONE
            for a, e in m:
                at = al.atom(a)
                if at.kind == 'sum' and e == 1:
                    bnds, gs, inner = at.args
                    bs.extend(zip_bounds(bnds, gs))
                    body = body*inner
                else:
                    rest.append((a, e))
            t = Poly({tuple(rest): c})*body
            key = frozenset(bs)
            groups[key] = groups.get(key, ZERO) + t
        for key, t in groups.items():
            bnds = tuple(sorted((b for b, _ in key), key=lambda b: b.id))
            gd = dict(key)
            gs = tuple(gd[b] for b in bnds)
            out = out + Poly.of_atom(al.intern('sum', (bnds, gs, t)))
        return out
    key = frozenset(merged.items())
    return Poly.of_atom(al.intern(kind, (bound, key)))


def zip_bounds(bnds, gs):
    return list(zip(bnds, gs))


# --------------------------------------------------------------------------
# the repository under analysis
# --------------------------------------------------------------------------
def memoized(f):
    """functools.lru_cache: the first result is returned for the same arguments"""
    table = []

    def key_same(a, b):
        if a is b:
            return True
        if isinstance(a, Poly) and isinstance(b, Poly):
            return a.t == b.t
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) == len(b) and all(key_same(x, y) for x, y in zip(a, b))
        return isinstance(a, str) and a == b

    def check(I, a):
        if isinstance(a, (AList, ADict, ASet, np.ndarray, AMat, AVec, KArr)):
            raise AbsRaise('TypeError', 'unhashable argument of a cached function', I.loc)
        if isinstance(a, tuple):
            for x in a:
                check(I, x)

    def fn(I, args, kw):
        key = (tuple(args), tuple(x for k in sorted(kw) for x in (k, kw[k])))
        check(I, key)
        for k, v in table:
            if key_same(k, key):
                return v
        v = I.call(f, args, kw)
        table.append((key, v))
        return v
    b = Builtin('cached ' + getattr(f, 'name', ''), fn)
    b.memo = True
    return b


class Repo(object):
    def __init__(self, root, package='meshless'):
        self.root = root
        self.package = package
        self._trees = {}
        self.parsed = []

    def module_path(self, name):
        p = os.path.join(self.root, *name.split('.'))
        if os.path.isfile(p + '.py'):
            return p + '.py'
        q = os.path.join(p, '__init__.py')
        if os.path.isfile(q):
            return q
        if name == self.package + '.version':
            return None
        return None

    def rel(self, path):
        return os.path.relpath(path, self.root) if path else '?'

    def tree(self, path):
        t = self._trees.get(path)
        if t is None:
            with open(path, encoding='utf-8') as f:
                src = f.read()
            t = ast.parse(src, path)
            self._trees[path] = t
            self.parsed.append(self.rel(path))
        return t
