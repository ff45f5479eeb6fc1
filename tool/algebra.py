"""Exact algebra used as the abstract scalar domain of the analyser.

A scalar is a Laurent polynomial with rational coefficients over interned
atoms.  Atoms are the inputs of the analysed code (a coordinate, a material
coefficient, a node index ...) and opaque functions of canonical polynomials
(square root, absolute value, max, quotient by a sum, ...).  Nothing in here
looks at the analysed program; it only decides when two computed values are the
same function of the inputs.
"""
from fractions import Fraction
import math
import zlib

F0 = Fraction(0)


class AbsZeroDivision(Exception):
    pass


class Atom(object):
    __slots__ = ('id', 'kind', 'args', 'name', 'defn', 'pos')

    def __repr__(self):
        return atom_str(self)


_ATOMS = []
_INTERN = {}


def reset():
    """Forget everything (used between independent checks of one process)."""
    del _ATOMS[:]
    _INTERN.clear()
    _MULCACHE.clear()
    LETTABLE.clear()
    NORMS.clear()
    LENGTHS.clear()


# atoms of which linear combinations are given a name of their own (see let)
NORMS = {}    # atoms that depend on a whole input vector -> its name
LETTABLE = set()
LENGTHS = {}      # collection name -> its length


def intern(kind, args, name=None):
    key = (kind, args)
    a = _INTERN.get(key)
    if a is None:
        a = Atom()
        a.id = len(_ATOMS)
        a.kind = kind
        a.args = args
        a.name = name
        a.defn = None
        a.pos = False
        _ATOMS.append(a)
        _INTERN[key] = a
    return a


def atom(i):
    return _ATOMS[i]


def snap(x):
    """Exact rational meant by a float literal (0.166666666666667 is 1/6)."""
    if isinstance(x, (int, Fraction)):
        return Fraction(x)
    if x != x or x in (float('inf'), float('-inf')):
        raise ValueError('non-finite')
    if x == int(x) and abs(x) < 1e15:
        return Fraction(int(x))
    exact = Fraction(x)
    near = exact.limit_denominator(2000)
    if near != 0 and abs(near - exact) <= Fraction(1, 10**13)*abs(exact):
        return near
    return Fraction(repr(x))


def _norm(c):
    # ints are much faster than Fractions
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c


class Poly(object):
    __slots__ = ('t', '_h', '_c', 'li')
    __array_priority__ = 1000

    def __init__(self, terms):
        self.t = terms
        self._h = None
        self._c = None
        self.li = False      # integer literal (drives numpy dtype inference)

    def sqrt(self):
        return psqrt(self)

    def conjugate(self):
        return self

    # construction -------------------------------------------------------
    @staticmethod
    def const(c):
        if isinstance(c, float):
            c = snap(c)
        if c == 0:
            return ZERO
        return Poly({(): _norm(c)})

    @staticmethod
    def of_atom(a, e=1):
        return Poly({((a.id, e),): 1})

    # inspection ---------------------------------------------------------
    def is_const(self):
        t = self.t
        return not t or (len(t) == 1 and () in t)

    def const_value(self):
        if not self.t:
            return 0
        return self.t[()]

    def is_zero(self):
        return not self.t

    def atoms(self):
        s = set()
        for m in self.t:
            for a, _ in m:
                s.add(a)
        return s

    def all_atoms(self):
        """Atom ids including those inside opaque atoms."""
        seen = set()
        todo = list(self.atoms())
        while todo:
            i = todo.pop()
            if i in seen:
                continue
            seen.add(i)
            for p in subpolys(_ATOMS[i]):
                todo.extend(p.atoms())
        return seen

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, other):
        # structural; the semantic test is equal()
        if not isinstance(other, Poly):
            if isinstance(other, (int, Fraction)) and not isinstance(other, bool):
                return self.is_const() and self.const_value() == other
            return NotImplemented
        return self is other or self.t == other.t

    def __ne__(self, other):
        r = self.__eq__(other)
        return r if r is NotImplemented else not r

    def __bool__(self):
        raise TypeError('truth value of a symbolic number')

    def __repr__(self):
        return poly_str(self)

    # arithmetic ----------------------------------------------------------
    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __pos__(self):
        return self

    def __add__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        if not o.t:
            return self
        if not self.t:
            return o
        a, b = (self.t, o.t) if len(self.t) >= len(o.t) else (o.t, self.t)
        r = dict(a)
        for m, c in b.items():
            v = r.get(m)
            if v is None:
                r[m] = c
            else:
                v = v + c
                if v == 0:
                    del r[m]
                else:
                    r[m] = _norm(v)
        return Poly(r)

    __radd__ = __add__

    def __sub__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return self + (-o)

    def __rsub__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return o + (-self)

    def __mul__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return pmul(self, o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return pdiv(self, o)

    def __rtruediv__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return pdiv(o, self)

    def __pow__(self, e):
        e = lift(e)
        if e is None:
            return NotImplemented
        return ppow(self, e)

    def __rpow__(self, b):
        b = lift(b)
        if b is None:
            return NotImplemented
        return ppow(b, self)

    def __abs__(self):
        return pabs(self)


ZERO = Poly({})
ONE = Poly({(): 1})


def lift(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, (int, Fraction)):
        return Poly.const(x)
    if isinstance(x, float):
        return Poly.const(x)
    return None


def sym(name, positive=False):
    a = intern('sym', name, name)
    if positive:
        a.pos = True
    return Poly.of_atom(a)


def pos_name(i):
    """collection of which atom i is the position of a representative"""
    n = _ATOMS[i].name
    if n and n.startswith('pos('):
        return n.rsplit(',', 1)[0]
    return None


def pos_distinct(d):
    """d = c*(p - q) for the positions of two different representatives of a
    collection"""
    (m1, c1), (m2, c2) = d.t.items()
    if len(m1) == 1 and len(m2) == 1 and m1[0][1] == 1 and m2[0][1] == 1 and c1 == -c2 and m1 != m2:
        n1, n2 = pos_name(m1[0][0]), pos_name(m2[0][0])
        return n1 is not None and n1 == n2
    return False


def mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    r = []
    i = j = 0
    n1, n2 = len(m1), len(m2)
    while i < n1 and j < n2:
        a, e = m1[i]
        b, f = m2[j]
        if a == b:
            s = e + f
            if s:
                r.append((a, s))
            i += 1
            j += 1
        elif a < b:
            r.append(m1[i])
            i += 1
        else:
            r.append(m2[j])
            j += 1
    r.extend(m1[i:])
    r.extend(m2[j:])
    return tuple(r)


_MULCACHE = {}


def pmul(p, q):
    if len(p.t) > len(q.t):
        p, q = q, p
    if not p.t:
        return ZERO
    if len(p.t) == 1 and () in p.t:
        c = p.t[()]
        if c == 1:
            return q
        return Poly({m: _norm(c*d) for m, d in q.t.items()})
    big = len(p.t)*len(q.t) > 64
    if big:
        k = (id(p), id(q))
        hit = _MULCACHE.get(k)
        if hit is not None:
            return hit[2]
    r = {}
    get = r.get
    for m1, c1 in p.t.items():
        for m2, c2 in q.t.items():
            m = mono_mul(m1, m2)
            r[m] = get(m, 0) + c1*c2
    r = {m: _norm(c) for m, c in r.items() if c != 0}
    r = _fix_den(r)
    if big:
        if len(_MULCACHE) > 20000:
            _MULCACHE.clear()
        _MULCACHE[k] = (p, q, r)
    return r


def _fix_den(terms):
    """Expand positive powers of 'den' atoms (they stand for a polynomial)."""
    bad = False
    for m in terms:
        for a, e in m:
            if e > 0 and _ATOMS[a].kind == 'den':
                bad = True
                break
        if bad:
            break
    if not bad:
        return Poly(terms)
    groups = {}     # factors that are polynomials -> the terms they multiply
    for m, c in terms.items():
        rest, fac = [], []
        for a, e in m:
            (fac if e > 0 and _ATOMS[a].kind == 'den' else rest).append((a, e))
        g = groups.setdefault(tuple(fac), {})
        rest = tuple(rest)
        g[rest] = g.get(rest, 0) + c
    out = ZERO
    for key, g in sorted(groups.items()):
        fac = ONE
        for a, e in key:
            fac = fac*ipow(_ATOMS[a].args[0], e)
        out = out + pmul(Poly({m: _norm(c) for m, c in g.items() if c != 0}), fac)
    return out


def ipow(p, n):
    if n == 0:
        return ONE
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if n < 0:
            return pdiv(ONE, ipow(p, -n))
        return _fix_den({tuple((a, e*n) for a, e in m): _norm(Fraction(c)**n)})
    if n < 0:
        return pdiv(ONE, ipow(p, -n))
    r = ONE
    b = p
    while n:
        if n & 1:
            r = pmul(r, b)
        n >>= 1
        if n:
            b = pmul(b, b)
    return r


def lead(p):
    return max(p.t)


def even_reduce(p):
    """Rewrite even powers of square roots and absolute values."""
    for _ in range(50):
        hit = False
        out = None
        for m in p.t:
            for a, e in m:
                k = _ATOMS[a].kind
                if k in ('sqrt', 'abs') and (e >= 2 or e <= -2):
                    hit = True
                    break
            if hit:
                break
        if not hit:
            return p
        out = ZERO
        for m, c in p.t.items():
            rest = []
            fac = ONE
            for a, e in m:
                at = _ATOMS[a]
                if at.kind == 'sqrt' and abs(e) >= 2:
                    h = int(e/2)
                    fac = fac*ipow(at.args[0], h)
                    if e - 2*h:
                        rest.append((a, e-2*h))
                elif at.kind == 'abs' and abs(e) >= 2:
                    h = int(e/2)
                    fac = fac*ipow(at.args[0], 2*h)
                    if e - 2*h:
                        rest.append((a, e-2*h))
                else:
                    rest.append((a, e))
            out = out + Poly({tuple(rest): c})*fac
        p = out
    return p


def canon(p):
    """p = coef * mono * Q with Q primitive, free of den atoms and negative
    powers, leading coefficient 1.  Returns (coef, mono, Q)."""
    if p._c is not None:
        return p._c
    src = p
    coef = 1
    mono = ()
    for _ in range(20):
        # monomial content
        mins = {}
        first = True
        for m in p.t:
            d = dict(m)
            if first:
                mins = dict(d)
                first = False
            else:
                for a in list(mins):
                    e = d.get(a, 0)
                    if e < mins[a]:
                        mins[a] = e
                for a, e in d.items():
                    if a not in mins and e < 0:
                        mins[a] = e
        # atoms absent from some term have min exponent <= 0
        n = len(p.t)
        cnt = {}
        for m in p.t:
            for a, _e in m:
                cnt[a] = cnt.get(a, 0) + 1
        for a in list(mins):
            if cnt[a] < n and mins[a] > 0:
                mins[a] = 0
        g = tuple(sorted((a, e) for a, e in mins.items() if e))
        if g:
            mono = mono_mul(mono, g)
            inv = tuple((a, -e) for a, e in g)
            p = _fix_den({mono_mul(m, inv): c for m, c in p.t.items()})
        q = even_reduce(p)
        if q is p and not g:
            break
        p = q
    if p.t:
        c = p.t[lead(p)]
        coef = c
        if c != 1:
            p = Poly({m: _norm(Fraction(d)/c) for m, d in p.t.items()})
    src._c = (coef, mono, p)
    return src._c


def pdiv(p, q):
    if not q.t:
        raise AbsZeroDivision()
    if not p.t:
        return ZERO
    if len(q.t) == 1:
        (m, c), = q.t.items()
        inv = tuple((a, -e) for a, e in m)
        ci = Fraction(1)/c
        return _fix_den({mono_mul(k, inv): _norm(d*ci) for k, d in p.t.items()})
    cq, mq, Q = canon(q)
    invm = Poly({tuple((a, -e) for a, e in mq): _norm(Fraction(1)/cq)})
    if len(Q.t) == 1 and () in Q.t:
        return p*_fix_den(invm.t)
    if len(p.t) == len(q.t) or len(p.t) >= len(Q.t):
        cp, mp, P = canon(p)
        if P.t == Q.t:
            return _fix_den({mp: cp})*_fix_den(invm.t)
        r = polydiv_exact(P, Q)
        if r is not None:
            return _fix_den({mp: cp})*r*_fix_den(invm.t)
    d = intern('den', (Q,))
    if positive_poly(Q):
        d.pos = True
    return p*_fix_den(invm.t)*Poly({((d.id, -1),): 1})


def polydiv_exact(P, Q):
    """P/Q when it is a polynomial, else None (bounded effort)."""
    if len(Q.t) > len(P.t):
        return None
    qa = Q.atoms()
    if not qa <= P.atoms():
        return None
    lq = _lexlead(Q)
    rem = P
    out = ZERO
    cq = Q.t[lq]
    for _ in range(200):
        if not rem.t:
            return out
        lr = _lexlead(rem)
        m = mono_mul(lr, tuple((a, -e) for a, e in lq))
        if any(e < 0 for _, e in m):
            return None
        t = Poly({m: _norm(Fraction(rem.t[lr])/cq)})
        out = out + t
        rem = rem - pmul(t, Q)
    return None


def _lexkey(m):
    # lexicographic order on exponent vectors (smaller atom id = larger var)
    return tuple((-a, e) for a, e in m)


class _LexCmp(object):
    __slots__ = ('m',)

    def __init__(self, m):
        self.m = m

    def __lt__(self, o):
        return lexcmp(self.m, o.m) < 0


def lexcmp(m, n):
    i = 0
    while True:
        if i >= len(m) and i >= len(n):
            return 0
        if i >= len(m):
            return -1 if n[i][1] > 0 else 1
        if i >= len(n):
            return 1 if m[i][1] > 0 else -1
        a, e = m[i]
        b, f = n[i]
        if a == b:
            if e != f:
                return 1 if e > f else -1
            i += 1
            continue
        if a < b:
            return 1 if e > 0 else -1
        return -1 if f > 0 else 1


def _lexlead(p):
    best = None
    for m in p.t:
        if best is None or lexcmp(m, best) > 0:
            best = m
    return best


def frac_sqrt(c):
    c = Fraction(c)
    if c < 0:
        return None
    a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if a*a == c.numerator and b*b == c.denominator:
        return Fraction(a, b)
    return None


def poly_sqrt(p):
    """Exact polynomial square root or None."""
    if len(p.t) == 1:
        (m, c), = p.t.items()
        r = frac_sqrt(c)
        if r is None or any(e % 2 for _, e in m):
            return None
        return Poly({tuple((a, e//2) for a, e in m): _norm(r)})
    lm = _lexlead(p)
    r0 = poly_sqrt(Poly({lm: p.t[lm]}))
    if r0 is None:
        return None
    root = r0
    (m0, c0), = r0.t.items()
    inv = tuple((a, -e) for a, e in m0)
    for _ in range(60):
        rem = p - root*root
        if not rem.t:
            return root
        lr = _lexlead(rem)
        m = mono_mul(lr, inv)
        if any(e < 0 for _, e in m):
            return None
        root = root + Poly({m: _norm(Fraction(rem.t[lr])/(2*c0))})
    return None


def psqrt(p):
    if not p.t:
        return ZERO
    c, m, Q = canon(p)
    if c < 0:
        # keep Q*c under the root
        Q = Q*c
        c = Fraction(1)
    out = ONE
    r = frac_sqrt(c)
    if r is not None:
        out = Poly.const(r)
    else:
        c = Fraction(c)
        k = c.numerator*c.denominator
        # pull square factors
        f = 2
        o = 1
        while f*f <= k and f < 1000:
            while k % (f*f) == 0:
                k //= f*f
                o *= f
            f += 1
        out = Poly.const(Fraction(o, c.denominator))
        if k != 1:
            a = intern('sqrt', (Poly.const(k),))
            a.pos = True
            out = out*Poly.of_atom(a)
    for a, e in m:
        at = _ATOMS[a]
        if e % 2:
            s = intern('sqrt', (Poly({((a, 1),): 1}),))
            s.pos = True
            out = out*Poly.of_atom(s, e)
        else:
            h = e//2
            if h % 2 and not nonneg_atom(at):
                out = out*ipow(pabs(Poly.of_atom(at)), h)
            else:
                out = out*_fix_den({((a, h),): 1})
    if not (len(Q.t) == 1 and () in Q.t and Q.t[()] == 1):
        r = poly_sqrt(Q)
        if r is not None:
            out = out*pabs(r)
        else:
            a = intern('sqrt', (Q,))
            a.pos = True
            out = out*Poly.of_atom(a)
    return out


def ppow(b, e):
    if e.is_const():
        c = Fraction(e.const_value())
        if c.denominator == 1:
            n = int(c)
            if n < 0 and not b.t:
                raise AbsZeroDivision()
            return ipow(b, n)
        if c.denominator == 2:
            return ipow(psqrt(b), int(c*2))
    if b.is_const() and b.const_value() == 1:
        return ONE
    return Poly.of_atom(intern('fn', ('pow', b, e)))


def nonneg_atom(a):
    return a.pos or a.kind in ('sqrt', 'abs')


def positive_poly(p):
    """Sufficient condition for p > 0."""
    if not p.t:
        return False
    strict = False
    for m, c in p.t.items():
        if c < 0:
            return False
        for a, e in m:
            if e % 2 and not nonneg_atom(_ATOMS[a]):
                return False
        strict = True
    return strict


# -- context dependent parts -------------------------------------------------
class NoContext(object):
    def sign(self, p):
        return None


CTX = [NoContext()]


def basic_sign(p):
    """'+', '-', '0' or None, without context facts."""
    if not p.t:
        return '0'
    if p.is_const():
        return '+' if p.const_value() > 0 else '-'
    if positive_poly(p):
        return '+'
    if positive_poly(-p):
        return '-'
    return None


def sign(p):
    s = basic_sign(p)
    if s is not None:
        return s
    return CTX[-1].sign(p)


def pabs(p):
    s = sign(p)
    if s in ('+', '0', '>=0'):
        return p
    if s in ('-', '<=0'):
        return -p
    c, m, Q = canon(p)
    out = Poly.const(abs(c))
    for a, e in m:
        at = _ATOMS[a]
        if e % 2 == 0 or nonneg_atom(at):
            out = out*_fix_den({((a, e),): 1})
        else:
            b = intern('abs', (Poly.of_atom(at) if at.kind != 'den' else at.args[0],))
            out = out*Poly.of_atom(b, e)
    if not (len(Q.t) == 1 and () in Q.t):
        sQ = sign(Q)
        if sQ in ('+', '>=0'):
            out = out*Q
        elif sQ in ('-', '<=0'):
            out = out*(-Q)
        else:
            a = intern('abs', (Q,))
            out = out*Poly.of_atom(a)
    return out


def _has_sqrt(p):
    return any(_ATOMS[a].kind == 'sqrt' for m in p.t for a, _ in m)


def _monomial_nonneg(p):
    if len(p.t) > 1:
        return False
    return all(c > 0 and all(e % 2 == 0 or nonneg_atom(_ATOMS[a]) for a, e in m) for m, c in p.t.items())


def _common_factor(items):
    """a product of positive quantities that divides every term of every item"""
    if len(items) < 2:
        return None
    exps = None
    for p in items:
        for m in p.t:
            d = {i: e for i, e in m if _ATOMS[i].pos and _ATOMS[i].kind == 'sym' and e > 0}
            exps = d if exps is None else {i: min(e, d[i]) for i, e in exps.items() if i in d}
            if not exps:
                return None
    if not exps:
        return None
    return Poly({tuple(sorted(exps.items())): 1})


def _extremum(kind, items):
    flat = []
    for p in items:
        p = lift(p)
        if len(p.t) == 1:
            (m, c), = p.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1 and _ATOMS[m[0][0]].kind == kind:
                flat.extend(_ATOMS[m[0][0]].args)
                continue
        flat.append(p)
    if len(flat) > 1 and any(_has_sqrt(p) for p in flat) and all(_monomial_nonneg(p) for p in flat):
        # the root is monotone: the extremum of lengths is the root of that of their squares
        return psqrt(_extremum(kind, [even_reduce(p*p) for p in flat]))
    common = _common_factor(flat)
    if common is not None:
        return common*_extremum(kind, [p/common for p in flat])
    keep = []
    for p in flat:
        drop = False
        for q in list(keep):
            s = sign(p - q)
            if s == '0':
                drop = True
                break
            if s in ('+', '-'):
                if (s == '+') == (kind == 'max'):
                    keep.remove(q)
                else:
                    drop = True
                    break
        if not drop:
            keep.append(p)
    if len(keep) == 1:
        return keep[0]
    a = intern(kind, frozenset(keep))
    if all(positive_poly(p) for p in keep):
        a.pos = True
    return Poly.of_atom(a)


def pmax(items):
    return _extremum('max', items)


def pmin(items):
    return _extremum('min', items)


def fn(name, *args):
    return Poly.of_atom(intern('fn', (name,) + tuple(args)))


def subpolys(a):
    out = []
    for x in a.args if isinstance(a.args, (tuple, frozenset)) else ():
        if isinstance(x, Poly):
            out.append(x)
    if a.defn is not None:
        out.append(a.defn)
    return out


def let(p):
    """Name a linear combination of lettable atoms.  The name is interned by the
    canonical polynomial, so equal combinations get equal names; expand_lets
    undoes it."""
    if len(p.t) < 2 or len(p.t) > 400:
        return p
    for m in p.t:
        n = 0
        for a, e in m:
            if a in LETTABLE or _ATOMS[a].kind == 'let':
                n += e if e > 0 else 10
        if n != 1:
            return p
    q = expand_lets(p)
    if len(q.t) > 400:
        return p
    a = intern('let', (q,))
    if positive_poly(p):
        a.pos = True
    return Poly.of_atom(a)


def has_lets(p):
    return any(_ATOMS[i].kind == 'let' for i in p.all_atoms())


def expand_lets(p):
    ids = [i for i in p.all_atoms() if _ATOMS[i].kind == 'let']
    if not ids:
        return p
    return subst(p, {i: expand_lets(_ATOMS[i].args[0]) for i in ids})


# -- decision -------------------------------------------------------------------
def expand_defs(p):
    """Substitute atoms whose definition became known (loop counters)."""
    for _ in range(20):
        todo = [i for i in p.atoms() if _ATOMS[i].defn is not None]
        if not todo:
            return p
        for i in todo:
            p = subst_atom(p, i, _ATOMS[i].defn)
    return p


def subst_atom(p, i, val):
    if not any(i == a for m in p.t for a, _ in m):
        return p
    out = ZERO
    for m, c in p.t.items():
        rest = tuple((a, e) for a, e in m if a != i)
        e = dict(m).get(i, 0)
        t = Poly({rest: c})
        if e:
            t = t*ipow(val, e)
        out = out + t
    return out


def subst(p, mapping):
    """Substitute atoms (also inside opaque atoms); mapping: id -> Poly."""
    ids = set(mapping)
    if not (p.all_atoms() & ids):
        return p
    out = ZERO
    for m, c in p.t.items():
        t = Poly({(): c})
        for a, e in m:
            t = t*ipow(subst_atom_deep(a, mapping), e)
        out = out + t
    return out


def subst_atom_deep(i, mapping):
    if i in mapping:
        return mapping[i]
    a = _ATOMS[i]
    base = Poly.of_atom(a)
    subs = subpolys(a)
    if not subs or not any(s.all_atoms() & set(mapping) for s in subs):
        return base
    if a.kind == 'den':
        return subst(a.args[0], mapping)
    if a.kind == 'sqrt':
        return psqrt(subst(a.args[0], mapping))
    if a.kind == 'abs':
        return pabs(subst(a.args[0], mapping))
    if a.kind == 'max':
        return pmax([subst(x, mapping) for x in a.args])
    if a.kind == 'min':
        return pmin([subst(x, mapping) for x in a.args])
    if a.kind == 'app':
        return Poly.of_atom(intern('app', tuple(subst(x, mapping) if isinstance(x, Poly) else x for x in a.args)))
    if a.kind == 'let':
        return subst(a.args[0], mapping)
    if a.kind == 'fn':
        return fn(*[subst(x, mapping) if isinstance(x, Poly) else x for x in a.args])
    if a.defn is not None:
        return subst(a.defn, mapping)
    return base


def clear(p):
    """Multiply by a non-zero quantity so that no den atom or negative power
    is left, and reduce even powers of roots; zero iff p is (algebraically)."""
    p = expand_defs(p)
    for _ in range(30):
        p = even_reduce(p)
        if not p.t:
            return p
        mins = {}
        for m in p.t:
            for a, e in m:
                if e < 0 and e < mins.get(a, 0):
                    mins[a] = e
        if not mins:
            return p
        p = _fix_den({mono_mul(m, tuple(sorted((a, -e) for a, e in mins.items()))): c
                      for m, c in p.t.items()})
    return p


def equal(p, q):
    """True when p and q are the same function of the inputs."""
    p = lift(p)
    q = lift(q)
    if p.t == q.t:
        return True
    d = p - q
    if not d.t:
        return True
    large = len(d.t) > 150
    if large and refuted(d):
        return False
    e = clear(d)
    if not e.t:
        return True
    if not large and refuted(d):
        return False
    if has_lets(d):
        d = expand_lets(d)
        e = clear(d)
        if not e.t:
            return True
    same = alike(e)
    return bool(same) and equal(subst(d, same), ZERO)


ROOTLIKE = ('sqrt', 'abs', 'max', 'min', 'fn')


def alike(p):
    """Atoms of p that are the same function applied to equal arguments:
    {atom id: Poly of the one to use instead}."""
    seen = {}
    out = {}
    for i in sorted(p.atoms()):
        a = _ATOMS[i]
        if a.kind not in ROOTLIKE:
            continue
        for j in seen.setdefault((a.kind, len(a.args)), []):
            if same_args(a, _ATOMS[j]):
                out[i] = Poly.of_atom(_ATOMS[j])
                break
        else:
            seen[(a.kind, len(a.args))].append(i)
    return out


def same_args(a, b):
    for salt in ('a', 'b'):
        u, v = point(a.id, {}, salt), point(b.id, {}, salt)
        if u is not None and v is not None and abs(u - v) > 1e-7*max(abs(u), abs(v)):
            return False

    def eq(x, y):
        if isinstance(x, Poly) and isinstance(y, Poly):
            return equal(x, y)
        return type(x) is type(y) and x == y
    if isinstance(a.args, frozenset):
        left = list(b.args)
        for x in a.args:
            for y in left:
                if eq(x, y):
                    left.remove(y)
                    break
            else:
                return False
        return True
    return all(eq(x, y) for x, y in zip(a.args, b.args))


def point(i, memo, salt):
    """value of an atom at a pseudo-random point; None when undefined"""
    if i in memo:
        return memo[i]
    a = _ATOMS[i]
    k = a.kind
    memo[i] = None
    if a.defn is not None:
        r = value(a.defn, memo, salt)
    elif k in ('let', 'den'):
        r = value(a.args[0], memo, salt)
    elif k in ('sqrt', 'abs', 'max', 'min'):
        vs = [value(x, memo, salt) for x in a.args]
        if any(v is None for v in vs):
            r = None
        elif k == 'sqrt':
            r = math.sqrt(vs[0]) if vs[0] >= 0 else None
        elif k == 'abs':
            r = abs(vs[0])
        else:
            r = max(vs) if k == 'max' else min(vs)
    elif k in ('sym', 'app'):
        h = zlib.crc32(('%s|%s' % (salt, atom_str(a))).encode())
        r = 0.5 + 1.5*(h/4294967296.0)
        if h & 1 and not a.pos:
            r = -r
    else:
        r = None
    memo[i] = r
    return r


def value(p, memo, salt, scale=None):
    s = 0.0
    for m, c in p.t.items():
        t = float(c)
        for a, e in m:
            v = point(a, memo, salt)
            if v is None or (v == 0 and e < 0):
                return None
            t *= v**e
        s += t
        if scale is not None:
            scale[0] += abs(t)
    return s


def refuted(d):
    """d is certainly not identically zero: it is far from zero at some point.
    (Only a quick way out; the positive answer is always exact.)"""
    for salt in ('a', 'b'):
        try:
            sc = [0.0]
            v = value(d, {}, salt, sc)
        except (OverflowError, ZeroDivisionError):
            v = None
        if v is not None and sc[0] > 0 and abs(v) > 1e-7*sc[0]:
            return True
    return False


# -- printing ------------------------------------------------------------------
def atom_str(a):
    if a.name:
        return a.name
    if a.kind == 'den':
        return '(%s)' % poly_str(a.args[0])
    if a.kind in ('sqrt', 'abs'):
        return '%s(%s)' % (a.kind, poly_str(a.args[0]))
    if a.kind in ('max', 'min'):
        return '%s{%s}' % (a.kind, ', '.join(sorted(poly_str(x) for x in a.args)))
    if a.kind == 'app':
        return '%s[%s]' % (a.args[0], ', '.join(str(x) for x in a.args[1:]))
    if a.kind == 'let':
        return '{%s}' % poly_str(a.args[0], 5)
    if a.kind == 'fn':
        return '%s(%s)' % (a.args[0], ', '.join(str(x) for x in a.args[1:]))
    return '%s%r' % (a.kind, a.args)


def poly_str(p, limit=14):
    if not p.t:
        return '0'
    out = []
    for k, (m, c) in enumerate(sorted(p.t.items(), key=lambda kv: [(_ATOMS[a].id, e) for a, e in kv[0]])):
        if k >= limit:
            out.append('... %d more terms' % (len(p.t) - limit))
            break
        s = '*'.join(atom_str(_ATOMS[a]) + ('' if e == 1 else '**%s' % e) for a, e in m)
        if not s:
            s = str(c)
        elif c == 1:
            pass
        elif c == -1:
            s = '-' + s
        else:
            s = '%s*%s' % (c, s)
        out.append(s)
    return ' + '.join(out).replace('+ -', '- ')
