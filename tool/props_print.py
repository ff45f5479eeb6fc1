"""Text generated from symbolic matrices (meshless.dev.sympytools)."""
import ast

import algebra as al
from algebra import Poly, ZERO
import engine as en
from engine import AList, ADict, AObj, AStr, Builtin, Ctx, ExtClass, Opaque, Undecided
import framework as fw
import world as w

MOD = 'meshless.dev.sympytools'
FUN = {'sparse': 'mprint_as_sparse', 'dense': 'mprint_as_dense', 'array': 'mprint_as_array'}
NCSE = 11


class Case(object):
    def __init__(self, kind, shape, zero=(), what='', **opts):
        self.kind, self.shape, self.zero, self.what = kind, shape, frozenset(zero), what
        self.o = dict(sufix=None, header=None, subs=0, print_file=False, collect=False, pow=True, sym=False,
                      dof=None, order='C', op=None, cse=False, defaults=False)
        self.o.update(opts)

    def special(self):
        return self.what in ('no zeros', 'all zero', 'alternating zeros')

    def __str__(self):
        o = self.o
        s = '%s printer, %dx%d matrix, %s' % (self.kind, self.shape[0], self.shape[1], self.what or '%d zeros' % len(self.zero))
        base = dict(sufix=None, header=None, subs=0, print_file=False, collect=False, pow=True, sym=False,
                    dof=None, order='C', op=None, cse=False, defaults=False)
        for k in sorted(o):
            if o[k] != base[k]:
                s += ', %s=%s' % (k, o[k])
        return s


# ---------------------------------------------------------------------------
# model of a sympy matrix


def entry(case, i, j):
    if case.o['sym'] and i > j:
        i, j = j, i
    return Opaque(('expr', i, j))


def is_zero(case, i, j):
    if case.o['sym'] and i > j:
        i, j = j, i
    return (i, j) in case.zero


class Matrix(object):
    """contents of a modelled sympy matrix"""

    def __init__(self, M, rows, log, given=None):
        self.M = M
        self.rows = [list(r) for r in rows]
        self.log = log
        self.given = given
        self.obj = self.build()

    def shape(self):
        return len(self.rows), len(self.rows[0]) if self.rows else 0

    def flat(self):
        return [v for r in self.rows for v in r]

    def sub(self, rows):
        return Matrix(self.M, rows, self.log).obj

    def cell(self, I, k):
        m, n = self.shape()
        if isinstance(k, tuple) and len(k) == 2:
            i, j = al_int(k[0]), al_int(k[1])
            if i is None or j is None:
                raise Undecided('matrix index %r' % (k,))
            if not (-m <= i < m and -n <= j < n):
                raise en.AbsRaise('IndexError', 'index out of range', I.loc)
            return i % m, j % n
        i = al_int(k)
        if i is None:
            raise Undecided('matrix index %r' % (k,))
        if not -m*n <= i < m*n:
            raise en.AbsRaise('IndexError', 'index out of range', I.loc)
        i %= m*n
        return i//n, i % n

    def build(self):
        o = AObj(ExtClass('Matrix'), 'matrix', True)
        o.matrix = self
        me = o.methods

        def setitem(I, a, k):
            i, j = self.cell(I, a[0])
            if self.given:
                self.log.append((self.given, I.loc))
            v = a[1]
            if isinstance(v, AObj) and getattr(v, 'matrix', None):
                for p, r in enumerate(v.matrix.rows):
                    for q, x in enumerate(r):
                        self.rows[i + p][j + q] = x
            else:
                self.rows[i][j] = v

        def seq(items):
            return tuple(items)
        me['__iter__'] = lambda I, a, k: seq(self.flat())
        me['__len__'] = lambda I, a, k: Poly.const(len(self.flat()))

        def getitem(I, a, k):
            i, j = self.cell(I, a[0])
            return self.rows[i][j]
        me['__getitem__'] = getitem
        me['__setitem__'] = setitem
        me['tolist'] = lambda I, a, k: I.new_list([I.new_list(list(r)) for r in self.rows])
        me['flat'] = lambda I, a, k: I.new_list(self.flat())
        for n in ('copy', 'as_mutable', 'as_immutable'):
            me[n] = lambda I, a, k: self.sub(self.rows)

        def transpose(I=None, a=None, k=None):
            return self.sub([list(c) for c in zip(*self.rows)])
        me['transpose'] = transpose
        me['ravel'] = lambda I, a, k: seq(self.flat() if (k.get('order') or (a and a[0]) or 'C') == 'C'
                                          else [v for c in zip(*self.rows) for v in c])
        me['flatten'] = me['ravel']
        me['ndenumerate'] = lambda I, a, k: tuple(((Poly.const(i), Poly.const(j)), v)
                                                  for i, r in enumerate(self.rows) for j, v in enumerate(r))
        me['iter_items'] = me['ndenumerate']

        def applyfunc(I, a, k):
            return self.sub([[I.call(a[0], [v], {}) for v in r] for r in self.rows])
        me['applyfunc'] = applyfunc

        def subs(I, a, k):
            return self.sub([[I.call(I.getattr(v, 'subs'), list(a), dict(k)) for v in r] for r in self.rows])
        me['subs'] = subs
        me['__array__'] = lambda I, a, k: en.objarray(self.rows)

        def attr(I, o2, name):
            m, n = self.shape()
            if name == 'shape':
                return ((Poly.const(m), Poly.const(n)),)
            if name == 'rows':
                return (Poly.const(m),)
            if name == 'cols':
                return (Poly.const(n),)
            if name == 'T':
                return (transpose(),)
            if name == 'ndim':
                return (Poly.const(2),)
            if name == 'size':
                return (Poly.const(m*n),)
            return None
        o.getattr_hook = attr
        return o


def al_int(v):
    if isinstance(v, Poly) and v.is_const():
        c = v.const_value()
        if c == int(c):
            return int(c)
    return None


# ---------------------------------------------------------------------------
# provenance of a piece of text


def mentions(key, out):
    """entries of the matrix a key was built from"""
    if isinstance(key, tuple):
        if len(key) == 3 and key[0] == 'expr' or len(key) == 2 and key[0] == 'reduced':
            out.add(key)
            return
        for k in key:
            mentions(k, out)


def head(key):
    """(what text transformations, substitutions and the like were applied, entry)"""
    tags = []
    while isinstance(key, tuple) and key:
        if key[0] == 'str' and len(key) in (2, 3):
            key = key[1]
        elif key[0] == 'text' and len(key) == 3:
            tags.append('text')
            key = key[2]
        elif key[0] == 'call' and isinstance(key[1], tuple) and key[1][:1] == ('attr',) and key[1][2] in ('subs', 'xreplace'):
            tags.append((key[1][2], repr(key[2])))
            key = key[1][1]
        elif key[0] in ('re', 'loop', 'after-loop', 'strm', 'call', 'join', 'loopitem', 'stritem'):
            s = set()
            mentions(key, s)
            if len(s) != 1:
                return tags + ['?'], key
            if 'subs' in repr(key):
                tags.append(('subs', None))
            tags.append('text')
            key = s.pop()
            return canon_tags(tags), key
        else:
            break
    return canon_tags(tags), key


def canon_tags(tags):
    out = []
    for t in tags:
        if t == 'text' and 'text' in out:
            continue
        out.append(t)
    return out


class P(object):
    """placeholder of the expected text"""

    def __init__(self, key, tags=()):
        self.key, self.tags = key, list(tags)

    def __repr__(self):
        return '<%s%s>' % ('+'.join(str(t if isinstance(t, str) else t[0]) for t in self.tags) + ' ' if self.tags else '',
                           show(self.key))


def show(key):
    if isinstance(key, tuple) and key[:1] == ('expr',):
        return 'entry (%d, %d)' % key[1:]
    if isinstance(key, tuple) and key:
        return '%s(%s)' % (key[0], ', '.join(show(k) for k in key[1:]))
    return str(key)


def flatten(v):
    parts = v.parts if isinstance(v, AStr) else [v]
    out = []
    for p in parts:
        if isinstance(p, str):
            if p:
                if out and isinstance(out[-1], str):
                    out[-1] += p
                else:
                    out.append(p)
        elif isinstance(p, Opaque):
            t, k = head(p.key)
            out.append(P(k, t))
        else:
            raise Undecided('text part %r' % (p,))
    return out


def match(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if isinstance(x, str) or isinstance(y, str):
            if x != y:
                return False
        else:
            tx = [t[0] if isinstance(t, tuple) else t for t in x.tags]
            ty = [t[0] if isinstance(t, tuple) else t for t in y.tags]
            if sorted(tx) != sorted(ty):
                return False
            if sortkey(x.key) != sortkey(y.key):
                return False
    return True


def sortkey(k):
    if isinstance(k, tuple) and k and k[0] == 'Mult':
        return ('Mult',) + tuple(sorted((sortkey(x) for x in k[1:]), key=repr))
    return k


def lines_of(parts):
    out = [[]]
    for p in parts:
        if isinstance(p, str):
            for i, s in enumerate(p.split('\n')):
                if i:
                    out.append([])
                if s:
                    out[-1].append(s)
        else:
            out[-1].append(p)
    return out


# ---------------------------------------------------------------------------
# the text that has to be printed


SUBS = [('X1', 'aa'), ('X2', 'Entry')]


def expected(case, included):
    """list of lines, each a list of parts"""
    o = case.o
    m, n = case.shape
    name = 'MN'
    full = name + ('_' + o['sufix'] if o['sufix'] else '')
    L = []
    if o['header']:
        L.append([o['header']])
    tags = []
    if o['subs']:
        tags.append('subs')
    if o['cse']:
        L.append(['# cdefs'])
        xs = [P(('x', k)) for k in range(NCSE)]
        for s in range(0, NCSE, 9):
            ln = ['cdef double ']
            for t, x in enumerate(xs[s:s + 9]):
                ln += ([', '] if t else []) + [x]
            L.append(ln)
        L.append(['# subs'])
        for k in range(NCSE):
            L.append([xs[k], ' = ', P(('e', k))])
    L.append(['# ' + full])
    cells = [(i, j) for i in range(m) for j in range(n)]
    if o['order'] == 'F':
        cells = [(i, j) for j in range(n) for i in range(m)]
    shown = []
    for pos, (i, j) in enumerate(cells):
        if is_zero(case, i, j) or o['sym'] and i > j:
            continue
        shown.append((pos, i, j))
    L.append(['# %s_num=%d' % (full, len(shown))])
    for pos, i, j in shown:
        key = entry(case, i, j).key
        if o['cse']:
            key = ('reduced', key)
        p = o['dof']
        if case.kind == 'sparse':
            L.append(['c += 1'])
            if p:
                L.append(['%sr[c] = i%d*dof+%d' % (name, i//p + 1, i % p)])
                L.append(['%sc[c] = i%d*dof+%d' % (name, j//p + 1, j % p)])
            else:
                L.append(['%sr[c] = row+%d' % (name, i)])
                L.append(['%sc[c] = col+%d' % (name, j)])
            target = name + 'v[c]'
        elif case.kind == 'dense':
            target = '%s[i%d*dof+%d, i%d*dof+%d]' % (name, i//p + 1, i % p, j//p + 1, j % p) if p else '%s[%d, %d]' % (name, i, j)
        else:
            target = '%s[pos+%d]' % (name, pos)
        if o['collect']:
            L.append([target + ' +='])
            k2 = subskey(key) if o['subs'] else key
            for t in range(2):
                L.append(['#   collected for ', P(('power', t, k2))])
                L.append(['    ', P(('Mult', ('power', t, k2), ('coef', t, k2)))])
        else:
            L.append(['%s %s ' % (target, o['op'] or '+='), P(key, tags + (['text'] if o['pow'] else []))])
    if o['subs'] and included:
        pre = []
        if case.kind == 'sparse':
            pre = [['subs'], []]
            for k, v in included:
                pre.append(['%s = ' % v, P(('sym', k))])
            pre += [[], []]
        else:
            pre = [['# subs']]
            for k, v in included:
                pre.append(['# %s = ' % v, P(('sym', k))])
        L = pre + L
    return L


def subskey(key):
    return ('subs', key)


def strip_keys(k):
    """canonical form of the keys met in collected lines"""
    if isinstance(k, tuple):
        t, h = head(k)
        if t and all(isinstance(x, tuple) and x[0] == 'subs' for x in t):
            return subskey(strip_keys(h))
        return tuple(strip_keys(x) for x in k)
    return k


# ---------------------------------------------------------------------------


def power_helper(f):
    """a function that only rewrites powers in a text; its effect on the text
    is not analysed (see DESIGN.md), only that it is applied to one entry"""
    node = getattr(f, 'node', None)
    if not isinstance(node, ast.FunctionDef):
        return False
    powers = False
    for x in ast.walk(node):
        if isinstance(x, (ast.Global, ast.Nonlocal)):
            return False
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('open', 'print', 'exec', 'eval', 'input'):
            return False
        if isinstance(x, ast.Constant) and isinstance(x.value, str) and ('**' in x.value or '\\*\\*' in x.value or 'pow' in x.value):
            powers = True
    return powers


def printing(rec, cfg):
    rule, cases = cfg
    for case in cases:
        case.what_rule = rule

        def run(ctx, case=case):
            I, M = w.new(ctx)
            try:
                body(rec, case, ctx, I, M)
            finally:
                rec.absorb(I)
        fw.explore(rec, None, lambda forced, case=case: Ctx(str(case), forced), run, FUN[case.kind], limit=64)


def body(rec, case, ctx, I, M):
    o = case.o
    m, n = case.shape
    name = FUN[case.kind]
    log = []

    # truth of the entries is part of the case
    class Truth(dict):
        def lookup(self, key):
            if isinstance(key, tuple) and len(key) == 3 and key[0] == 'attr' and key[2] in ('is_zero', 'is_nonzero'):
                t = self.lookup(key[1])
                return t if t is None else t != (key[2] == 'is_zero')
            t, k = head(key)
            if isinstance(k, tuple) and k and k[0] == 'reduced':
                k = k[1]
            if isinstance(k, tuple) and k and k[0] == 'expr':
                return not is_zero(case, k[1], k[2])
            return None
    truth = Truth()
    M.opaque_truth = truth.lookup

    def order(v):
        """names of the common subexpressions, in the order of their text"""
        if isinstance(v, Opaque) and v.key[:1] == ('str',):
            v = v.key[1]
        elif isinstance(v, AStr) and len(v.parts) == 1 and isinstance(v.parts[0], Opaque):
            v = v.parts[0].key
            if v[:1] == ('str',):
                v = v[1]
        else:
            v = v if isinstance(v, tuple) else None
        if isinstance(v, tuple) and len(v) == 2 and v[0] == 'x' and isinstance(v[1], int):
            return 'x%d' % v[1]
    M.opaque_order = order

    rows = [[entry(case, i, j) for j in range(n)] for i in range(m)]
    mat = Matrix(M, rows, log, given='matrix')

    def collect(I2, a, k):
        ev = k.get('evaluate', a[2] if len(a) > 2 else True)
        key = M.keyof(a[0])
        if not isinstance(a[0], Opaque):
            raise Undecided('collect of %r' % (a[0],))
        if ev is not False:
            return Opaque(('collected', key))
        key = strip_keys(key)
        d = I2.new_dict()
        for t in range(2):
            d.keys.append(Opaque(('power', t, key)))
            d.vals.append(Opaque(('coef', t, key)))
        return d

    def cse(I2, a, k):
        xs = [(Opaque(('x', t)), Opaque(('e', t))) for t in range(NCSE)]

        def red(v):
            return Opaque(('reduced', M.keyof(v)))
        x = a[0]
        if isinstance(x, AObj) and getattr(x, 'matrix', None):
            out = [Matrix(M, [[red(v) for v in r] for r in x.matrix.rows], log).obj]
        else:
            out = []
            for v in M.concrete(I2, x):
                if isinstance(v, AObj) and getattr(v, 'matrix', None):
                    out.append(Matrix(M, [[red(u) for u in r] for r in v.matrix.rows], log).obj)
                else:
                    out.append(red(v))
        return (I2.new_list(xs), I2.new_list(out))

    def mkmatrix(I2, a, k):
        x = a[0]
        if isinstance(x, AObj) and getattr(x, 'matrix', None):
            return Matrix(M, x.matrix.rows, log).obj
        if len(a) == 3:
            r, c = al_int(a[0]), al_int(a[1])
            fl = M.concrete(I2, a[2])
            return Matrix(M, [fl[i*c:(i + 1)*c] for i in range(r)], log).obj
        rows = [M.concrete(I2, r) if not isinstance(r, Opaque) else [r] for r in M.concrete(I2, x)]
        return Matrix(M, rows, log).obj
    M.ext[('sympy', 'collect')] = Builtin('collect', collect)
    M.ext[('sympy', 'cse')] = Builtin('cse', cse)
    for c in ('Matrix', 'ImmutableMatrix', 'MutableDenseMatrix'):
        M.ext[('sympy', c)] = ExtClass('Matrix', mkmatrix)

    def text_helper(I2, f2, loc):
        vals = list(loc.values())
        if (f2.module.name == MOD and vals and isinstance(vals[0], Opaque) and vals[0].kind == 'str'
                and all(isinstance(v, (bool, str, Poly)) or v is None for v in vals[1:]) and power_helper(f2)):
            return (Opaque(('text', f2.name, vals[0].key), 'str'),)
        return None
    M.text_helper = text_helper

    f = w.function(I, MOD, name)
    kw = {}
    if o['sufix']:
        kw['sufix'] = o['sufix']
    if o['header']:
        kw['header'] = o['header']
    if not o['defaults']:
        kw['print_file'] = o['print_file']
    if not o['pow']:
        kw['pow_by_mul'] = False
    if o['collect']:
        kw['collect_for'] = I.new_list([Opaque(('sym', 'X1')), Opaque(('sym', 'X0'))])
    if o['sym']:
        kw['is_symmetric'] = True
    if o['dof']:
        kw['dofpernode'] = Poly.const(o['dof'])
    if o['order'] != 'C':
        kw['order'] = o['order']
    if o['op']:
        kw['op'] = o['op']
    if o['cse']:
        kw['use_cse'] = True
    subs = None
    if o['subs']:
        subs = I.new_dict()
        for s, v in SUBS[:o['subs']]:
            subs.keys.append(Opaque(('sym', s)))
            subs.vals.append(v)
        kw['subs'] = subs
    before = [list(r) for r in mat.rows]
    r = I.call(f, [mat.obj, 'MN'], kw)
    loc = ('meshless/dev/sympytools.py', f.node.lineno, name)
    if not isinstance(r, (str, AStr, Opaque)):
        rec.bad('the text is returned', name, loc, 'returns %r' % (r,))
        return
    if isinstance(r, Opaque):
        raise Undecided('the returned text is %r' % (r,))
    if case.what_rule == 'entries':
        entries(rec, case, ctx, name, r, loc)
    elif case.what_rule == 'file':
        files(rec, case, I, name, r, loc)
    else:
        rec.check(not log and before == mat.rows, 'the caller\'s matrix is left as it is', name, log[0][1] if log else loc,
                  'elements of the matrix are overwritten')
        if subs is not None:
            rec.check(len(subs.keys) == o['subs'] and [v for v in subs.vals] == [v for _, v in SUBS[:o['subs']]]
                      and [k.key for k in subs.keys] == [('sym', s) for s, _ in SUBS[:o['subs']]],
                      'the caller\'s substitutions are left as they are', name, loc, 'the dictionary is changed')
        if o['collect']:
            c = kw['collect_for']
            rec.check([getattr(x, 'key', None) for x in c.items] == [('sym', 'X1'), ('sym', 'X0')],
                      'the caller\'s list of symbols is left as it is', name, loc, 'the list is changed')
        ms = [e for e in I.effects if e.kind in ('mutate-input', 'global-write', 'class-attr')]
        rec.check(not ms, 'no other state is written', name, ms[0].loc if ms else loc, 'state is written')


def clean_line(line):
    out = []
    for p in line:
        if isinstance(p, P):
            k = p.key
            if isinstance(k, tuple) and k and k[0] == 'Mult':
                k = ('Mult',) + tuple(strip_keys(x) for x in k[1:])
            out.append(P(k, p.tags))
        else:
            out.append(p)
    return out


def partial_matches(key):
    """a text in which matches of a pattern are replaced one after the other, in
    order of occurrence: a match that is part of a longer one corrupts it"""
    if not isinstance(key, tuple):
        return False
    if key[:2] == ('strm', 'replace') and len(key) > 3 and found(key[3]):
        return True
    return any(partial_matches(k) for k in key)


def found(key):
    """(an element of) the unsorted result of re.findall or re.finditer"""
    if not isinstance(key, tuple):
        return False
    if key[:1] == ('item',) and isinstance(key[1], tuple) and key[1][:1] == ('re',) and key[1][1] in ('findall', 'finditer'):
        return True
    return any(found(k) for k in key)


def entries(rec, case, ctx, name, r, loc):
    if isinstance(r, AStr) and any(isinstance(p, Opaque) and partial_matches(p.key) for p in r.parts):
        rec.bad('every nonzero entry is printed once at its place', name, loc,
                'the powers found in the text of an entry are replaced one after the other as they occur, so that a power that is '
                'part of a longer one (x**2 in x**20) corrupts it')
        return
    got = [clean_line(x) for x in lines_of(flatten(r))]
    best = None
    options = [[]]
    if case.o['subs']:
        import itertools
        items = sorted(SUBS[:case.o['subs']], key=lambda x: x[1])
        options = [list(c) for k in range(len(items), -1, -1) for c in itertools.combinations(items, k)]
    for inc, sw in [(i, s) for i in options for s in ((False, True) if case.kind == 'sparse' else (False,))]:
        exp = expected(case, inc)
        if sw:
            # the two comment lines with the name and the number may be swapped
            k = [t for t, x in enumerate(exp) if len(x) == 1 and isinstance(x[0], str) and '_num=' in x[0]][0]
            exp[k - 1], exp[k] = exp[k], exp[k - 1]
        if len(exp) == len(got) and all(match(a, b) for a, b in zip(got, exp)):
            n = sum(1 for x in exp if any(isinstance(p, P) for p in x))
            rec.ok('every nonzero entry is printed once at its place', name, max(n, 1))
            return
        k = 0
        while k < min(len(exp), len(got)) and match(got[k], exp[k]):
            k += 1
        if best is None or k > best[0]:
            best = (k, exp)
    k, exp = best
    if any('?' in p.tags or unknown(p.key) for x in got for p in x if isinstance(p, P)):
        raise Undecided('the origin of a piece of the text is not resolved')

    def line(x):
        return ''.join(p if isinstance(p, str) else repr(p) for p in x)
    rec.bad('every nonzero entry is printed once at its place', name, loc,
            'line %d is %r, expected %r' % (k + 1, line(got[k]) if k < len(got) else 'missing',
                                            line(exp[k]) if k < len(exp) else 'nothing'))


def unknown(key):
    s = set()
    mentions(key, s)
    return not s and isinstance(key, tuple) and key and key[0] not in ('x', 'e', 'sym', 'power', 'coef', 'num')


def files(rec, case, I, name, r, loc):
    o = case.o
    opens = [e for e in I.effects if e.kind == 'file-open']
    writes = [e for e in I.effects if e.kind == 'file-write']
    rule = 'the text goes to print_<name>.txt, only on request'
    if not (o['print_file'] or o['defaults']):
        rec.check(not opens and not writes, rule, name, opens[0].loc if opens else loc, 'a file is opened although print_file is False')
        return
    want = 'print_MN%s.txt' % ('_' + o['sufix'] if o['sufix'] else '')
    if len(opens) != 1:
        rec.bad(rule, name, loc, '%d files are opened' % len(opens))
        return
    e = opens[0]
    if not rec.check(e.path == want and e.mode in ('w', 'wt', 'w+'), rule, name, e.loc, 'opens %r with mode %r, expected %r' % (e.path, e.mode, want)):
        return
    parts = []
    for x in writes:
        parts += flatten(en.mkstr([x.text]) if not isinstance(x.text, AStr) else x.text)
    joined = [[]]
    a = lines_of(parts)
    b = lines_of(flatten(r))
    rec.check(len(a) == len(b) and all(match(x, y) for x, y in zip(a, b)), 'the file holds the returned text', name,
              writes[0].loc if writes else loc, 'the text of the file differs from the returned one')


def grid(kind, m, n, **o):
    """patterns of zero entries"""
    allc = [(i, j) for i in range(m) for j in range(n)]
    pats = [('no zeros', []), ('all zero', allc),
            ('zeros above the diagonal', [c for c in allc if c[0] < c[1]]),
            ('zeros below the diagonal', [c for c in allc if c[0] > c[1]]),
            ('zeros on the diagonal', [c for c in allc if c[0] == c[1]]),
            ('alternating zeros', [c for c in allc if sum(c) % 2])]
    if not o.get('few'):
        pats += [('only (%d, %d) nonzero' % c, [d for d in allc if d != c]) for c in allc
                 if not (o.get('sym') and c[0] > c[1])]
    o.pop('few', None)
    return [Case(kind, (m, n), z, t, **o) for t, z in pats]


def cases(tier):
    out = []
    quick = tier == 'quick'
    for kind in ('sparse', 'dense', 'array'):
        shapes = [(2, 2), (3, 2)] + ([] if quick else [(2, 3), (1, 4), (4, 1), (5, 5)])
        for m, n in shapes:
            out += grid(kind, m, n, few=quick and (m, n) != (3, 2))
        m, n = 3, 2
        opts = [dict(header='HEAD'), dict(print_file=True), dict(defaults=True), dict(collect=True), dict(pow=False),
                dict(collect=True, pow=False), dict(collect=True, header='HEAD', print_file=True)]
        if kind != 'dense':
            opts += [dict(sufix='SU'), dict(sufix='SU', print_file=True)]
        if kind != 'array':
            opts += [dict(subs=1), dict(subs=2), dict(subs=2, collect=True), dict(subs=1, header='HEAD', print_file=True),
                     dict(subs=2, pow=False)]
        else:
            opts += [dict(order='F'), dict(op='='), dict(cse=True), dict(cse=True, order='F'), dict(cse=True, sufix='SU', header='HEAD'),
                     dict(cse=True, print_file=True), dict(order='F', collect=True), dict(cse=True, pow=False)]
        for o in opts:
            out += grid(kind, m, n, few=True, **o)
        if kind != 'array':
            for p, s in ((2, 4), (3, 6)) if quick else ((2, 4), (3, 6), (5, 10)):
                out += grid(kind, s, s, dof=p, few=quick and p == 3 or s > 6)
                out += grid(kind, s, s, dof=p, few=True, subs=1)
            out += grid(kind, 4, 6, dof=2, few=True)
            out += grid(kind, 4, 4, dof=2, few=True, collect=True)
        if kind == 'sparse':
            out += grid(kind, 3, 3, sym=True, few=quick)
            out += grid(kind, 4, 4, sym=True, dof=2)
            out += grid(kind, 6, 6, sym=True, dof=3, few=True)
            out += grid(kind, 4, 4, sym=True, dof=2, few=True, subs=1)
            out += grid(kind, 3, 3, sym=True, few=True, collect=True)
    return out
