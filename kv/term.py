"""Hash-consed terms for the verification-condition generator.

Sorts: 'I' mathematical integers, 'R' reals, 'B' booleans, 'S' strings, 'A' arrays (integer tuples -> R/I/S).
Integer terms are always kept as canonical polynomials over integer atoms; real terms are raw trees that the
prover normalises.
"""
from fractions import Fraction
import itertools

_tab = {}
_ctr = itertools.count()


class T:
    __slots__ = ('op', 'a', 's', 'id', '__weakref__')

    def __repr__(self):
        return show(self)

    # arithmetic sugar (used by specs and the executor)
    def __add__(self, o): return add(self, o)
    def __radd__(self, o): return add(lift(o, self), self)
    def __sub__(self, o): return sub(self, o)
    def __rsub__(self, o): return sub(lift(o, self), self)
    def __mul__(self, o): return mul(self, o)
    def __rmul__(self, o): return mul(lift(o, self), self)
    def __truediv__(self, o): return div(self, o)
    def __rtruediv__(self, o): return div(lift(o, self), self)
    def __neg__(self): return mul(num(-1, self.s), self)
    def __pow__(self, n): return power(self, n)


def mk(op, a, s):
    k = (op, a, s)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.s = s
        t.id = next(_ctr)
        _tab[k] = t
    return t


# ---------------------------------------------------------------- constants / variables
def num(x, s='I'):
    if s == 'I':
        assert Fraction(x).denominator == 1, x
        return mk('c', (Fraction(x),), 'I')
    return mk('c', (Fraction(x),), 'R')


def I(x): return num(x, 'I')
def R(x): return num(x, 'R')


TRUE = mk('c', (True,), 'B')
FALSE = mk('c', (False,), 'B')
PI = mk('v', ('pi',), 'R')
E_CONST = mk('v', ('e',), 'R')

_fresh = itertools.count(1)


def var(name, s='I'):
    return mk('v', (name,), s)


def fresh(base, s='I'):
    return mk('v', ('%s!%d' % (base, next(_fresh)),), s)


def string(x):
    return mk('c', (str(x),), 'S')


def lift(x, like):
    if isinstance(x, T):
        return x
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if like.s == 'I' and Fraction(x).denominator == 1:
        return num(x, 'I')
    return num(x, 'R')


def is_c(t):
    return t.op == 'c'


def cval(t):
    return t.a[0]


# ---------------------------------------------------------------- integer polynomials
# poly: dict  mono -> Fraction ; mono: tuple of (atom, exp) sorted by atom id
def ip_of(t):
    if t.op == 'c':
        return {(): t.a[0]} if t.a[0] != 0 else {}
    if t.op == 'ip':
        return dict(t.a)
    return {((t, 1),): Fraction(1)}


def ip_mk(p):
    p = {m: c for m, c in p.items() if c != 0}
    if not p:
        return I(0)
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            return mk('c', (c,), 'I')
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = tuple(sorted(p.items(), key=lambda mc: (len(mc[0]), [(x.id, e) for x, e in mc[0]])))
    return mk('ip', items, 'I')


def mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = {}
    for x, e in m1:
        d[x] = d.get(x, 0) + e
    for x, e in m2:
        d[x] = d.get(x, 0) + e
    return tuple(sorted(((x, e) for x, e in d.items() if e), key=lambda q: q[0].id))


def p_add(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + k * c
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return r


def p_mul(p, q):
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = mono_mul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
    return r


# ---------------------------------------------------------------- arithmetic
def _coerce(x, y):
    if not isinstance(x, T):
        x = lift(x, y)
    if not isinstance(y, T):
        y = lift(y, x)
    if x.s == 'B':
        x = ite(x, I(1), I(0))
    if y.s == 'B':
        y = ite(y, I(1), I(0))
    if x.s != y.s:
        if x.s == 'I':
            x = toreal(x)
        if y.s == 'I':
            y = toreal(y)
    return x, y


def add(x, y):
    x, y = _coerce(x, y)
    if x.s == 'I':
        return ip_mk(p_add(ip_of(x), ip_of(y)))
    if is_c(x) and is_c(y):
        return R(cval(x) + cval(y))
    if is_c(x) and cval(x) == 0:
        return y
    if is_c(y) and cval(y) == 0:
        return x
    xs = x.a if x.op == 'radd' else (x,)
    ys = y.a if y.op == 'radd' else (y,)
    return mk('radd', xs + ys, 'R')


def sub(x, y):
    x, y = _coerce(x, y)
    if x is y:
        return num(0, x.s)
    if x.s == 'I':
        return ip_mk(p_add(ip_of(x), ip_of(y), -1))
    return add(x, mul(R(-1), y))


def mul(x, y):
    x, y = _coerce(x, y)
    if x.s == 'I':
        return ip_mk(p_mul(ip_of(x), ip_of(y)))
    for p, q in ((x, y), (y, x)):
        if is_c(p):
            if is_c(q):
                return R(cval(p) * cval(q))
            if cval(p) == 0:
                return R(0)
            if cval(p) == 1:
                return q
            if q.op == 'rmul' and is_c(q.a[0]):
                c = cval(p) * cval(q.a[0])
                rest = q.a[1:]
                if c == 1:
                    return rest[0] if len(rest) == 1 else mk('rmul', rest, 'R')
                return mk('rmul', (R(c),) + rest, 'R')
            return mk('rmul', (p,) + (q.a if q.op == 'rmul' else (q,)), 'R')
    xs = x.a if x.op == 'rmul' else (x,)
    ys = y.a if y.op == 'rmul' else (y,)
    cs = Fraction(1)
    out = []
    for z in xs + ys:
        if is_c(z):
            cs *= cval(z)
        else:
            out.append(z)
    if cs == 0:
        return R(0)
    if cs != 1:
        out.insert(0, R(cs))
    return out[0] if len(out) == 1 else mk('rmul', tuple(out), 'R')


def div(x, y):
    if not isinstance(x, T):
        x = lift(x, y)
    if not isinstance(y, T):
        y = lift(y, x)
    x, y = toreal(x), toreal(y)
    if is_c(y) and cval(y) != 0:
        return mul(R(1 / cval(y)), x)
    if is_c(x) and cval(x) == 0:
        return R(0)
    return mk('rdiv', (x, y), 'R')


def power(x, n):
    if isinstance(n, int):
        if x.s == 'I':
            assert n >= 0
            r = I(1)
            for _ in range(n):
                r = mul(r, x)
            return r
        if n == 0:
            return R(1)
        if n == 1:
            return x
        if is_c(x):
            return R(cval(x) ** n)
        if n < 0:
            return div(R(1), power(x, -n))
        if x.op == 'rpow':
            return mk('rpow', (x.a[0], x.a[1] * n), 'R')
        return mk('rpow', (x, n), 'R')
    raise TypeError(n)


def toreal(x):
    if x.s == 'R':
        return x
    if x.s == 'B':
        x = ite(x, I(1), I(0))
    if is_c(x):
        return R(cval(x))
    if x.op == 'ite':
        return ite(x.a[0], toreal(x.a[1]), toreal(x.a[2]))
    return mk('tor', (x,), 'R')


def toint(x):
    """truncation of a real towards zero"""
    if x.s == 'I':
        return x
    p = int_poly(x)
    if p is not None:
        return p
    if is_c(x):
        v = cval(x)
        return I(int(v))
    return mk('toi', (x,), 'I')


def int_poly(x):
    """an integer term equal to the real x, when x is syntactically an integer polynomial"""
    if x.op == 'c':
        return I(x.a[0]) if x.a[0].denominator == 1 else None
    if x.op == 'tor':
        return x.a[0]
    if x.op in ('radd', 'rmul'):
        ps = [int_poly(y) for y in x.a]
        if any(p is None for p in ps):
            return None
        r = ps[0]
        for p in ps[1:]:
            r = add(r, p) if x.op == 'radd' else mul(r, p)
        return r
    if x.op == 'rpow' and x.a[1] > 0:
        p = int_poly(x.a[0])
        return None if p is None else power(p, x.a[1])
    return None


def idiv(x, y):
    """C integer division for non-negative operands (floor)"""
    if is_c(x) and is_c(y) and cval(y) > 0 and cval(x) >= 0:
        return I(int(cval(x)) // int(cval(y)))
    if is_c(y) and cval(y) == 1:
        return x
    if x is y:
        return I(1)
    return mk('idiv', (x, y), 'I')


def imod(x, y):
    if is_c(x) and is_c(y) and cval(y) > 0 and cval(x) >= 0:
        return I(int(cval(x)) % int(cval(y)))
    return mk('imod', (x, y), 'I')


# ---------------------------------------------------------------- booleans
def lt(x, y):
    x, y = _coerce(x, y)
    if x is y:
        return FALSE
    if x.s == 'I':
        d = sub(x, y)
        if is_c(d):
            return TRUE if cval(d) < 0 else FALSE
        return mk('lt0', (d,), 'B')
    if is_c(x) and is_c(y):
        return TRUE if cval(x) < cval(y) else FALSE
    return mk('rlt', (x, y), 'B')


def le(x, y):
    x, y = _coerce(x, y)
    if x.s == 'I':
        return lt(x, add(y, I(1)))
    return nott(lt(y, x))


def gt(x, y): return lt(y, x)
def ge(x, y): return le(y, x)


def const_leaves(t, d):
    if t.op == 'ite':
        return d > 0 and const_leaves(t.a[1], d - 1) and const_leaves(t.a[2], d - 1)
    return is_c(t)


def eq_leaves(x, y):
    # equality of an enumerator-like value (a conditional over constants) with a constant
    if isinstance(x, T) and x.op == 'ite' and x.s == 'I' and isinstance(y, T) and is_c(y) and const_leaves(x, 8):
        return ite(x.a[0], eq_leaves(x.a[1], y), eq_leaves(x.a[2], y))
    return eq(x, y)


def eq(x, y):
    if not isinstance(x, T):
        x = lift(x, y)
    if not isinstance(y, T):
        y = lift(y, x)
    if x is y:
        return TRUE
    if x.s == 'B' and y.s == 'B':
        if x is TRUE:
            return y
        if y is TRUE:
            return x
        if x is FALSE:
            return nott(y)
        if y is FALSE:
            return nott(x)
        return mk('iff', (x, y), 'B')
    if x.s == 'S' or y.s == 'S':
        if is_c(x) and is_c(y):
            return TRUE if cval(x) == cval(y) else FALSE
        if x.id > y.id:
            x, y = y, x
        return mk('seq', (x, y), 'B')
    if x.s == 'O' or y.s == 'O':
        if x.id > y.id:
            x, y = y, x
        return mk('oeq', (x, y), 'B')
    x, y = _coerce(x, y)
    if x.s == 'I':
        d = sub(x, y)
        if is_c(d):
            return TRUE if cval(d) == 0 else FALSE
        p = ip_of(d)
        if len(p) == 2:
            # positions of two harmonics are equal exactly when the harmonics are (SHTns indexing is one-to-one)
            (m1, c1), (m2, c2) = p.items()
            if len(m1) == len(m2) == 1 and m1[0][1] == m2[0][1] == 1 and c1 == -c2 and abs(c1) == 1:
                u, w = m1[0][0], m2[0][0]
                if u.op == w.op == 'app' and u.a[0] == w.a[0] == 'LM':
                    return andd(*[eq(a, b) for a, b in zip(u.a[1:], w.a[1:])])
        # canonical sign
        lead = sorted(p.items(), key=lambda mc: (len(mc[0]), [(q.id, e) for q, e in mc[0]]))[-1]
        if lead[1] < 0:
            d = sub(I(0), d)
        return mk('eq0', (d,), 'B')
    if is_c(x) and is_c(y):
        return TRUE if cval(x) == cval(y) else FALSE
    return mk('req', (x, y), 'B')


def ne(x, y): return nott(eq(x, y))


def nott(b):
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    if b.op == 'not':
        return b.a[0]
    if b.op == 'lt0':  # d<0 -> -d <= 0 -> -d-1 < 0
        return mk('lt0', (sub(sub(I(0), b.a[0]), I(1)),), 'B') if not is_c(b.a[0]) else nott(b)
    return mk('not', (b,), 'B')


def andd(*bs):
    out = []
    for b in bs:
        if b is FALSE:
            return FALSE
        if b is TRUE:
            continue
        for c in (b.a if b.op == 'and' else (b,)):
            if c not in out:
                out.append(c)
    for c in out:
        if nott(c) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk('and', tuple(out), 'B')


def orr(*bs):
    out = []
    for b in bs:
        if b is TRUE:
            return TRUE
        if b is FALSE:
            continue
        for c in (b.a if b.op == 'or' else (b,)):
            if c not in out:
                out.append(c)
    for c in out:
        if nott(c) in out:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk('or', tuple(out), 'B')


def implies(x, y): return orr(nott(x), y)


def ite(c, x, y):
    if c is TRUE:
        return x
    if c is FALSE:
        return y
    if x is y:
        return x
    if x.s == 'B':
        if x is TRUE and y is FALSE:
            return c
        if x is FALSE and y is TRUE:
            return nott(c)
        return orr(andd(c, x), andd(nott(c), y))
    if x.s != y.s and x.s in 'IR' and y.s in 'IR':
        x, y = toreal(x), toreal(y)
    if c.op == 'not':
        return ite(c.a[0], y, x)
    if x.op == 'ite' and x.a[0] is c:
        x = x.a[1]
    if y.op == 'ite' and y.a[0] is c:
        y = y.a[2]
    if x is y:
        return x
    if x.s == 'S' and x.op == 'c' and x.a[0] == '' and y.op == 'app' and y.a[0] == 'after' and \
            c is eq(app('find', y.a[1], y.a[2], s='I'), I(2 ** 64 - 1)):
        return y            # what follows a separator that is not there is empty
    return mk('ite', (c, x, y), x.s)


# ---------------------------------------------------------------- functions
def app(f, *args, s='R'):
    return mk('app', (f,) + tuple(args), s)


def absr(x):
    if x.s == 'I':
        return ite(lt(x, I(0)), sub(I(0), x), x)
    if is_c(x):
        return R(abs(cval(x)))
    return app('abs', x)


def sqrt(x):
    x = toreal(x)
    if is_c(x):
        import math
        v = cval(x)
        if v >= 0:
            a, b = math.isqrt(v.numerator), math.isqrt(v.denominator)
            if a * a == v.numerator and b * b == v.denominator:
                return R(Fraction(a, b))
    return app('sqrt', x)


def exp(x):
    x = toreal(x)
    if is_c(x) and cval(x) == 0:
        return R(1)
    return app('exp', x)


def cos(x):
    x = toreal(x)
    if is_c(x) and cval(x) == 0:
        return R(1)
    return app('cos', x)


def sin(x):
    x = toreal(x)
    if is_c(x) and cval(x) == 0:
        return R(0)
    return app('sin', x)


def powr(x, y):
    """C pow on reals"""
    x, y = toreal(x), toreal(y)
    if is_c(y):
        v = cval(y)
        if v.denominator == 1 and abs(v) <= 64:
            return power(x, int(v))
        if v.denominator == 2 and 0 < v < 16:
            k = int(v - Fraction(1, 2))
            return mul(power(x, k), sqrt(x)) if k else sqrt(x)
        if v == Fraction(-1, 2):
            return div(R(1), sqrt(x))
    return app('pow', x, y)


def summ(v, lo, hi, body):
    """sum of body over lo <= v < hi"""
    if is_c(body) and cval(body) == 0:
        return body
    return mk('sum', (v, lo, hi, body), 'R')


_fdepth = {}


def first_depth(t):
    r = _fdepth.get(t)
    if r is None:
        r = max([first_depth(c) for c in children(t)], default=0)
        if t.op == 'first':
            r += 1
        _fdepth[t] = r
    return r


def first(v, hi, body):
    """the least 0 <= v < hi with body, hi if there is none (bound variable in canonical form)"""
    w = var('%%f%d' % first_depth(body))
    if v is not w:
        body = subst(body, {v: w})
    return mk('first', (w, hi, body), 'I')


# ---------------------------------------------------------------- arrays
def avar(name, es='R'):
    return mk('av', (name, es), 'A')


def afresh(base, es='R'):
    return mk('av', ('%s!%d' % (base, next(_fresh)), es), 'A')


def aconst(v):
    """constant array"""
    return mk('acst', (v,), 'A')


def store(A, idx, v):
    idx = tuple(idx)
    if A.op == 'st' and A.a[1] == idx:
        A = A.a[0]
    return mk('st', (A, idx, v), 'A')


def fam(A, vs, ranges, idx, val, guard=TRUE):
    """for all vs in ranges with guard: cell idx(vs) holds val(vs); every other cell as in A.
    ranges: tuple of (lo,hi).  The producer guarantees that cells of different vs are different."""
    return mk('fam', (A, tuple(vs), tuple(ranges), tuple(idx), val, guard), 'A')


def aite(c, A, B):
    if c is TRUE or A is B:
        return A
    if c is FALSE:
        return B
    return mk('aite', (c, A, B), 'A')


def rec(name):
    return mk('rec', (name,), 'A')


def farr(name, scal, arrs, es='R'):
    """array-valued function of scalars and arrays; arrs: tuple of (array, vs, ranges, idx) giving the cells read"""
    return mk('farr', (name, tuple(scal), tuple(arrs), es), 'A')


def esort(A):
    while True:
        if A.op == 'av':
            return A.a[1]
        if A.op == 'acst':
            return A.a[0].s
        if A.op == 'st':
            return A.a[2].s
        if A.op == 'fam':
            return A.a[4].s
        if A.op == 'aite':
            A = A.a[1]
            continue
        if A.op == 'rec':
            return 'R'
        if A.op == 'farr':
            return A.a[3]
        raise ValueError(A.op)


def sel(A, idx):
    idx = tuple(idx)
    while True:
        if A.op == 'acst':
            return A.a[0]
        if A.op == 'st':
            if A.a[1] == idx:
                return A.a[2]
            if all_const_ne(A.a[1], idx):
                A = A.a[0]
                continue
        break
    return mk('sel', (A, idx), esort(A))


def all_const_ne(i, j):
    for x, y in zip(i, j):
        d = sub(x, y)
        if is_c(d) and cval(d) != 0:
            return True
    return False


# ---------------------------------------------------------------- traversal
def children(t):
    if t.op in ('c', 'v', 'av', 'rec'):
        return
    if t.op == 'ip':
        for m, c in t.a:
            for x, e in m:
                yield x
        return
    yield from _kids(t.a)


def _kids(a):
    for x in a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            yield from _kids(x)


_fv = {}


def atoms_of(t):
    """set of all variable-like leaves (v, av, rec)"""
    r = _fv.get(t)
    if r is None:
        stack = [t]
        while stack:
            u = stack[-1]
            if u in _fv:
                stack.pop()
                continue
            ks = [k for k in children(u)]
            pend = [k for k in ks if k not in _fv]
            if pend:
                stack.extend(pend)
                continue
            stack.pop()
            if u.op in ('v', 'av', 'rec'):
                _fv[u] = frozenset((u,))
            else:
                s = frozenset()
                for k in ks:
                    s |= _fv[k]
                _fv[u] = s
        r = _fv[t]
    return r


def contains(t, x):
    return x in atoms_of(t)


def subst(t, m, memo=None):
    if not m:
        return t
    if memo is None:
        memo = {}
    keys = m.keys()

    def go(u):
        r = memo.get(u)
        if r is not None:
            return r
        if u in m:
            r = m[u]
        elif not any(k in atoms_of(u) for k in keys if k.op in ('v', 'av', 'rec')) and all(k.op in ('v', 'av', 'rec') for k in keys):
            r = u
        else:
            r = rebuild(u, go)
        memo[u] = r
        return r
    return go(t)


def _mapt(a, f):
    return tuple(f(x) if isinstance(x, T) else (_mapt(x, f) if isinstance(x, tuple) else x) for x in a)


def rebuild(u, go):
    op = u.op
    if op in ('c', 'v', 'av', 'rec'):
        return u
    if op == 'ip':
        r = {}
        acc = I(0)
        for m, c in u.a:
            t = mk('c', (c,), 'I') if c.denominator == 1 else None
            assert t is not None
            for x, e in m:
                t = mul(t, power(go(x), e))
            acc = add(acc, t)
        return acc
    if op == 'radd':
        r = go(u.a[0])
        for x in u.a[1:]:
            r = add(r, go(x))
        return r
    if op == 'rmul':
        r = go(u.a[0])
        for x in u.a[1:]:
            r = mul(r, go(x))
        return r
    if op == 'rdiv':
        return div(go(u.a[0]), go(u.a[1]))
    if op == 'rpow':
        return power(go(u.a[0]), u.a[1])
    if op == 'tor':
        return toreal(go(u.a[0]))
    if op == 'toi':
        return toint(go(u.a[0]))
    if op == 'idiv':
        return idiv(go(u.a[0]), go(u.a[1]))
    if op == 'imod':
        return imod(go(u.a[0]), go(u.a[1]))
    if op == 'lt0':
        return lt(go(u.a[0]), I(0))
    if op == 'eq0':
        return eq(go(u.a[0]), I(0))
    if op == 'rlt':
        return lt(go(u.a[0]), go(u.a[1]))
    if op in ('req', 'seq', 'iff', 'oeq'):
        return eq(go(u.a[0]), go(u.a[1]))
    if op == 'not':
        return nott(go(u.a[0]))
    if op == 'and':
        return andd(*[go(x) for x in u.a])
    if op == 'or':
        return orr(*[go(x) for x in u.a])
    if op == 'ite':
        return ite(go(u.a[0]), go(u.a[1]), go(u.a[2]))
    if op == 'app':
        f = u.a[0]
        args = [go(x) for x in u.a[1:]]
        if f in _SIMPLE:
            return _SIMPLE[f](*args)
        return mk('app', (f,) + tuple(args), u.s)
    if op == 'sel':
        return sel(go(u.a[0]), _mapt(u.a[1], go))
    if op == 'st':
        return store(go(u.a[0]), _mapt(u.a[1], go), go(u.a[2]))
    if op == 'aite':
        return aite(go(u.a[0]), go(u.a[1]), go(u.a[2]))
    if op == 'acst':
        return aconst(go(u.a[0]))
    return mk(op, _mapt(u.a, go), u.s)


_SIMPLE = {'sqrt': sqrt, 'exp': exp, 'cos': cos, 'sin': sin, 'abs': absr, 'pow': powr}


# ---------------------------------------------------------------- printing
def show(t, d=6):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return '(' + ', '.join(show(x, d - 1) for x in t) + ')'
        return str(t)
    if d <= 0:
        return '…'
    op = t.op
    if op == 'c':
        return str(t.a[0])
    if op in ('v', 'av', 'rec'):
        return str(t.a[0])
    if op == 'ip':
        out = []
        for m, c in t.a:
            f = '*'.join(show(x, d - 1) + ('^%d' % e if e > 1 else '') for x, e in m)
            if not f:
                out.append(str(c))
            elif c == 1:
                out.append(f)
            elif c == -1:
                out.append('-' + f)
            else:
                out.append('%s*%s' % (c, f))
        return '(' + ' + '.join(out) + ')'
    if op == 'radd':
        return '(' + ' + '.join(show(x, d - 1) for x in t.a) + ')'
    if op == 'rmul':
        return '*'.join(show(x, d - 1) for x in t.a)
    if op == 'rdiv':
        return '(%s/%s)' % (show(t.a[0], d - 1), show(t.a[1], d - 1))
    if op == 'rpow':
        return '%s^%d' % (show(t.a[0], d - 1), t.a[1])
    if op in ('tor',):
        return show(t.a[0], d)
    if op == 'lt0':
        return '(%s < 0)' % show(t.a[0], d - 1)
    if op == 'eq0':
        return '(%s == 0)' % show(t.a[0], d - 1)
    if op == 'rlt':
        return '(%s < %s)' % (show(t.a[0], d - 1), show(t.a[1], d - 1))
    if op == 'sel':
        return '%s[%s]' % (show(t.a[0], d - 1), ','.join(show(x, d - 1) for x in t.a[1]))
    if op == 'app':
        return '%s(%s)' % (t.a[0], ','.join(show(x, d - 1) for x in t.a[1:]))
    return '%s(%s)' % (op, ', '.join(show(x, d - 1) for x in t.a))


_fva = {}


def atoms_of_any(t):
    """leaf variables of a term or of a prover-internal atom"""
    r = _fva.get(t)
    if r is None:
        if t.op == 'sumatom':
            v, hi, bd = t.a
            s = set(atoms_of_any(hi))
            for x, e in bd:
                s |= atoms_of_any(x)
            s.discard(v)
            r = frozenset(s)
        elif t.op in ('sqatom', 'expatom'):
            r = frozenset(_ids(t.a))
        else:
            r = atoms_of(t)
        _fva[t] = r
    return r


_byid = {}


def _ids(k):
    out = set()

    def go(x):
        if isinstance(x, tuple):
            # frozen polynomial monomials are ((id,exp),...)
            if len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], int):
                t = _idtab(x[0])
                if t is not None:
                    out.update(atoms_of_any(t))
            else:
                for y in x:
                    go(y)
    go(k)
    return out


def _idtab(i):
    if i not in _byid:
        for t in list(_tab.values()):
            _byid[t.id] = t
    return _byid.get(i)
