"""Concrete evaluation of terms: searches a counterexample to an obligation the prover did not accept.

A model gives every free variable a concrete value satisfying the facts of the obligation; arrays are pseudo-random
functions of their index; library contracts are evaluated with the numerical oracles.  A goal found false in a model is
*refuted*; comparisons too close to call discard the sample, so that rounding never refutes anything."""
import hashlib
import math
import struct
import random
import re
import sys
from fractions import Fraction
import numpy as np
from . import term as tm, prove as pv, oracle as orc
from .term import T, atoms_of

sys.setrecursionlimit(200000)


class Discard(Exception):
    pass


class TooBig(Exception):
    pass


CLOSE = 1e-9


class Model:
    def __init__(self, vals, seed=0, hints=None, special=()):
        self.vals = vals                  # T var -> value
        self.seed = seed
        self.memo = {}
        self.budget = 3000000
        self.hints = hints or {}
        self.special = special
        self.fmemo = {}
        self.tables = {}
        self.L = None

    # ------------------------------------------------------------ pseudo-random arrays
    def rnd(self, name, idx, sort):
        h = hashlib.blake2b(repr((self.seed, name, idx)).encode(), digest_size=8).digest()
        k = int.from_bytes(h, 'little')
        if sort == 'I':
            return k % 7
        if sort == 'B':
            return bool(k & 1)
        if sort == 'S':
            return 's%d' % (k % 5)
        f = self.hints.get(str(name))
        if f is not None:
            return f(idx, k)
        x = (k % (2 ** 40)) / 2.0 ** 39 - 1.0
        return x * 0.7 + (0.05 if x > 0 else -0.05)

    # ------------------------------------------------------------ evaluation
    def ev(self, t, env):
        op = t.op
        if op == 'c':
            v = t.a[0]
            if isinstance(v, Fraction):
                return int(v) if t.s == 'I' else float(v)
            return v
        if op == 'v':
            if t in env:
                return env[t]
            if t.a[0] == '-inf':
                return -math.inf
            return self.varval(t)
        at = atoms_of(t)
        key = (t.id,) + tuple(env[v] for v in env if v in at)
        r = self.memo.get(key)
        if r is None:
            self.budget -= 1
            if self.budget < 0:
                raise TooBig()
            r = self.ev1(t, env)
            self.memo[key] = r
        return r

    def varval(self, t):
        n = t.a[0]
        if n == 'pi':
            return math.pi
        if n == 'e':
            return math.e
        if t not in self.vals:
            self.vals[t] = self.rnd('v:' + str(n), (), t.s)
        return self.vals[t]

    def close(self, a, b):
        return abs(a - b) <= CLOSE * (1 + max(abs(a), abs(b)))

    def ev1(self, t, env):
        op, a = t.op, t.a
        E = lambda x: self.ev(x, env)
        if op == 'ip':
            s = 0
            for m, c in a:
                p = c
                for x, e in m:
                    p = p * E(x) ** e
                s += p
            s = Fraction(s)
            if s.denominator != 1:
                raise Discard()
            return int(s)
        if op == 'radd':
            return self.fin(math.fsum(E(x) for x in a))
        if op == 'rmul':
            p = 1.0
            for x in a:
                p *= E(x)
            return self.fin(p)
        if op == 'rdiv':
            d = E(a[1])
            if abs(d) < 1e-200:
                raise Discard()
            return self.fin(E(a[0]) / d)
        if op == 'rpow':
            b = E(a[0])
            if b == 0 and a[1] < 0:
                raise Discard()
            try:
                return self.fin(b ** a[1])
            except OverflowError:
                raise Discard()
        if op == 'tor':
            return float(E(a[0]))
        if op == 'toi':
            x = E(a[0])
            if self.close(x, round(x)) and x != round(x):
                raise Discard()
            return int(x)
        if op == 'idiv':
            d = E(a[1])
            if d == 0:
                raise Discard()
            return E(a[0]) // d if E(a[0]) >= 0 or True else 0
        if op == 'imod':
            d = E(a[1])
            if d == 0:
                raise Discard()
            return E(a[0]) % d
        if op == 'lt0':
            return E(a[0]) < 0
        if op == 'eq0':
            return E(a[0]) == 0
        if op == 'rlt':
            x, y = E(a[0]), E(a[1])
            if x != y and self.close(x, y) and not (abs(y) < 1e-9 and y != 0 or abs(x) < 1e-9 and x != 0):
                raise Discard()
            return x < y
        if op == 'req':
            x, y = E(a[0]), E(a[1])
            if x != y and self.close(x, y):
                raise Discard()
            return x == y
        if op in ('seq', 'oeq', 'iff'):
            return E(a[0]) == E(a[1])
        if op == 'not':
            return not E(a[0])
        if op == 'and':
            return all(E(x) for x in a)
        if op == 'or':
            return any(E(x) for x in a)
        if op == 'ite':
            return E(a[1]) if E(a[0]) else E(a[2])
        if op == 'sel':
            return self.read(a[0], tuple(E(x) for x in a[1]), env)
        if op == 'sum':
            v, lo, hi, body = a
            l, h = E(lo), E(hi)
            return self.fin(math.fsum(self.ev(body, {**env, v: k}) for k in range(l, h)))
        if op == 'maxf':
            init, vs, rs, body = a
            r = E(init)
            for e in self.cells(vs, rs, env):
                r = max(r, self.ev(body, e))
            return r
        if op == 'first':
            v, hi, c = a
            h = E(hi)
            for k in range(h):
                if self.ev(c, {**env, v: k}):
                    return k
            return h
        if op == 'app':
            return self.app(a[0], [E(x) for x in a[1:]])
        raise ValueError('cannot evaluate ' + op)

    def fin(self, x):
        if x != x or abs(x) > 1e200:
            raise Discard()
        return x

    def cells(self, vs, rs, env):
        def go(k, e):
            if k == len(vs):
                yield e
                return
            l, h = self.ev(rs[k][0], e), self.ev(rs[k][1], e)
            if h - l > 100000:
                raise TooBig()
            for q in range(l, h):
                yield from go(k + 1, {**e, vs[k]: q})
        yield from go(0, env)

    def app(self, f, xs):
        try:
            if f == 'LM':
                L = self.L if self.L is not None else 60
                l, m = xs
                return (m * (2 * L + 1 - m)) // 2 + l
            if f == 'nlm':
                L, M = xs
                return sum(L - m + 1 for m in range(M + 1))
            if f == 'abs':
                return abs(xs[0])
            if f == 'pow':
                if xs[0] < 0 and xs[1] != int(xs[1]):
                    raise Discard()
                return self.fin(float(xs[0]) ** xs[1])
            if f == 'sqrt' and xs[0] < 0:
                if xs[0] > -1e-12:
                    return 0.0
                raise Discard()
            if f == 'acos':
                return math.acos(max(-1.0, min(1.0, xs[0])))
            if f == 'round':
                return float(math.floor(abs(xs[0]) + 0.5)) * (1 if xs[0] >= 0 else -1)
            if f == 'single':
                return self.fin(struct.unpack('f', struct.pack('f', xs[0]))[0])
            if f == 'trunc':
                return float(math.trunc(xs[0]))
            if f in ('floor', 'ceil'):
                return float(getattr(math, f)(xs[0]))
            if f in ('sqrt', 'exp', 'cos', 'sin', 'tan', 'log', 'atan', 'asin', 'sinh', 'cosh', 'tanh', 'cbrt', 'log2', 'atan2', 'fmod',
                     'expm1', 'log1p'):
                return self.fin(getattr(math, f)(*xs))
        except (ValueError, OverflowError, ZeroDivisionError):
            raise Discard()
        return self.strapp(f, xs)

    # ------------------------------------------------------------ strings and files
    def file(self, name):
        return self.tables.setdefault('file', ['a 1'])

    def strapp(self, f, xs):
        if f == 'cat':
            return ''.join(xs)
        if f == 'itos':
            return str(xs[0])
        if f == 'dtos':
            return '%f' % xs[0]
        if f in ('readable', 'canopen'):
            return True
        if f == 'nlines':
            return len(self.file(xs[0]))
        if f == 'line':
            L = self.file(xs[0])
            return L[xs[1]] if 0 <= xs[1] < len(L) else ''
        if f == 'strlen':
            return len(xs[0])
        if f == 'find':
            return xs[0].find(xs[1]) % 2 ** 64
        if f == 'upto':
            return xs[0].split(xs[1], 1)[0]
        if f == 'after':
            return xs[0].split(xs[1], 1)[1] if xs[1] in xs[0] else ''
        if f == 'nonempty':
            return xs[0] != ''
        if f == 'restk':
            return ' '.join(xs[0].split()[xs[1]:])
        if f == 'tok':
            k = xs[0].split()
            return k[xs[1]] if 0 <= xs[1] < len(k) else ''
        if f == 'ntok':
            k = xs[0].split()
            if len(xs) == 1:
                return len(k)
            n = 0
            for w in k:
                if re.match(r'^[+-]?\d+$' if xs[1] == 'int' else r'^[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?$', w):
                    n += 1
                else:
                    break
            return n
        if f in ('stoi', 'stod'):
            m = re.match(r'\s*[+-]?\d+' if f == 'stoi' else r'\s*[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?', xs[0])
            if not m:
                raise Discard()
            return int(m.group(0)) if f == 'stoi' else float(m.group(0))
        return self.rnd('app:' + f, tuple(xs), 'R')

    # ------------------------------------------------------------ arrays
    def read(self, A, idx, env):
        while True:
            op = A.op
            if op == 'av':
                return self.rnd(A.a[0], idx, A.a[1])
            if op == 'acst':
                return self.ev(A.a[0], env)
            if op == 'st':
                if tuple(self.ev(x, env) for x in A.a[1]) == idx:
                    return self.ev(A.a[2], env)
                A = A.a[0]
                continue
            if op == 'aite':
                A = A.a[1] if self.ev(A.a[0], env) else A.a[2]
                continue
            if op == 'rec':
                A = pv.REC_DEF.get(A.a[0])
                if A is None:
                    raise Discard()
                continue
            if op == 'fam':
                tab = self.famtab(A, env)
                e = tab.get(idx)
                if e is None:
                    A = A.a[0]
                    continue
                return self.ev(A.a[4], e)
            if op == 'farr':
                v = self.farr(A, env)
                if len(idx) != 1 or not 0 <= idx[0] < len(v):
                    raise Discard()
                return float(v[idx[0]])
            raise ValueError(op)

    def famtab(self, A, env):
        at = atoms_of(A)
        key = ('ft', A.id) + tuple(env[v] for v in env if v in at)
        t = self.memo.get(key)
        if t is None:
            t = {}
            _, vs, rs, ix, val, g = A.a
            for e in self.cells(vs, rs, env):
                if g is not tm.TRUE and not self.ev(g, e):
                    continue
                t[tuple(self.ev(x, e) for x in ix)] = e
                self.budget -= 1
                if self.budget < 0:
                    raise TooBig()
            self.memo[key] = t
        return t

    def farr(self, A, env):
        at = atoms_of(A)
        key = ('fa', A.id) + tuple(env[v] for v in env if v in at)
        r = self.memo.get(key)
        if r is None:
            name, scal, arrs, es = A.a
            sc = tuple(self.ev(x, env) for x in scal)
            vecs = []
            for B, vs, rs, ix in arrs:
                d = {}
                for e in self.cells(vs, rs, env):
                    i = tuple(self.ev(x, e) for x in ix)
                    d[i] = self.read(B, i, env)
                vecs.append(d)
            if name in ('spat',):
                # the harmonic index is read through (l,m): keep it
                d2 = []
                for B, vs, rs, ix in arrs:
                    d = {}
                    for e in self.cells(vs, rs, env):
                        i = tuple(self.ev(x, e) for x in ix)
                        d[(e[vs[0]], e[vs[1]])] = self.read(B, i, env)
                    d2.append(d)
                vecs = d2
            k2 = (name, sc, tuple(tuple(sorted(d.items())) for d in vecs))
            r = self.fmemo.get(k2)
            if r is None:
                r = self.fmemo[k2] = self.func(name, sc, vecs)
            self.memo[key] = r
        return r

    def func(self, name, sc, vecs):
        def arr(d, n=None):
            n = n if n is not None else (max((i[0] for i in d), default=-1) + 1)
            out = np.zeros(n)
            for i, x in d.items():
                out[i[0]] = x
            return out
        try:
            return self.func1(name, sc, vecs, arr)
        except (KeyError, IndexError, ValueError, ZeroDivisionError):
            raise Discard()

    def func1(self, name, sc, vecs, arr):
        if name == 'r2r3':
            n = sc[0]
            if n < 2:
                raise Discard()
            return orc.dct1_matrix(n) @ arr(vecs[0], n)
        if name == 'gauss_ct':
            return np.polynomial.legendre.leggauss(sc[0])[0][::-1]
        if name == 'gauss_st':
            x = np.polynomial.legendre.leggauss(sc[0])[0][::-1]
            return np.sqrt(1 - x * x)
        if name in ('SHre', 'SHim', 'spat', 'cSHre', 'cSHim', 'cspat_re', 'cspat_im'):
            lmax, mmax, mres, norm, flags, eps, nlat, nphi = sc
            S = orc.sph(lmax, mmax, nlat, nphi, not (flags & 512))
            n = nlat * nphi
            if name in ('SHre', 'SHim'):
                q = S.to_Ylm(arr(vecs[0], n))
                return q.real if name == 'SHre' else q.imag
            if name == 'spat':
                q = np.zeros(S.nlm, complex)
                for (l, m), x in vecs[0].items():
                    q[S.ix[(l, m)]] += x
                for (l, m), x in vecs[1].items():
                    q[S.ix[(l, m)]] += 1j * x
                return S.to_Sph(q)
            if name in ('cSHre', 'cSHim'):
                q = S.to_Ylm_c(arr(vecs[0], n) + 1j * arr(vecs[1], n))
                return q.real if name == 'cSHre' else q.imag
            m = (lmax + 1) ** 2
            q = S.to_Sph_c(arr(vecs[0], m) + 1j * arr(vecs[1], m))
            return q.real if name == 'cspat_re' else q.imag
        if name.startswith('FD.') or name.startswith('Cheb.'):
            n, lo, hi = sc[:3]
            v = arr(vecs[0], n) if vecs else None
            if n < (8 if name.startswith('FD') else 4) and name not in ('FD.pt', 'Cheb.pt', 'Cheb.to_ch', 'Cheb.to_po'):
                raise Discard()
            f = {'FD.der': orc.fd_der, 'FD.der2': orc.fd_der2, 'FD.filter': orc.fd_filter,
                 'Cheb.der': orc.cheb_der, 'Cheb.filter': orc.cheb_filter,
                 'Cheb.to_ch': lambda n, lo, hi, v: orc.cheb_to_ch(n, v),
                 'Cheb.to_po': lambda n, lo, hi, v: orc.cheb_to_po(n, v),
                 'FD.pt': lambda n, lo, hi, v: orc.fd_pts(n, lo, hi),
                 'Cheb.pt': lambda n, lo, hi, v: orc.cheb_pts(n, lo, hi)}[name]
            return f(n, lo, hi, v)
        if name.startswith('Sphere.'):
            lmax, mmax, nlat, nphi, contig = sc[:5]
            S = orc.sph(lmax, mmax, nlat, nphi, bool(contig))
            op = name[7:]
            if op == 'theta':
                return S.theta
            if op == 'phi':
                return S.phi
            if op == 'compute_ylm':
                return S.compute_ylm(sc[5], sc[6])
            return getattr(S, op)(arr(vecs[0], nlat * nphi))
        if name.startswith('Grid.'):
            G = orc.grid(*sc[:10])
            return getattr(G, name[5:])(arr(vecs[0], G.N))
        # unknown contract: a smooth pseudo-random functional of its arguments
        acc = 0.3
        for q, d in enumerate(vecs):
            for i, x in d.items():
                acc += x * self.rnd('w:%s:%d' % (name, q), i, 'R')
        return np.array([math.sin(acc * (1 + 0.1 * k)) + self.rnd('u:' + name, (k,), 'R') for k in range(400)])


# ------------------------------------------------------------------------------------------------ model search
def leaves(ts):
    s = set()
    for t in ts:
        s |= atoms_of(t)
    return s


def bound_vars(t, acc=None):
    acc = set() if acc is None else acc
    seen = set()
    st = [t]
    while st:
        u = st.pop()
        if u in seen:
            continue
        seen.add(u)
        if u.op == 'fam':
            acc.update(u.a[1])
        elif u.op in ('sum', 'first'):
            acc.add(u.a[0])
        elif u.op == 'maxf':
            acc.update(u.a[1])
        elif u.op == 'farr':
            for B, vs, rs, ix in u.a[2]:
                acc.update(vs)
        elif u.op == 'rec':
            d = pv.REC_DEF.get(u.a[0])
            if d is not None:
                st.append(d)
        st.extend(tm.children(u))
    return acc


def all_atoms(ts):
    """free variable-like leaves, looking through recursive array definitions"""
    out = set()
    seen = set()
    todo = list(ts)
    while todo:
        t = todo.pop()
        for x in atoms_of(t):
            if x.op == 'rec':
                if x not in seen:
                    seen.add(x)
                    d = pv.REC_DEF.get(x.a[0])
                    if d is not None:
                        todo.append(d)
            else:
                out.add(x)
    return out


def harvest(ts, lim=64):
    """integer constants occurring in the terms (for boundary values)"""
    out = set()
    seen = set()
    st = list(ts)
    while st:
        u = st.pop()
        if u in seen:
            continue
        seen.add(u)
        if u.op == 'ip':
            for m, c in u.a:
                if c.denominator == 1:
                    out.add(abs(int(c)))
        elif u.op == 'c' and isinstance(u.a[0], Fraction):
            v = u.a[0]
            if v.denominator == 1:
                out.add(abs(int(v)))
        elif u.op == 'c' and isinstance(u.a[0], str):
            out.add(u.a[0])
        elif u.op == 'rec':
            d = pv.REC_DEF.get(u.a[0])
            if d is not None:
                st.append(d)
        st.extend(tm.children(u))
    return out


def havoced(t, memo={}):
    """mentions a sequence without closed form (loops.sequences): its values cannot be sampled"""
    r = memo.get(t)
    if r is None:
        r = False
        if t.op in ('farr', 'app', 'rec') and t.a and isinstance(t.a[0], str) and t.a[0].startswith('seq'):
            r = True
        else:
            ks = list(tm.children(t))
            if t.op == 'farr':
                ks += [b for q in t.a[2] for b in (q[0],) + tuple(q[3])]
            r = any(havoced(c) for c in ks)
        memo[t] = r
    return r


class Search:
    """draws models of a set of facts"""

    def __init__(self, goal_terms, facts, seed=1, hints=None, small=14, prefer=None):
        self.facts = [f for f in facts if f is not tm.TRUE]
        ts = list(goal_terms) + self.facts
        bv = set()
        for t in ts:
            bv |= bound_vars(t)
        self.free = [x for x in all_atoms(ts) if x.op == 'v' and x.a[0] not in ('pi', 'e', '-inf') and x not in bv]
        self.free.sort(key=lambda x: (str(x.a[0])))
        self.open = any(str(x.a[0]).startswith('~') for x in all_atoms(ts)) or any(havoced(t) for t in ts)
        self.consts = {c for c in harvest(ts) if isinstance(c, int) and 2 <= c <= 70}
        self.strs = {c for c in harvest(ts) if isinstance(c, str)}
        self.seed = seed
        self.hints = hints
        self.small = small
        self.prefer = prefer or {}
        self.terms = ts
        self.ifacts = [f for f in self.facts]

    def draw_int(self, rng, x, big):
        if big and self.consts and rng.random() < 0.5:
            c = rng.choice(sorted(self.consts))
            return c + rng.choice((-1, 0, 1))
        return rng.randint(0, self.small if rng.random() < 0.7 else 4)

    def draw_real(self, rng, x):
        n = str(x.a[0])
        if n in self.prefer:
            return self.prefer[n](rng)
        k = rng.random()
        if k < 0.12:
            return rng.choice((0.0, 1.0, -1.0, 0.5, 2.0))
        return round(rng.uniform(-3, 3) if k < 0.6 else rng.uniform(0, 25), 6)

    def files(self, rng):
        names = [s for s in self.strs if re.match(r'^[A-Za-z_]\w*$', s)]
        rng.shuffle(names)
        L = []
        for n in names:
            v = rng.choice([str(rng.randint(1, 40)), '%.3f' % rng.uniform(-5, 40)])
            k = rng.random()
            if k < 0.1:
                L.append('%s' % n)
            elif k < 0.2:
                L.append('%s  %s' % (n, v))
            elif k < 0.3:
                L.append('x%s %s' % (n, v))
            else:
                L.append('%s %s' % (n, v))
            if rng.random() < 0.25:
                L.append('%s %s' % (n, rng.randint(50, 90)))
            if rng.random() < 0.2:
                L.append('%s%s %d' % (n, rng.choice(('0', '_ang', 'x', '\t3')), rng.randint(50, 90)))
            if rng.random() < 0.1:
                L.append('')
        return L

    def models(self, count, tries=400):
        rng = random.Random(self.seed * 7919 + 13)
        made = 0
        for k in range(count * 6):
            if made >= count:
                return
            m = self.one(rng, tries, big=(k % 3 == 2))
            if m is not None:
                made += 1
                yield m

    def one(self, rng, tries, big):
        vals = {}
        for x in self.free:
            if x.s == 'I':
                vals[x] = self.draw_int(rng, x, big)
            elif x.s == 'R':
                vals[x] = self.draw_real(rng, x)
            elif x.s == 'B':
                vals[x] = rng.random() < 0.5
            elif x.s == 'S':
                vals[x] = rng.choice(sorted(self.strs) + ['zz'])
        seed = rng.randrange(1 << 30)
        fl = self.files(rng)
        bad = None
        for k in range(tries):
            md = Model(dict(vals), seed, self.hints)
            md.tables['file'] = fl
            for x in self.free:
                if str(x.a[0]) in ('nl', '_lmax') and x.s == 'I':
                    md.L = vals[x]
            md.budget = 200000
            bad = None
            try:
                for f in self.ifacts:
                    if not md.ev(f, {}):
                        bad = f
                        break
            except (Discard, TooBig):
                bad = f
            if bad is None:
                md.budget = 3000000
                return md
            # repair: change variables of the violated fact
            vs = [x for x in self.free if x in atoms_of(bad)]
            if not vs:
                vs = self.free
                seed = rng.randrange(1 << 30)
                fl = self.files(rng)
                if not vs:
                    continue
            x = rng.choice(vs)
            if x.s == 'I':
                d = None
                if bad.op in ('lt0', 'eq0') and rng.random() < 0.75:
                    d = self.solve(bad, x, vals, md, rng)
                vals[x] = d if d is not None else self.draw_int(rng, x, big)
            elif x.s == 'R':
                others = [y for y in vs if y is not x and y.s == 'R']
                u = rng.random()
                if u < 0.25 and others:
                    vals[x] = vals[rng.choice(others)] * rng.choice((1.0, -1.0, 0.5, 2.0))
                else:
                    vals[x] = self.draw_real(rng, x)
            elif x.s == 'B':
                vals[x] = not vals[x]
            elif x.s == 'S':
                vals[x] = rng.choice(sorted(self.strs) + ['zz'])
            if rng.random() < 0.1:
                seed = rng.randrange(1 << 30)
        return None

    def solve(self, bad, x, vals, md, rng):
        """value of x making the linear constraint true"""
        try:
            p = tm.ip_of(bad.a[0])
            a = b = Fraction(0)
            for m, c in p.items():
                e = dict(m).get(x, 0)
                if e > 1 or (any(x in atoms_of(y) for y, _ in m if y is not x)):
                    return None
                q = c
                for y, k in m:
                    if y is not x:
                        q *= md.ev(y, {}) ** k
                if e:
                    a += q
                else:
                    b += q
            if a == 0:
                return None
            z = -b / a
            if bad.op == 'eq0':
                return int(z) if z.denominator == 1 else None
            slack = rng.choice((0, 0, 1, 2, rng.randint(0, 5)))
            if a > 0:     # x < z
                return math.ceil(z) - 1 - slack
            return math.floor(z) + 1 + slack
        except (Discard, TooBig):
            return None


def refute(kind, payload, facts, seed=1, samples=14, hints=None, prefer=None, tlimit=20.0, rtol=1e-6, small=14):
    """kind 'prove': payload goal; 'eq': (x,y) reals/ints; 'iff': (b,c).  Returns (status, info):
    'refuted' with the model, 'held' with the number of samples on which it held, or 'open'."""
    import time
    t0 = time.time()
    ts = [payload] if isinstance(payload, T) else list(payload)
    S = Search(ts, facts, seed, hints, prefer=prefer, small=small)
    if S.open:
        return 'open', 'generic loop state in the goal'
    held = 0
    for md in S.models(samples):
        if time.time() - t0 > tlimit:
            break
        try:
            if kind == 'prove':
                ok = md.ev(payload, {})
                det = ''
            else:
                x, y = md.ev(ts[0], {}), md.ev(ts[1], {})
                if isinstance(x, float) or isinstance(y, float):
                    sc = 1e-6 + max(abs(x), abs(y))
                    if abs(x - y) > rtol * sc:
                        if abs(x - y) < 1e-8:
                            continue
                        ok = False
                    else:
                        ok = True
                else:
                    ok = x == y
                det = '%r vs %r' % (x, y)
        except (Discard, TooBig, RecursionError):
            continue
        if ok:
            held += 1
        else:
            vals = {str(v.a[0]): md.vals[v] for v in S.free if v in md.vals}
            return 'refuted', {'model': vals, 'values': det, 'held_on': held}
    return ('held' if held else 'open'), held
