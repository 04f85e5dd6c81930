"""Pointwise algebraic identities with case distinctions.

alg_eq(x, y, facts, gens, params): the two real terms are equal under the facts.
 1. array cells become real variables (cells that are provably equal become the same variable); the terms listed in
    `gens` are generalised to variables, in both sides and in the facts (sum/product matching);
 2. conditionals are decided under the facts, or split (infeasible branches are discharged by z3);
 3. in every branch the two sides are compared in the field of rational functions over the remaining atoms, square
    roots reduced by s^2 = argument, sin^2 by 1 - cos^2, |x|^2 by x^2; every denominator must be non-zero under the facts of the branch."""
import itertools
from fractions import Fraction
import math
from . import term as tm, prove as pv
from .term import T, R, TRUE, FALSE, subst, mk

STATS = {'branches': 0, 'identities': 0}


class Fail(Exception):
    pass


# ---------------------------------------------------------------- generalisation
def walk_cells(t, out, memo):
    """maximal real cell reads"""
    if t in memo:
        return
    memo.add(t)
    if (t.op == 'sel' and t.s == 'R') or t.op in ('maxf', 'sum'):
        out.append(t)
        return
    for c in tm.children(t):
        walk_cells(c, out, memo)


def kind_of(c):
    if c.op != 'sel':
        return (c.op,)
    A = c.a[0]
    return (A.op, A.a[0] if A.op in ('farr', 'av') else A.id, len(c.a[1]))


def merge_cells(cells, ctx, gens=()):
    """cell -> variable; provably equal cells share one"""
    m, reps = {}, []
    for c in cells:
        if c in m:
            continue
        for d, v in reps:
            if kind_of(c) == kind_of(d) and (max_same(c, d, ctx, gens) if c.op == 'maxf' else pv.prove_eq(c, d, ctx)):
                m[c] = v
                break
        else:
            v = tm.fresh('g', 'R')
            reps.append((c, v))
            m[c] = v
    return m


def max_same(p, q, ctx, gens):
    """the same maximum: equal bodies over the same index ranges, up to the order of the indices"""
    (i1, vs, rs, b1), (i2, ws, rt, b2) = p.a, q.a
    if len(vs) != len(ws) or not pv.prove_eq(i1, i2, ctx):
        return False
    for perm in itertools.permutations(range(len(vs))):
        fr = [tm.fresh('mx') for _ in vs]
        inf = mk('v', ('-inf',), 'R')
        m1 = dict(zip(vs, fr))
        m2 = {ws[perm[k]]: fr[k] for k in range(len(vs))}
        m1[inf] = m2[inf] = i1
        cx, ok = ctx, True
        for k in range(len(vs)):
            lo1, hi1 = (subst(z, m1) for z in rs[k])
            lo2, hi2 = (subst(z, m2) for z in rt[perm[k]])
            if lo1 is not lo2 or hi1 is not hi2:
                ok = False
                break
            cx = cx.add(tm.le(lo1, fr[k]), tm.lt(fr[k], hi1))
        if not ok:
            continue
        # the generalised quantity (a function of one index) at whichever bound index it occurs
        g2 = []
        for pats, v, w in gens:
            g2.append((pats, tm.fresh('g', 'R'), None))
            if w is not None:
                for z in fr:
                    g2.append((tuple(subst(pt, {w: z}) for pt in pats), tm.fresh('g', 'R'), None))
        try:
            alg_eq(subst(b1, m1), subst(b2, m2), tuple(cx.facts), g2, (), cx)
            return True
        except Fail:
            continue
    return False


def replace_many(t, m):
    memo = {}

    def go(u):
        r = memo.get(u)
        if r is None:
            if u in m:
                r = m[u]
            elif u.op in ('c', 'v', 'av', 'rec'):
                r = u
            else:
                r = tm.rebuild(u, go)
            memo[u] = r
        return r
    return go(t)


def ac_replace(t, pat, v):
    """pat -> v in t, matching sums and products up to order and remaining arguments"""
    if pat.op not in ('radd', 'rmul'):
        return replace_many(t, {pat: v})
    memo = {}
    want = list(pat.a)

    def go(u):
        r = memo.get(u)
        if r is not None:
            return r
        if u is pat:
            r = v
        elif u.op in ('c', 'v', 'av', 'rec'):
            r = u
        else:
            r = None
            if u.op == pat.op and len(u.a) >= len(want):
                rest = list(u.a)
                ok = True
                for w in want:
                    if w in rest:
                        rest.remove(w)
                    else:
                        ok = False
                        break
                if ok:
                    f = tm.add if u.op == 'radd' else tm.mul
                    r = v
                    for z in rest:
                        r = f(r, go(z))
            if r is None:
                r = tm.rebuild(u, go)
        memo[u] = r
        return r
    return go(t)


def sums_sorted(t):
    """sums and products with a canonical argument order"""
    memo = {}

    def go(u):
        r = memo.get(u)
        if r is None:
            if u.op in ('c', 'v', 'av', 'rec'):
                r = u
            else:
                r = tm.rebuild(u, go)
                if r.op == 'radd':
                    # a constant term: keep position-independent
                    a = tuple(sorted(r.a, key=lambda z: z.id))
                    r = mk('radd', a, r.s)
                elif r.op == 'rmul':
                    r = mk('rmul', tuple(sorted(r.a, key=lambda z: z.id)), r.s)
            memo[u] = r
        return r
    return go(t)


# ---------------------------------------------------------------- branching
def conds(t, out, memo, absv=False):
    """innermost conditions of conditionals, and arguments of absolute values"""
    if t in memo:
        return
    memo.add(t)
    for c in tm.children(t):
        conds(c, out, memo, absv)
    if t.op == 'ite' and t.a[0] not in out:
        out.append(t.a[0])
    elif t.op == 'app' and t.a[0] == 'abs' and absv:
        z = tm.lt(t.a[1], R(0))
        if z not in out:
            out.append(z)
    elif t.op == 'max' or t.op == 'min':
        raise Fail('min/max')


def assume(t, c, val):
    """t with condition c replaced by val"""
    memo = {}

    def go(u):
        r = memo.get(u)
        if r is None:
            if u is c:
                r = TRUE if val else FALSE
            elif u.op == 'not' and u.a[0] is c:
                r = FALSE if val else TRUE
            elif u.op == 'app' and u.a[0] == 'abs' and tm.lt(u.a[1], R(0)) is c:
                z = go(u.a[1])
                r = tm.sub(R(0), z) if val else z
            elif u.op in ('c', 'v', 'av', 'rec'):
                r = u
            else:
                r = tm.rebuild(u, go)
            memo[u] = r
        return r
    return go(t)


def zproves(goal, facts):
    if goal is TRUE:
        return True
    if goal is FALSE:
        return bool(pv.z3_prove(FALSE, pv.Ctx(facts), timeout=3000))
    if any(f is goal for f in facts):
        return True
    return bool(pv.z3_prove(goal, pv.Ctx(facts), timeout=3000))


def propagate(facts):
    """unit propagation in disjunctions; equalities of a variable become substitutions"""
    facts = [f for f in facts if f is not TRUE]
    changed = True
    while changed:
        changed = False
        for i, f in enumerate(facts):
            if f.op == 'and':
                facts[i:i + 1] = list(f.a)
                changed = True
                break
            if f.op == 'or':
                rest = facts[:i] + facts[i + 1:]
                simple = [g for g in rest if g.op != 'or']
                keep = [d for d in f.a if not zproves(tm.nott(d), simple)]
                if len(keep) < len(f.a):
                    facts = rest + [tm.orr(*keep)]
                    changed = True
                    break
    return facts


def equation(facts):
    """a fact  variable = term  usable as a substitution"""
    for f in facts:
        if f.op == 'req':
            for a, b in ((f.a[0], f.a[1]), (f.a[1], f.a[0])):
                if a.op == 'v' and a not in tm.atoms_of(b):
                    return f, a, b
    return None


def alg_eq(x, y, facts, gens=(), params=(), ctx=None):
    ctx = ctx or pv.Ctx(tuple(facts))
    x, y = pv.resolve(tm.toreal(x), ctx), pv.resolve(tm.toreal(y), ctx)
    real = [f for f in facts if relevant(f)]
    cells = []
    memo = set()
    gens = [(g[0] if isinstance(g[0], (tuple, list)) else (g[0],), g[1], g[2] if len(g) > 2 else None) for g in gens]
    for t in (x, y) + tuple(real) + tuple(p for g in gens for p in g[0]):
        walk_cells(t, cells, memo)
    m = merge_cells(cells, ctx, gens)
    x, y = replace_many(x, m), replace_many(y, m)
    real = [replace_many(f, m) for f in real]
    for pats, v, w in gens:
        for pat in pats:
            pat = replace_many(pat, m)
            x, y = ac_replace(x, pat, v), ac_replace(y, pat, v)
            real = [ac_replace(f, pat, v) for f in real]
    x, y = sums_sorted(x), sums_sorted(y)
    real = [sums_sorted(f) for f in real]
    branch(x, y, real, list(params), 0)
    return True


def relevant(f):
    """a fact over reals"""
    if f.op in ('and', 'or', 'not'):
        return any(relevant(z) for z in f.a)
    return f.op in ('rlt', 'req')


def branch(x, y, facts, params, depth):
    STATS['branches'] += 1
    pv.tick()
    if STATS['branches'] > 4000 or depth > 14:
        raise Fail('too many branches')
    facts = propagate(facts)
    e = equation(facts)
    if e is not None:
        f, a, b = e
        s = {a: b}
        facts = [subst(g, s) for g in facts if g is not f]
        if any(g is FALSE for g in facts):
            return
        # keep what the equation says about the range of the other side
        x, y = sums_sorted(subst(x, s)), sums_sorted(subst(y, s))
        facts = [sums_sorted(g) for g in facts]
        params = [p for p in params if p[0] is not a]
        return branch(x, y, facts, params, depth + 1)
    cs = []
    conds(x, cs, set())
    mm = set()
    conds(y, cs, mm)
    if cs:
        c = cs[0]
        neg = tm.nott(c)
        if any(g is c for g in facts) or zproves(c, facts):
            return branch(assume(x, c, True), assume(y, c, True), facts, params, depth)
        if any(g is neg for g in facts) or zproves(neg, facts):
            return branch(assume(x, c, False), assume(y, c, False), facts, params, depth)
        for val, lit in ((True, c), (False, neg)):
            fs = facts + [lit]
            if zproves(FALSE, fs):
                continue
            branch(assume(x, c, val), assume(y, c, val), [assume(g, c, val) for g in facts] + [lit], params, depth + 1)
        return
    # absolute values of known sign
    av = []
    conds(x, av, set(), True)
    conds(y, av, set(), True)
    for c in av:
        for val, lit in ((True, c), (False, tm.nott(c))):
            if lit in facts or zproves(lit, facts):
                return branch(assume(x, c, val), assume(y, c, val), facts, params, depth)
    # absolute values left in the facts
    fa = []
    for g in facts:
        conds(g, fa, set(), True)
    for c in fa:
        if c in facts or zproves(c, facts):
            return branch(x, y, [assume(g, c, True) for g in facts], params, depth + 1) if any(assume(g, c, True) is not g for g in facts) else leaf(x, y, facts, params)
        neg = tm.nott(c)
        if neg in facts or zproves(neg, facts):
            nf = [assume(g, c, False) if g is not neg else g for g in facts]
            if any(a is not b for a, b in zip(nf, facts)):
                return branch(x, y, nf, params, depth + 1)
            continue
        for val, lit in ((True, c), (False, neg)):
            fs = [assume(g, c, val) for g in facts] + [lit]
            if zproves(FALSE, fs):
                continue
            branch(x, y, fs, params, depth + 1)
        return
    leaf(x, y, facts, params)


def leaf(x, y, facts, params):
    if zproves(FALSE, facts):
        return
    if x is y:
        return
    for v, t, fs in params:
        if v in tm.atoms_of(x) or v in tm.atoms_of(y):
            s = {v: t}
            x, y = subst(x, s), subst(y, s)
            facts = [subst(g, s) for g in facts] + list(fs)
    identity(x, y, facts)


# ---------------------------------------------------------------- rational functions
class Conv:
    def __init__(self, terms, main=()):
        from sympy.polys.fields import field
        from sympy import QQ
        self.atoms = {}
        self.order = []
        self.sq = {}
        self.red = []       # (generator, what its square is)
        seen = set()
        for t in terms:
            self.scan(t, seen)
        names = ['z%d' % i for i in range(len(self.order))] or ['z0']
        fl = field(names, QQ)
        self.K, gens = fl[0], fl[1:]
        self.gen = dict(zip(self.order, gens))
        self.QQ = QQ
        self.memo = {}
        self.dens = []
        self.same = {}
        self.expnz = set()
        self.exps(main)

    def exps(self, main):
        """exponentials whose arguments are rational combinations of each other become powers of common ones"""
        E, seen = [], set()

        def find(t):
            if t in seen:
                return
            seen.add(t)
            for c in tm.children(t):
                find(c)
            if t.op == 'app' and t.a[0] == 'exp' and t in self.gen:
                E.append(t)
        for t in main:
            find(t)
        if len(E) < 2:
            return
        args = [self.conv(t.a[1]) for t in E]
        D = self.K.ring(1)
        for a in args:
            D = D.lcm(a.denom)
        vecs = [dict((a.numer * (D.exquo(a.denom))).terms()) for a in args]
        basis = []          # (pivot monomial, reduced vector, combination of the chosen ones)
        comb = []           # every argument as a combination of the chosen ones
        chosen = []
        for k, v in enumerate(vecs):
            v = {m: Fraction(int(c.numerator), int(c.denominator)) for m, c in v.items()}
            c0 = {}
            for pm, w, cw in basis:
                f = v.get(pm, 0)
                if f:
                    f = f / w[pm]
                    for m, c in w.items():
                        v[m] = v.get(m, 0) - f * c
                        if not v[m]:
                            del v[m]
                    for j, c in cw.items():
                        c0[j] = c0.get(j, 0) + f * c
            if v:
                # v = vec_k - sum c0: a new independent argument
                cw = {j: -c for j, c in c0.items()}
                cw[k] = Fraction(1)
                basis.append((max(v), v, cw))
                chosen.append(k)
                comb.append({k: Fraction(1)})
            else:
                comb.append(c0)
        for j in chosen:
            q = 1
            for c in comb:
                if c.get(j):
                    d = c[j].denominator
                    q = q * d // math.gcd(q, d)
            for c in comb:
                if c.get(j):
                    c[j] = c[j] * q
        for k, t in enumerate(E):
            r = self.K(1)
            for j, c in comb[k].items():
                if c:
                    r = r * self.gen[E[j]] ** int(c)
                    self.expnz.add(self.gen[E[j]].numer)
            self.memo[t] = r

    def scan(self, t, seen):
        if t in seen:
            return
        seen.add(t)
        if t.op == 'c':
            return
        if t.op in ('radd', 'rmul', 'rdiv', 'rpow') or (t.op == 'app' and all(c.s == 'R' for c in tm.children(t))):
            for c in tm.children(t):
                self.scan(c, seen)
            if t.op != 'app':
                return
        if t not in self.atoms:
            self.atoms[t] = len(self.order)
            self.order.append(t)

    def conv(self, t):
        r = self.memo.get(t)
        if r is None:
            pv.tick()
            r = self.memo[t] = self._conv(t)
        return r

    def _conv(self, t):
        if t.op == 'c':
            c = Fraction(t.a[0])
            return self.K(self.QQ(c.numerator, c.denominator))
        if t.op == 'radd':
            r = self.K(0)
            for z in t.a:
                r = r + self.conv(z)
            return r
        if t.op == 'rmul':
            r = self.K(1)
            for z in t.a:
                r = r * self.conv(z)
            return r
        if t.op == 'rdiv':
            d = self.conv(t.a[1])
            if d == 0:
                raise Fail('division by zero')
            if t.a[1] not in self.dens:
                self.dens.append(t.a[1])
            return self.conv(t.a[0]) / d
        if t.op == 'rpow':
            b, e = t.a
            e = int(e.a[0]) if isinstance(e, T) else int(e)
            if e < 0:
                d = self.conv(b)
                if d == 0:
                    raise Fail('division by zero')
                if b not in self.dens:
                    self.dens.append(b)
            return self.conv(b) ** e
        if t.op == 'app' and t.a[0] == 'sqrt':
            a = self.conv(t.a[1])
            if a not in self.sq:
                self.sq[a] = self.gen[t]
            return self.sq[a]
        if t.op == 'app' and len(t.a) > 1 and all(c.s == 'R' for c in tm.children(t)):
            key = (t.a[0],) + tuple(self.conv(c) for c in tm.children(t))
            if t.a[0] in ('abs', 'cos') and ('%s' % t.a[0], -key[1]) in self.same:
                key = (t.a[0], -key[1])
            if key not in self.same:
                g = self.same[key] = self.gen[t]
                if t.a[0] == 'abs':
                    self.red.append((g, key[1] * key[1]))
                elif t.a[0] in ('sin', 'cos'):
                    for k in (key[1], -key[1]):
                        h = self.same.get(('cos' if t.a[0] == 'sin' else 'sin', k))
                        if h is not None:
                            self.red.append((g, 1 - h * h) if t.a[0] == 'sin' else (h, 1 - g * g))
                            if t.a[0] == 'sin':
                                break
            return self.same[key]
        return self.gen[t]


def reduce_roots(p, C):
    """numerator polynomial p with even powers of the square roots replaced; zero test"""
    from sympy import QQ
    K = C.K
    e = K(p)
    for a, s in [(a, s) for s, a in C.red] + list(C.sq.items()):
        i = K.gens.index(s)
        num = e.numer
        acc = {}
        for mono, c in num.terms():
            k = mono[i]
            m2 = list(mono)
            m2[i] = k % 2
            acc.setdefault(k // 2, []).append((tuple(m2), c))
        r = K(0)
        for h, ts in acc.items():
            q = K.ring.from_terms(ts)
            r = r + K(q) * a ** h
        e = K(r.numer)
    return e


def halve(ts):
    """cosines and sines of twice an angle that also occurs itself, by the double-angle formulas"""
    trig, seen = [], set()

    def find(t):
        if t in seen:
            return
        seen.add(t)
        for c in tm.children(t):
            find(c)
        if t.op == 'app' and t.a[0] in ('cos', 'sin'):
            trig.append(t)
    for t in ts:
        find(t)
    args = {t.a[1] for t in trig}
    m = {}
    for t in trig:
        h = tm.div(t.a[1], R(2))
        for b in (h, tm.mul(R(Fraction(1, 2)), t.a[1]), tm.mul(t.a[1], R(Fraction(1, 2)))):
            if b in args:
                c = tm.cos(b)
                m[t] = tm.add(tm.mul(R(2), tm.mul(c, c)), R(-1)) if t.a[0] == 'cos' else tm.mul(R(2), tm.mul(c, tm.sin(b)))
                break
    return [replace_many(t, m) for t in ts] if m else ts


def identity(x, y, facts):
    STATS['identities'] += 1
    x, y = halve([x, y])
    fx = [f for f in facts if f.op == 'not' and f.a[0].op == 'req' or f.op in ('rlt', 'not')]
    terms = [x, y]
    for f in fx:
        terms += list(tm.children(f.a[0] if f.op == 'not' else f))
    C = Conv([t for t in terms if t.s == 'R'], [t for t in (x, y) if t.s == 'R'])
    d = C.conv(x) - C.conv(y)
    if d != 0:
        e = reduce_roots(d.numer, C)
        if e != 0:
            raise Fail('identity fails')
    dens = list(C.dens)
    # signs known from the facts
    pos, nz = set(), set(C.expnz)
    for f in fx:
        g, neg = (f.a[0], True) if f.op == 'not' else (f, False)
        try:
            if g.op == 'req' and neg:
                n = (C.conv(g.a[0]) - C.conv(g.a[1])).numer
                nz |= {q.monic() for q, k in n.factor_list()[1]}
            elif g.op == 'rlt' and not neg:
                n = (C.conv(g.a[1]) - C.conv(g.a[0]))
                if n.denom == 1:
                    nz |= {q.monic() for q, k in n.numer.factor_list()[1]}
                    if g.a[0].op == 'c' and g.a[0].a[0] >= 0 and g.a[1] in C.gen:
                        pos.add(C.gen[g.a[1]].numer)
        except Fail:
            pass
    done = set()

    def nonzero(p):
        for q, k in p.factor_list()[1]:
            m = q.monic()
            if m in done or m in nz:
                continue
            if not one_sign(q, C, pos):
                return False
            done.add(m)
        return True
    for t in dens:
        e = C.conv(t)
        if nonzero(e.numer) or C.red and nonzero(reduce_roots(e.numer, C).numer):
            continue
        if not zproves(tm.ne(t, R(0)), facts) and not (C.red and zproves(tm.ne(t, R(0)), facts + circle(C))):
            raise Fail('denominator %s may vanish' % tm.show(t, 4))


def circle(C):
    """sin^2 + cos^2 = 1 for the angles that occur"""
    return [tm.eq(tm.add(tm.mul(t, t), tm.mul(tm.cos(t.a[1]), tm.cos(t.a[1]))), R(1))
            for t in C.gen if t.op == 'app' and t.a[0] == 'sin']


def one_sign(q, C, pos):
    """all terms of one sign, one of them certainly non-zero, odd powers only of positive variables"""
    sg = None
    strict = False
    ps = [C.K.ring.gens.index(p) for p in pos]
    roots = [C.K.gens.index(s) for s in C.sq.values()]
    for mono, c in q.terms():
        for i, k in enumerate(mono):
            if k % 2 and i not in ps and i not in roots:
                return False
        s = c > 0
        if sg is None:
            sg = s
        elif sg != s:
            return False
        if all(i in ps for i, k in enumerate(mono) if k):
            strict = True
    return strict
