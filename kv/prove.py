"""Decision procedures for the verification conditions.

ctx    : a set of boolean facts
prove  : integer/boolean goals      -> True / None
prove_eq: equality of two (real, integer or string) terms -> True / None
Refutation is done separately by concrete evaluation (evalt.py); nothing here ever answers "false".
"""
import itertools
import math
import random
import time
from fractions import Fraction
from . import term as tm
from .term import (T, I, R, mk, add, sub, mul, eq, lt, le, nott, andd, orr, ite, ip_of, ip_mk, is_c, cval, subst,
                   TRUE, FALSE)

STATS = {'poly': 0, 'z3': 0, 'rational': 0, 'z3_time': 0.0, 'digit': 0, 'split': 0, 'induction': 0}
DEADLINE = [None]


class Timeout(Exception):
    pass


def tick():
    if DEADLINE[0] is not None and time.time() > DEADLINE[0]:
        raise Timeout()


NONNEG_ATOM_OPS = ('idiv', 'imod')
# integer application symbols known to be non-negative
NONNEG_APPS = {'LM', 'nlm', 'first', 'size', 'count', 'nlines', 'ntok', 'find', 'strlen'}


# ------------------------------------------------------------------------------------------------ facts
class Ctx:
    __slots__ = ('facts', 'ineqs', 'eqs', 'others', 'sub', '_cache', 'fset', 'parent', 'smp', 'sineqs')

    def __init__(self, facts=()):
        fl = []
        seen = set()

        def put(f):
            if f.op == 'and':
                for g in f.a:
                    put(g)
            elif f is not TRUE and f not in seen:
                seen.add(f)
                fl.append(f)
        for f in facts:
            put(f)
        self.facts = tuple(fl)
        self.fset = seen
        self.ineqs = []
        self.eqs = []
        self.others = []
        self.sub = None
        self.parent = None
        self.smp = None
        self.sineqs = None
        for f in fl:
            if f.op == 'lt0':
                self.ineqs.append(ip_of(sub(I(-1), f.a[0])))   # -d-1 >= 0
            elif f.op == 'eq0':
                self.eqs.append(f.a[0])
            else:
                self.others.append(f)
        self._cache = {}

    def add(self, *fs):
        fs = [f for f in fs if f is not TRUE and f not in self.fset]
        if not fs:
            return self
        k = tuple(fs)
        r = self._cache.get(('add', k))
        if r is None:
            r = Ctx(self.facts + k)
            r.parent = self
            self._cache[('add', k)] = r
        return r

    def solved(self):
        """substitution from the equalities, and the context with it applied"""
        if self.sub is None:
            m = {}
            todo = list(self.eqs)
            for d in todo:
                d = subst_fix(d, m)
                p = ip_of(d)
                best = None
                for mono, c in p.items():
                    if len(mono) == 1 and mono[0][1] == 1 and abs(c) == 1 and mono[0][0].op == 'v':
                        v = mono[0][0]
                        if any(v in tm.atoms_of(x) for mo in p if mo != mono for x, e in mo):
                            continue
                        if best is None or v.id > best[0].id:
                            best = (v, c, mono)
                if best:
                    v, c, mono = best
                    rest = {k: q for k, q in p.items() if k != mono}
                    val = ip_mk({k: -q / c for k, q in rest.items()})
                    m = {k: subst(x, {v: val}) for k, x in m.items()}
                    m[v] = val
            self.sub = m
        return self.sub

    def __repr__(self):
        return 'Ctx(' + '; '.join(map(repr, self.facts)) + ')'


def subst_fix(t, m):
    for _ in range(4):
        u = subst(t, m) if m else t
        if u is t:
            return t
        t = u
    return t


def atom_nonneg(x):
    return (x.op in NONNEG_ATOM_OPS) or (x.op == 'app' and x.a[0] in NONNEG_APPS) or x.op == 'first'


# ------------------------------------------------------------------------------------------------ polynomial sign
def psub(p, v, q):
    """substitute polynomial q for atom v in p (atoms nested in other atoms untouched)"""
    r = {}
    pw = {0: {(): 1}}
    for m, c in p.items():
        e = 0
        rest = []
        for x, k in m:
            if x is v:
                e = k
            else:
                rest.append((x, k))
        if e == 0:
            r[m] = r.get(m, 0) + c
            continue
        if e not in pw:
            for k in range(1, e + 1):
                if k not in pw:
                    pw[k] = tm.p_mul(pw[k - 1], q)
        rm = tuple(rest)
        for m2, c2 in pw[e].items():
            mm = tm.mono_mul(rm, m2)
            r[mm] = r.get(mm, 0) + c * c2
    return {m: c for m, c in r.items() if c != 0}


def nonneg(p, ctx):
    """integer polynomial p >= 0 under ctx, by eliminating variables through the facts"""
    if not p:
        return True
    if all(c >= 0 for c in p.values()) and len(p) == 1 and () in p:
        return True
    if len(p) == 1 and () in p:
        return p[()] >= 0 or None
    key = ('nn', tuple(sorted(((tuple((x.id, e) for x, e in m), c) for m, c in p.items()))))
    r = ctx._cache.get(key, 0)
    if r != 0:
        return r
    STATS['poly'] += 1
    tick()
    cx2 = lm_facts(p, ctx)
    if cx2 is not ctx:
        r = nonneg(p, cx2)
        ctx._cache[key] = r
        return r
    sb = ctx.solved()
    q = ip_of(subst_fix(ip_mk(p), sb)) if sb else p
    ineqs = solved_ineqs(ctx)
    for m in samples(ctx):
        v = peval(q, m)
        if v is not None and v < 0:
            ctx._cache[key] = None
            return None
    q = ints(q)
    rel = list(ineqs)
    pos = set()
    for f in rel:
        if len(f) == 1:
            (m, c), = f.items()
            if c > 0 and len(m) == 1 and m[0][1] == 1:
                pos.add(m[0][0])
    budget = [600]
    r = _nn(q, rel, pos, 0, budget, set())
    ctx._cache[key] = r
    return r


def lm_facts(p, ctx):
    """contract of the coefficient index: LM(l,m) < nlm(lmax,mmax) for every retained (l,m);  u mod k < k"""
    for z in {x for mo in p for x, e in mo if x.op == 'imod'}:
        f = lt(z, z.a[1])
        if f.op == 'lt0' and f not in ctx.fset and nonneg(ip_of(sub(z.a[1], I(1))), ctx) is True:
            ctx = ctx.add(f)
    ats = {x for mo in p for x, e in mo if x.op == 'app' and x.a[0] in ('LM', 'nlm')}
    N = [x for x in ats if x.a[0] == 'nlm']
    if not N or len(N) == len(ats):
        return ctx
    for x in ats:
        if x.a[0] == 'LM':
            l, m = x.a[1], x.a[2]
            for y in N:
                f = lt(x, y)
                if f.op != 'lt0' or f in ctx.fset:
                    continue
                if all(nonneg(ip_of(d), ctx) is True for d in (m, sub(l, m), sub(y.a[1], l), sub(y.a[2], m))):
                    ctx = ctx.add(f)
    return ctx


def ints(p):
    """integer coefficients (scaled by a positive factor)"""
    d = 1
    for c in p.values():
        e = c.denominator
        if e != 1:
            d = d * e // math.gcd(d, e)
    return {m: int(c * d) for m, c in p.items()}


def solved_ineqs(ctx):
    r = ctx.sineqs
    if r is None:
        sb = ctx.solved()
        r = ctx.ineqs
        if sb:
            r = [ip_of(subst_fix(ip_mk(f), sb)) for f in r]
        r = [ints(f) for f in r if f]
        ctx.sineqs = r
    return r


def peval(p, m):
    t = 0
    for mo, c in p.items():
        x = c
        for a, e in mo:
            v = m.get(a)
            if v is None:
                if a.op == 'slack':
                    return None
                v = m[a] = _rnd.randint(0, 6)
            x *= v ** e
        t += x
    return t


_rnd = random.Random(7)


def samples(ctx):
    """integer points satisfying the inequality facts (atoms taken as independent): a quick way to see that an
    inequality does not follow"""
    if ctx.smp is not None:
        return ctx.smp
    fs = solved_ineqs(ctx)
    ctx.smp = out = []
    if ctx.parent is not None and not ctx.sub:
        for m in samples(ctx.parent):
            if all(peval(f, m) >= 0 for f in fs):
                out.append(m)
    tries = 0
    while len(out) < 5 and tries < 6:
        tries += 1
        m = dict(_rnd.choice(out)) if out and _rnd.random() < 0.3 else {}
        if m:
            for a in _rnd.sample(list(m), min(2, len(m))):
                m[a] = max(0, m[a] + _rnd.choice((-1, 1, 2)))
        for step in range(60):
            bad = [f for f in fs if peval(f, m) < 0]
            if not bad:
                if all(m[a] >= 0 or not atom_nonneg(a) for a in m):
                    out.append(m)
                break
            f = _rnd.choice(bad)
            ats = sorted({a for mo in f for a, e in mo}, key=lambda z: z.id)
            if not ats:
                return out
            best = None
            for a in _rnd.sample(ats, min(3, len(ats))):
                old = m.get(a, 0)
                for v in (0, 1, old - 1, old + 1, old + 2, old - 3, old + 5, old + 12, old + 40):
                    if v < 0 and (atom_nonneg(a) or _rnd.random() < 0.6):
                        continue
                    m[a] = v
                    k = sum(1 for g in fs if peval(g, m) < 0)
                    pe = peval(f, m)
                    sc = (k, max(0, -pe), _rnd.random())
                    if best is None or sc < best[0]:
                        best = (sc, a, v)
                m[a] = old
            if best is None:
                break
            m[best[1]] = best[2]
    # extreme points: one variable moved onto a face
    ext = []
    for m0 in out[:2]:
        for f in fs:
            for mo, c in f.items():
                if len(mo) != 1 or mo[0][1] != 1 or c not in (1, -1):
                    continue
                v = mo[0][0]
                if any(z is v for m2 in f if m2 != mo for z, e in m2):
                    continue
                m = dict(m0)
                x = m.get(v, 0) - c * peval(f, m)
                if x == m.get(v, 0) or (x < 0 and atom_nonneg(v)):
                    continue
                m[v] = x
                if all(peval(g, m) >= 0 for g in fs):
                    ext.append(m)
        if len(ext) > 24:
            break
    out.extend(ext[:30])
    return out


_slack = itertools.count()


def _isnn(x, pos):
    return x in pos or atom_nonneg(x) or x.op == 'slack'


def _monopos(m, pos):
    """product of (possibly negative) atoms known non-negative"""
    for x, e in m:
        if e % 2 and not _isnn(x, pos):
            return False
    return True


def _nn(p, ineqs, pos, depth, budget, seen):
    neg = [(m, c) for m, c in p.items() if c < 0 or not _monopos(m, pos)]
    if not neg:
        return True
    if p and all(not m for m in p) and p[()] < 0:
        return None
    if depth > 9 or budget[0] <= 0:
        return None
    key = frozenset((m, c) for m, c in p.items())
    if key in seen:
        return None
    seen.add(key)
    budget[0] -= 1
    vs = {}
    for m, c in p.items():
        for x, e in m:
            vs.setdefault(x, []).append((m, c))
    cands = []
    for fi, f in enumerate(ineqs):
        for m, c in f.items():
            if len(m) == 1 and m[0][1] == 1 and c in (1, -1):
                v = m[0][0]
                if v not in vs or v.op == 'slack':
                    continue
                if len(f) == 1 and c == 1:
                    continue
                if any(v in [x for x, e in mm] for mm in f if mm != m):
                    continue
                if any(v is not x and v in tm.atoms_of(x) for mm in f for x, e in mm if x.op != 'slack'):
                    continue
                # f = c*v + rest >= 0 : v = slack - rest (c=1)  or v = rest - slack (c=-1)
                rest = {mm: cc for mm, cc in f.items() if mm != m}
                # score: does the substitution act on negative monomials in the right direction?
                sc = 0
                for mm, cc in vs[v]:
                    good = (c == 1 and cc > 0) or (c == -1 and cc < 0)
                    sc += 1 if good else -1
                cands.append((-sc, len(f), fi, v, c, rest))
    cands.sort(key=lambda z: z[:3])
    for sc, lf, fi, v, c, rest in cands[:6]:
        s = mk('slack', (next(_slack),), 'I')
        if c == 1:
            q = {mm: -cc for mm, cc in rest.items()}
            q[((s, 1),)] = 1
        else:
            q = dict(rest)
            q[((s, 1),)] = -1
        np_ = psub(p, v, q)
        nf = []
        npos = set(pos)
        wasnn = v in pos or atom_nonneg(v)
        npos.discard(v)
        for gi, g in enumerate(ineqs):
            if gi == fi:
                continue
            g2 = psub(g, v, q) if any(v is x for m in g for x, e in m) else g
            if not g2:
                continue
            nf.append(g2)
        if wasnn:
            nf.append(q)
        for g2 in nf:
            if len(g2) == 1:
                (mm, cc), = g2.items()
                if cc > 0 and len(mm) == 1 and mm[0][1] == 1:
                    npos.add(mm[0][0])
        if _nn(np_, nf, npos, depth + 1, budget, seen):
            return True
    return None


# ------------------------------------------------------------------------------------------------ z3 fallback
def _z3():
    import z3
    return z3


_z3cache = {}


def z3_prove(goal, ctx, timeout=1500, use_reals=True):
    """validity of facts => goal with z3 (nonlinear integer/real arithmetic, uninterpreted atoms)"""
    key = (goal, ctx.facts)
    if key in _z3cache:
        return _z3cache[key]
    tick()
    z3 = _z3()
    STATS['z3'] += 1
    t0 = time.time()
    memo = {}
    side = []

    def conv(t):
        r = memo.get(t)
        if r is not None:
            return r
        op = t.op
        if op == 'c':
            if t.s == 'I':
                r = z3.IntVal(int(t.a[0]))
            elif t.s == 'R':
                r = z3.RealVal(t.a[0])
            elif t.s == 'B':
                r = z3.BoolVal(t.a[0])
            else:
                r = z3.Int('str!%d' % t.id)
        elif op == 'ip':
            r = None
            for m, c in t.a:
                x = None
                for y, e in m:
                    for _ in range(e):
                        x = conv(y) if x is None else x * conv(y)
                cc = z3.IntVal(int(c))
                x = cc if x is None else (x if c == 1 else cc * x)
                r = x if r is None else r + x
        elif op == 'lt0':
            r = conv(t.a[0]) < 0
        elif op == 'eq0':
            r = conv(t.a[0]) == 0
        elif op == 'not':
            r = z3.Not(conv(t.a[0]))
        elif op == 'and':
            r = z3.And(*[conv(x) for x in t.a])
        elif op == 'or':
            r = z3.Or(*[conv(x) for x in t.a])
        elif op == 'iff':
            r = conv(t.a[0]) == conv(t.a[1])
        elif op == 'ite':
            r = z3.If(conv(t.a[0]), conv(t.a[1]), conv(t.a[2]))
        elif op == 'radd':
            r = conv(t.a[0])
            for x in t.a[1:]:
                r = r + conv(x)
        elif op == 'rmul':
            r = conv(t.a[0])
            for x in t.a[1:]:
                r = r * conv(x)
        elif op == 'rdiv':
            r = conv(t.a[0]) / conv(t.a[1])
        elif op == 'rpow' and 0 < t.a[1] <= 8:
            r = conv(t.a[0])
            b = r
            for _ in range(t.a[1] - 1):
                r = r * b
        elif op == 'tor':
            r = z3.ToReal(conv(t.a[0]))
        elif op == 'rlt':
            r = conv(t.a[0]) < conv(t.a[1])
        elif op == 'req':
            r = conv(t.a[0]) == conv(t.a[1])
        elif op == 'idiv':
            a, b = conv(t.a[0]), conv(t.a[1])
            q = z3.Int('q!%d' % t.id)
            side.append(z3.Implies(z3.And(a >= 0, b > 0), z3.And(q * b <= a, a < q * b + b, q >= 0)))
            r = q
        elif op == 'imod':
            a, b = conv(t.a[0]), conv(t.a[1])
            q = z3.Int('mq!%d' % t.id)
            r = a - q * b
            side.append(z3.Implies(z3.And(a >= 0, b > 0), z3.And(r >= 0, r < b, q >= 0)))
        elif op == 'app' and t.a[0] == 'abs':
            a = conv(t.a[1])
            r = z3.If(a < 0, -a, a)
        elif op == 'app' and t.a[0] == 'sqrt':
            a = conv(t.a[1])
            r = z3.Real('sq!%d' % t.id)
            side.append(z3.Implies(a >= 0, z3.And(r >= 0, r * r == a)))
        elif t.s == 'I':
            r = z3.Int('x!%d' % t.id)
            if atom_nonneg(t):
                side.append(r >= 0)
        elif t.s == 'R':
            r = z3.Real('x!%d' % t.id)
            if op == 'app' and t.a[0] == 'exp':
                side.append(r > 0)
        elif t.s == 'B':
            r = z3.Bool('x!%d' % t.id)
        else:
            r = z3.Int('x!%d' % t.id)
        memo[t] = r
        return r
    try:
        s = z3.Solver()
        s.set('timeout', timeout)
        for f in ctx.facts:
            s.add(conv(f))
        s.add(z3.Not(conv(goal)))
        for x in side:
            s.add(x)
        res = s.check()
        r = True if res == z3.unsat else None
    except z3.Z3Exception:
        r = None
    STATS['z3_time'] += time.time() - t0
    _z3cache[key] = r
    return r


# ------------------------------------------------------------------------------------------------ boolean goals
def has_ite(t):
    return any_op(t, 'ite')


_opcache = {}


def any_op(t, op):
    k = (t, op)
    r = _opcache.get(k)
    if r is None:
        r = t.op == op or any(any_op(c, op) for c in tm.children(t))
        _opcache[k] = r
    return r


def find_ite(t):
    """an innermost-condition ite reachable through integer/boolean structure (not under binders)"""
    if t.op == 'ite':
        c = find_ite(t.a[0])
        return c if c is not None else t
    if t.op in ('ip', 'lt0', 'eq0', 'not', 'and', 'or', 'iff', 'idiv', 'imod', 'tor', 'radd', 'rmul', 'rdiv', 'rpow',
                'rlt', 'req', 'toi'):
        for c in tm.children(t):
            r = find_ite(c)
            if r is not None:
                return r
    if t.op == 'app':
        for c in t.a[1:]:
            if isinstance(c, T):
                r = find_ite(c)
                if r is not None:
                    return r
    return None


def prove(goal, ctx, z3ok=True, depth=0):
    """True when the facts imply goal, otherwise None"""
    if goal is TRUE or goal in ctx.fset:
        return True
    key = ('pv', goal, z3ok)
    r = ctx._cache.get(key, 0)
    if r != 0:
        return r
    r = _prove(goal, ctx, z3ok, depth)
    ctx._cache[key] = r
    return r


def inconsistent(ctx):
    return prove(FALSE, ctx)


def _prove(goal, ctx, z3ok, depth):
    tick()
    if goal is FALSE:
        for f in ctx.facts:
            if f is FALSE or nott(f) in ctx.fset:
                return True
        for f in ctx.facts:
            if f.op == 'lt0' and nonneg(ip_of(f.a[0]), ctx):
                return True
        if z3ok and z3_prove(FALSE, ctx):
            return True
        return None
    if goal.op == 'and':
        for g in goal.a:
            if not prove(g, ctx, z3ok, depth):
                return None
        return True
    # split ites
    if depth < 6:
        it = find_ite(goal)
        if it is not None:
            c = it.a[0]
            ok = True
            for cc, br in ((c, it.a[1]), (nott(c), it.a[2])):
                known = prove(nott(cc), ctx, z3ok=False, depth=depth + 1)
                if known:
                    continue
                g2 = subst(goal, {it: br})
                if not prove(g2, ctx.add(cc), z3ok, depth + 1):
                    ok = False
                    break
            return True if ok else None
    if goal.op == 'lt0':
        p = ip_of(sub(I(-1), goal.a[0]))
        if nonneg(p, ctx):
            return True
        r = _fact_split(goal, ctx, z3ok, depth)
        if r:
            return True
    elif goal.op == 'eq0':
        d = subst_fix(goal.a[0], ctx.solved())
        if is_c(d) and cval(d) == 0:
            return True
        p = ip_of(d)
        if nonneg(p, ctx) and nonneg(ip_of(sub(I(0), d)), ctx):
            return True
        r = _fact_split(goal, ctx, z3ok, depth)
        if r:
            return True
    elif goal.op == 'not' and goal.a[0].op == 'eq0':
        d = goal.a[0].a[0]
        if nonneg(ip_of(sub(d, I(1))), ctx) or nonneg(ip_of(sub(I(-1), d)), ctx):
            return True
        d2 = subst_fix(d, ctx.solved())
        if is_c(d2) and cval(d2) != 0:
            return True
        r = _fact_split(goal, ctx, z3ok, depth)
        if r:
            return True
    elif goal.op == 'or':
        for i, g in enumerate(goal.a):
            oth = [nott(h) for j, h in enumerate(goal.a) if j != i]
            if prove(g, ctx.add(*oth), False, depth + 1):
                return True
    elif goal.op == 'seq':
        return prove_eq(goal.a[0], goal.a[1], ctx)
    elif goal.op == 'req':
        return prove_eq(goal.a[0], goal.a[1], ctx)
    if z3ok and z3_prove(goal, ctx):
        return True
    return None


def _fact_split(goal, ctx, z3ok, depth):
    """facts containing ite or disjunction: split on them"""
    if depth >= 5:
        return None
    for f in ctx.facts:
        if f.op == 'or' and len(f.a) <= 3:
            rest = [g for g in ctx.facts if g is not f]
            if all(prove(goal, Ctx(rest + [g]), False, depth + 1) for g in f.a):
                return True
            continue
        it = find_ite(f)
        if it is not None and f.s == 'B':
            c = it.a[0]
            rest = [g for g in ctx.facts if g is not f]
            ok = True
            for cc, br in ((c, it.a[1]), (nott(c), it.a[2])):
                f2 = subst(f, {it: br})
                if f2 is FALSE:
                    continue
                cx = Ctx([subst(g, {it: br}) for g in rest] + [cc, f2])
                g2 = subst(goal, {it: br})
                if not prove(g2, cx, False, depth + 1):
                    ok = False
                    break
            if ok:
                return True
            return None
    return None


# ------------------------------------------------------------------------------------------------ index equations
def rng_facts(vs, ranges, guard=TRUE):
    fs = []
    for v, (lo, hi) in zip(vs, ranges):
        fs.append(le(lo, v))
        fs.append(lt(v, hi))
    if guard is not TRUE:
        fs.append(guard)
    return fs


def flatten_idx(idx, jdx):
    """list of (poly-term, poly-term) equations; strips common injective symbols"""
    out = []
    for x, y in zip(idx, jdx):
        if x.op == 'app' and y.op == 'app' and x.a[0] == y.a[0] and x.a[0] in INJECTIVE:
            out.extend(zip(x.a[1:], y.a[1:]))
        else:
            out.append((x, y))
    return out


INJECTIVE = {'LM'}


def differ(idx, jdx, ctx):
    """prove idx != jdx as tuples"""
    for x, y in flatten_idx(idx, jdx):
        if x is y:
            continue
        if prove(nott(eq(x, y)), ctx, z3ok=False):
            return True
        d = digit_eqs(x, y, ctx)
        if d is not None and any(a is not b and prove(nott(eq(a, b)), ctx, z3ok=False) for a, b in d):
            return True
    return None


def same(idx, jdx, ctx):
    for x, y in flatten_idx(idx, jdx):
        if x is y:
            continue
        if not prove(eq(x, y), ctx, z3ok=False):
            return None
    return True


def upper_bounds(v, ctx):
    """polynomials d with v < d among the facts (and whether 0 <= v is known)"""
    lo = False
    ups = []
    for f in solved_ineqs(ctx):
        c = f.get(((v, 1),))
        if c == 1 and len(f) == 1:
            lo = True
        elif c == -1 and not any(v is x for m in f if m != ((v, 1),) for x, e in m):
            d = {m: k for m, k in f.items() if m != ((v, 1),)}
            d[()] = d.get((), 0) + 1
            ups.append({m: k for m, k in d.items() if k})
    return lo, ups


def radix_equal(eqs, pairs, ctx):
    """x = y forces the paired digits to be equal: both sides are the same mixed-radix form in digits below their bases"""
    left = {v: w for v, w in pairs if v.op == 'v' and w.op == 'v'}
    if len(left) != len(pairs):
        return None
    allv = set(left) | set(left.values())
    progress = True
    while left and progress:
        progress = False
        for x, y in eqs:
            px, py = ip_of(x), ip_of(y)
            cx, cy, rx, ry = {}, {}, {}, {}
            ok = True
            inv = {w: v for v, w in left.items()}
            for p, cc, rr, key in ((px, cx, rx, left), (py, cy, ry, inv)):
                for m, c in p.items():
                    hit = [(a, e) for a, e in m if a in key]
                    if not hit:
                        if any(z in tm.atoms_of(a) for a, e in m for z in key):
                            ok = False
                        m2 = m
                        if p is px:      # digits already shown equal
                            m2 = m
                        rr[m2] = rr.get(m2, 0) + c
                    elif len(hit) == 1 and hit[0][1] == 1:
                        a = hit[0][0]
                        if a in cc or any(z in tm.atoms_of(b) for b, e in m for z in key if b is not a):
                            ok = False
                        else:
                            cc[a] = (tuple((b, e) for b, e in m if b is not a), c)
                    else:
                        ok = False
            if not ok or not cx:
                continue
            done = {}
            for v, w in pairs:
                if v not in left:
                    done[v] = w
            rx2 = ip_of(subst(ip_mk(rx), done)) if done else rx
            if rx2 != ry or {left[a]: c for a, c in cx.items()} != cy:
                continue
            items = sorted(cx.items(), key=lambda q: (sum(e for _, e in q[1][0]), abs(q[1][1])))
            if any(c <= 0 for _, (m, c) in items):
                continue
            good = True
            for k, (v, (m, c)) in enumerate(items):
                if k == len(items) - 1:
                    if not (all(_isnn(a, ()) or strictly_pos(a, ctx) for a, e in m)):
                        good = False
                    break
                los, upv = upper_bounds(v, ctx)
                low, upw = upper_bounds(left[v], ctx)
                if not (los and low):
                    good = False
                    break
                fit = False
                for d in upv:
                    if d not in upw or len(d) != 1:
                        continue
                    (dm, dc), = d.items()
                    base = dict(tm.mono_mul(m, dm))
                    bc = c * dc
                    if dc > 0 and all(strictly_pos(a, ctx) for a, e in m) and all(
                            c2 % bc == 0 and all(dict(m2).get(a, 0) >= e for a, e in base.items()) for _, (m2, c2) in items[k + 1:]):
                        fit = True
                        break
                if not fit:
                    good = False
                    break
            if good and all(strictly_pos(a, ctx) for _, (m, c) in items for a, e in m):
                for v in list(cx):
                    left.pop(v)
                progress = True
                break
    return True if not left else None


def radix_match(idx, jdx, t, u, ctx):
    """idx = jdx forces t = u: pair the bound variables of the two sides by their coefficients"""
    eqs = flatten_idx(idx, jdx)
    ax = set().union(*[tm.atoms_of(x) for x, _ in eqs]) if eqs else set()
    ay = set().union(*[tm.atoms_of(y) for _, y in eqs]) if eqs else set()
    pairs = {}
    for x, y in eqs:
        co = []
        for p, mine, oth in ((ip_of(x), ax, ay), (ip_of(y), ay, ax)):
            d = {}
            for m, c in p.items():
                hit = [(a, e) for a, e in m if a.op == 'v' and a in mine and a not in oth]
                if not hit:
                    continue
                if len(hit) != 1 or hit[0][1] != 1:
                    return None
                k = (tuple((b, e) for b, e in m if b is not hit[0][0]), c)
                if k in d:
                    return None
                d[k] = hit[0][0]
            co.append(d)
        if set(co[0]) != set(co[1]):
            return None
        for k, v in co[0].items():
            if pairs.setdefault(v, co[1][k]) is not co[1][k]:
                return None
    if pairs.get(t) is not u:
        return None
    return radix_equal(eqs, list(pairs.items()), ctx)


def size_atoms(ctx):
    """variables that occur in upper bounds v < product of variables"""
    r = ctx._cache.get('sizes')
    if r is None:
        r = set()
        for f in solved_ineqs(ctx):
            neg = [(m, c) for m, c in f.items() if c < 0 and m != ()]
            pos = [(m, c) for m, c in f.items() if c > 0 and m != ()]
            if len(neg) == 1 and len(pos) == 1 and neg[0][1] == -1 and len(neg[0][0]) == 1 and neg[0][0][0][1] == 1 and pos[0][1] == 1:
                v = neg[0][0][0][0]
                if all(z is not v for z, e in pos[0][0]):
                    r.update(z for z, e in pos[0][0])
        ctx._cache['sizes'] = r
    return r


def square_digits(x, y, ctx):
    """x = v^2 + r with 0 <= r <= 2v determines v and r"""
    px, py = ip_of(x), ip_of(y)
    def cand(p):
        out = []
        for m, c in p.items():
            if c == 1 and len(m) == 1 and m[0][1] == 2 and m[0][0].op == 'v':
                v = m[0][0]
                r = sub(ip_mk(p), mul(v, v))
                if nonneg({((v, 1),): 1}, ctx) and nonneg(ip_of(r), ctx) and nonneg(ip_of(sub(mul(I(2), v), r)), ctx):
                    out.append((v, r))
        return out
    cx = cand(px)
    if not cx:
        return None
    cy = cand(py)
    if not cy:
        return None
    return [(cx[0][0], cy[0][0]), (cx[0][1], cy[0][1])]


def digit_eqs(x, y, ctx):
    """x = y as mixed-radix numbers: list of digit pairs (dx, dy) such that x = y exactly when every pair is equal"""
    q = square_digits(x, y, ctx)
    if q is not None:
        return q
    S = size_atoms(ctx)
    if not S:
        return None
    # an index that is itself bounded by a size (i < t < n) is a digit, not a size
    S2 = {z for z in S if not _below(z, S, ctx)}
    for Q in ((S2, S) if len(S2) != len(S) and S2 else (S,)):
        r = _digit_eqs(x, y, Q, ctx)
        if r is not None:
            return r
    return None


def _below(z, S, ctx):
    for f in solved_ineqs(ctx):
        neg = [m for m, c in f.items() if c < 0 and m != ()]
        pos = [(m, c) for m, c in f.items() if c > 0 and m != ()]
        if neg == [((z, 1),)] and len(pos) == 1 and all(y in S and y is not z for y, e in pos[0][0]):
            return True
    return False


def _digit_eqs(x, y, S, ctx):
    groups = {}
    for side, t in ((0, x), (1, y)):
        for m, c in ip_of(t).items():
            base = tuple((z, e) for z, e in m if z in S)
            rest = tuple((z, e) for z, e in m if z not in S)
            groups.setdefault(base, ({}, {}))[side][rest] = c
    # a size standing alone as a digit (n - 1 - i) is not a base
    bases = sorted(groups, key=lambda b: sum(e for _, e in b))
    if len(bases) < 2 or len(bases) > 4:
        return None
    for a, b in zip(bases, bases[1:]):
        d = dict(b)
        if any(d.get(z, 0) < e for z, e in a) or a == b:
            return None
    if bases[0] != ():
        pass
    for b in bases:
        if not all(strictly_pos(z, ctx) for z, e in b):
            return None
    while len(bases) >= 2:
        out = _digits(groups, bases, ctx)
        if out is not None:
            return out
        # the top size may be (part of) a digit itself, as in (n - 1) * m: fold it into the digit below
        top, nxt = bases[-1], bases[-2]
        q = dict(top)
        for z, e in nxt:
            q[z] -= e
        q = [(z, e) for z, e in q.items() if e]
        merged = []
        for side in (0, 1):
            d = dict(groups[nxt][side])
            for m, c in groups[top][side].items():
                mm = dict(m)
                for z, e in q:
                    mm[z] = mm.get(z, 0) + e
                mm = tuple(sorted(mm.items(), key=lambda t: t[0].id))
                d[mm] = d.get(mm, 0) + c
            merged.append({m: c for m, c in d.items() if c})
        groups = dict(groups)
        del groups[top]
        groups[nxt] = tuple(merged)
        bases = bases[:-1]
    return None


def _digits(groups, bases, ctx):
    out = []
    for k, b in enumerate(bases):
        dx, dy = ip_mk(groups[b][0]), ip_mk(groups[b][1])
        if k + 1 < len(bases):
            q = dict(bases[k + 1])
            for z, e in b:
                q[z] -= e
            radix = ip_mk({tuple(sorted(((z, e) for z, e in q.items() if e), key=lambda t: t[0].id)): 1})
            for d in (dx, dy):
                if not (nonneg(ip_of(d), ctx) and nonneg(ip_of(sub(sub(radix, I(1)), d)), ctx)):
                    return None
        out.append((dx, dy))
    return out


def digit_solve(nidx, nv, jdx, cx):
    """solve nidx(nv) = jdx by digits: (substitution, residual equations) or None"""
    eqs = []
    for x, y in flatten_idx(nidx, jdx):
        d = digit_eqs(x, y, cx)
        eqs.extend(d if d is not None else [(x, y)])
    m = {}
    todo = list(eqs)
    progress = True
    while progress and len(m) < len(nv):
        progress = False
        for q in list(todo):
            p = ip_of(subst(sub(q[0], q[1]), m))
            un = [v for v in nv if v not in m and any(v in tm.atoms_of(z) for mm in p for z, e in mm)]
            if len(un) == 1 and abs(p.get(((un[0], 1),), 0)) == 1 and \
                    not any(un[0] in tm.atoms_of(z) for mm in p if mm != ((un[0], 1),) for z, e in mm):
                v = un[0]
                co = p[((v, 1),)]
                m[v] = ip_mk({mm: -c * co for mm, c in p.items() if mm != ((v, 1),)})
                todo.remove(q)
                progress = True
                break
    if len(m) < len(nv):
        return None
    res = [(subst(a, m), subst(b, m)) for a, b in todo]
    return m, res


def strictly_pos(a, ctx):
    return bool(nonneg({((a, 1),): 1, (): -1}, ctx))


def forces_equal(idx, vs, jdx, ws, ctx, depth=0):
    """prove: idx(vs) = jdx(ws) implies vs = ws componentwise.  Lexicographic trichotomy in some variable order."""
    eqs = flatten_idx(idx, jdx)
    pairs = [(v, w) for v, w in zip(vs, ws) if v is not w]
    # first solve trivially: an equation of the form v = w
    changed = True
    while changed and pairs:
        changed = False
        for x, y in eqs:
            d = sub(x, y)
            for k, (v, w) in enumerate(pairs):
                dv = sub(v, w)
                if d is dv or d is sub(w, v):
                    pairs.pop(k)
                    m = {v: w}
                    eqs = [(subst(a, m), subst(b, m)) for a, b in eqs]
                    ctx = Ctx([subst(f, m) for f in ctx.facts])
                    pairs = [(subst(a, m), subst(b, m)) for a, b in pairs]
                    changed = True
                    break
            if changed:
                break
    if not pairs or radix_equal(eqs, pairs, ctx):
        return True

    def excluded(cx):
        for x, y in eqs:
            d = sub(x, y)
            if nonneg(ip_of(sub(d, I(1))), cx) or nonneg(ip_of(sub(I(-1), d)), cx):
                return True
        return False
    for k in range(len(pairs)):
        v, w = pairs[k]
        if excluded(ctx.add(lt(v, w))) and excluded(ctx.add(lt(w, v))):
            rest = pairs[:k] + pairs[k + 1:]
            if not rest:
                return True
            m = {v: w} if v.op == 'v' else {}
            i2 = tuple(subst(x, m) for x, _ in eqs)
            j2 = tuple(subst(y, m) for _, y in eqs)
            c2 = Ctx([subst(f, m) for f in ctx.facts]) if m else ctx.add(eq(v, w))
            if forces_equal(i2, [subst(a, m) for a, _ in rest], j2, [subst(b, m) for _, b in rest], c2, depth + 1):
                return True
    return None


def guess_solution(idx, vs, jdx, ctx):
    """terms d with idx[vs:=d] == jdx syntactically (as polynomials), found by structure"""
    eqs = flatten_idx(idx, jdx)
    m = {}
    todo = list(vs)
    progress = True
    while todo and progress:
        progress = False
        for x, y in eqs:
            xs = subst(x, m)
            mine = [v for v in todo if v in tm.atoms_of(xs)]
            if not mine:
                continue
            if len(mine) == 1:
                v = mine[0]
                p = ip_of(xs)
                co = p.get(((v, 1),), 0)
                rest = {mm: c for mm, c in p.items() if mm != ((v, 1),)}
                if abs(co) == 1 and not any(v in tm.atoms_of(z) for mm in rest for z, e in mm):
                    val = ip_mk({mm: c * co for mm, c in tm.p_add(ip_of(y), rest, -1).items()})
                    m[v] = val
                    todo.remove(v)
                    progress = True
                    break
            # linear with monomial coefficients: peel the variable with the "largest" coefficient
            p = ip_of(xs)
            lin = {}
            rest = {}
            okl = True
            for mm, c in p.items():
                hit = [(z, e) for z, e in mm if z in mine]
                if not hit:
                    if any(v in tm.atoms_of(z) for v in mine for z, e in mm):
                        okl = False
                    rest[mm] = c
                elif len(hit) == 1 and hit[0][1] == 1:
                    v = hit[0][0]
                    lin.setdefault(v, {})[tuple((z, e) for z, e in mm if z is not v)] = c
                else:
                    okl = False
            if okl and all(len(c) == 1 for c in lin.values()):
                target = tm.p_add(ip_of(y), rest, -1)
                order = sorted(lin, key=lambda v: -sum(e for z, e in list(lin[v])[0]))
                tmp = {}
                rem = target
                good = True
                for v in order:
                    (mm, c), = lin[v].items()
                    if mm == () and v is not order[-1]:
                        good = False
                        break
                    if mm == ():
                        q = {k: cc / c for k, cc in rem.items()}
                        rem = {}
                    else:
                        q, r2 = {}, {}
                        for k, cc in rem.items():
                            d = dict(k)
                            okd = True
                            for z, e in mm:
                                if d.get(z, 0) < e:
                                    okd = False
                                    break
                                d[z] -= e
                            if okd:
                                nk = tuple(sorted(((z, e) for z, e in d.items() if e), key=lambda t: t[0].id))
                                q[nk] = q.get(nk, 0) + cc / c
                            else:
                                r2[k] = cc
                        rem = r2
                    if any(cc.denominator != 1 for cc in q.values()):
                        good = False
                        break
                    tmp[v] = ip_mk(q)
                if good and not rem:
                    for v in tmp:
                        m[v] = tmp[v]
                        todo.remove(v)
                    progress = True
                    break
    if todo:
        # nonlinear: try variables of the target
        pool = []
        for x, y in eqs:
            for z in sorted(tm.atoms_of(y), key=lambda t: t.id):
                if z.op == 'v' and z.s == 'I' and z not in pool:
                    pool.append(z)
        pool2 = list(pool)
        for z in pool:
            pool2.append(sub(z, I(1)))
            pool2.append(add(z, I(1)))
        pool2.append(I(0))
        if len(pool2) ** len(todo) <= 4000:
            for combo in itertools.product(pool2, repeat=len(todo) - 1):
                mm = dict(m)
                mm.update(zip(todo[:-1], combo))
                last = todo[-1]
                for x, y in eqs:
                    xs = subst(x, mm)
                    p = ip_of(xs)
                    co = p.get(((last, 1),), 0)
                    rest = {q: c for q, c in p.items() if q != ((last, 1),)}
                    if abs(co) == 1 and not any(last in tm.atoms_of(z) for q in rest for z, e in q):
                        val = ip_mk({q: c * co for q, c in tm.p_add(ip_of(y), rest, -1).items()})
                        m2 = dict(mm)
                        m2[last] = val
                        if all(subst(x2, m2) is y2 for x2, y2 in eqs):
                            # require the guess to be in range to be useful
                            yield m2
        return
    if all(subst(x, m) is y or prove(eq(subst(x, m), y), ctx, z3ok=False) for x, y in eqs):
        yield m


def solve_index(idx, vs, ranges, guard, jdx, ctx):
    """decide which member of the family hits cell jdx.
    returns ('miss',) | ('hit', subst, cond) meaning: hit exactly when cond, by the member subst | None"""
    STATS['digit'] += 1
    key = ('si', idx, vs, ranges, guard, jdx)
    r = ctx._cache.get(key, 0)
    if r != 0:
        return r
    r = _solve_index(idx, vs, ranges, guard, jdx, ctx)
    ctx._cache[key] = r
    return r


def _solve_index(idx, vs, ranges, guard, jdx, ctx):
    if len(idx) != len(jdx):
        return None
    for x, y in zip(idx, jdx):
        if (x.op == 'app' and x.a[0] in INJECTIVE) != (y.op == 'app' and y.a[0] in INJECTIVE) and \
                not (y.op == 'app' and len(vs) == 1 and x is vs[0]):
            return None
    # freshen the bound variables
    fr = {v: tm.fresh(str(v.a[0]).split('!')[0]) for v in vs}
    nv = tuple(fr[v] for v in vs)
    nidx = tuple(subst(x, fr) for x in idx)
    nr = tuple((subst(a, fr), subst(b, fr)) for a, b in ranges)
    ng = subst(guard, fr)
    cx = ctx.add(*rng_facts(nv, nr, ng))
    if not vs:
        # single cell
        if same(nidx, jdx, ctx):
            return ('hit', {}, guard)
        if differ(nidx, jdx, ctx):
            return ('miss',)
        return ('hit', {}, andd(guard, *[eq(x, y) for x, y in flatten_idx(nidx, jdx)]))
    ds = digit_solve(nidx, nv, jdx, cx)
    if ds is not None:
        m, res = ds
        cond = andd(*[eq(a, b) for a, b in res], *[subst(f, m) for f in rng_facts(nv, nr, ng)])
        cond = simp_bool(cond, ctx)
        if cond is FALSE:
            return ('miss',)
        return ('hit', {v: m[fr[v]] for v in vs}, cond)
    fl = flatten_idx(nidx, jdx)
    if len(nv) >= 2 and len(fl) == 1 and fl[0][1].op == 'v' and len(ip_of(fl[0][0])) >= len(nv) and \
            fl[0][1] not in nv and all(m and any(z in nv for z, e in m) for m in ip_of(fl[0][0])):
        # a flat counter read into a multi-dimensional family: stays a read until the counter is a concrete index
        x, y = fl[0]
        d = sub(x, y)
        if nonneg(ip_of(sub(d, I(1))), cx) or nonneg(ip_of(sub(I(-1), d)), cx):
            return ('miss',)
        return None
    cands = []
    for m in guess_solution(nidx, nv, jdx, ctx):
        cands.append(m)
        if len(cands) > 12:
            break
    scored = []
    for m in cands:
        cond = andd(*[subst(f, m) for f in rng_facts(nv, nr, ng)])
        cond = simp_bool(cond, ctx)
        scored.append((0 if cond is TRUE else 1, m, cond))
    scored.sort(key=lambda z: z[0])
    for _, m, cond in scored:
        d = [m[v] for v in nv]
        if forces_equal(nidx, list(nv), jdx, d, cx):
            if cond is FALSE:
                return ('miss',)
            return ('hit', {v: m[fr[v]] for v in vs}, cond)
        if cond is TRUE:
            # the producer of a family guarantees injectivity inside the family, so a member that hits is the only one
            return ('hit', {v: m[fr[v]] for v in vs}, TRUE)
    # miss?
    for x, y in flatten_idx(nidx, jdx):
        d = sub(x, y)
        if nonneg(ip_of(sub(d, I(1))), cx) or nonneg(ip_of(sub(I(-1), d)), cx):
            return ('miss',)
    for _, m, cond in scored:
        # injectivity inside the family, when the digits other than the first are provably in range
        d = [m[v] for v in nv]
        if forces_equal(nidx, list(nv), jdx, d, cx):
            return ('hit', {v: m[fr[v]] for v in vs}, cond)
    # single variable, unit step through a linear index: an exact condition
    if len(vs) == 1 and len(scored) == 1:
        p = ip_of(nidx[0])
        v = nv[0]
        if set(k for k in p if any(z is v for z, e in k)) == {((v, 1),)} and len(idx) == 1:
            _, m, cond = scored[0]
            return ('hit', {vs[0]: m[v]}, cond)
    if inconsistent(cx):
        return ('miss',)
    return None


def simp_bool(b, ctx):
    if b is TRUE or b is FALSE:
        return b
    if b.op == 'and':
        return andd(*[simp_bool(x, ctx) for x in b.a])
    if b.op == 'or':
        return orr(*[simp_bool(x, ctx) for x in b.a])
    if b.op == 'not' and b.a[0].op in ('and', 'or', 'not'):
        return nott(simp_bool(b.a[0], ctx))
    if prove(b, ctx, z3ok=False):
        return TRUE
    if prove(nott(b), ctx, z3ok=False):
        return FALSE
    return b


# ------------------------------------------------------------------------------------------------ resolution of reads
REC_DEF = {}      # rec array name -> defining array term (mentions the rec itself)


def resolve(t, ctx, memo=None):
    """push reads through writes; keeps ites for undecided hits; resolves under binders too"""
    if memo is None:
        memo = {}
    return _resolve(t, ctx, memo)


def needs_resolve(t):
    return any_op(t, 'sel') or any_op(t, 'ite') or any_op(t, 'sum') or any_op(t, 'maxf')


def _resolve(t, ctx, memo):
    if not needs_resolve(t):
        return t
    key = (t, id(ctx))
    r = memo.get(key)
    if r is not None:
        return r[0]
    tick()
    op = t.op
    if op == 'sel':
        idx = tuple(_resolve(x, ctx, memo) for x in t.a[1])
        r = read(t.a[0], idx, ctx, memo)
    elif op == 'ite':
        c = _resolve(t.a[0], ctx, memo)
        c = simp_bool(c, ctx)
        if c is TRUE:
            r = _resolve(t.a[1], ctx, memo)
        elif c is FALSE:
            r = _resolve(t.a[2], ctx, memo)
        else:
            r = ite(c, _resolve(t.a[1], ctx.add(c), memo), _resolve(t.a[2], ctx.add(nott(c)), memo))
    elif op == 'sum':
        v, lo, hi, body = t.a
        u = unflatten(v, lo, hi, body, ctx)
        if u is not None:
            bd = u[2]
            for w, (a, b) in reversed(list(zip(u[0], u[1]))):
                bd = tm.summ(w, a, b, bd)
            if bd.op == 'sum':
                v, lo, hi, body = bd.a
        lo, hi = _resolve(lo, ctx, memo), _resolve(hi, ctx, memo)
        nv = tm.fresh('s')
        c2 = ctx.add(le(lo, nv), lt(nv, hi))
        r = tm.summ(nv, lo, hi, _resolve(subst(body, {v: nv}), c2, memo))
    elif op == 'maxf':
        # (init, vs, ranges, body)
        init, vs, ranges, body = t.a
        # max(init, -inf) = max(init, init)
        body = subst(body, {mk('v', ('-inf',), 'R'): init})
        if len(vs) == 1:
            u = unflatten(vs[0], ranges[0][0], ranges[0][1], body, ctx)
            if u is not None:
                vs, ranges, body = u
        fr = {v: tm.fresh('mx') for v in vs}
        nv = tuple(fr[v] for v in vs)
        nr = tuple((_resolve(subst(a, fr), ctx, memo), _resolve(subst(b, fr), ctx, memo)) for a, b in ranges)
        c2 = ctx.add(*rng_facts(nv, nr))
        r = mk('maxf', (_resolve(init, ctx, memo), nv, nr, _resolve(subst(body, fr), c2, memo)), t.s)
    elif op == 'first':
        v, hi, body = t.a
        hi = _resolve(hi, ctx, memo)
        nv = tm.fresh('f')
        c2 = ctx.add(le(I(0), nv), lt(nv, hi))
        r = tm.first(nv, hi, _resolve(subst(body, {v: nv}), c2, memo))
    elif op in ('acst', 'st', 'fam', 'aite', 'farr'):
        r = t
    else:
        r = tm.rebuild(t, lambda u: _resolve(u, ctx, memo))
    memo[key] = (r, t, ctx)
    return r


def unflatten(v, lo, hi, body, ctx):
    """(vs, ranges, body') when v runs over every cell of an array that was filled cell by cell by a nest whose index is
    a mixed-radix numbering of those cells: the cells are taken in the order of the nest instead"""
    if lo is not I(0) or v not in tm.atoms_of(body):
        return None
    found = []
    seen = set()

    def go(u):
        if u in seen:
            return
        seen.add(u)
        if u.op == 'sel' and len(u.a[1]) == 1 and u.a[1][0] is v:
            A = u.a[0]
            while A.op in ('fam', 'st', 'aite'):
                if A.op == 'fam' and len(A.a[1]) > 1:
                    found.append(A)
                    break
                A = A.a[1] if A.op == 'aite' else A.a[0]
        for c in tm.children(u):
            go(c)
    go(body)
    for A in found:
        B, vs, ranges, j, val, guard = A.a
        if len(j) != 1 or any(a is not I(0) for a, b in ranges) or any(set(vs) & set(tm.atoms_of(b)) for a, b in ranges):
            continue
        left = list(range(len(vs)))
        stride, order, p = I(1), [], j[0]
        while left:
            for k in left:
                c = sub(subst(p, {vs[k]: I(1)}), subst(p, {vs[k]: I(0)}))
                if c is stride or prove_eq(c, stride, ctx):
                    break
            else:
                break
            left.remove(k)
            order.append(k)
            stride = mul(stride, ranges[k][1])
        if left or not prove_eq(stride, hi, ctx):
            continue
        lin, st_ = I(0), I(1)
        for k in order:
            lin, st_ = add(lin, mul(vs[k], st_)), mul(st_, ranges[k][1])
        if lin is not p and not prove_eq(lin, p, ctx.add(*rng_facts(vs, ranges))):
            continue
        if not all(prove(le(I(0), b), ctx) for a, b in ranges):
            continue
        fr = {w: tm.fresh('u') for w in vs}
        nv = tuple(fr[w] for w in vs)
        return nv, tuple(ranges), subst(body, {v: subst(p, fr)})
    return None


def read(A, idx, ctx, memo):
    tick()
    while True:
        op = A.op
        if op == 'acst':
            return _resolve(A.a[0], ctx, memo)
        if op == 'st':
            B, j, v = A.a
            if same(j, idx, ctx):
                return _resolve(v, ctx, memo)
            if differ(j, idx, ctx):
                A = B
                continue
            if (len(j) == len(idx)):
                js = tuple(_resolve(x, ctx, memo) for x in j)
                c = simp_bool(andd(*[eq(x, y) for x, y in zip(js, idx)]), ctx)
                if c is TRUE:
                    return _resolve(v, ctx, memo)
                if c is FALSE:
                    A = B
                    continue
                return ite(c, _resolve(v, ctx.add(c), memo), read(B, idx, ctx.add(nott(c)), memo))
        if op == 'fam':
            B, vs, ranges, j, val, guard = A.a
            s = solve_index(j, vs, ranges, guard, idx, ctx)
            if s is None:
                if val.op != 'c' and unchanged(A, ctx):
                    A = B
                    continue
                return mk('sel', (A, idx), tm.esort(A))
            if s[0] == 'miss':
                A = B
                continue
            _, m, c = s
            c = simp_bool(_resolve(c, ctx, memo), ctx)
            if c is FALSE:
                A = B
                continue
            v = subst(val, m)
            if c is TRUE:
                return _resolve(v, ctx, memo)
            return ite(c, _resolve(v, ctx.add(c), memo), read(B, idx, ctx.add(nott(c)), memo))
        if op == 'aite':
            c = simp_bool(_resolve(A.a[0], ctx, memo), ctx)
            if c is TRUE:
                A = A.a[1]
                continue
            if c is FALSE:
                A = A.a[2]
                continue
            return ite(c, read(A.a[1], idx, ctx.add(c), memo), read(A.a[2], idx, ctx.add(nott(c)), memo))
        if op == 'rec':
            # outside the recursively written cells the value is that of the base
            D = REC_DEF.get(A.a[0])
            if D is not None:
                r = _rec_base(D, idx, ctx, memo)
                if r is not None:
                    return r
            return mk('sel', (A, idx), 'R')
        return mk('sel', (A, idx), tm.esort(A))


def unchanged(A, ctx):
    """every cell the family writes already held that value"""
    k = ('unch', A)
    r = ctx._cache.get(k)
    if r is None:
        B, vs, ranges, j, val, guard = A.a
        fr = {v: tm.fresh(str(v.a[0]).split('!')[0]) for v in vs}
        cx = ctx.add(*rng_facts([fr[v] for v in vs], [(subst(a, fr), subst(b, fr)) for a, b in ranges], subst(guard, fr)))
        v = _resolve(subst(val, fr), cx, {})
        r = v is read(B, tuple(subst(x, fr) for x in j), cx, {})
        ctx._cache[k] = r
    return r


def _rec_base(D, idx, ctx, memo):
    A = D
    while A.op == 'fam':
        B, vs, ranges, j, val, guard = A.a
        s = solve_index(j, vs, ranges, guard, idx, ctx)
        if s is not None and s[0] == 'miss':
            A = B
            continue
        return None
    return read(A, idx, ctx, memo)


def unfold_rec(name, idx, ctx):
    """defining equation of rec cell idx, when it is provably a written cell"""
    return read(REC_DEF[name], idx, ctx, {})


# ------------------------------------------------------------------------------------------------ rational functions
class Norm:
    """normaliser of real terms into num/den polynomials over canonical atoms, under a context"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.memo = {}
        self.atoms = {}        # key -> atom T (representative)
        self.info = {}         # atom T -> ('sqrt', num, den) etc.
        self.rep = {}          # square-root / exponential atom -> its argument

    # polynomials: dict mono(tuple of (atom,exp)) -> Fraction, using tm.p_add/p_mul
    def atom(self, key, t):
        a = self.atoms.get(key)
        if a is None:
            a = self.atoms[key] = t
        return a

    def freeze(self, r):
        n, d = r
        f = lambda p: tuple(sorted(((tuple((x.id, e) for x, e in m), c) for m, c in p.items())))
        # scale so that the leading coefficient of the denominator is one
        if d:
            lead = sorted(d.items(), key=lambda mc: [(x.id, e) for x, e in mc[0]])[-1][1]
            n = {m: c / lead for m, c in n.items()}
            d = {m: c / lead for m, c in d.items()}
        return (f(n), f(d))

    def rat(self, t):
        r = self.memo.get(t)
        if r is not None:
            return r
        tick()
        r = self._rat(t)
        r = self.reduce(r)
        self.memo[t] = r
        return r

    def const(self, c):
        c = Fraction(c)
        return ({(): c} if c else {}, ONE)

    def _rat(self, t):
        op = t.op
        if op == 'c':
            return self.const(t.a[0])
        if op == 'tor':
            return self.intrat(t.a[0])
        if t.s == 'I':
            return self.intrat(t)
        if op == 'radd':
            r = self.rat(t.a[0])
            for x in t.a[1:]:
                r = self.radd(r, self.rat(x))
            return r
        if op == 'rmul':
            r = self.rat(t.a[0])
            for x in t.a[1:]:
                r = self.rmul(r, self.rat(x))
            return r
        if op == 'rdiv':
            x, y = self.rat(t.a[0]), self.rat(t.a[1])
            if not y[0]:
                return self.atom_rat(('div0', self.freeze(x)), t)
            return self.rmul(x, (y[1], y[0]))
        if op == 'rpow':
            b = self.rat(t.a[0])
            n = t.a[1]
            if n < 0:
                b = (b[1], b[0])
                n = -n
            return self.rpow(b, n)
        if op == 'app':
            return self.app(t)
        if op == 'sel':
            return self.atom_rat(('sel', t.a[0], tuple(self.ikey(x) for x in t.a[1])), t)
        if op == 'sum':
            return self.sumrat(t)
        return self.atom_rat(('x', t), t)

    def ikey(self, x):
        if x.s == 'I':
            return self.freeze(self.intrat(x))
        return x

    def intrat(self, t):
        sb = self.ctx.solved()
        t = subst_fix(t, sb)
        p = {}
        for m, c in ip_of(t).items():
            q = {(): c}
            for x, e in m:
                a = self.iatom(x)
                for _ in range(e):
                    q = tm.p_mul(q, a)
            p = tm.p_add(p, q)
        return (p, ONE)

    def iatom(self, x):
        if x.op in ('v',):
            return {((x, 1),): Fraction(1)}
        if x.op in ('idiv', 'imod'):
            k = (x.op, self.ikey(x.a[0]), self.ikey(x.a[1]))
        elif x.op == 'app':
            k = ('app', x.a[0]) + tuple(self.ikey(y) if y.s == 'I' else (self.freeze(self.rat(y)) if y.s == 'R' else y) for y in x.a[1:] if isinstance(y, T))
        elif x.op == 'sel':
            k = ('sel', x.a[0], tuple(self.ikey(y) for y in x.a[1]))
        else:
            k = ('x', x)
        a = self.atom(k, x)
        return {((a, 1),): Fraction(1)}

    def atom_rat(self, key, t):
        a = self.atom(key, t)
        return ({((a, 1),): Fraction(1)}, ONE)

    def radd(self, x, y):
        if x[1] == y[1]:
            return (tm.p_add(x[0], y[0]), x[1])
        if len(x[1]) == 1 and len(y[1]) == 1:
            # monomial denominators: lcm
            (m1, c1), = x[1].items()
            (m2, c2), = y[1].items()
            d1, d2 = dict(m1), dict(m2)
            l = {z: max(d1.get(z, 0), d2.get(z, 0)) for z in set(d1) | set(d2)}
            f1 = tuple(sorted(((z, e - d1.get(z, 0)) for z, e in l.items() if e > d1.get(z, 0)), key=lambda q: q[0].id))
            f2 = tuple(sorted(((z, e - d2.get(z, 0)) for z, e in l.items() if e > d2.get(z, 0)), key=lambda q: q[0].id))
            lm = tuple(sorted(((z, e) for z, e in l.items() if e), key=lambda q: q[0].id))
            n = tm.p_add(tm.p_mul(x[0], {f1: 1 / c1}), tm.p_mul(y[0], {f2: 1 / c2}))
            return (n, {lm: Fraction(1)})
        q = pdivexact(x[1], y[1])
        if q is not None:
            return (tm.p_add(x[0], tm.p_mul(y[0], q)), x[1])
        q = pdivexact(y[1], x[1])
        if q is not None:
            return (tm.p_add(tm.p_mul(x[0], q), y[0]), y[1])
        return (tm.p_add(tm.p_mul(x[0], y[1]), tm.p_mul(y[0], x[1])), tm.p_mul(x[1], y[1]))

    def rmul(self, x, y):
        a, b = x
        c, d = y
        if not a or not c:
            return ({}, ONE)
        # cheap cancellation
        if len(d) > 1 or len(b) > 1:
            if d != ONE:
                q = pdivexact(a, d)
                if q is not None:
                    a, d = q, ONE
                else:
                    q = pdivexact(d, a) if len(a) > 1 else None
                    if q is not None:
                        d, a = q, ONE
            if b != ONE:
                q = pdivexact(c, b)
                if q is not None:
                    c, b = q, ONE
                else:
                    q = pdivexact(b, c) if len(c) > 1 else None
                    if q is not None:
                        b, c = q, ONE
        return (tm.p_mul(a, c), tm.p_mul(b, d))

    def rpow(self, b, n):
        r = self.const(1)
        while n:
            if n & 1:
                r = (tm.p_mul(r[0], b[0]), tm.p_mul(r[1], b[1]))
            b = (tm.p_mul(b[0], b[0]), tm.p_mul(b[1], b[1])) if n > 1 else b
            n >>= 1
        return r

    def app(self, t):
        f = t.a[0]
        if f == 'sqrt':
            x = self.rat(t.a[1])
            n, d = x
            if not n:
                return self.const(0)
            # pull out square rational content
            ca, cb = content(n), content(d)
            k = ca / cb
            import math
            r1, r2 = math.isqrt(k.numerator), math.isqrt(k.denominator)
            # sqrt(p/q) with squarefree handling left to the relation s^2 = e
            if r1 * r1 == k.numerator and r2 * r2 == k.denominator and k != 1:
                inner = ({m: c / ca for m, c in n.items()}, {m: c / cb for m, c in d.items()})
                s = self.sqrt_atom(inner)
                return ({m: c * Fraction(r1, r2) for m, c in s[0].items()}, s[1])
            return self.sqrt_atom(x)
        if f == 'exp':
            return self.exprat(t.a[1])
        if f == 'abs':
            x = self.rat(t.a[1])
            fr = self.freeze(x)
            neg = self.freeze(({m: -c for m, c in x[0].items()}, x[1]))
            k = min(fr, neg)
            a = self.atom(('abs', k), t)
            self.info[a] = ('sq', self.rmul(x, x))
            return ({((a, 1),): Fraction(1)}, ONE)
        if f in ('cos', 'sin'):
            x = self.rat(t.a[1])
            if f == 'cos':
                fr = self.freeze(x)
                neg = self.freeze(({m: -c for m, c in x[0].items()}, x[1]))
                k = min(fr, neg)
                return self.atom_rat(('cos', k), t)
            fr = self.freeze(x)
            neg = self.freeze(({m: -c for m, c in x[0].items()}, x[1]))
            if neg < fr:
                a = self.atom(('sin', neg), tm.sin(mul(R(-1), t.a[1])))
                sg = -1
            else:
                a = self.atom(('sin', fr), t)
                sg = 1
            ca = self.atom(('cos', min(fr, neg)), tm.cos(t.a[1]))
            self.info[a] = ('sq', ({(): Fraction(1), ((ca, 2),): Fraction(-1)}, ONE))
            return ({((a, 1),): Fraction(sg)}, ONE)
        if f == 'pow':
            b, e = self.rat(t.a[1]), self.rat(t.a[2])
            return self.atom_rat(('pow', self.freeze(b), self.freeze(e)), t)
        key = ['app', f]
        for y in t.a[1:]:
            if isinstance(y, T):
                key.append(self.freeze(self.rat(y)) if y.s in 'RI' else y)
            else:
                key.append(y)
        return self.atom_rat(tuple(key), t)

    def sqrt_atom(self, x):
        k = ('sqrt', self.freeze(x))
        a = self.atoms.get(k)
        if a is None:
            a = mk('sqatom', (k,), 'R')
            self.atoms[k] = a
            self.rep[a] = x
            self.info[a] = ('sq', x)
        return ({((a, 1),): Fraction(1)}, ONE)

    def exprat(self, e):
        if e.op == 'radd':
            r = self.const(1)
            for x in e.a:
                r = self.rmul(r, self.exprat(x))
            return r
        x = self.rat(e)
        n, d = x
        if not n:
            return self.const(1)
        if len(n) > 1 and len(d) == 1:
            r = self.const(1)
            for m, c in n.items():
                r = self.rmul(r, self.expmono({m: c}, d))
            return r
        return self.expmono(n, d)

    def expmono(self, n, d):
        c = content(n)
        lead = sorted(n.items(), key=lambda mc: [(x.id, e) for x, e in mc[0]])[-1][1]
        if lead < 0:
            c = -c
        cd = content(d)
        leadd = sorted(d.items(), key=lambda mc: [(x.id, e) for x, e in mc[0]])[-1][1]
        if leadd < 0:
            cd = -cd
        k = c / cd
        base = ({m: q / c for m, q in n.items()}, {m: q / cd for m, q in d.items()})
        # exp(k*base): integer part as a power of exp(base/denominator)
        kk = ('exp', self.freeze(base), k.denominator)
        a = self.atoms.get(kk)
        if a is None:
            a = mk('expatom', (kk,), 'R')
            self.atoms[kk] = a
            self.rep[a] = (base[0], {m: q * k.denominator for m, q in base[1].items()})
        p = k.numerator
        if p > 0:
            return ({((a, p),): Fraction(1)}, ONE)
        return (ONE, {((a, -p),): Fraction(1)})

    def reduce(self, r):
        """apply a^2 = e relations"""
        if not self.info:
            return r
        for _ in range(12):
            hit = None
            for p in r:
                for m in p:
                    for x, e in m:
                        if e >= 2 and x in self.info:
                            hit = x
                            break
                    if hit:
                        break
                if hit:
                    break
            if not hit:
                return r
            sq = self.info[hit][1]
            n = self.red_poly(r[0], hit, sq)
            d = self.red_poly(r[1], hit, sq)
            r = (tm.p_mul(n[0], d[1]), tm.p_mul(n[1], d[0]))
            if r[1] != ONE:
                q = pdivexact(r[0], r[1])
                if q is not None:
                    r = (q, ONE)
        return r

    def red_poly(self, p, x, sq):
        mx = max((e for m in p for y, e in m if y is x), default=0)
        k = mx // 2
        if k == 0:
            return (p, ONE)
        out = {}
        nums = [ONE]
        dens = [ONE]
        for _ in range(k):
            nums.append(tm.p_mul(nums[-1], sq[0]))
            dens.append(tm.p_mul(dens[-1], sq[1]))
        for m, c in p.items():
            e = 0
            rest = []
            for y, f in m:
                if y is x:
                    e = f
                else:
                    rest.append((y, f))
            h = e // 2
            if e % 2:
                rest.append((x, 1))
            rm = tuple(sorted(rest, key=lambda q: q[0].id))
            t = tm.p_mul({rm: c}, tm.p_mul(nums[h], dens[k - h]))
            out = tm.p_add(out, t)
        return (out, dens[k])

    # ---- sums
    def sumrat(self, t):
        nest = []
        b = t
        while b.op == 'sum' and not any(v in tm.atoms_of(b.a[1]) or v in tm.atoms_of(b.a[2]) for v, _, _ in nest):
            nest.append(b.a[:3])
            b = b.a[3]
        if len(nest) < 2 or len({v for v, _, _ in nest}) < len(nest):
            return self.sumrat1(t)
        # independent ranges commute: the outermost one is chosen canonically
        sb = self.ctx.solved()
        ks = [self.ikey(subst_fix(sub(hi, lo), sb)) for _, lo, hi in nest]
        k0 = min(ks)
        best = None
        for i, k in enumerate(ks):
            if k != k0:
                continue
            u = b
            for v, lo, hi in reversed(nest[:i] + nest[i + 1:]):
                u = mk('sum', (v, lo, hi, u), 'R')
            v, lo, hi = nest[i]
            r = self.sumrat1(mk('sum', (v, lo, hi, u), 'R'))
            fr = self.freeze(r)
            if best is None or fr < best[0]:
                best = (fr, r)
        return best[1]

    def sumrat1(self, t):
        v, lo, hi, body = t.a
        # canonical: shift so that the lower bound is 0
        hi2 = sub(hi, lo)
        b = subst(body, {v: add(v, lo)}) if not (is_c(lo) and cval(lo) == 0) else body
        ctx = self.ctx
        sb = ctx.solved()
        hi2 = subst_fix(hi2, sb)
        if descending(b, v):
            b = subst(b, {v: sub(sub(hi2, I(1)), v)})
        if is_c(hi2):
            n = int(cval(hi2))
            if n <= 0:
                return self.const(0)
            if n <= 64:
                r = self.const(0)
                for k in range(n):
                    r = self.radd(r, self.rat(resolve(subst(b, {v: I(k)}), ctx)))
                return r
        nv = mk('v', ('$s%d' % sum_depth(b),), 'I')
        b = subst(b, {v: nv})
        sn = Norm(ctx.add(le(I(0), nv), lt(nv, hi2)))
        sn.atoms = self.atoms
        sn.info = self.info
        n, d = sn.rat(b)
        dep = lambda x: nv in tm.atoms_of_any(x)
        if all(not dep(x) for m in d for x, e in m):
            out = {}
            groups = {}
            for m, c in n.items():
                free = tuple((x, e) for x, e in m if not dep(x))
                bd = tuple((x, e) for x, e in m if dep(x))
                if not bd:
                    # sum of a constant: count
                    cnt = self.intrat(tm.ite(lt(I(0), hi2), hi2, I(0)) if not prove(le(I(0), hi2), ctx) else hi2)
                    out = tm.p_add(out, tm.p_mul({free: c}, cnt[0]))
                    continue
                groups.setdefault(bd, {})
                groups[bd][free] = groups[bd].get(free, 0) + c
            for bd, co in groups.items():
                s = self.sum_atom(nv, hi2, bd)
                out = tm.p_add(out, tm.p_mul(co, s))
            return (out, d)
        key = ('sum', self.ikey(hi2), self.freeze((n, d)))
        return self.atom_rat(key, mk('sum', (nv, I(0), hi2, b), 'R'))

    def sum_atom(self, nv, hi, bd):
        key = ('summ', self.ikey(hi), tuple((x.id, e) for x, e in bd))
        a = self.atoms.get(key)
        if a is None:
            a = mk('sumatom', (nv, hi, bd), 'R')
            self.atoms[key] = a
        return {((a, 1),): Fraction(1)}


ONE = {(): Fraction(1)}


def descending(t, v):
    """every integer expression of t that mentions v decreases in v"""
    found = []
    seen = set()

    def go(x):
        if x in seen or v not in tm.atoms_of(x):
            return True
        seen.add(x)
        if x is v:
            return False
        if x.op == 'ip':
            for m, c in x.a:
                if any(y is v for y, e in m):
                    if len(m) != 1 or m[0][1] != 1 or c > 0:
                        return False
                    found.append(x)
                elif any(v in tm.atoms_of(y) for y, e in m):
                    return False
            return True
        return all(go(y) for y in tm.children(x))
    return go(t) and bool(found)


def sum_depth(t):
    d = 0
    if t.op == 'sum':
        d = 1
    return d + max([sum_depth(c) for c in tm.children(t)] or [0])


def content(p):
    import math
    ns = [abs(c.numerator) for c in p.values()]
    ds = [c.denominator for c in p.values()]
    g = 0
    for x in ns:
        g = math.gcd(g, x)
    l = 1
    for x in ds:
        l = l * x // math.gcd(l, x)
    return Fraction(g, l) if g else Fraction(1)


def pdivexact(p, q):
    """exact polynomial quotient p/q or None"""
    if not p:
        return {}
    if q == ONE:
        return p
    if len(q) == 1:
        (mq, cq), = q.items()
        out = {}
        dq = dict(mq)
        for m, c in p.items():
            d = dict(m)
            for x, e in dq.items():
                if d.get(x, 0) < e:
                    return None
                d[x] -= e
            out[tuple(sorted(((x, e) for x, e in d.items() if e), key=lambda t: t[0].id))] = c / cq
        return out
    if len(q) > 400 or len(p) > 4000:
        return None
    # lexicographic long division
    vars_ = sorted({x for m in list(p) + list(q) for x, e in m}, key=lambda t: t.id)
    pq = {x for m in q for x, e in m}
    pp = {x for m in p for x, e in m}
    if not pq <= pp:
        return None
    ix = {x: i for i, x in enumerate(vars_)}
    nv = len(vars_)

    def key(m):
        k = [0] * nv
        for x, e in m:
            k[ix[x]] = e
        return tuple(k)
    P = {key(m): c for m, c in p.items()}
    Q = {key(m): c for m, c in q.items()}
    lq = max(Q)
    cq = Q[lq]
    # degree check
    out = {}
    steps = 0
    import heapq
    heap = [tuple(-e for e in k) for k in P]
    heapq.heapify(heap)
    while heap:
        lp = tuple(-e for e in heapq.heappop(heap))
        c = P.get(lp)
        if not c:
            continue
        d = tuple(a - b for a, b in zip(lp, lq))
        if min(d) < 0:
            return None
        f = c / cq
        out[d] = f
        for k, cc in Q.items():
            kk = tuple(a + b for a, b in zip(k, d))
            old = P.get(kk)
            if old is None:
                P[kk] = -f * cc
                heapq.heappush(heap, tuple(-e for e in kk))
            else:
                P[kk] = old - f * cc
                if old == 0:
                    heapq.heappush(heap, tuple(-e for e in kk))
        steps += 1
        if steps > 3000:
            return None
    return {tuple((vars_[i], e) for i, e in enumerate(k) if e): c for k, c in out.items()}


# ------------------------------------------------------------------------------------------------ equality
def find_ite_any(t):
    """an ite anywhere outside binders (conditions must be closed there)"""
    return _fia(t)


_fiac = {}


def _fia(t):
    if t in _fiac:
        return _fiac[t]
    r = None
    if t.op == 'ite':
        r = _fia(t.a[0]) or t
    elif t.op in ('sum', 'maxf', 'fam', 'farr', 'first', 'acst', 'st', 'aite', 'av', 'rec', 'v', 'c'):
        r = None
    elif t.op == 'sel':
        for x in t.a[1]:
            r = _fia(x)
            if r:
                break
    else:
        for c in tm.children(t):
            r = _fia(c)
            if r is not None:
                break
    _fiac[t] = r
    return r


def prove_eq(x, y, ctx, depth=0):
    if x is y:
        return True
    key = ('pe', x, y)
    r = ctx._cache.get(key, 0)
    if r != 0:
        return r
    ctx._cache[key] = None      # cut cycles
    r = _prove_eq(x, y, ctx, depth)
    ctx._cache[key] = r
    return r


def _prove_eq(x, y, ctx, depth):
    tick()
    if depth > 40:
        return None
    if x.s == 'I' and y.s == 'I' and not any_op(x, 'sel') and not any_op(y, 'sel'):
        if prove(eq(x, y), ctx):
            return True
    if x.s == 'B' or y.s == 'B':
        if prove(eq(x, y), ctx):
            return True
        x, y = resolve(x, ctx), resolve(y, ctx)
        if x is y:
            return True
        if prove(eq(x, y), ctx):
            return True
        return None
    x = resolve(x, ctx)
    y = resolve(y, ctx)
    if x is y:
        return True
    sb = ctx.solved()
    if sb:
        x2, y2 = resolve(subst_fix(x, sb), ctx), resolve(subst_fix(y, sb), ctx)
        if x2 is y2:
            return True
        x, y = x2, y2
    it = _fia(x) or _fia(y)
    if it is not None:
        STATS['split'] += 1
        c = it.a[0]
        for cc, br in ((c, it.a[1]), (nott(c), it.a[2])):
            c2 = ctx.add(cc)
            if prove(nott(cc), ctx, z3ok=False) or prove(FALSE, c2, z3ok=True):
                continue
            m = {it: br}
            if not prove_eq(subst(x, m), subst(y, m), c2, depth + 1):
                return None
        return True
    if x.s == 'S' or y.s == 'S':
        return str_eq(x, y, ctx, depth)
    if x.s == 'O':
        return None
    return rat_eq(x, y, ctx, depth)


def str_eq(x, y, ctx, depth):
    if x.op == y.op == 'app' and x.a[0] == y.a[0] and len(x.a) == len(y.a):
        for p, q in zip(x.a[1:], y.a[1:]):
            if p is q:
                continue
            if not (isinstance(p, T) and isinstance(q, T)) or not prove_eq(p, q, ctx, depth + 1):
                return None
        return True
    if x.op == y.op == 'sel':
        return sel_eq(x, y, ctx, depth)
    return None


def rat_eq(x, y, ctx, depth):
    STATS['rational'] += 1
    N = Norm(ctx)
    if x.s == 'I':
        x = tm.toreal(x)
    if y.s == 'I':
        y = tm.toreal(y)
    a, b = N.rat(x), N.rat(y)
    for attempt in range(14):
        d = tm.p_add(tm.p_mul(a[0], b[1]), tm.p_mul(b[0], a[1]), -1)
        d = N.reduce((d, ONE))[0]
        if not d:
            return True
        # try to merge atoms
        atoms = sorted({z for m in d for z, e in m}, key=lambda t: t.id)
        merged = False
        for i in range(len(atoms)):
            for j in range(i):
                p, q = atoms[j], atoms[i]
                if (mergeable(p, q) and atom_eq(p, q, ctx, depth)) or \
                        (p.op == q.op and p in N.rep and q in N.rep and depth < 12 and rep_eq(N.rep[p], N.rep[q], ctx, depth + 1)):
                    mp = lambda poly: collapse(poly, q, p)
                    a = (mp(a[0]), mp(a[1]))
                    b = (mp(b[0]), mp(b[1]))
                    merged = True
                    break
            if merged:
                break
        if merged:
            continue
        # try unfolding recursively defined cells / sums
        def unf_key(z):
            # first the cells whose definition leads to cells already present
            if z.op != 'sel' or z.a[0].op != 'rec' or z.a[0].a[0] not in REC_DEF:
                return 2
            u = read(REC_DEF[z.a[0].a[0]], z.a[1], ctx, {})
            if u is z:
                return 2
            have = [x for x in rec_cells(resolve(u, ctx))]
            return 0 if all(any(x is y for y in atoms) for x in have) else 1
        for z in sorted(atoms, key=unf_key):
            u = unfold_atom(z, ctx)
            if u is not None:
                STATS['induction'] += 1
                r = N.rat(resolve(u, ctx))
                it = _fia(resolve(u, ctx))
                if it is not None:
                    continue
                a = psubrat(a, z, r)
                b = psubrat(b, z, r)
                merged = True
                break
        if not merged:
            return None
    return None


def poly_term(p):
    """the polynomial as a term, None when it contains internal atoms"""
    t = R(0)
    for m, c in p.items():
        q = R(c)
        for x, e in m:
            if x.op in ('sqatom', 'expatom') or x.s not in 'RI':
                return None
            q = mul(q, tm.power(tm.toreal(x), e))
        t = add(t, q)
    return t


def rep_eq(x, y, ctx, depth):
    ts = [poly_term(q) for q in (x[0], y[1], y[0], x[1])]
    if any(t is None for t in ts):
        return None
    return prove_eq(mul(ts[0], ts[1]), mul(ts[2], ts[3]), ctx, depth)


def psubrat(a, z, r):
    n, d = r
    def sub1(p):
        mx = max((e for m in p for y, e in m if y is z), default=0)
        out = {}
        for m, c in p.items():
            e = 0
            rest = []
            for y, k in m:
                if y is z:
                    e = k
                else:
                    rest.append((y, k))
            t = {tuple(rest): c}
            for _ in range(e):
                t = tm.p_mul(t, n)
            for _ in range(mx - e):
                t = tm.p_mul(t, d)
            out = tm.p_add(out, t)
        q = ONE
        for _ in range(mx):
            q = tm.p_mul(q, d)
        return out, q
    n1, d1 = sub1(a[0])
    n2, d2 = sub1(a[1])
    return (tm.p_mul(n1, d2), tm.p_mul(d1, n2))


def collapse(p, q, r):
    out = {}
    for m, c in p.items():
        if any(x is q for x, e in m):
            d = {}
            for x, e in m:
                x = r if x is q else x
                d[x] = d.get(x, 0) + e
            m = tuple(sorted(d.items(), key=lambda t: t[0].id))
        out[m] = out.get(m, 0) + c
    return {m: c for m, c in out.items() if c != 0}


def rec_cells(t):
    out, st = [], [t]
    while st:
        u = st.pop()
        if u.op == 'sel' and u.a[0].op == 'rec':
            out.append(u)
            continue
        st.extend(tm.children(u))
    return out


def unfold_atom(z, ctx):
    if z.op == 'sel' and z.a[0].op == 'rec' and z.a[0].a[0] in REC_DEF:
        D = REC_DEF[z.a[0].a[0]]
        u = read(D, z.a[1], ctx, {})
        if u is z or (u.op == 'sel'):
            return None
        if ctx._cache.get(('unf', z)):
            return None
        ctx._cache[('unf', z)] = True
        return u
    return None


def mergeable(p, q):
    if p.s != q.s and not (p.s in 'IR' and q.s in 'IR'):
        return False
    if p.op != q.op:
        return False
    if p.op == 'sel':
        return arr_head(p.a[0]) == arr_head(q.a[0])
    if p.op == 'app':
        return p.a[0] == q.a[0] and len(p.a) == len(q.a)
    return p.op in ('sum', 'sumatom', 'maxf', 'idiv', 'imod', 'first')


def arr_head(A):
    if A.op == 'farr':
        return ('farr', A.a[0], len(A.a[1]), len(A.a[2]))
    if A.op == 'av':
        return A
    if A.op == 'rec':
        return ('rec',)
    return ('any',)


def atom_eq(p, q, ctx, depth):
    if depth > 12:
        return None
    if p.op == 'sel':
        return sel_eq(p, q, ctx, depth)
    if p.op in ('app', 'idiv', 'imod'):
        a = p.a[1:] if p.op == 'app' else p.a
        b = q.a[1:] if p.op == 'app' else q.a
        for x, y in zip(a, b):
            if x is y:
                continue
            if not (isinstance(x, T) and isinstance(y, T)):
                return None
            if not prove_eq(x, y, ctx, depth + 1):
                return None
        return True
    if p.op == 'sum':
        return sum_eq(p, q, ctx, depth)
    if p.op == 'sumatom':
        (v, hi, bd), (w, hj, be) = p.a, q.a
        if not prove_eq(hi, hj, ctx, depth + 1):
            return None
        nv = tm.fresh('s')
        b1 = R(1)
        for x, e in bd:
            b1 = mul(b1, tm.power(tm.toreal(subst_any(x, {v: nv})), e))
        b2 = R(1)
        for x, e in be:
            b2 = mul(b2, tm.power(tm.toreal(subst_any(x, {w: nv})), e))
        return prove_eq(b1, b2, ctx.add(le(I(0), nv), lt(nv, hi)), depth + 1)
    if p.op == 'maxf':
        return max_eq(p, q, ctx, depth)
    if p.op == 'first':
        return first_eq(p, q, ctx, depth)
    return None


def first_eq(p, q, ctx, depth):
    (v, hi, c), (w, hj, d) = p.a, q.a
    if not prove_eq(hi, hj, ctx, depth + 1):
        return None
    nv = tm.fresh('f')
    c2 = ctx.add(le(I(0), nv), lt(nv, hi))
    return prove_iff(subst(c, {v: nv}), subst(d, {w: nv}), c2, depth + 1)


def prove_iff(b, c, ctx, depth=0):
    if b is c:
        return True
    b, c = resolve(b, ctx), resolve(c, ctx)
    if b is c:
        return True
    if b.op == c.op == 'seq':
        for pr in ((0, 1), (1, 0)):
            if prove_eq(b.a[0], c.a[pr[0]], ctx, depth + 1) and prove_eq(b.a[1], c.a[pr[1]], ctx, depth + 1):
                return True
    if b.op == c.op and b.op in ('not', 'rlt', 'req') and len(b.a) == len(c.a):
        if b.op == 'not':
            if prove_iff(b.a[0], c.a[0], ctx, depth + 1):
                return True
        elif all(prove_eq(x, y, ctx, depth + 1) for x, y in zip(b.a, c.a)):
            return True
    if b.op == c.op and b.op in ('and', 'or') and len(b.a) == len(c.a):
        left = list(c.a)
        for x in b.a:
            for y in left:
                if prove_iff(x, y, ctx, depth + 1):
                    left.remove(y)
                    break
            else:
                break
        else:
            return True
    if prove(c, ctx.add(b)) and prove(b, ctx.add(c)):
        return True
    return None


def max_eq(p, q, ctx, depth):
    (i1, vs, rs, b1), (i2, ws, rt, b2) = p.a, q.a
    if len(vs) != len(ws) or not prove_eq(i1, i2, ctx, depth + 1):
        return None
    for perm in itertools.permutations(range(len(vs))):
        fr = [tm.fresh('mx') for _ in vs]
        m1 = dict(zip(vs, fr))
        m2 = {ws[perm[k]]: fr[k] for k in range(len(vs))}
        ok = True
        cx = ctx
        for k in range(len(vs)):
            lo1, hi1 = (subst(z, m1) for z in rs[k])
            lo2, hi2 = (subst(z, m2) for z in rt[perm[k]])
            if not (prove_eq(lo1, lo2, cx, depth + 1) and prove_eq(hi1, hi2, cx, depth + 1)):
                ok = False
                break
            cx = cx.add(le(lo1, fr[k]), lt(fr[k], hi1))
        if ok and prove_eq(subst(b1, m1), subst(b2, m2), cx, depth + 1):
            return True
    return None


def sum_eq(p, q, ctx, depth):
    (v, lo, hi, b), (w, lo2, hi2, c) = p.a, q.a
    n1, n2 = sub(hi, lo), sub(hi2, lo2)
    if not prove_eq(n1, n2, ctx, depth + 1):
        return None
    nv = tm.fresh('s')
    cx = ctx.add(le(I(0), nv), lt(nv, n1))
    if prove_eq(subst(b, {v: add(nv, lo)}), subst(c, {w: add(nv, lo2)}), cx, depth + 1):
        return True
    # reversed order of summation
    if prove_eq(subst(b, {v: add(nv, lo)}), subst(c, {w: sub(sub(hi2, I(1)), nv)}), cx, depth + 1):
        return True
    return None


def subst_any(t, m):
    if t.op == 'sumatom':
        v, hi, bd = t.a
        mm = {k: x for k, x in m.items() if k is not v}
        return mk('sumatom', (v, subst(hi, mm), tuple((subst_any(x, mm), e) for x, e in bd)), 'R')
    return subst(t, m)


def sel_eq(p, q, ctx, depth):
    A, i = p.a
    B, j = q.a
    if len(i) != len(j):
        return None
    for x, y in zip(i, j):
        if x is not y and not prove_eq(x, y, ctx, depth + 1):
            return None
    if A is B:
        return True
    return arr_eq_at(A, B, i, ctx, depth)


IND = []


def arr_eq_at(A, B, idx, ctx, depth):
    """sel(A,idx) = sel(B,idx) for two opaque arrays"""
    if A is B:
        return True
    if A.op == 'farr' and B.op == 'farr':
        return farr_eq(A, B, ctx, depth)
    if A.op == 'rec' and B.op == 'rec':
        return rec_eq(A, B, idx, ctx, depth)
    return None


def farr_eq(A, B, ctx, depth):
    if A.a[0] != B.a[0] or len(A.a[1]) != len(B.a[1]) or len(A.a[2]) != len(B.a[2]):
        return None
    key = ('fe', A, B)
    r = ctx._cache.get(key, 0)
    if r != 0:
        return r
    ctx._cache[key] = None
    r = _farr_eq(A, B, ctx, depth)
    ctx._cache[key] = r
    return r


def _farr_eq(A, B, ctx, depth):
    for x, y in zip(A.a[1], B.a[1]):
        if x is not y and not prove_eq(x, y, ctx, depth + 1):
            return None
    for (X, vs, rs, ix), (Y, ws, rt, iy) in zip(A.a[2], B.a[2]):
        if X is Y:
            continue
        fr = {v: tm.fresh('q') for v in vs}
        nv = tuple(fr[v] for v in vs)
        nr = tuple((subst(a, fr), subst(b, fr)) for a, b in rs)
        cell = tuple(subst(x, fr) for x in ix)
        if len(nv) == 1 and len(cell) == 1 and cell[0] is nv[0]:
            cov = cover(X, nr[0], ctx) or cover(Y, nr[0], ctx)
            if cov is not None:
                nv, nr, cell = cov
        cx = ctx.add(*rng_facts(nv, nr))
        if not prove_eq(tm.sel(X, cell), tm.sel(Y, cell), cx, depth + 1):
            return None
    return True


def cover(A, rng, ctx):
    """a several-variable family inside A that enumerates exactly the cells rng of a flat array (injective, inside, and as
    many members as cells): its variables, ranges and index"""
    if not is0(rng[0]):
        return None
    seen = 0
    while A.op in ('fam', 'st', 'aite') and seen < 6:
        seen += 1
        if A.op != 'fam':
            return None
        B, vs, ranges, ix, val, g = A.a
        if len(vs) >= 2 and len(ix) == 1 and g is TRUE and all(is0(a) for a, b in ranges):
            fr = {v: tm.fresh(str(v.a[0]).split('!')[0]) for v in vs}
            f2 = {v: tm.fresh(str(v.a[0]).split('!')[0]) for v in vs}
            nv, nw = [fr[v] for v in vs], [f2[v] for v in vs]
            size = I(1)
            for a, b in ranges:
                if tm.atoms_of(b) & set(vs):
                    return None
                size = mul(size, b)
            if size is not rng[1]:
                return None
            cx = ctx.add(*rng_facts(nv, ranges), *rng_facts(nw, ranges))
            i1, i2 = subst(ix[0], fr), subst(ix[0], f2)
            d = digit_eqs(i1, i2, cx)
            if d is None or {(x, y) for x, y in d} != set(zip(nv, nw)):
                return None
            if not (nonneg(ip_of(i1), cx) and nonneg(ip_of(sub(sub(size, I(1)), i1)), cx)):
                return None
            return tuple(nv), tuple(ranges), (i1,)
        if len(vs) == 1 and len(ix) == 1 and ix[0] is vs[0] and g is TRUE and val.op == 'sel' and val.a[1] == (vs[0],) and \
                is0(ranges[0][0]) and ranges[0][1] is rng[1]:
            A = val.a[0]
            continue
        return None
    return None


def is0(t):
    return t is I(0)


REC_HYP = []


def rec_eq(A, B, idx, ctx, depth):
    """two recursively defined arrays agree everywhere (course-of-values induction along the recursion):
    unfold both at a generic cell and prove equality assuming it for the cells read."""
    n1, n2 = A.a[0], B.a[0]
    for h in REC_HYP:
        if h == (n1, n2) or h == (n2, n1):
            return True        # induction hypothesis: only reached for cells read by the unfolded bodies
    D1, D2 = REC_DEF.get(n1), REC_DEF.get(n2)
    if D1 is None or D2 is None:
        return None
    if D1.op != 'fam' or D2.op != 'fam':
        return None
    STATS['induction'] += 1
    B1, vs, rs, ix, val, g = D1.a
    fr = {v: tm.fresh('h') for v in vs}
    nv = tuple(fr[v] for v in vs)
    nr = tuple((subst(a, fr), subst(b, fr)) for a, b in rs)
    cell = tuple(subst(x, fr) for x in ix)
    cx = Ctx(base_facts(ctx)).add(*rng_facts(nv, nr, subst(g, fr)))
    u2 = read(D2, cell, cx, {})
    u1 = resolve(subst(val, fr), cx)
    REC_HYP.append((n1, n2))
    try:
        if not prove_eq(u1, u2, cx, depth + 1):
            return None
    finally:
        REC_HYP.pop()
    # cells outside: bases agree at idx, or idx is a written cell of D1
    s = solve_index(ix, vs, rs, g, idx, ctx)
    if s is not None and s[0] == 'hit':
        c = simp_bool(s[2], ctx)
        if c is TRUE:
            return True
    r1 = read(D1, idx, ctx, {})
    r2 = read(D2, idx, ctx, {})
    REC_HYP.append((n1, n2))
    try:
        return prove_eq(r1, r2, ctx, depth + 1)
    finally:
        REC_HYP.pop()


def base_facts(ctx):
    return ctx.facts
