"""Loop rule of the verification-condition generator.

A loop is summarised by closed forms for everything it modifies, obtained from one symbolic iteration t and justified by
induction over t: counters are x0+c*t, accumulators are sums, array writes become families indexed by t after the
generator has *proved* that different iterations write different cells, and reads of a written array are rewritten only
after it has proved that the cell was not written before (or, for recurrences, was certainly written before).  What
has no closed form becomes an opaque sequence defined by its step function (sound, just less precise)."""
from . import term as tm
from . import prove as pv
from .exec import (P, E, Row, Ptr, Null, Cx, Trace, St, Flow, Ob, Acc, Undef, Unsupported, merge, changed, quick,
                   item_subst, trace_subst, Fn, Lam, merge_val, where)
from .term import (T, I, R, add, sub, mul, eq, lt, le, nott, andd, orr, ite, is_c, cval, subst, atoms_of, ip_of, ip_mk,
                   TRUE, FALSE, mk)

UNROLL = 40


# ------------------------------------------------------------------------------------------------ helpers
def conj(b):
    return list(b.a) if b.op == 'and' else ([] if b is TRUE else [b])


def havoc_val(key, v):
    base = '~' + str(key[-1] if not str(key[-1]).startswith('#') else '%s%s' % (key[-2] if len(key) > 1 else '', key[-1]))
    if isinstance(v, T):
        if v.s == 'A':
            return tm.afresh(base, tm.esort(v))
        return tm.fresh(base, v.s)
    if isinstance(v, Cx):
        return Cx(tm.fresh(base + '.re', 'R'), tm.fresh(base + '.im', 'R'))
    if isinstance(v, Trace):
        return Trace(('sym', key, tm.fresh('tr').a[0]), ())
    if isinstance(v, Ptr) and not isinstance(v.path, Row):
        return Ptr(v.path, tm.fresh(base, 'I'))
    return Undef()


def parts(v):
    """the scalar components of a value"""
    if isinstance(v, T):
        return (v,)
    if isinstance(v, Cx):
        return (v.re, v.im)
    if isinstance(v, Ptr):
        return (v.off,)
    return ()


def rebuildv(v, ps):
    if isinstance(v, T):
        return ps[0]
    if isinstance(v, Cx):
        return Cx(ps[0], ps[1])
    if isinstance(v, Ptr):
        return Ptr(v.path, ps[0])
    return v


def val_subst(v, m):
    if isinstance(v, T):
        return subst(v, m)
    if isinstance(v, (Cx, Trace, tuple)):
        return item_subst(v, m)
    if isinstance(v, Ptr):
        return Ptr(v.path, subst(v.off, m))
    if isinstance(v, P):
        return v
    if isinstance(v, E):
        return E(v.path, tuple(subst(x, m) for x in v.idx))
    return v


def same_val(v, w):
    if v is w:
        return True
    if isinstance(v, T) or isinstance(w, T):
        return False
    try:
        return v == w
    except Exception:
        return False


def array_is(A, B, n, ctx):
    if A is B:
        return True
    if n is None:
        return False
    i = tm.fresh('i')
    return bool(pv.prove_eq(tm.sel(A, (i,)), tm.sel(B, (i,)), ctx.add(le(I(0), i), lt(i, n))))


def level_of(A, n, ctx):
    """(family, level) if the array provably holds one level of a family of states ('state.*')"""
    if A.op == 'farr' and A.a[0].startswith('state.') and not A.a[2]:
        return A.a[0], A.a[1][0]
    if n is None:
        return None
    cs, todo, seen = [], [A], set()
    while todo:
        u = todo.pop()
        if u in seen:
            continue
        seen.add(u)
        if u.op == 'farr' and u.a[0].startswith('state.') and not u.a[2]:
            cs.append(u)
        todo += tm.children(u)
    for B in cs:
        if array_is(A, B, n, ctx):
            return B.a[0], B.a[1][0]
    return None


def simp_mem(st, known):
    """pick the branch of ite values whose condition is decided by the facts just assumed"""
    ks = set()
    for c in known:
        for x in conj(c):
            ks.add(x)
    if not ks:
        return

    def go(v):
        while isinstance(v, T) and v.op == 'ite':
            if v.a[0] in ks:
                v = v.a[1]
            elif nott(v.a[0]) in ks:
                v = v.a[2]
            else:
                break
        return v
    for k, v in list(st.mem.items()):
        if isinstance(v, T) and v.op == 'ite':
            w = go(v)
            if w is not v:
                st.mem[k] = w
        elif isinstance(v, Trace) and v.items and isinstance(v.items[-1], tuple) and v.items[-1] and v.items[-1][0] == 'ite':
            c = v.items[-1][1]
            if c in ks:
                st.mem[k] = Trace(v.base, v.items[:-1] + v.items[-1][2].items)
            elif nott(c) in ks:
                st.mem[k] = Trace(v.base, v.items[:-1] + v.items[-1][3].items)


# ------------------------------------------------------------------------------------------------ entry points
def counted(ex, st, node, cnt, bodyf):
    """run bodyf(i, state) for i = 0..cnt-1 (library algorithms)"""
    ctr = ('t', next(ex.tmp_ctr), 'ctr')
    st.mem[ctr] = I(0)

    def body(s):
        bodyf(s.mem[ctr], s)
        return [Flow('n', s)]

    def inc(s):
        s.mem[ctr] = add(s.mem[ctr], I(1))
    fl = loop(ex, {'id': ('counted', id(bodyf)), 'kind': 'ForStmt', '_tu': None, 'range': {}, 'loc': {}} if not isinstance(node, dict) else node,
              st, lambda s: lt(s.mem[ctr], cnt), body, inc)
    if len(fl) != 1 or fl[0].kind != 'n':
        raise Unsupported('early exit from a library algorithm')
    st.take(fl[0].st)
    st.mem.pop(ctr, None)


def loop(ex, node, st, condf, bodyf, incf, par=None):
    if par is None:
        r = try_unroll(ex, node, st, condf, bodyf, incf)
        if r is not None:
            return r
    return Summary(ex, node, st, condf, bodyf, incf, par).run()


def marks(ex):
    return (len(ex.obs), len(ex.logging), len(ex.exits))


def rollback(ex, m):
    del ex.obs[m[0]:]
    del ex.logging[m[1]:]
    del ex.exits[m[2]:]


def try_unroll(ex, node, st, condf, bodyf, incf):
    mk0 = marks(ex)
    s = st.fork()
    out = []
    for k in range(UNROLL + 1):
        c = condf(s)
        if c is FALSE:
            return ex.join(out + [Flow('n', s)])
        if c is not TRUE or k == UNROLL:
            rollback(ex, mk0)
            return None
        normal = []
        for f in bodyf(s):
            if f.kind in ('n', 'cont'):
                normal.append(f.st)
            elif f.kind == 'brk':
                out.append(Flow('n', f.st))
            else:
                out.append(f)
        if not normal:
            return ex.join(out)
        s = merge(normal, ex) if len(normal) > 1 else normal[0]
        incf(s)
    return None


class Summary:
    def __init__(self, ex, node, st, condf, bodyf, incf, par):
        self.ex, self.node, self.st = ex, node, st
        self.condf, self.bodyf, self.incf, self.par = condf, bodyf, incf, par

    # ---------------------------------------------------------------- one iteration
    def iterate(self, s, full=False):
        """returns (normal state or None, early flows)"""
        ex = self.ex
        flows = self.bodyf(s)
        normal, early = [], []
        for f in flows:
            (normal if f.kind in ('n', 'cont') else early).append(f)
        if not normal:
            return None, early
        n = merge([f.st for f in normal], ex) if len(normal) > 1 else normal[0].st
        self.incf(n)
        return n, early

    def havoc(self, M):
        s = self.st.fork()
        sym = {}
        for k in M:
            v = havoc_val(k, self.st.mem[k])
            sym[k] = v
            s.mem[k] = v
        return s, sym

    def frame(self):
        return self.ex.stack[-1][1] if self.ex.stack else 0

    def generalise(self, k):
        return tuple('FRAME' if (i == 1 and k[0] == 'l' and x == self.frame()) else x for i, x in enumerate(k))

    def specialise(self, k):
        return tuple(self.frame() if x == 'FRAME' else x for x in k)

    def modset(self, M):
        """find the pre-existing keys the loop modifies (fixpoint of a havocked dry run)"""
        ex, st = self.ex, self.st
        for rnd in range(12):
            s, sym = self.havoc(M)
            for k, v in sym.items():
                if k in ex.uns and isinstance(v, T) and v.s == 'I':
                    s.assume(le(I(0), v))
            h0 = dict(s.mem)
            ex.dry += 1
            mk0 = marks(ex)
            try:
                c = self.condf(s)
                ends = []
                sE = s.fork()
                s.branch(c)
                simp_mem(s, (c,))
                n, early = self.iterate(s)
                ends = ([n] if n is not None else []) + [f.st for f in early] + [sE]
            finally:
                ex.dry -= 1
                rollback(ex, mk0)
            new = set()
            for e in ends:
                for k in st.mem:
                    if k not in M:
                        w = e.mem.get(k)
                        if w is None or not same_val(w, h0[k]):
                            new.add(k)
            if not new:
                return M, n, sym
            M = M | new
        raise Unsupported('modified set of the loop does not stabilise at ' + where(self.node))

    # ---------------------------------------------------------------- main
    def run(self):
        ex, st, node = self.ex, self.st, self.node
        s1 = st.fork()
        mk0 = marks(ex)
        ex.dry += 1
        try:
            c0 = self.condf(s1)
        finally:
            ex.dry -= 1
            rollback(ex, mk0)
        if quick(c0, s1) is FALSE and self.par is None:
            self.condf(st)
            return [Flow('n', st)]
        ckey = (node.get('_tu'), node.get('id'))
        guess = ex.loopM.get(ckey)
        M = frozenset(k for k in (self.specialise(g) for g in guess) if k in st.mem) if guess else frozenset()
        M, n, sym = self.modset(M)
        ex.loopM[ckey] = frozenset(self.generalise(k) for k in M) | (guess or frozenset())
        self.M = M
        symset = set()
        for v in sym.values():
            symset.update(parts(v))
        # induction variables
        ind = {}
        if n is not None:
            for k in M:
                v0, v, w = st.mem[k], sym[k], n.mem.get(k)
                if isinstance(v, T) and v.s == 'I' and isinstance(w, T) and w.s == 'I':
                    d = sub(w, v)
                    if not (atoms_of(d) & symset) and d is not I(0) and self.invariant(d):
                        ind[k] = d
                elif isinstance(v, Ptr) and isinstance(w, Ptr) and w.path == v.path:
                    d = sub(w.off, v.off)
                    if not (atoms_of(d) & symset) and d is not I(0) and self.invariant(d):
                        ind[k] = d
        # arrays that hold level L0 + d*t of a family of states (guess from the first iteration, verified below)
        self.lev = lev = self.guess_levels(M) if n is not None else {}
        self.t = t = tm.fresh('k', 'I')
        # trip count
        s, sym = self.havoc([k for k in M if k not in ind and k not in lev])
        self.set_ind(s, ind, t)
        self.set_lev(s, t)
        symset = set()
        for v in sym.values():
            symset.update(parts(v))
        trial = s.fork()
        ex.dry += 1
        ex.raw += 1
        mk0 = marks(ex)
        try:
            B = self.condf(trial)
        finally:
            ex.dry -= 1
            ex.raw -= 1
            rollback(ex, mk0)
        Ns, rest = [], []
        for b in conj(B):
            nb = self.trip(b, t, symset)
            if nb is None:
                rest.append(b)
            elif nb is not TRUE:
                Ns.append(nb)
        if not Ns:
            raise Unsupported('loop without a recognised bound at ' + where(node))
        N = None
        for x in Ns:
            N = x if N is None else self.imin(N, x)
        if not pv.prove(le(I(0), N), st.ctx()):
            if pv.prove(lt(N, I(1)), st.ctx()):
                N = I(0)
            else:
                N = ite(lt(N, I(0)), I(0), N)
        self.N = N
        # the generic iteration
        s.assume(le(I(0), t), lt(t, N))
        mkF = marks(ex)
        log0 = ex.log_on
        if self.par is not None:
            ex.log_on = True
        c = self.condf(s)
        keep = []
        for b in conj(c):
            if b in rest or (atoms_of(b) & symset) or self.stateful(b, rest):
                keep.append(b)
            else:
                ex.oblig('loop-condition', b, s, node)
                if b.op not in ('c',):
                    simp_mem(s, (b,))
        early = []
        if keep:
            if self.par is not None:
                raise Unsupported('parallel loop with a data-dependent bound')
            sE = s.fork()
            sE.branch(nott(andd(*keep)))
            simp_mem(sE, tuple(nott(b) for b in keep) if len(keep) == 1 else ())
            early.append(Flow('brk', sE))
            s.branch(andd(*keep))
            simp_mem(s, keep)
        pre_keys = set(st.mem)
        n, ea = self.iterate(s)
        ex.log_on = log0
        early += ea
        self.early = early
        if n is not None:
            for k in n.mem:
                if k not in pre_keys and k[0] == 'h' and k[-1] == '#alive':
                    ex.oblig('leak', nott(n.mem[k]), n, node, 'allocated block not freed in the iteration')
            for k in pre_keys:
                if k not in M and not same_val(n.mem.get(k), st.mem[k]):
                    raise Unsupported('loop modifies more than its dry run at ' + where(node))
            for k in ind:
                w = n.mem[k]
                x = w.off if isinstance(w, Ptr) else w
                x0 = st.mem[k].off if isinstance(st.mem[k], Ptr) else st.mem[k]
                d = sub(sub(x, add(x0, mul(ind[k], t))), ind[k])
                if isinstance(d, T) and d is not I(0):
                    d = pv.resolve(d, n.ctx())
                if d is not I(0) and not pv.prove(eq(d, I(0)), n.ctx(), z3ok=False):
                    raise Unsupported('induction variable changes irregularly at ' + where(node))
            for k, (g, L0, d) in lev.items():
                if not array_is(n.mem[k], g(add(L0, mul(d, add(t, I(1))))), n.mem.get(k[:-1] + ('#n',)), n.ctx()):
                    raise Unsupported('the state carried by the loop does not advance by one level per iteration at ' + where(node))
        self.s, self.n, self.sym, self.ind = s, n, sym, ind
        self.solve()
        return self.finish(mkF, keep)

    def stateful(self, b, rest):
        return False

    def invariant(self, d):
        return True

    def set_ind(self, s, ind, t):
        for k, d in ind.items():
            v0 = self.st.mem[k]
            if isinstance(v0, Ptr):
                s.mem[k] = Ptr(v0.path, add(v0.off, mul(d, t)))
            else:
                s.mem[k] = add(v0, mul(d, t))

    def guess_levels(self, M):
        st, ex = self.st, self.ex
        cand = {}
        for k in M:
            if k[-1] == '#d' and isinstance(st.mem.get(k), T) and st.mem[k].s == 'A':
                g = level_of(st.mem[k], st.mem.get(k[:-1] + ('#n',)), st.ctx())
                if g is not None:
                    cand[k] = g
        if not cand:
            return {}
        s = st.fork()
        mk0 = marks(ex)
        ex.dry += 1
        try:
            c = self.condf(s)
            s.branch(c)
            simp_mem(s, (c,))
            n, early = self.iterate(s)
        finally:
            ex.dry -= 1
            rollback(ex, mk0)
        out = {}
        if n is None:
            return out
        for k, (name, L0) in cand.items():
            h = level_of(n.mem[k], n.mem.get(k[:-1] + ('#n',)), n.ctx())
            if h is not None and h[0] == name:
                d = sub(h[1], L0)
                if tm.is_c(d):
                    out[k] = ((lambda nm: lambda L: tm.farr(nm, (L,), ()))(name), L0, d)
        return out

    def set_lev(self, s, t):
        for k, (g, L0, d) in self.lev.items():
            s.mem[k] = g(add(L0, mul(d, t)))

    def imin(self, a, b):
        ctx = self.st.ctx()
        if pv.prove(le(a, b), ctx):
            return a
        if pv.prove(le(b, a), ctx):
            return b
        return ite(lt(a, b), a, b)

    def trip(self, b, t, symset):
        """number of leading iterations for which b holds (TRUE: always), or None"""
        if atoms_of(b) & symset:
            return None
        if t not in atoms_of(b):
            if pv.prove(b, self.st.ctx()):
                return TRUE
            return None
        neg = False
        if b.op == 'not':
            neg, b = True, b.a[0]
        if b.op not in ('lt0', 'eq0') or (b.op == 'lt0' and neg) or (b.op == 'eq0' and not neg):
            return None
        p = ip_of(b.a[0])
        k = p.get(((t, 1),), 0)
        al = {m: c for m, c in p.items() if m != ((t, 1),)}
        if any(t in atoms_of(z) for m in al for z, e in m):
            # coefficient of t may be a product (symbolic step)
            return None
        if k == 0:
            return None
        A = ip_mk(al)
        if b.op == 'lt0':
            if k < 0:
                if pv.prove(lt(A, I(0)), self.st.ctx()):
                    return TRUE
                return None
            if k == 1:
                return sub(I(0), A)
            num = add(sub(I(0), A), I(k - 1))
            if not pv.prove(le(I(0), num), self.st.ctx()):
                num = ite(lt(num, I(0)), I(0), num)
            return tm.idiv(num, I(k))
        if abs(k) == 1:
            N = mul(I(-k), A)
            if not pv.prove(le(I(0), N), self.st.ctx()):
                return None
            return N
        return None

    # ---------------------------------------------------------------- closed forms
    def solve(self):
        """closed[key]: function n -> value at the start of iteration n (n an integer term)"""
        ex, st, t = self.ex, self.st, self.t
        self.closed = {}
        self.at_t = {}          # symbol -> value at start of iteration t
        sym, n = self.sym, self.n
        self.order = []
        self.owner = {}
        for k, v in sym.items():
            for i, x in enumerate(parts(v)):
                self.owner[x] = (k, i)
        self.pending = {k for k in sym}
        self.partial = {}       # (key,i) -> function n -> term
        if n is None:
            for k in list(self.pending):
                v0 = st.mem[k]
                self.closed[k] = (lambda v0: lambda q: v0)(v0)
                for x, y in zip(parts(sym[k]), parts(v0)):
                    self.at_t[x] = y
            return
        # traces and whole-value kinds first
        for k in list(self.pending):
            v, w, v0 = sym[k], n.mem.get(k), st.mem[k]
            if isinstance(v, Trace):
                self.pending.discard(k)
                if isinstance(w, Trace) and w.base == v.base:
                    self.closed[k] = ('trace', w.items)
                else:
                    self.closed[k] = (lambda q: Undef())
            elif isinstance(v, Undef) or not parts(v) or type(w) is not type(v):
                self.pending.discard(k)
                if same_val(w, v0) and not isinstance(v0, Undef):
                    self.closed[k] = (lambda v0: lambda q: v0)(v0)
                elif isinstance(v0, Undef) and isinstance(w, (T, Cx)):
                    self.closed[k] = ('late', w)
                else:
                    self.closed[k] = (lambda q: Undef())
        comps_ = {(k, i) for k in self.pending for i in range(len(parts(sym[k])))}
        self.unsolved = {parts(sym[k])[i] for k, i in comps_}
        prog = True
        while prog and comps_:
            prog = False
            for (k, i) in sorted(comps_, key=lambda z: (str(z[0]), z[1])):
                x = parts(sym[k])[i]
                f = parts(n.mem[k])[i] if len(parts(n.mem[k])) > i else None
                x0 = parts(st.mem[k])[i]
                if f is None:
                    continue
                f = self.close(f)
                g = self.closed_scalar(x, f, x0) if x.s != 'A' else self.closed_array(k, x, f, x0)
                if g is None:
                    continue
                self.partial[(k, i)] = g
                self.at_t[x] = g(t)
                self.unsolved.discard(x)
                comps_.discard((k, i))
                prog = True
            if not prog and comps_:
                done = self.mirrors(comps_) or self.groups(comps_)
                if done:
                    comps_ -= done
                    prog = True
        # simultaneous accumulators etc. that stay open: opaque sequences
        if comps_:
            self.sequences(comps_)
        for k in list(self.pending):
            v = sym[k]
            gs = [self.partial[(k, i)] for i in range(len(parts(v)))]
            self.closed[k] = (lambda v, gs: lambda q: rebuildv(v, [g(q) for g in gs]))(v, gs)
        self.pending = set()
        for k, c in list(self.closed.items()):
            if isinstance(c, tuple) and c[0] == 'trace':
                items = tuple(self.close_item(x) for x in c[1])
                self.closed[k] = self.trace_fn(st.mem[k], items)
            elif isinstance(c, tuple) and c[0] == 'late':
                w = c[1]
                ps = [self.close(x) for x in parts(w)]
                self.closed[k] = self.late_fn(w, ps)

    def late_fn(self, w, ps):
        t, ctx = self.t, self.st.ctx()

        def f(q):
            v = rebuildv(w, [subst(p, {t: sub(q, I(1))}) for p in ps])
            if pv.prove(lt(I(0), q), ctx):
                return v
            return Undef()
        return f

    def trace_fn(self, v0, items):
        t = self.t

        def f(q):
            if q is I(0) or not items:
                return v0
            s = tm.fresh('s', 'I')
            return v0.plus(('loop', s, q, trace_subst(items, {t: s})))
        return f

    def close_item(self, x):
        if isinstance(x, T):
            return self.close(x)
        if isinstance(x, Trace):
            return Trace(x.base, tuple(self.close_item(y) for y in x.items))
        if isinstance(x, tuple):
            return tuple(self.close_item(y) for y in x)
        if isinstance(x, Cx):
            return Cx(self.close(x.re), self.close(x.im))
        return x

    def close(self, f):
        """replace the symbols already solved by their value at the start of iteration t"""
        m = {x: v for x, v in self.at_t.items() if x in atoms_of(f)}
        if not m:
            return f
        r = subst(f, m)
        r = pv.resolve(r, self.n.ctx() if self.n is not None else self.s.ctx())
        return mod_tests(r, self.st.ctx()) if r.s != 'A' else r

    def open_in(self, f):
        return atoms_of(f) & self.unsolved

    def closed_scalar(self, x, f, x0):
        t = self.t
        if f is x:
            return lambda q: x0
        op = self.open_in(f)
        if not op:
            # plain assignment
            def g(q):
                if q is I(0):
                    return x0
                v = subst(f, {t: sub(q, I(1))})
                if t not in atoms_of(f) and f is x0:
                    return x0
                if pv.prove(lt(I(0), q), self.st.ctx()):
                    return v
                return ite(eq(q, I(0)), x0, v) if not pv.prove(eq(q, I(0)), self.st.ctx()) else x0
            return g
        if op == {x}:
            G = addend(f, x)
            if G is not None and x not in atoms_of(G):
                if x.s == 'I':
                    return self.int_sum(x0, G)
                if t not in atoms_of(G):
                    return lambda q: add(x0, mul(tm.toreal(q), G))

                def g(q):
                    s = tm.fresh('s', 'I')
                    return add(x0, tm.summ(s, I(0), q, subst(G, {t: s})))
                return g
            if x.s == 'I' and f.op == 'ite':
                g = self.cyclic(x, f, x0)
                if g is not None:
                    return g
            mx = self.maxfold(x, f)
            if mx is not None:
                vs, ranges, bd, sign = mx

                def g(q):
                    fr = {v: tm.fresh('m', 'I') for v in vs}
                    s = tm.fresh('m', 'I')
                    fr[t] = s
                    nvs = (s,) + tuple(fr[v] for v in vs)
                    nr = ((I(0), q),) + tuple((subst(a, fr), subst(b, fr)) for a, b in ranges)
                    z0 = x0 if sign > 0 else mul(R(-1), x0)
                    r = mk('maxf', (z0, nvs, nr, subst(bd, fr)), x.s)
                    return r if sign > 0 else mul(R(-1), r)
                return g
        return None

    def cyclic(self, x, f, x0):
        """a counter that wraps around:  x -> (x+1 == T ? 0 : x+1)  or  x -> (x-1 == 0 ? T : x-1)"""
        t, c0 = self.t, self.st.ctx()
        if t in atoms_of(f):
            return None
        for c, a, b in ((f.a[0], f.a[1], f.a[2]), (nott(f.a[0]), f.a[2], f.a[1])):
            if x in atoms_of(a):
                continue
            step = sub(b, x)
            if not is_c(step) or cval(step) not in (1, -1):
                continue
            if cval(step) == 1:
                # wraps to 0 after T-1; T from the condition
                if a is not I(0):
                    continue
                c = pv.resolve(c, c0.add(le(I(0), x)))
                d = c.a[0] if c.op in ('eq0', 'lt0') else c.a[0].a[0] if c.op == 'not' and c.a[0].op == 'lt0' else None
                if d is None:
                    continue
                k = sub(subst(d, {x: I(1)}), subst(d, {x: I(0)}))
                if not is_c(k) or cval(k) not in (1, -1):
                    continue
                z = mul(I(-int(cval(k))), subst(d, {x: I(0)}))       # d = 0 at x = z
                for T_ in (add(z, I(1)), add(z, I(2)), z):
                    cx = c0.add(le(I(0), x), lt(x, T_))
                    if x in atoms_of(T_) or not pv.prove(lt(I(0), T_), c0) or not pv.prove(andd(le(I(0), x0), lt(x0, T_)), c0):
                        continue
                    if pv.prove(eq(x, sub(T_, I(1))), cx.add(c)) and pv.prove(c, cx.add(eq(x, sub(T_, I(1))))):
                        return lambda q: tm.imod(add(q, x0), T_)
            else:
                T_ = a
                if not pv.prove(lt(I(0), T_), c0) or not pv.prove(andd(lt(I(0), x0), le(x0, T_)), c0):
                    continue
                cx = c0.add(lt(I(0), x), le(x, T_))
                c = pv.resolve(c, cx)
                if pv.prove(eq(x, I(1)), cx.add(c)) and pv.prove(c, cx.add(eq(x, I(1)))):
                    return lambda q: sub(T_, tm.imod(add(q, sub(T_, x0)), T_))
        return None

    def int_sum(self, x0, G):
        """x0 + sum_{s<q} G(s) for integers"""
        t = self.t
        if t not in atoms_of(G):
            return lambda q: add(x0, mul(q, G))
        # conditional counter: [ (t+d) mod k == 0 ]
        if G.op == 'ite' and is_c(G.a[1]) and is_c(G.a[2]):
            c, a, b = G.a
            a, b = cval(a), cval(b)
            if a == 0:
                c, a, b = nott(c), b, a
            if b == 0 and c.op == 'eq0' and c.a[0].op == 'imod':
                u, k = c.a[0].a
                d = sub(u, t)
                if t not in atoms_of(d) and t not in atoms_of(k) and pv.prove(le(I(1), d), self.st.ctx()) and pv.prove(lt(I(0), k), self.st.ctx()):
                    dm = sub(d, I(1))
                    base = tm.idiv(dm, k) if not (is_c(dm) and cval(dm) == 0) else I(0)

                    def g(q):
                        # multiples of k among d .. d+q-1
                        return add(x0, mul(I(a), sub(tm.idiv(add(q, dm), k), base)))
                    return g
        return None

    def maxfold(self, x, f):
        """f = max(x, e): returns (vs, ranges, body, sign)"""
        # nested fold
        if f.op == 'maxf':
            init, vs, ranges, bd = f.a
            if init is x and x not in atoms_of(bd) and not any(x in atoms_of(a) or x in atoms_of(b) for a, b in ranges):
                return vs, ranges, bd, 1
            return None
        if f.op == 'ite':
            c, a, b = f.a
            neg = False
            if c.op == 'not':
                c, a, b = c.a[0], b, a
            if c.op in ('rlt', 'lt0'):
                if c.op == 'rlt':
                    u, v = c.a
                else:
                    return None
                # ite(u<v, v, u) = max ; ite(u<v, u, v) = min
                if u is x and v is a and b is x and x not in atoms_of(v):
                    return (), (), v, 1
                if v is x and u is b and a is x and x not in atoms_of(u):
                    return (), (), u, 1
            # guarded:  ite(g, max(x,e), x)
            for g, y, z in ((f.a[0], f.a[1], f.a[2]), (nott(f.a[0]), f.a[2], f.a[1])):
                if z is x and x not in atoms_of(g):
                    r = self.maxfold(x, y)
                    if r is not None and r[3] == 1:
                        vs, ranges, bd, sg = r
                        return vs, ranges, mk('ite', (g, bd, mk('v', ('-inf',), 'R')), 'R'), 1
        return None

    # ---------------------------------------------------------------- arrays
    def closed_array(self, k, X, f, x0):
        t = self.t
        if f is X:
            return lambda q: x0
        ctx = self.n.ctx()
        if X not in atoms_of(f):
            if self.open_in(f):
                return None

            def g(q):
                if q is I(0):
                    return x0
                v = subst(f, {t: sub(q, I(1))})
                if pv.prove(lt(I(0), q), self.st.ctx()):
                    return v
                return tm.aite(eq(q, I(0)), x0, v)
            return g
        if self.open_in(f) - {X}:
            return None
        W = flatten(f, X)
        if W is None:
            return None
        W = dedupe(W)
        # 1. accumulation into cells that do not move with t
        acc = self.accumulate(X, W, x0)
        if acc is not None:
            return acc
        # 2. the same cells overwritten in every iteration
        ow = self.overwrite(X, W, x0)
        if ow is not None:
            return ow
        # 3. different iterations write different cells
        r = self.closed_group([(X, W, x0)])
        return r[0] if r is not None else None

    def closed_group(self, grp):
        """arrays written in every iteration, reading each other: [(X, writes, x0)] -> list of closed forms or None"""
        t = self.t
        ctx = self.n.ctx()
        for X, W, x0 in grp:
            for i, (vs, rs, idx, val, g) in enumerate(W):
                for (vs2, rs2, idx2, val2, g2) in W[i:]:
                    if not self.disjoint_iters((vs, rs, idx, g), (vs2, rs2, idx2, g2)):
                        return None
        name = '%s@%s' % (grp[0][0].a[0], t.a[0])
        rw = Rewriter(self, {X: (W, x0) for X, W, x0 in grp}, name)
        outs = []
        try:
            for X, W, x0 in grp:
                out = []
                for (vs, rs, idx, val, g) in W:
                    cx = ctx.add(*pv.rng_facts(vs, rs))
                    g2 = rw.term(g, cx)
                    v2 = rw.term(val, cx.add(g2) if g2 is not TRUE else cx)
                    out.append((vs, rs, idx, v2, g2))
                outs.append(out)
        except Open:
            return None
        if rw.rec_used and (len(grp) != 1 or len(outs[0]) != 1):
            return None
        fs = []
        for (X, W, x0), out in zip(grp, outs):
            fs.append(self.builder(x0, out))
        if rw.rec_used:
            build = fs[0]
            pv.REC_DEF[name] = build(self.N)
            N = self.N

            def g3(q):
                if q is N:
                    return tm.rec(name)
                return build(q)
            return [g3]
        return fs

    def builder(self, x0, out):
        t = self.t

        def build(q):
            A = x0
            s = tm.fresh('k', 'I')
            m = {t: s}
            for (vs, rs, idx, v, g) in out:
                fr = dict(m)
                for u in vs:
                    fr[u] = tm.fresh('k', 'I')
                b = self.blocked(s, q, vs, rs, idx, v, g, m) if q is self.N else None
                if b is not None:
                    A = tm.fam(A, *b)
                    continue
                A = tm.fam(A, (s,) + tuple(fr[u] for u in vs),
                           ((I(0), q),) + tuple((subst(a, fr), subst(b, fr)) for a, b in rs),
                           tuple(subst(z, fr) for z in idx), subst(v, fr), subst(g, fr))
            return A
        return build

    def blocked(self, s, N, vs, rs, idx, val, g, m):
        """a range taken in consecutive blocks [lo(k), hi(k)) with lo(k+1) = hi(k) is the one range from lo(0) to hi(N-1)"""
        if len(vs) != 1 or len(idx) != 1 or g is not TRUE or s in atoms_of(N):
            return None
        u, (lo, hi) = vs[0], rs[0]
        if self.t not in atoms_of(lo) | atoms_of(idx[0]) or self.t not in atoms_of(sub(hi, lo)):
            return None          # blocks of one fixed length stay a two-index range
        w = tm.fresh('k', 'I')
        off = sub(idx[0], u)
        if u in atoms_of(off):
            return None
        v = subst(val, {u: sub(w, off)})
        if self.t in atoms_of(v):
            return None
        lo, hi = add(lo, off), add(hi, off)
        at = lambda e, k: subst(e, {self.t: k})
        cx = self.st.ctx()
        one = cx.add(le(I(0), s), lt(s, N))
        if not pv.prove(le(at(lo, s), at(hi, s)), one):
            return None
        if not pv.prove(eq(at(lo, add(s, I(1))), at(hi, s)), one.add(lt(add(s, I(1)), N))):
            return None
        last = at(hi, sub(N, I(1)))
        caps = []
        todo = [hi]
        while todo:
            c = todo.pop()
            if c.op == 'ite':
                caps += [x for x in c.a[1:] if self.t not in atoms_of(x)]
            todo += tm.children(c)
        for top in caps + [add(x, off) for x in caps if self.t not in atoms_of(off)] + [last]:
            if top is not last and not pv.prove(eq(top, last), cx.add(lt(I(0), N))):
                continue
            if not pv.prove(le(top, at(lo, I(0))), cx.add(le(N, I(0)))):
                continue
            return (w,), ((at(lo, I(0)), top),), (w,), v, TRUE
        return None

    def mirrors(self, comps_):
        """scalars that repeat the cells an array received in the last iterations (x = v where the same iteration stores
        v; y = x): they are those cells, and the array is defined by recursion on itself"""
        sym, n, st, t = self.sym, self.n, self.st, self.t
        nxt = {}
        for (k, i) in comps_:
            if len(parts(n.mem[k])) > i:
                nxt[parts(sym[k])[i]] = (k, i, self.close(parts(n.mem[k])[i]), parts(st.mem[k])[i])
        for X, (k, i, f, x0) in nxt.items():
            if X.s != 'A' or k[-1] in ('#n', '#alive'):
                continue
            W = flatten(f, X)
            W = dedupe(W) if W is not None else None
            if not W or len(W) != 1 or W[0][0] or W[0][4] is not TRUE:
                continue
            vs, rs, idx, val, g = W[0]
            mir = {}
            for x, (kx, ix, fx, z0) in nxt.items():
                if x.s != 'A' and fx is val:
                    mir[x] = (z0, tm.sel(X, tuple(subst(z, {t: sub(t, I(1))}) for z in idx)), 1)
            more = bool(mir)
            while more:
                more = False
                for y, (ky, iy, fy, z0) in nxt.items():
                    if y not in mir and fy in mir:
                        d = mir[fy][2]
                        if d > 3:
                            continue
                        mir[y] = (z0, ite(eq(t, I(1)), mir[fy][0], subst(mir[fy][1], {t: sub(t, I(1))})), d + 1)
                        more = True
            if not mir:
                continue
            m = {x: ite(eq(t, I(0)), z0, e) for x, (z0, e, d) in mir.items()}
            v2 = subst(val, m)
            if atoms_of(v2) & set(mir) or (self.open_in(v2) - {X}):
                continue
            r = self.closed_group([(X, [(vs, rs, idx, v2, g)], x0)])
            if r is None:
                continue
            build = r[0]
            done = {(k, i)}
            self.partial[(k, i)] = build
            self.at_t[X] = build(t)
            self.unsolved.discard(X)
            for x in mir:
                kx, ix = nxt[x][0], nxt[x][1]
                h = (lambda e: lambda q: subst(subst(e, {X: build(q)}), {t: q}))(m[x])
                self.partial[(kx, ix)] = h
                self.at_t[x] = h(t)
                self.unsolved.discard(x)
                done.add((kx, ix))
            return done
        return None

    def groups(self, comps_):
        """solve sets of arrays that read each other"""
        sym, n, st = self.sym, self.n, self.st
        arrs = {}
        for (k, i) in comps_:
            x = parts(sym[k])[i]
            if x.s == 'A' and len(parts(n.mem[k])) > i:
                arrs[x] = (k, i, self.close(parts(n.mem[k])[i]))
        dep = {x: self.open_in(f) for x, (k, i, f) in arrs.items()}
        for x in arrs:
            cl = {x}
            todo = [x]
            while todo:
                for y in dep.get(todo.pop(), ()):
                    if y not in cl:
                        cl.add(y)
                        todo.append(y)
            if not all(y in arrs for y in cl) or len(cl) < 2:
                continue
            grp = []
            for y in sorted(cl, key=lambda z: z.id):
                k, i, f = arrs[y]
                W = flatten(f, y)
                if W is None:
                    grp = None
                    break
                grp.append((y, dedupe(W), parts(st.mem[k])[i]))
            if not grp:
                continue
            r = self.closed_group(grp)
            if r is None:
                continue
            done = set()
            for (y, W, x0), g in zip(grp, r):
                k, i, f = arrs[y]
                self.partial[(k, i)] = g
                self.at_t[y] = g(self.t)
                self.unsolved.discard(y)
                done.add((k, i))
            return done
        return None

    def accumulate(self, X, W, x0):
        t = self.t
        if len(W) != 1:
            return None
        vs, rs, idx, val, g = W[0]
        if any(t in atoms_of(z) for z in idx) or any(t in atoms_of(a) or t in atoms_of(b) for a, b in rs):
            return None
        cell = tm.sel(X, idx)
        if X not in atoms_of(val):
            return None
        z = tm.fresh('acc', 'R')
        v2 = replace_node(val, cell, z)
        if X in atoms_of(v2):
            return None
        G = addend(v2, z)
        if G is None or z in atoms_of(G) or X in atoms_of(g):
            return None
        if g is not TRUE:
            G = ite(g, G, R(0))

        def f(q):
            fr = {u: tm.fresh('k', 'I') for u in vs}
            s = tm.fresh('s', 'I')
            fr2 = dict(fr)
            fr2[t] = s
            ix = tuple(subst(y, fr) for y in idx)
            v = add(tm.sel(x0, ix), tm.summ(s, I(0), q, subst(G, fr2)))
            if not vs:
                return tm.store(x0, ix, v)
            return tm.fam(x0, tuple(fr[u] for u in vs), tuple((subst(a, fr), subst(b, fr)) for a, b in rs), ix, v)
        return f

    def overwrite(self, X, W, x0):
        t = self.t
        for vs, rs, idx, val, g in W:
            if any(t in atoms_of(z) for z in idx) or any(t in atoms_of(a) or t in atoms_of(b) for a, b in rs) or t in atoms_of(g):
                return None
            if X in atoms_of(val) or X in atoms_of(g):
                return None

        def f(q):
            if q is I(0):
                return x0
            A = x0
            for vs, rs, idx, val, g in W:
                v = subst(val, {t: sub(q, I(1))})
                A = tm.fam(A, vs, rs, idx, v, g) if vs or g is not TRUE else tm.store(A, idx, v)
            if pv.prove(lt(I(0), q), self.st.ctx()):
                return A
            return tm.aite(eq(q, I(0)), x0, A)
        return f

    def renamed(self, w):
        vs, rs, idx, g = w
        t = self.t
        s = tm.fresh('k', 'I')
        fr = {t: s}
        for u in vs:
            fr[u] = tm.fresh('k', 'I')
        return s, tuple(fr[u] for u in vs), tuple((subst(a, fr), subst(b, fr)) for a, b in rs), \
            tuple(subst(z, fr) for z in idx), subst(g, fr)

    def base_ctx(self, *fs):
        return self.st.ctx().add(*fs)

    def disjoint_iters(self, w1, w2):
        """cells written by w1 at t and by w2 at s, s != t, are different"""
        t, N = self.t, self.N
        vs, rs, idx, g = w1
        s, ws, rs2, idx2, g2 = self.renamed(w2)
        cx = self.base_ctx(le(I(0), t), lt(t, N), le(I(0), s), lt(s, N), *pv.rng_facts(vs, rs, strip_arr(g)))
        cx = cx.add(*pv.rng_facts(ws, rs2, strip_arr(g2)))
        return disjoint(t, s, vs, ws, idx, idx2, cx)

    # ---------------------------------------------------------------- sequences
    def sequences(self, comps_):
        """mutually dependent state without closed form: a sequence defined by its step function"""
        ex, st, t = self.ex, self.st, self.t
        base = 'seq%d' % next(ex.tmp_ctr)
        defs = {}
        cs = sorted(comps_, key=lambda z: (str(z[0]), z[1]))
        for (k, i) in cs:
            x = parts(self.sym[k])[i]
            name = '%s:%s' % (base, x.a[0])
            x0 = parts(st.mem[k])[i]
            if x.s == 'A':
                es = tm.esort(x)
                g = (lambda name, es, x0: lambda q: x0 if q is I(0) else tm.farr(name, (q,), (), es))(name, es, x0)
            else:
                g = (lambda name, s, x0: lambda q: x0 if q is I(0) else tm.app(name, q, s=s))(name, x.s, x0)
            self.partial[(k, i)] = g
            if x.s == 'A':
                self.at_t[x] = tm.farr(name, (t,), (), tm.esort(x))
            else:
                self.at_t[x] = tm.app(name, t, s=x.s)
            defs[name] = (k, i, x, x0)
        self.unsolved -= {d[2] for d in defs.values()}
        for name, (k, i, x, x0) in defs.items():
            step = self.close(parts(self.n.mem[k])[i])
            ex.seq_defs[name] = {'key': k, 'part': i, 'init': x0, 't': t, 'N': self.N, 'step': step, 'group': base,
                                 'facts': self.st.facts + self.st.br}

    # ---------------------------------------------------------------- end of the loop
    def finish(self, mkF, keep):
        ex, st, node, t, N = self.ex, self.st, self.node, self.t, self.N
        m = self.at_t
        # obligations, accesses and exits recorded in the body
        for j in range(mkF[0], len(ex.obs)):
            o = ex.obs[j]
            if o.goal is TRUE:
                continue
            o.goal = subst(o.goal, {x: v for x, v in m.items() if x in atoms_of(o.goal)})
            o.facts = tuple(subst(f, {x: v for x, v in m.items() if x in atoms_of(f)}) for f in o.facts)
        for j in range(mkF[1], len(ex.logging)):
            a = ex.logging[j]
            if a.idx:
                a.idx = tuple(subst(z, {x: v for x, v in m.items() if x in atoms_of(z)}) for z in a.idx)
            a.facts = tuple(subst(f, {x: v for x, v in m.items() if x in atoms_of(f)}) for f in a.facts)
        if self.par is not None and not ex.dry:
            self.par_check(mkF)
        fst = st.fork()
        self.set_ind(fst, self.ind, N)
        self.set_lev(fst, N)
        for k in self.sym:
            fst.mem[k] = self.closed[k](N)
        if self.n is None:
            # every iteration leaves the loop: it runs at most once
            pass
        flows = []
        if self.early:
            conds = []
            nb = len(st.br)
            for f in self.early:
                c = andd(*[self.close_cond(b, f.st) for b in f.st.br[nb:]])
                conds.append(c)
            e = orr(*conds)
            v = tm.fresh('f', 'I')
            tau = tm.first(v, N, pv.resolve(subst(e, {t: v}), st.ctx().add(le(I(0), v), lt(v, N))))
            for f, c in zip(self.early, conds):
                q = f.st.fork()
                q.br = st.br + (lt(tau, N),) + ((subst(c, {t: tau}),) if len(self.early) > 1 else ())
                q.facts = st.facts + tuple(self.sub_tau(x, tau) for x in f.st.facts[len(st.facts):]) + (le(I(0), tau), self.sub_tau(c, tau))
                q._ctx = None
                for k, w in list(q.mem.items()):
                    q.mem[k] = self.val_close(w, tau, q)
                val = f.val
                if isinstance(val, (T, Cx)):
                    val = self.val_close(val, tau, q)
                flows.append(Flow('n' if f.kind == 'brk' else f.kind, q, val))
            for x in ex.exits[mkF[2]:]:
                pass
            fst.branch(nott(lt(tau, N)))
            fst.assume(eq(tau, N))
        c = self.condf(fst)
        if c is not FALSE:
            ex.oblig('loop-exit', nott(c), fst, node)
        simp_mem(fst, (nott(c),))
        flows.append(Flow('n', fst))
        return ex.join(flows)

    def close_cond(self, b, s):
        mm = {x: v for x, v in self.at_t.items() if x in atoms_of(b)}
        return pv.resolve(subst(b, mm), self.s.ctx()) if mm else b

    def sub_tau(self, x, tau):
        mm = {y: v for y, v in self.at_t.items() if y in atoms_of(x)}
        return subst(subst(x, mm), {self.t: tau})

    def val_close(self, w, tau, q):
        if isinstance(w, Trace) and isinstance(w.base, tuple) and w.base and w.base[0] == 'sym':
            k = w.base[1]
            if k in self.sym and isinstance(self.sym[k], Trace) and self.sym[k].base == w.base:
                pre = self.closed[k](tau)
                if isinstance(pre, Trace):
                    items = tuple(self.close_item(x) for x in w.items)
                    return pre.plus(*trace_subst(items, {self.t: tau}))
                return Undef()
        if isinstance(w, T):
            return self.sub_tau(w, tau)
        if isinstance(w, Cx):
            return Cx(self.sub_tau(w.re, tau), self.sub_tau(w.im, tau))
        if isinstance(w, Ptr):
            return Ptr(w.path, self.sub_tau(w.off, tau))
        if isinstance(w, Trace):
            mm = dict(self.at_t)
            return Trace(w.base, trace_subst(trace_subst(w.items, mm), {self.t: tau}))
        return w

    # ---------------------------------------------------------------- data races
    def par_check(self, mkF):
        ex, st, t, N = self.ex, self.st, self.t, self.N
        par = self.par
        pre = set(st.mem)
        prebase = set()
        for k in pre:
            prebase.add(k)
            if str(k[-1]).startswith('#'):
                prebase.add(k[:-1])
        acc = ex.logging[mkF[1]:]
        if not par.get('keeplog'):
            pass
        red = par['reduction']
        priv = par['private']
        scratch = par.get('scratch', ())
        own = {k[:-1] for k in scratch if str(k[-1]).startswith('#')}
        # scalar state shared between iterations
        for k in self.sym:
            nm = k[-1]
            if k in scratch or (nm in priv and k[0] == 'l'):
                continue
            v = self.sym[k]
            if str(k[-1]) in ('#d', '#re', '#im'):
                continue
            w = self.n.mem.get(k) if self.n is not None else None
            if w is not None and same_val(w, v):
                continue
            if nm in red and k[0] == 'l':
                ok = self.reduction_ok(k, red[nm])
                ex.oblig('reduction', TRUE if ok else tm.var('unproved', 'B'), st, self.node, str(nm))
                continue
            if k[0] == 't':
                continue
            ex.oblig('race', FALSE, self.s, self.node, 'iterations share the variable %s' % '.'.join(str(z) for z in k[-2:]))
        for nm in red:
            pass
        # array cells
        writes = {}
        alls = {}
        for a in acc:
            if not a.idx and a.idx is not None:
                continue        # scalars were handled above
            if a.path not in prebase:
                continue
            if a.path in own or (a.path[0] == 'l' and a.path[-1] in priv):
                continue
            key = (a.path, a.idx, a.rw)
            alls.setdefault(a.path, {})[(a.idx, a.rw)] = a
        for path, d in alls.items():
            ws = [a for (i, rw), a in d.items() if rw == 'w']
            if not ws:
                continue
            for w in ws:
                for a in d.values():
                    if a.rw == 'w' and id(a) < id(w):
                        continue
                    self.race_pair(w, a, path)

    def reduction_ok(self, k, op):
        f = parts(self.n.mem[k])
        x = parts(self.sym[k])
        for a, b in zip(f, x):
            if op == '+':
                G = addend(a, b)
                if G is None or b in atoms_of(G):
                    return False
            elif op in ('max',):
                if self.maxfold(b, a) is None:
                    return False
            else:
                return False
        return True

    def race_pair(self, w, a, path):
        ex, st, t, N = self.ex, self.st, self.t, self.N
        from .exec import pname
        nm = pname(path)
        if w.idx is None or a.idx is None:
            ex.oblig('race', FALSE, self.s, self.node, '%s written as a whole by concurrent iterations' % nm)
            return
        nf = len(st.facts) + len(st.br)
        base = set(st.facts + st.br)
        f1 = [f for f in w.facts]
        f2 = [f for f in a.facts if f not in base]
        # rename everything that is not known before the loop
        known = set()
        for f in base:
            known |= atoms_of(f)
        free = set()
        for f in f2:
            free |= atoms_of(f)
        for z in a.idx:
            free |= atoms_of(z)
        ren = {}
        for v in free:
            if v.op == 'v' and (v is t or ('!' in str(v.a[0]) and v not in known)):
                ren[v] = tm.fresh('k', v.s)
        s = ren.setdefault(t, tm.fresh('k', 'I'))
        idx2 = tuple(subst(z, ren) for z in a.idx)
        f2 = [subst(f, ren) for f in f2]
        cx = pv.Ctx(tuple(f1) + tuple(f2)).add(le(I(0), s), lt(s, N), le(I(0), t), lt(t, N))
        vs = tuple(v for v in sorted({x for z in w.idx for x in atoms_of(z)}, key=lambda q: q.id) if v is not t and v in ren)
        ok = pv.radix_match(w.idx, idx2, t, s, cx) or disjoint(t, s, vs, tuple(ren[v] for v in vs), w.idx, idx2, cx)
        goal = TRUE if ok else nott(andd(*[eq(x, y) for x, y in zip(w.idx, idx2)]))
        if not ex.dry:
            ex.obs.append(Ob('race', goal, tuple(cx.facts) + (tm.ne(t, s),), w.where, ex.fn(),
                             '%s: %s in one iteration against %s in another' % (nm, 'write', 'write' if a.rw == 'w' else 'read')))


def disjoint(t, s, vs, ws, idx, idx2, cx):
    """idx(t,vs) = idx2(s,ws) implies t = s"""
    if len(idx) != len(idx2):
        return None
    if len(vs) == len(ws) and pv.forces_equal(idx, [t] + list(vs), idx2, [s] + list(ws), cx):
        return True
    if pv.forces_equal(idx, [t], idx2, [s], cx):
        return True
    if pv.differ(idx, idx2, cx):
        return True
    a, b = cx.add(lt(t, s)), cx.add(lt(s, t))
    if pv.differ(idx, idx2, a) and pv.differ(idx, idx2, b):
        return True
    return None


def strip_arr(g):
    return g


class Open(Exception):
    pass


class Rewriter:
    """rewrites reads of the loop-modified array X at the start of iteration t in terms of the initial array x0 or of
    the recursively defined final array"""

    def __init__(self, L, X, name):
        self.L, self.X = L, X
        self.keys = frozenset(X)
        self.rec = tm.rec(name)
        self.rec_used = False
        self.memo = {}

    def term(self, u, ctx):
        if not (atoms_of(u) & self.keys):
            return u
        op = u.op
        if op == 'sel':
            A, idx = u.a
            idx = tuple(self.term(z, ctx) for z in idx)
            if A in self.keys:
                return self.read(A, idx, ctx)
            r = pv.resolve(tm.sel(A, idx), ctx)
            if r is not u:
                return self.term(r, ctx)
            return tm.sel(self.arr(A, ctx), idx)
        if op == 'ite':
            c = self.term(u.a[0], ctx)
            return ite(c, self.term(u.a[1], ctx.add(c)), self.term(u.a[2], ctx.add(nott(c))))
        if op == 'sum':
            v, lo, hi, bd = u.a
            lo, hi = self.term(lo, ctx), self.term(hi, ctx)
            return tm.summ(v, lo, hi, self.term(bd, ctx.add(le(lo, v), lt(v, hi))))
        if op == 'maxf':
            init, vs, rs, bd = u.a
            cx = ctx.add(*pv.rng_facts(vs, rs))
            return mk('maxf', (self.term(init, ctx), vs, tuple((self.term(a, ctx), self.term(b, ctx)) for a, b in rs), self.term(bd, cx)), u.s)
        if op == 'first':
            v, hi, c = u.a
            return tm.first(v, self.term(hi, ctx), self.term(c, ctx.add(le(I(0), v), lt(v, hi))))
        if u.s == 'A':
            return self.arr(u, ctx)
        return tm.rebuild(u, lambda z: self.term(z, ctx))

    def arr(self, A, ctx):
        if not (atoms_of(A) & self.keys):
            return A
        op = A.op
        if A in self.keys:
            raise Open()
        if op == 'fam':
            B, vs, rs, idx, val, g = A.a
            cx = ctx.add(*pv.rng_facts(vs, rs, g if not (atoms_of(g) & self.keys) else TRUE))
            return tm.fam(self.arr(B, ctx), vs, tuple((self.term(a, ctx), self.term(b, ctx)) for a, b in rs),
                          tuple(self.term(z, cx) for z in idx), self.term(val, cx), self.term(g, cx))
        if op == 'st':
            B, idx, val = A.a
            return tm.store(self.arr(B, ctx), tuple(self.term(z, ctx) for z in idx), self.term(val, ctx))
        if op == 'acst':
            return tm.aconst(self.term(A.a[0], ctx))
        if op == 'aite':
            c = self.term(A.a[0], ctx)
            return tm.aite(c, self.arr(A.a[1], ctx.add(c)), self.arr(A.a[2], ctx.add(nott(c))))
        if op == 'farr':
            name, scal, arrs, es = A.a
            out = []
            for (B, vs, rs, idx) in arrs:
                if not (atoms_of(B) & self.keys):
                    out.append((B, vs, rs, idx))
                    continue
                cx = ctx.add(*pv.rng_facts(vs, rs))
                v = self.term(pv.resolve(tm.sel(B, idx), cx), cx)
                if B in self.keys and v.op == 'sel' and v.a[0] is self.X[B][1] and v.a[1] == idx:
                    out.append((self.X[B][1], vs, rs, idx))
                else:
                    out.append((tm.fam(tm.aconst(tm.num(0, 'R')), vs, rs, idx, v), vs, rs, idx))
            return tm.farr(name, tuple(self.term(z, ctx) if isinstance(z, T) else z for z in scal), tuple(out), es)
        raise Open()

    def read(self, X, idx, ctx):
        key = (X, idx, ctx.facts)
        r = self.memo.get(key)
        if r is None:
            r = self.memo[key] = self._read(X, idx, ctx)
        return r

    def _read(self, X, idx, ctx):
        W, x0 = self.X[X]
        L, t, N = self.L, self.L.t, self.L.N
        before = True
        for (vs, rs, ix, val, g) in W:
            s, ws, rs2, ix2, g2 = L.renamed((vs, rs, ix, g if not (atoms_of(g) & self.keys) else TRUE))
            cx = ctx.add(le(I(0), s), lt(s, t), *pv.rng_facts(ws, rs2, g2))
            if not (pv.differ(ix2, idx, cx) or excluded(ix2, idx, cx) or
                    (self.cells_of(idx, vs, rs, ix, s, ws, ix2, cx))):
                before = False
                break
        if before:
            return pv.resolve(tm.sel(x0, idx), ctx)
        # certainly not written now or later: the final value
        for (vs, rs, ix, val, g) in W:
            s, ws, rs2, ix2, g2 = L.renamed((vs, rs, ix, g if not (atoms_of(g) & self.keys) else TRUE))
            cx = ctx.add(le(t, s), lt(s, N), *pv.rng_facts(ws, rs2, g2))
            if not (pv.differ(ix2, idx, cx) or excluded(ix2, idx, cx)):
                raise Open()
        self.rec_used = True
        return tm.sel(self.rec, idx)

    def cells_of(self, idx, vs, rs, ix, s, ws, ix2, cx):
        """idx is itself a cell of iteration t of this write (same shape, other members), so forces_equal applies"""
        cand = list(pv.guess_solution(ix, tuple(vs), idx, cx)) if vs else []
        for m in cand[:4]:
            d = [m[v] for v in vs]
            if pv.forces_equal(ix2, [s] + list(ws), idx, [self.L.t] + d, cx):
                return True
        return bool(pv.forces_equal(ix2, [s], idx, [self.L.t], cx))


def excluded(ix, jx, ctx):
    for x, y in pv.flatten_idx(ix, jx):
        d = sub(x, y)
        if pv.nonneg(ip_of(sub(d, I(1))), ctx) or pv.nonneg(ip_of(sub(I(-1), d)), ctx):
            return True
    return False


def replace_node(t, old, new):
    memo = {}

    def go(u):
        if u is old:
            return new
        r = memo.get(u)
        if r is None:
            r = memo[u] = tm.rebuild(u, go) if u.op not in ('c', 'v', 'av', 'rec') else u
        return r
    return go(t)


def mod_tests(f, ctx):
    """tests  u mod k == k-1  as  (u+1) mod k == 0"""
    if not pv.any_op(f, 'imod'):
        return f
    memo = {}

    def go(u):
        r = memo.get(u)
        if r is None:
            r = u if u.op in ('c', 'v', 'av', 'rec') else tm.rebuild(u, go)
            if r.op == 'eq0' and r.a[0].op != 'imod':
                p = r.a[0]
                for mo, c in ip_of(p).items():
                    if len(mo) != 1 or mo[0][1] != 1 or mo[0][0].op != 'imod' or c not in (1, -1):
                        continue
                    z = mo[0][0]
                    v = mul(I(-int(c)), sub(p, mul(I(int(c)), z)))       # the remainder tested for
                    n, k = z.a
                    if not pv.prove(lt(I(0), k), ctx):
                        continue
                    if v is I(0):
                        r = eq(tm.imod(n, k), I(0))
                        break
                    if v is sub(k, I(1)):
                        r = eq(tm.imod(add(n, I(1)), k), I(0))
                        break
            memo[u] = r
        return r
    return go(f)


def addend(f, x):
    """G with f = x + G, or None"""
    if f is x:
        return tm.num(0, x.s)
    if x.s == 'I':
        d = sub(f, x)
        if x not in atoms_of(d):
            return d
        if f.op == 'ite':
            a, b = addend(f.a[1], x), addend(f.a[2], x)
            if a is not None and b is not None and x not in atoms_of(f.a[0]):
                return ite(f.a[0], a, b)
        return None
    if f.op == 'radd':
        hit = [i for i, z in enumerate(f.a) if x in atoms_of(z)]
        if len(hit) == 1:
            g = addend(f.a[hit[0]], x)
            if g is None:
                return None
            r = g
            for i, z in enumerate(f.a):
                if i != hit[0]:
                    r = add(r, z)
            return r
        return None
    if f.op == 'ite':
        if x in atoms_of(f.a[0]):
            return None
        a, b = addend(f.a[1], x), addend(f.a[2], x)
        if a is not None and b is not None:
            return ite(f.a[0], a, b)
    return None


def chain(A):
    out = [A]
    while A.op in ('st', 'fam'):
        A = A.a[0]
        out.append(A)
    return out


def flatten(A, X):
    """list of writes (vs, ranges, idx, val, guard), oldest first, that turn X into A; None when not of that form"""
    if A is X:
        return []
    if A.op == 'st':
        r = flatten(A.a[0], X)
        return None if r is None else r + [((), (), A.a[1], A.a[2], TRUE)]
    if A.op == 'fam':
        r = flatten(A.a[0], X)
        return None if r is None else r + [(A.a[1], A.a[2], A.a[3], A.a[4], A.a[5])]
    if A.op == 'aite':
        c, B, C = A.a
        cb, cc = chain(B), chain(C)
        join = next((z for z in cb if z in cc), None)
        if join is None:
            join = X
        r0 = flatten(join, X)
        r1, r2 = flatten(B, join), flatten(C, join)
        if r0 is None or r1 is None or r2 is None:
            return None
        # merge pairwise writes to the same cell
        if len(r1) == len(r2) and all(a[0] == () and b[0] == () and a[2] == b[2] and a[4] is TRUE and b[4] is TRUE for a, b in zip(r1, r2)):
            return r0 + [((), (), a[2], ite(c, a[3], b[3]), TRUE) for a, b in zip(r1, r2)]
        return r0 + [(v, r, i, x, andd(g, c)) for v, r, i, x, g in r1] + \
            [(v, r, i, x, andd(g, nott(c))) for v, r, i, x, g in r2]
    return None


def dedupe(W):
    """drop writes overwritten by a later write to syntactically the same cells in the same iteration"""
    out = []
    for i, w in enumerate(W):
        vs, rs, idx, val, g = w
        over = False
        for (vs2, rs2, idx2, val2, g2) in W[i + 1:]:
            if vs == vs2 and rs == rs2 and idx == idx2 and (g2 is TRUE or g2 is g):
                over = True
        if not over:
            out.append(w)
    return out


# ------------------------------------------------------------------------------------------------ OpenMP
def omp_for(ex, n, fs, clauses, st):
    """#pragma omp parallel for: sequential meaning plus independence of the iterations"""
    depth = clauses.get('collapse', 1)
    env = {}
    ex.envs[-1].append(env)
    ex.par_depth += 1
    try:
        while fs['kind'] in ('CompoundStmt', 'AttributedStmt') and len(ex.kids(fs)) == 1:
            fs = ex.kids(fs)[0]
        if fs['kind'] != 'ForStmt':
            raise Unsupported('parallel loop over %s' % fs['kind'])
        init, var, cond, inc, bd = (fs['inner'] + [None] * 5)[:5]
        region, ex.region = ex.region, None
        clauses = dict(clauses, reduction=dict(clauses['reduction'], **sums(ex, fs)))
        acc = ex.region_sums if region is not None else set()
        for x in acc:
            clauses['reduction'][x] = '+'
        scratch = clauses['scratch'] if 'scratch' in clauses else {k for k in st.mem if region is not None and k not in region and k[-1] not in acc}
        if init and init.get('kind'):
            ex.stmt(init, st)
        cl = {'reduction': clauses['reduction'], 'private': set(clauses['private'])}
        own = set(clauses.get('own', ()))
        # the loop variable is private
        for d in walk_vars(init) + assigned_loopvar(inc):
            cl['private'].add(d)
            own.add(d)
        cl['scratch'] = scratch = {k for k in scratch if k[-1] not in own}
        first = cl['first'] = clauses.get('first', set())
        cl['run'] = lambda b, s: private_body(ex, b, s, cl['private'] - own, first, scratch)
        if depth > 1:
            # the collapsed loops: iterations of the outer one are independent of each other, and so are those of the inner one
            sub_ = dict(clauses, collapse=depth - 1, private=sorted(cl['private']), own=own, scratch=scratch)
            bodyf = lambda s: omp_for(ex, n, bd, sub_, s)
        else:
            r = flat_loop(ex, fs, st, cl)
            if r is not None:
                return spoil(r, scratch)
            bodyf = lambda s: cl['run'](bd, s)
        return spoil(loop(ex, fs, st, lambda s: ex.boolean(ex.rv(cond, s), s), bodyf, lambda s: ex.ev(inc, s), par=cl), scratch)
    finally:
        ex.par_depth -= 1
        ex.envs[-1].pop()


def walk(n):
    yield n
    for c in n.get('inner', []) or []:
        if c:
            yield from walk(c)


def uses(n, i):
    return sum(1 for c in walk(n) if c.get('kind') == 'DeclRefExpr' and c['referencedDecl']['id'] == i)


def guarded_sum(ex, n):
    """y += e under an atomic or critical construct: (declaration of y, e)"""
    b = ex.omp_body(n)
    while b['kind'] in ('CompoundStmt', 'AttributedStmt', 'ExprWithCleanups') and len(ex.kids(b)) == 1:
        b = ex.kids(b)[0]
    if b['kind'] != 'CompoundAssignOperator' or b.get('opcode') != '+=':
        return None
    y, e = ex.kids(b)
    while y['kind'] == 'ParenExpr':
        y = ex.kids(y)[0]
    if y['kind'] != 'DeclRefExpr' or (y['referencedDecl'].get('type') or {}).get('qualType') != 'double' or uses(e, y['referencedDecl']['id']):
        return None
    return y['referencedDecl'], e


def sums(ex, fs):
    """variables to which the iterations only ever add, each addition guarded: the same as a sum reduction"""
    out = {}
    gs = [c for c in walk(fs) if c.get('kind') in ('OMPAtomicDirective', 'OMPCriticalDirective')]
    for g in gs:
        r = guarded_sum(ex, g)
        if r is None:
            continue
        i = r[0]['id']
        mine = [h for h in gs if (guarded_sum(ex, h) or ({'id': None},))[0]['id'] == i]
        inside = any(c.get('kind') == 'DeclStmt' and any(k.get('id') == i for k in ex.kids(c)) for c in walk(fs))
        # the syntax tree may show a statement both in its captured form and outside it
        if not inside and all(uses(h, i) == uses(ex.omp_body(h), i) for h in mine) and uses(fs, i) == len(mine):
            out[r[0]['name']] = '+'
            ex.guarded.update(h['id'] for h in mine)
    return out


def region_sums(ex, ks):
    """accumulators of a thread: declared as zero in the region, added to in its loops, and finally added to a shared
    total under a guard; over the reals the total receives the sum over all iterations"""
    out = set()
    for k in ks:
        if k['kind'] not in ('OMPAtomicDirective', 'OMPCriticalDirective'):
            continue
        r = guarded_sum(ex, k)
        if r is None:
            continue
        y, e = r
        e = skip(ex, e)
        if e['kind'] != 'DeclRefExpr':
            continue
        x = e['referencedDecl']
        d = [c for q in ks if q['kind'] == 'DeclStmt' for c in ex.kids(q) if c.get('id') == x['id'] and c['kind'] == 'VarDecl']
        if len(d) != 1 or d[0].get('storageClass') or x['type']['qualType'] != 'double':
            continue
        ini = [c for c in d[0].get('inner', []) if c and c.get('kind')]
        if not ini or skip(ex, ini[-1])['kind'] not in ('IntegerLiteral', 'FloatingLiteral') or float(skip(ex, ini[-1])['value']) != 0:
            continue
        if any(uses(q, y['id']) for q in ks if q is not k) or uses(k, y['id']) != 1 or uses(k, x['id']) != 1:
            continue
        if any(uses(q, x['id']) for q in ks if q is not k and q['kind'] != 'DeclStmt' and q['kind'] not in ('OMPForDirective', 'OMPForSimdDirective')):
            continue
        if any(uses(c, x['id']) for q in ks if q['kind'] == 'DeclStmt' for c in ex.kids(q)):
            continue
        # nothing but the loops before the guard
        if any(uses(q, x['id']) for q in ks[ks.index(k) + 1:]):
            continue
        out.add(x['name'])
        ex.guarded.add(k['id'])
    return out


def skip(ex, e):
    while e['kind'] in ('ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups', 'InitListExpr') and len(ex.kids(e)) == 1:
        e = ex.kids(e)[0]
    return e


def keyed(k, names):
    return k[0] == 'l' and (k[-1] in names or (str(k[-1]).startswith('#') and len(k) > 1 and k[-2] in names))


def spoil(flows, scratch):
    """what a thread's own variables hold after a work-shared loop depends on the iterations it was given"""
    for f in flows:
        for k in scratch:
            v = f.st.mem.get(k)
            if v is not None and k[-1] not in ('#n', '#alive', '#class') and not isinstance(v, (str, Ptr)):
                f.st.mem[k] = havoc_val(k, v)
    return flows


def name_of(k):
    return k[-2] if str(k[-1]).startswith('#') and len(k) > 1 else k[-1]


def private_body(ex, bd, s, names, first, scratch):
    """one iteration of a work-shared loop with the thread's own variables (private clauses, variables declared in the
    parallel region): those the body changes hold anything at the start, and nothing is carried to the next iteration"""
    keys = [k for k in s.mem if k in scratch or keyed(k, names)]
    if not keys:
        return ex.stmt(bd, s)
    d = s.fork()
    mk0 = marks(ex)
    ex.dry += 1
    try:
        ends = [f.st for f in ex.stmt(bd, d)]
    finally:
        ex.dry -= 1
        rollback(ex, mk0)
    old = {k: s.mem[k] for k in keys}
    for k in keys:
        if k[-1] == '#n' and keyed(k, names) and k not in scratch and name_of(k) not in first:
            s.mem[k] = I(0)          # a private vector starts empty
        elif k[-1] in ('#n', '#alive', '#class'):
            if any(not same_val(e.mem.get(k), old[k]) for e in ends):
                raise Unsupported('iterations resize or free a variable of their thread at ' + where(bd))
        elif keyed(k, names) and k not in scratch and name_of(k) not in first:
            s.mem[k] = Undef() if k[-1][0] != '#' else havoc_val(k, old[k])
        elif any(not same_val(e.mem.get(k), old[k]) for e in ends):
            s.mem[k] = havoc_val(k, old[k])
    fl = ex.stmt(bd, s)
    for f in fl:
        for k in keys:
            f.st.mem[k] = old[k]
    return fl


def plain(n):
    while n.get('kind') in ('ImplicitCastExpr', 'ParenExpr', 'ConstantExpr', 'ExprWithCleanups') and n.get('inner'):
        n = n['inner'][0]
    return n


def ast_all(n):
    if isinstance(n, dict):
        yield n
        for c in n.get('inner', []) or []:
            yield from ast_all(c)


def flat_loop(ex, fs, st, par):
    """for (j=0; j<A*B; j++) whose body takes j apart as j/B and j%B: executed as the two nested loops it enumerates
    (the same iterations in the same order).  None when the loop is not of this form."""
    init, var, cond, inc, bd = (fs['inner'] + [None] * 5)[:5]
    if not (init and init.get('kind') == 'DeclStmt' and cond and inc and bd):
        return None
    vs = [d for d in init.get('inner', []) if d and d.get('kind') == 'VarDecl']
    if len(vs) != 1:
        return None
    did = vs[0]['id']
    isj = lambda e: plain(e).get('kind') == 'DeclRefExpr' and plain(e)['referencedDecl'].get('id') == did
    c = plain(cond)
    if not (c.get('kind') == 'BinaryOperator' and c.get('opcode') == '<' and isj(c['inner'][0])):
        return None
    i = plain(inc)
    if not (i.get('kind') == 'UnaryOperator' and i.get('opcode') == '++' and isj(i['inner'][0])):
        return None
    divs = []
    for x in ast_all(bd):
        k = x.get('kind')
        if k in ('BreakStmt', 'ReturnStmt', 'GotoStmt', 'LambdaExpr', 'CXXThrowExpr'):
            return None
        if k in ('UnaryOperator', 'CompoundAssignOperator', 'BinaryOperator') and x.get('opcode') in ('++', '--', '=', '+=', '-=', '*=', '/=', '&') and isj(x['inner'][0]) and \
                len(x['inner']) == (1 if k == 'UnaryOperator' else 2):
            return None
        if k == 'BinaryOperator' and x.get('opcode') in ('/', '%') and isj(x['inner'][0]):
            divs.append(x['inner'][1])
    if not divs:
        return None
    for x in divs + [c['inner'][1]]:
        if any(y.get('kind') in ('CallExpr', 'CXXOperatorCallExpr', 'UnaryOperator', 'CompoundAssignOperator') for y in ast_all(x)):
            return None
    mk0 = marks(ex)
    try:
        s0 = st.fork()
        j0 = ex.rv(c['inner'][0], s0)
        N = ex.rv(c['inner'][1], s0)
        bs = []
        for x in divs:
            b = ex.rv(x, s0)
            if all(b is not y for y in bs):
                bs.append(b)
    except (Unsupported, KeyError):
        rollback(ex, mk0)
        return None
    rollback(ex, mk0)
    if len(bs) != 1 or not (is_c(j0) and cval(j0) == 0) or bs[0].s != 'I' or N.s != 'I' or is_c(bs[0]):
        return None
    B = bs[0]
    A = pv.pdivexact(tm.ip_of(N), tm.ip_of(B))
    if A is None:
        return None
    A = tm.ip_mk(A)
    if not (pv.prove(le(I(0), A), st.ctx()) and pv.prove(le(I(0), B), st.ctx())):
        return None
    jp = ex.ev(plain(c["inner"][0]), st)
    jp = getattr(jp, 'path', None)
    if jp is None or jp not in st.mem:
        return None
    q, r = ('t', next(ex.tmp_ctr), 'ctr'), ('t', next(ex.tmp_ctr), 'ctr')

    def bump(k):
        def f(s):
            s.mem[k] = add(s.mem[k], I(1))
        return f

    def inner_body(s):
        s.mem[jp] = add(mul(B, s.mem[q]), s.mem[r])
        fl = par['run'](bd, s)
        for f in fl:
            x = ex.rv(c['inner'][1], f.st.fork())
            if x is not N:
                raise Unsupported('the bound of a flattened loop changes at ' + where(fs))
        return fl

    def outer_body(s):
        s.mem[r] = I(0)
        return loop(ex, dict(fs, id=str(fs.get('id')) + '#r'), s, lambda z: lt(z.mem[r], B), inner_body, bump(r), par)
    st.mem[q] = I(0)
    fl = loop(ex, fs, st, lambda z: lt(z.mem[q], A), outer_body, bump(q), par)
    for f in fl:
        for k in (q, r):
            f.st.mem.pop(k, None)
    return fl


def walk_vars(n):
    out = []
    if isinstance(n, dict):
        if n.get('kind') == 'VarDecl':
            out.append(n.get('name'))
        for c in n.get('inner', []) or []:
            out += walk_vars(c)
    return out


def assigned_loopvar(n):
    out = []
    if isinstance(n, dict):
        if n.get('kind') == 'DeclRefExpr':
            out.append(n['referencedDecl'].get('name'))
        for c in n.get('inner', []) or []:
            out += assigned_loopvar(c)
        out = out[:1]
    return out


def omp_parallel(ex, n, b, st):
    """#pragma omp parallel: every thread runs the block; only work-sharing constructs inside are supported"""
    ks = [b] if b['kind'] != 'CompoundStmt' else ex.kids(b)
    for k in ks:
        if not (k['kind'].startswith('OMP') or k['kind'] in ('DeclStmt', 'NullStmt', 'CXXDeleteExpr')):
            raise Unsupported('parallel region with code outside work-sharing constructs at ' + where(n))
    if ex.region is not None:
        raise Unsupported('nested parallel regions at ' + where(n))
    before = dict(st.mem)
    ex.region_sums = region_sums(ex, ks)
    region = set(st.mem)
    reads = set()
    say = lambda q: '.'.join(str(z) for z in q[-2:] if not isinstance(z, int))

    def run(k, cur):
        if k['kind'] in ('OMPAtomicDirective', 'OMPCriticalDirective'):
            return ex.stmt(k, cur)
        if k['kind'].startswith('OMP'):
            ex.region = region
            try:
                return ex.stmt(k, cur)
            finally:
                ex.region = None
        # every thread does this on its own, at a time of its own
        m0 = len(ex.logging)
        mem = dict(cur.mem)
        log0, ex.log_on = ex.log_on, True
        try:
            fl = ex.stmt(k, cur)
        finally:
            ex.log_on = log0
        for a in ex.logging[m0:]:
            if a.path in region or a.path + ('#d',) in region:
                if a.rw == 'w':
                    ex.oblig('race', FALSE, fl[0].st, k, 'every thread writes %s' % say(a.path))
                reads.add(a.path)
        for q in region:
            if not same_val(fl[0].st.mem.get(q), mem.get(q)):
                ex.oblig('race', FALSE, fl[0].st, k, 'every thread writes %s' % say(q))
        return fl
    fl = ex.stmts(ks, st, run)
    for f in fl:
        if f.kind != 'n':
            raise Unsupported('control flow leaves a parallel region at ' + where(n))
        for q in region:
            if (q in reads or q[:-1] in reads) and not same_val(f.st.mem.get(q), before[q]):
                ex.oblig('race', FALSE, f.st, n, '%s is read by a thread while another may already be writing it' % say(q))
    return fl


def omp_sections(ex, n, b, st):
    """sections may run concurrently: sequential meaning plus pairwise non-interference of their accesses"""
    from .exec import pname
    ks = ex.kids(b) if b['kind'] == 'CompoundStmt' else [b]
    cur = st
    logs = []
    log0 = ex.log_on
    ex.log_on = True
    ex.par_depth += 1
    base = st.facts + st.br
    changed_keys = []
    try:
        for k in ks:
            m0 = len(ex.logging)
            before = dict(cur.mem)
            fl = ex.stmt(k, cur)
            if len(fl) != 1 or fl[0].kind != 'n':
                raise Unsupported('control flow leaves a parallel section')
            cur = fl[0].st
            logs.append(ex.logging[m0:])
            changed_keys.append({q for q in before if not same_val(cur.mem.get(q), before[q])})
            for q in [q for q in cur.mem if q not in before and q[0] in ('l', 't')]:
                del cur.mem[q]
    finally:
        ex.log_on = log0
        ex.par_depth -= 1
    if not ex.dry:
        pre = set(st.mem)
        prebase = set(pre) | {k[:-1] for k in pre if str(k[-1]).startswith('#')}
        for i in range(len(logs)):
            for j in range(i + 1, len(logs)):
                both = changed_keys[i] & changed_keys[j]
                for q in both:
                    if str(q[-1]) not in ('#d', '#re', '#im'):
                        ex.oblig('race', FALSE, st, n, 'two sections write %s' % pname(q))
                n0 = len(ex.obs)
                seen = set()
                bad = 0
                byp = {}
                for a in logs[j]:
                    if a.path in prebase:
                        byp.setdefault(a.path, []).append(a)
                for a in logs[i]:
                    for c in byp.get(a.path, []):
                        if 'w' not in (a.rw, c.rw):
                            continue
                        key = (a.path, a.idx, c.idx)
                        if key in seen:
                            continue
                        seen.add(key)
                        if a.idx is not None and c.idx is not None and a.idx and c.idx and \
                                pv.differ(a.idx, c.idx, pv.Ctx(a.facts + tuple(rename_free(c, base)[1]))):
                            continue
                        ex.obs.append(Ob('race', FALSE, base, where(n), ex.fn(), 'sections %d and %d both access %s, at least one writing' % (i, j, pname(a.path))))
                if len(ex.obs) == n0:
                    ex.obs.append(Ob('race', TRUE, (), where(n), ex.fn(), 'sections %d and %d are independent' % (i, j)))
    return [Flow('n', cur)]


def rename_free(a, base):
    known = set()
    for f in base:
        known |= atoms_of(f)
    free = set()
    for f in a.facts:
        free |= atoms_of(f)
    for z in a.idx or ():
        free |= atoms_of(z)
    ren = {v: tm.fresh('k', v.s) for v in free if v.op == 'v' and '!' in str(v.a[0]) and v not in known}
    return tuple(subst(z, ren) for z in a.idx), [subst(f, ren) for f in a.facts]
