"""Comparison of output traces (what a run writes, in order) with a specification of them.

A trace is a list of  ('str', text) ('num', value, precision) ('loop', k, N, items) ('ite', c, items, items)
and, at file-system level, ('file', name, mode, canopen, items) ('dir', name).  Equality is proved structurally:
text pieces are merged, conditions are decided or split, loops are matched by their trip counts and compared for an
arbitrary iteration (a flat loop over N1*N2 iterations also matches two nested loops)."""
from . import term as tm, prove as pv, alg
from .term import T, I, R, TRUE, FALSE, subst, andd, nott, le, lt
from .exec import Trace, item_subst
from .lib import scat

PREC = 16
SHOW = 5


class Differ(Exception):
    pass


def parts(t):
    return list(t.a[1:]) if (t.op == 'app' and t.a[0] == 'cat') else [t]


def norm(items):
    """flat list of ('txt', [parts]) ('num', v) ('loop', ..) ('ite', ..) with neighbouring text merged"""
    out = []
    if isinstance(items, Trace):
        if items.base is not None:
            raise Differ('open trace')
        items = items.items
    for x in items:
        if x[0] == 'str':
            p = [q for q in parts(x[1]) if not (q.op == 'c' and q.a[0] == '')]
            if not p:
                continue
            if out and out[-1][0] == 'txt':
                out[-1] = ('txt', parts(scat(*(out[-1][1] + p))))
            else:
                out.append(('txt', p))
        else:
            out.append(x)
    return out


def decide(c, ctx):
    c = pv.resolve(c, ctx)
    if c is TRUE or pv.prove(c, ctx):
        return True
    if c is FALSE or pv.prove(nott(c), ctx):
        return False
    return None


def save_eq(x, y, ctx):
    _, k1, n1, i1, c1, a1, z1 = x
    _, k2, n2, i2, c2, a2, z2 = y
    if k1 is not k2:
        raise Differ('kind of file')
    same((('str', n1),), (('str', n2),), ctx)
    if not pv.prove_eq(pv.resolve(i1, ctx), pv.resolve(i2, ctx), ctx):
        raise Differ('save index %s, expected %s' % (tm.show(i1, 5), tm.show(i2, 5)))
    if not pv.prove_iff(c1, c2, ctx):
        raise Differ('header flag')
    if not pv.prove_eq(z1, z2, ctx):
        raise Differ('number of saved values')
    i = tm.fresh('i')
    if not pv.prove_eq(tm.sel(a1, (i,)), tm.sel(a2, (i,)), ctx.add(le(I(0), i), lt(i, z2))):
        raise Differ('saved values %s, expected %s' % (tm.show(a1, 6), tm.show(a2, 6)))


def val_eq(x, y, ctx):
    x, y = pv.resolve(tm.toreal(x), ctx), pv.resolve(tm.toreal(y), ctx)
    if pv.prove_eq(x, y, ctx):
        return True
    try:
        return alg.alg_eq(x, y, tuple(ctx.facts), (), (), ctx)
    except alg.Fail:
        return False


def truth(c, known, ctx):
    """True, False, or (None, undecided atom)"""
    if c is TRUE:
        return True
    if c is FALSE:
        return False
    if c.op == 'not':
        r = truth(c.a[0], known, ctx)
        return r if isinstance(r, tuple) else not r
    if c.op in ('and', 'or'):
        und = None
        for z in c.a:
            r = truth(z, known, ctx)
            if isinstance(r, tuple):
                und = und or r
            elif r == (c.op == 'or'):
                return r
        return und if und is not None else c.op == 'and'
    for k, v in known:
        if k is c:
            return v
    d = decide(c, ctx)
    if d is not None:
        return d
    for k, v in known:
        if k.op == c.op == 'rlt' and val_eq(k.a[0], c.a[0], ctx) and val_eq(k.a[1], c.a[1], ctx):
            return v
        if k.op == c.op == 'rlt' and v and val_eq(k.a[0], c.a[1], ctx) and val_eq(k.a[1], c.a[0], ctx):
            return False
    return None, c


def same(A, B, ctx, depth=0, known=()):
    """A, B item lists: raises Differ unless provably the same text"""
    if depth > 40:
        raise Differ('too deep')
    A, B = norm(A), norm(B)
    while A or B:
        pv.tick()
        for side in (A, B):
            if side and side[0][0] == 'ite':
                _, c, p, q = side[0]
                r = truth(pv.resolve(c, ctx), known, ctx)
                if isinstance(r, tuple):
                    at = r[1]
                    for val in (True, False):
                        lit = at if val else nott(at)
                        cx = ctx.add(lit)
                        if pv.prove(FALSE, cx):
                            continue
                        same(raw(A), raw(B), cx, depth + 1, known + ((at, val),))
                    return
                br = p if r else q
                new = norm(tuple(br.items if isinstance(br, Trace) else br) + raw(side[1:]))
                side[:] = new
                break
        else:
            head(A, B, ctx, depth, known)
            continue


def head(A, B, ctx, depth, known):
    """match and remove the first items"""
    if True:
        if not A or not B:
            # a loop that never runs, or nothing
            x = (A or B)[0]
            if x[0] == 'loop' and pv.prove(le(x[2], I(0)), ctx):
                (A or B).pop(0)
                return
            raise Differ('%s writes more: %s' % ('code' if A else 'specification', show(x)))
        x, y = A[0], B[0]
        if x[0] == 'save' and y[0] == 'save':
            # files written one after another go to different files: their order is not observable
            why = None
            for j in range(len(B)):
                if B[j][0] != 'save':
                    break
                try:
                    save_eq(x, B[j], ctx)
                except Differ as e:
                    why = why or e
                    continue
                A.pop(0)
                B.pop(j)
                return
            raise why
        if x[0] == 'txt' and y[0] == 'txt':
            p, q = list(x[1]), list(y[1])
            while p and q:
                u, v = p[0], q[0]
                if u is v:
                    p.pop(0)
                    q.pop(0)
                elif u.op == 'c' and v.op == 'c':
                    a, b = u.a[0], v.a[0]
                    k = 0
                    while k < min(len(a), len(b)) and a[k] == b[k]:
                        k += 1
                    if k < min(len(a), len(b)):
                        raise Differ('text %r, expected %r' % (a, b))
                    p[0:1] = [tm.string(a[k:])] if k < len(a) else []
                    q[0:1] = [tm.string(b[k:])] if k < len(b) else []
                elif u.op == v.op == 'app' and u.a[0] == v.a[0] == 'itos' and pv.prove_eq(u.a[1], v.a[1], ctx):
                    p.pop(0)
                    q.pop(0)
                elif pv.prove(tm.eq(u, v), ctx):
                    p.pop(0)
                    q.pop(0)
                else:
                    raise Differ('text %s, expected %s' % (tm.show(u, 4), tm.show(v, 4)))
            A[0:1] = [('txt', p)] if p else []
            B[0:1] = [('txt', q)] if q else []
            return
        # an integer written as text against a number
        if x[0] == 'txt' and y[0] == 'num' or x[0] == 'num' and y[0] == 'txt':
            t, n = (x, y) if x[0] == 'txt' else (y, x)
            u = t[1][0]
            if u.op == 'app' and u.a[0] == 'itos' and pv.prove_eq(tm.toreal(u.a[1]), n[1], ctx):
                side, o = (A, B) if x[0] == 'txt' else (B, A)
                side[0:1] = [('txt', t[1][1:])] if len(t[1]) > 1 else []
                o.pop(0)
                return
            raise Differ('text %s where a number is expected' % tm.show(u, 3))
        if x[0] != y[0]:
            raise Differ('%s, expected %s' % (show(x), show(y)))
        if x[0] == 'num':
            pr = pv.resolve(x[2], ctx)
            if not (pr.op == 'c' and pr.a[0] >= PREC or pv.prove(le(I(PREC), pr), ctx)):
                raise Differ('written with fewer than %d significant digits' % PREC)
            if not val_eq(x[1], y[1], ctx):
                raise Differ('value %s, expected %s' % (tm.show(x[1], SHOW), tm.show(y[1], SHOW)))
        elif x[0] == 'loop':
            loops(x, y, ctx, depth, known)
        elif x[0] == 'file':
            if not pv.prove(tm.eq(x[1], y[1]), ctx):
                same((('str', x[1]),), (('str', y[1]),), ctx, depth + 1, known)
            m = pv.resolve(x[2], ctx)
            if not (m.op == 'c' and int(m.a[0]) & 1 and not int(m.a[0]) & (8 | 4)):
                raise Differ('file not opened for appending')
            ca = pv.resolve(x[3], ctx)
            same((('ite', ca, x[4], Trace(None, ())),), y[4], ctx, depth + 1, known)
        else:
            raise Differ('item ' + str(x[0]))
        A.pop(0)
        B.pop(0)
        return


def raw(items):
    out = []
    for x in items:
        if x[0] == 'txt':
            out += [('str', p) for p in x[1]]
        else:
            out.append(x)
    return tuple(out)


def body(x):
    b = x[3]
    return tuple(b.items) if isinstance(b, Trace) else tuple(b)


def loops(x, y, ctx, depth, known):
    (_, k, N, _), (_, j, M, _) = x[:4], y[:4]
    bx, by = body(x), body(y)
    if pv.prove_eq(N, M, ctx):
        v = tm.fresh('row')
        same(item_subst(bx, {k: v}), item_subst(by, {j: v}), ctx.add(le(I(0), v), lt(v, N)), depth + 1, known)
        return
    for (a, ka, Na, ba, b, kb, Nb, bb, sw) in ((x, k, N, bx, y, j, M, by, False), (y, j, M, by, x, k, N, bx, True)):
        # a flat, b = nest of loops over the same number of iterations
        ks, ns, bd = [kb], [Nb], bb
        while len(bd) == 1 and bd[0][0] == 'loop':
            ks.append(bd[0][1])
            ns.append(bd[0][2])
            bd = body(bd[0])
            tot = ns[0]
            for q in ns[1:]:
                tot = tot * q
            if any(z in tm.atoms_of(q) for q in ns for z in ks) or not pv.prove_eq(Na, tot, ctx):
                continue
            fr = [tm.fresh('row') for _ in ks]
            idx = fr[0]
            for q, n in zip(fr[1:], ns[1:]):
                idx = idx * n + q
            cx = ctx.add(*[f for q, n in zip(fr, ns) for f in (le(I(0), q), lt(q, n))])
            ia, ib = item_subst(ba, {ka: idx}), item_subst(bd, dict(zip(ks, fr)))
            if sw:
                same(ib, ia, cx, depth + 1, known)
            else:
                same(ia, ib, cx, depth + 1, known)
            return
    raise Differ('repeated %s times, expected %s' % (tm.show(N, 5), tm.show(M, 5)))


def show(x):
    if x[0] == 'txt':
        return 'text ' + ' '.join(tm.show(p, 3) for p in x[1])[:60]
    if x[0] == 'num':
        return 'number ' + tm.show(x[1], 3)[:60]
    if x[0] == 'loop':
        return 'repetition %s times' % tm.show(x[2], 3)
    return str(x[0])


# ---------------------------------------------------------------- evaluation in a model
def evaluate(md, items, env, out, spec):
    """out: list of text chunks and numbers"""
    if isinstance(items, Trace):
        items = items.items
    for x in items:
        if x[0] == 'str':
            out.append(str(md.ev(x[1], env)))
        elif x[0] == 'num':
            out.append((float(md.ev(x[1], env)), int(md.ev(x[2], env)) if not spec else 17))
        elif x[0] == 'loop':
            n = int(md.ev(x[2], env))
            for q in range(n):
                evaluate(md, x[3], {**env, x[1]: q}, out, spec)
        elif x[0] == 'ite':
            evaluate(md, x[2] if md.ev(x[1], env) else x[3], env, out, spec)
        elif x[0] == 'file':
            m = int(md.ev(x[2], env))
            # only what reaches the file counts
            sub = []
            if md.ev(x[3], env):
                evaluate(md, x[4], env, sub, spec)
            out.append(('file', md.ev(x[1], env), (m & 1, m & 12), sub))
        else:
            raise ValueError('item %s' % (x[0],))


def text(chunks):
    """tokens: text between numbers merged; numbers as floats"""
    out = []
    for c in chunks:
        if isinstance(c, str):
            if c == '':
                continue
            if out and isinstance(out[-1], str):
                out[-1] += c
            else:
                out.append(c)
        else:
            out.append(c)
    return out


def number(s):
    try:
        return float(s)
    except ValueError:
        return None


def diff(a, b):
    """None, or a description of the first difference; a is the code"""
    a, b = text(a), text(b)
    for k in range(max(len(a), len(b))):
        if k >= len(a) or k >= len(b):
            return 'different length: %d pieces written, %d expected' % (len(a), len(b))
        x, y = a[k], b[k]
        if isinstance(x, str) or isinstance(y, str):
            if isinstance(x, str) and isinstance(y, str):
                if x != y:
                    return 'text %r, expected %r' % (x[:60], y[:60])
            elif len(text_tokens(x)) or True:
                return retok(a, b)
        elif x[0] == 'file' or y[0] == 'file':
            if x[0] != y[0]:
                return 'file events differ'
            if x[1] != y[1]:
                return 'file name %r, expected %r' % (x[1], y[1])
            if x[2] != y[2]:
                return 'open mode'
            d = diff(x[3], y[3])
            if d:
                return 'in file %s: %s' % (x[1], d)
        else:
            if x[1] < PREC:
                return 'precision %d' % x[1]
            u, v = x[0], y[0]
            if abs(u - v) > 1e-7 * (1e-7 + max(abs(u), abs(v))):
                return 'value %r, expected %r' % (u, v)
    return None


def text_tokens(x):
    return []


def retok(a, b):
    """compare as rendered text, numbers with a tolerance"""
    import re

    def ren(xs):
        return ''.join(x if isinstance(x, str) else '%.16g' % x[0] for x in xs)
    p = re.compile(r'([,\n ])')
    u, v = p.split(ren(a)), p.split(ren(b))
    if len(u) != len(v):
        return 'different number of fields: %d written, %d expected' % (len(u), len(v))
    for s, t in zip(u, v):
        if s != t:
            m, n = number(s), number(t)
            if m is None or n is None or abs(m - n) > 1e-7 * (1e-7 + max(abs(m), abs(n))):
                return 'field %r, expected %r' % (s, t)
    return None


def terms(items, out):
    if isinstance(items, Trace):
        items = items.items
    for x in items:
        for y in x:
            if isinstance(y, T):
                out.append(y)
            elif isinstance(y, (Trace, tuple)) and y and not isinstance(y, str):
                terms(y if isinstance(y, Trace) else tuple(z for z in y if isinstance(z, tuple)), out)
    return out


def loopvars(items, out):
    if isinstance(items, Trace):
        items = items.items
    for x in items:
        if isinstance(x, tuple):
            if x and x[0] == 'loop':
                out.add(x[1])
            loopvars(tuple(y for y in x if isinstance(y, (tuple, Trace))) if x[0] != 'loop' else (x[3] if isinstance(x[3], tuple) else x[3].items), out)
        elif isinstance(x, Trace):
            loopvars(x, out)
    return out


def refute(A, B, facts, seed, hints, prefer, small, samples=10, tlimit=20.0):
    import time
    from . import evalt
    t0 = time.time()
    ts = terms(A, []) + terms(B, [])
    lv = loopvars(A, set()) | loopvars(B, set())
    S = evalt.Search(ts, facts, seed, hints, prefer=prefer, small=small)
    S.free = [x for x in S.free if x not in lv]
    if S.open:
        return 'open', 'generic loop state in the goal'
    held = 0
    for md in S.models(samples):
        if time.time() - t0 > tlimit:
            break
        try:
            a, b = [], []
            evaluate(md, A, {}, a, False)
            evaluate(md, B, {}, b, True)
            d = diff(a, b)
        except (evalt.Discard, evalt.TooBig, RecursionError):
            continue
        if d is None:
            held += 1
        else:
            return 'refuted', {'model': {str(v.a[0]): md.vals[v] for v in S.free if v in md.vals}, 'values': d, 'held_on': held}
    return ('held' if held else 'open'), held
