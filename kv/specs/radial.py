"""C01-C07: the radial schemes."""
from ..spec import *
from ..term import *
from .. import term as tm, prove as pv
from ..core import SpecFail

LO, HI = var('lower', 'R'), var('upper', 'R')
N = var('n')


def pref():
    return {'lower': lambda g: round(g.uniform(-2, 1.4), 3), 'upper': lambda g: round(g.uniform(1.5, 20), 3)}


def setup(k, cls, cheb, nmin, contig=False):
    k.prefer = pref()
    r = k.run(cheb, contig)
    r.assume(le(I(nmin), N), lt(LO, HI))
    o = r.obj(cls, [N, LO, HI], 'rad')
    return r, o


def point(i):
    return LO + (HI - LO) / toreal(N - 1) * toreal(i)


def poly(cs, x, d):
    """d-th derivative of sum c_j x^j"""
    t = R(0)
    for j, c in enumerate(cs):
        if j >= d:
            f = 1
            for q in range(d):
                f *= j - q
            t = t + R(f) * c * power(x, j - d)
    return t


def cs(d):
    return [var('c%d' % j, 'R') for j in range(d + 1)]


def regions(r, left, right, name='i'):
    """index cases: one per boundary row, and the interior"""
    out = []
    for q in range(left):
        out.append(('row %d' % q, I(q), ()))
    for q in range(right):
        out.append(('row n-%d' % (q + 1), N - 1 - q, ()))
    i = var(name)
    out.append(('interior', i, (le(I(left), i), lt(i, N - right))))
    return out


def fd_exact(k, meth, deg, order, nmin, cheb):
    r, o = setup(k, 'FD', cheb, nmin)
    j = fresh('j')
    v = r.vec('v', N, data=tm.fam(tm.avar('v0'), (j,), ((I(0), N),), (j,), poly(cs(deg), point(j), 0)))
    d = r.vec('dv', N)
    m0 = r.snapshot()
    r.call('FD::' + meth, o, [v, d])
    for nm, i, f in regions(r, 3, 3):
        k.eq('exact derivative, %s' % nm, r.at(d, i), poly(cs(deg), point(i), order), r, f)
    k.frame('only the output array is written', m0, r, [d.path + ('#d',)])
    k.flag('output size unchanged', r.st.mem[d.path + ('#n',)] is N)


def fd_local(k, meth, nmin, cheb, width_edge, out_param=True):
    """outputs outside the influence of one input cell do not change with it"""
    r, o = setup(k, 'FD', cheb, nmin)
    i, j, z = var('i'), var('j'), var('z', 'R')
    w = r.vec('v', N)
    base = r.arr(w)
    outs = []
    for dat in (base, tm.store(base, (j,), z)):
        r.st.mem[w.path + ('#d',)] = dat
        st0 = r.st.fork()
        d = r.vec('dv', N, data=tm.avar('old%d' % len(outs)))
        r.call('FD::' + meth, o, [w, d] if out_param else [w])
        outs.append(r.arr(d if out_param else w))
        r.st.take(st0)
    rng = (le(I(0), j), lt(j, N))
    for nm, ii, f in regions(r, 3, 3):
        if nm == 'interior':
            out = orr(lt(j, ii - 3), lt(ii + 3, j))
        elif nm.startswith('row n-'):
            out = lt(j, N - width_edge)
        else:
            out = lt(I(width_edge - 1), j)
        cx = rng + f + (out,)
        a = [pv.resolve(sel(A, (ii,)), r.st.ctx().add(*cx)) for A in outs]
        k.eq('depends only on its stencil and overwrites the old value, %s' % nm, a[0], a[1], r, cx)


def c01():
    T = []
    for cheb in (False, True):
        T.append(('FD::der exactness (%s build)' % cfg_name((cheb, False)), fd_exact, ('der', 6, 1, 7, cheb)))
        T.append(('FD::der locality (%s build)' % cfg_name((cheb, False)), fd_local, ('der', 7, cheb, 7)))
    return T


def c02():
    T = []
    for cheb in (False, True):
        T.append(('FD::der2 exactness (%s build)' % cfg_name((cheb, False)), fd_exact, ('der2', 7, 2, 8, cheb)))
        T.append(('FD::der2 locality (%s build)' % cfg_name((cheb, False)), fd_local, ('der2', 8, cheb, 8)))
    return T


KO = [1, -8, 28, -56, 70, -56, 28, -8, 1]


def fd_filter(k, cheb):
    r, o = setup(k, 'FD', cheb, 8)
    v = r.vec('v', N)
    V = r.arr(v)
    m0 = r.snapshot()
    r.call('FD::filter', o, [v])
    for nm, i, f in regions(r, 4, 4):
        x = sel(V, (i,))
        if nm == 'interior':
            s = R(0)
            for q in range(9):
                s = s + R(KO[q]) * sel(V, (i - 4 + q,))
            x = x - s / R(256)
        k.eq('filtered value, %s' % nm, r.at(v, i), x, r, f)
    k.frame('only the array is written', m0, r, [v.path + ('#d',)])
    k.flag('size unchanged', r.st.mem[v.path + ('#n',)] is N)
    # consequences stated in the property (lemmas over the contract above)
    i, h = var('i'), var('h', 'R')
    x0 = var('x0', 'R')
    P = lambda q: poly(cs(7), x0 + h * R(q - 4), 0)
    s = R(0)
    for q in range(9):
        s = s + R(KO[q]) * P(q)
    k.eq('lemma: polynomials of degree at most 7 pass unchanged', s, R(0), ())
    a = var('a', 'R')
    s = a
    for q in range(9):
        s = s - R(KO[q]) * (a if q % 2 == 0 else mul(R(-1), a)) / R(256)
    k.eq('lemma: the alternating mode is removed', s, R(0), ())


def c03():
    return [('FD::filter (%s build)' % cfg_name((c, False)), fd_filter, (c,)) for c in (False, True)]


def fd_points(k, cheb):
    r, o = setup(k, 'FD', cheb, 2)
    i = var('i')
    r2 = (le(I(0), i), lt(i, N))
    r.assume(*r2)
    m0 = r.snapshot()
    p = r.call('FD::pt', o, [i])
    k.eq('i-th point', p, point(i), r)
    k.eq('first point is the lower bound', r.call('FD::pt', o, [I(0)]), LO, r)
    k.eq('last point is the upper bound', r.call('FD::pt', o, [N - 1]), HI, r)
    q = r.call('FD::pt', o, [i + 1])
    dx = (HI - LO) / toreal(N - 1)
    k.eq('uniform spacing', sub(q, p), dx, r)
    k.eq('n()', r.call('FD::n', o, []), N, r)
    k.eq('lower()', r.call('FD::lower', o, []), LO, r)
    k.eq('upper()', r.call('FD::upper', o, []), HI, r)
    k.frame('queries write nothing', m0, r, [])


def ch_points(k, cheb):
    r, o = setup(k, 'Cheb', cheb, 2)
    i = var('i')
    r.assume(le(I(0), i), lt(i, N))
    m0 = r.snapshot()
    p = r.call('Cheb::pt', o, [i])
    k.eq('i-th Gauss-Lobatto point, descending from the upper bound', p,
         (HI - LO) / R(2) * cos(PI * toreal(i) / toreal(N - 1)) + (HI + LO) / R(2), r)
    k.eq('first point is the upper bound', r.call('Cheb::pt', o, [I(0)]), HI, r)
    k.eq('n()', r.call('Cheb::n', o, []), N, r)
    k.eq('lower()', r.call('Cheb::lower', o, []), LO, r)
    k.eq('upper()', r.call('Cheb::upper', o, []), HI, r)
    k.frame('queries write nothing', m0, r, [])


def c04():
    return [('FD points (%s build)' % cfg_name((c, False)), fd_points, (c,)) for c in (False, True)] + \
           [('Cheb points (%s build)' % cfg_name((c, False)), ch_points, (c,)) for c in (False, True)]


# ---------------------------------------------------------------- Chebyshev
def dcts(t):
    """outermost DCT arrays in a term"""
    out = []
    seen = set()
    st = [t]
    while st:
        u = st.pop()
        if u in seen:
            continue
        seen.add(u)
        if u.op == 'farr':
            if u.a[0] == 'r2r3' and u not in out:
                out.append(u)
            continue
        st.extend(tm.children(u))
    return out


def peel(t):
    d = dcts(t)
    if len(d) != 1:
        raise SpecFail('result is not one cosine transform (%d found)' % len(d))
    return d[0]


def arg(F, j, ctx):
    B, vs, rs, ix = F.a[2][0]
    return pv.resolve(sel(B, (j,)), ctx)


def dct_of(A, n):
    """the (contract of the) DCT-I of the first n cells of A"""
    i = tm.fresh('c')
    return tm.farr('r2r3', (n,), ((A, (i,), ((I(0), n),), (i,)),))


def w(j):
    """normalisation of coefficient j"""
    return None


def ch_to_ch(k, cheb):
    r, o = setup(k, 'Cheb', cheb, 2)
    v, c = r.vec('v', N), r.vec('ch', N)
    V = r.arr(v)
    m0 = r.snapshot()
    r.call('Cheb::to_ch', o, [v, c])
    D = dct_of(V, N)
    for nm, i, f in regions(r, 1, 1):
        den = R(2) * toreal(N - 1) if nm != 'interior' else toreal(N - 1)
        k.eq('coefficient = DCT-I / weight, %s' % nm, r.at(c, i), sel(D, (i,)) / den, r, f)
    k.frame('position data unchanged, only the coefficients written', m0, r, [c.path + ('#d',)])


def ch_to_po(k, cheb):
    r, o = setup(k, 'Cheb', cheb, 2)
    c, p = r.vec('ch', N), r.vec('po', N)
    C = r.arr(c)
    m0 = r.snapshot()
    r.call('Cheb::to_po', o, [c, p])
    i = var('i')
    cx = r.ctx(le(I(0), i), lt(i, N))
    x = r.at(p, i)
    F = peel(pv.resolve(sel(r.arr(p), (i,)), cx))
    k.eq('value = transform at the point', pv.resolve(sel(r.arr(p), (i,)), cx), sel(F, (i,)), cx)
    k.eq('transform length', F.a[1][0], N, cx)
    # out_k = X_0 + (-1)^k X_{n-1} + 2 sum X_j cos(pi j k/(n-1)) is the series sum C_j T_j(x_k) iff X matches
    for nm, j, f in regions(r, 1, 1, 'j'):
        k.eq('the transformed data make it the Chebyshev series, %s' % nm, arg(F, j, r.ctx(*f)),
             sel(C, (j,)) if nm != 'interior' else sel(C, (j,)) / R(2), r, f)
    k.frame('only coefficient scratch and the output written', m0, r, [c.path + ('#d',), p.path + ('#d',)])


def ch_round(k, cheb):
    r, o = setup(k, 'Cheb', cheb, 2)
    v, c, p = r.vec('v', N), r.vec('ch', N), r.vec('po', N)
    V = r.arr(v)
    r.call('Cheb::to_ch', o, [v, c])
    r.call('Cheb::to_po', o, [c, p])
    i = var('i')
    cx = r.ctx(le(I(0), i), lt(i, N))
    x = pv.resolve(sel(r.arr(p), (i,)), cx)
    F = peel(x)
    k.eq('the round trip ends with one transform', x, sel(F, (i,)), cx)
    D = dct_of(V, N)
    for nm, j, f in regions(r, 1, 1, 'j'):
        # lemma DCT(DCT(v)) = 2(n-1) v
        k.eq('the transformed data are DCT(v)/(2(n-1)), %s' % nm, arg(F, j, r.ctx(*f)), sel(D, (j,)) / (R(2) * toreal(N - 1)), r, f)


def c05():
    T = []
    for c in (False, True):
        b = ' (%s build)' % cfg_name((c, False))
        T += [('Cheb::to_ch' + b, ch_to_ch, (c,)), ('Cheb::to_po' + b, ch_to_po, (c,)), ('Cheb round trip' + b, ch_round, (c,))]
    return T


def ch_der(k, cheb):
    r, o = setup(k, 'Cheb', cheb, 4)
    v, d = r.vec('v', N), r.vec('dv', N)
    V = r.arr(v)
    m0 = r.snapshot()
    r.call('Cheb::der', o, [v, d])
    i = var('i')
    cx = r.ctx(le(I(0), i), lt(i, N))
    x = pv.resolve(sel(r.arr(d), (i,)), cx)
    F = peel(x)
    k.eq('result = transform / Jacobian', x * ((HI - LO) / R(2)), sel(F, (i,)), cx)
    D = dct_of(V, N)
    A = lambda j, *f: arg(F, j, r.ctx(*f))
    # derivative series b: b_{n-1} = b_{n-2} = 0, (2 A_j) = b_j for 0<j<n-1, 2 A_0 = 2 b_0 = c_0 b_0
    k.eq('top derivative coefficient vanishes', A(N - 1), R(0), r)
    k.eq('next derivative coefficient vanishes', A(N - 2), R(0), r)
    j = var('j')
    for nm, j, f in (('j = 1', I(1), (lt(I(5), N),)), ('1 < j < n-3', j, (le(I(2), j), lt(j, N - 3))), ('j = n-3', N - 3, (lt(I(5), N),)),
                     ('n = 4, j = 1', I(1), (eq(N, I(4)),)), ('n = 5, j = 1', I(1), (eq(N, I(5)),)), ('n = 5, j = 2', I(2), (eq(N, I(5)),))):
        cj = sel(D, (j,)) / toreal(N - 1)
        k.eq('derivative recurrence b_{j-1} - b_{j+1} = 2 j c_j, ' + nm, R(2) * A(j - 1, *f) - R(2) * A(j + 1, *f), R(2) * toreal(j) * cj, r, f)
    k.eq('the two highest modes are dropped: b_{n-3} = b_{n-1}', A(N - 3), A(N - 1), r)
    k.frame('input unchanged, only the output written', m0, r, [d.path + ('#d',)])


def ch_functional(k, meth, cheb, inplace=False):
    """every output value is overwritten: the old content of the output array is irrelevant"""
    r, o = setup(k, 'Cheb', cheb, 4)
    v, d = r.vec('v', N), r.vec('dv', N)
    r.call('Cheb::' + meth, o, [v] if inplace else [v, d])
    out = r.arr(v if inplace else d)
    i = var('i')
    x = pv.resolve(sel(out, (i,)), r.ctx(le(I(0), i), lt(i, N)))
    from ..evalt import all_atoms
    at = {str(a.a[0]) for a in all_atoms([x])}
    k.flag('result depends on the input and the constructor arguments only', {a for a in at if '!' not in a} <= {'v', 'n', 'lower', 'upper', 'pi', 'e', 'i'}, str(sorted(at)))


def c06():
    T = []
    for c in (False, True):
        b = ' (%s build)' % cfg_name((c, False))
        T += [('Cheb::der' + b, ch_der, (c,)), ('Cheb::der is a function of its input' + b, ch_functional, ('der', c))]
    return T


def ch_filter(k, cheb):
    r, o = setup(k, 'Cheb', cheb, 3)
    v = r.vec('v', N)
    V = r.arr(v)
    m0 = r.snapshot()
    r.call('Cheb::filter', o, [v])
    i = var('i')
    cx = r.ctx(le(I(0), i), lt(i, N))
    x = pv.resolve(sel(r.arr(v), (i,)), cx)
    F = peel(x)
    k.eq('result = transform', x, sel(F, (i,)), cx)
    D = dct_of(V, N)
    for nm, j, f in regions(r, 1, 1, 'j'):
        s = exp(R(-40) * power(toreal(j) / toreal(N), 16))
        k.eq('coefficient scaled by exp(-40 (k/n)^16), %s' % nm, arg(F, j, r.ctx(*f)), s * sel(D, (j,)) / (R(2) * toreal(N - 1)), r, f)
    k.frame('only the array is written', m0, r, [v.path + ('#d',)])


def c07():
    return [('Cheb::filter (%s build)' % cfg_name((c, False)), ch_filter, (c,)) for c in (False, True)]
