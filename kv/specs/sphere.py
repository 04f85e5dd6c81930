"""C12, C13, C15 and the sphere part of C14."""
from .common import *
from ..evalt import all_atoms

SVALID = (le(I(1), nl), le(I(0), nm), le(nm, nl), lt(nl, nlat), lt(I(2) * nm, nphi))
SARGS = (nl, nm, nlat, nphi)
l, m, m2 = var('l'), var('m'), var('mm')
i = var('i')
INS = (le(I(0), i), lt(i, NS))
NLM = app('nlm', nl, nm, s='I')
INLM = (le(I(0), l), le(l, nl), le(I(0), m), le(m, l), le(m, nm))


def sphere_run(k, cheb, contig, contracts=ct.CTORS, facts=SVALID, clear=True, omp=False):
    r = k.run(cheb, contig, contracts, omp)
    r.assume(*facts)
    s = r.obj('Sphere', SARGS, 'sph')
    if clear:
        k.clear(r)
    return r, s


def farrs(t, names):
    """outermost contract arrays of the given names in a term"""
    out, seen, st = [], set(), [t]
    while st:
        u = st.pop()
        if u in seen:
            continue
        seen.add(u)
        if u.op == 'farr' and u.a[0] in names:
            if u not in out:
                out.append(u)
            continue
        st.extend(tm.children(u))
    return out


def one(t, name):
    d = farrs(t, (name,))
    if len(d) != 1:
        raise SpecFail('result is not one %s transform (%d found)' % (name, len(d)))
    return d[0]


def coef(F, q, idx, ctx):
    B, vs, rs, ix = F.a[2][q]
    return pv.resolve(sel(B, idx), ctx)


def lmidx(l_, m_):
    return app('LM', l_, m_, s='I')


def cfg(r):
    """the transform configuration the sphere was built with"""
    ks = [kk for kk in r.st.mem if kk[0] == 'shtns' and kk[-1] == '#flags']
    if len(ks) != 1:
        raise SpecFail('expected one transform configuration')
    return ks[0][:-1]


FIELDS = ('lmax', 'mmax', 'mres', '#norm', '#flags', '#eps', 'nlat', 'nphi')


def analysis(k, r, V, comp):
    """(contract of the) analysis transform of the first NS cells of V, for the documented configuration"""
    from .. import lib
    c = cfg(r)
    mem = r.st.mem
    sc = tuple(mem[c + (q,)] for q in FIELDS)
    z = fresh('k')
    return tm.farr(comp, sc, ((V, (z,), ((I(0), NS),), (z,)),))


def config(k, cheb, contig):
    r, s = sphere_run(k, cheb, contig, clear=False)
    c = cfg(r)
    mem = r.st.mem
    want = {'lmax': nl, 'mmax': nm, 'mres': I(1), '#norm': I(0), 'nlat': nlat, 'nphi': nphi}
    for q, v in want.items():
        k.eq('transform configured with %s' % q, mem[c + (q,)], v, r)
    k.eq('no polar optimisation', tm.toreal(mem[c + ('#eps',)]), R(0), r)
    fl = mem[c + ('#flags',)]
    k.true('Gauss grid and the layout of the index functions', orr(*[eq(fl, I(x)) for x in ((0, 256) if contig else (512,))]), r)
    m0 = r.snapshot()
    k.eq('nlat()', r.call('Sphere::nlat', s, []), nlat, r)
    k.eq('nphi()', r.call('Sphere::nphi', s, []), nphi, r)
    k.eq('nSph()', r.call('Sphere::nSph', s, []), NS, r)
    k.eq('nYlm()', r.call('Sphere::nYlm', s, []), app('nlm', nl, nm, s='I'), r)
    k.frame('queries write nothing', m0, r, [])


def pure(k, r, x, extra=()):
    """the value depends on the input and the construction parameters only"""
    at = {str(a.a[0]) for a in all_atoms([x])}
    ok = {'v', 'nl', 'nm', 'nlat', 'nphi', 'pi', 'e', 'i'} | set(extra)
    k.flag('result is a function of the input and the construction parameters', {a for a in at if '!' not in a} <= ok, str(sorted(at - ok)))


def spectral(k, cheb, contig, meth, inplace=False):
    """out = synthesis(multiplier * analysis(v))"""
    r, s = sphere_run(k, cheb, contig)
    v = r.vec('v', NS)
    V = r.arr(v)
    d = v if inplace else r.vec('dv', NS)
    m0 = r.snapshot()
    r.call('Sphere::' + meth, s, [v] if inplace else [v, d])
    cx = r.ctx(*INS)
    x = pv.resolve(r.at(d, i), cx)
    F = one(x, 'spat')
    k.eq('result = synthesis at every point', x, sel(F, (i,)), cx)
    c = cfg(r)
    for q, w in zip(FIELDS, F.a[1]):
        k.eq('synthesis uses the same configuration (%s)' % q, w, r.st.mem[c + (q,)], cx)
    re, im = analysis(k, r, V, 'SHre'), analysis(k, r, V, 'SHim')
    L = lmidx(l, m)
    cx2 = r.ctx(*INLM)
    a, b = coef(F, 0, (L,), cx2), coef(F, 1, (L,), cx2)
    re, im = sel(re, (L,)), sel(im, (L,))
    lr, mr = tm.toreal(l), tm.toreal(m)
    if meth == 'laplace_beltrami':
        wr, wi = mul(R(-1), lr) * (lr + R(1)) * re, mul(R(-1), lr) * (lr + R(1)) * im
    elif meth == 'partial_phi':
        wr, wi = mul(R(-1), mr) * im, mr * re
    else:
        f = exp(R(-40) * power(lr / tm.toreal(nl), 16)) * exp(R(-40) * power(mr / tm.toreal(nl), 16))
        wr, wi = f * re, f * im
    k.eq('real part of every retained coefficient', a, wr, cx2)
    k.eq('imaginary part of every retained coefficient', b, wi, cx2)
    pure(k, r, x)
    k.frame('input unchanged, only the output written' if not inplace else 'only the field is written', m0, r, [d.path + ('#d',)])
    k.flag('output size unchanged', r.st.mem[d.path + ('#n',)] is m0[d.path + ('#n',)])


def c12():
    T = [('Sphere set-up (%s build)' % cfg_name(c), config, c) for c in CONFIGS]
    for c in CONFIGS:
        for q in ('laplace_beltrami', 'partial_phi'):
            T.append(('Sphere::%s (%s build)' % (q, cfg_name(c)), spectral, c + (q,)))
    return T


def c14s():
    return [('Sphere::filter (%s build)' % cfg_name(c), spectral, c + ('filter', True)) for c in CONFIGS]


# ---------------------------------------------------------------- C13
def ladder(k, cheb, contig, meth):
    r, s = sphere_run(k, cheb, contig)
    v, o = r.vec('v', NS), r.vec('o', NS, 'C')
    V = r.arr(v)
    m0 = r.snapshot()
    r.call('Sphere::' + meth, s, [v, o])
    cx = r.ctx(*INS)
    sg = 1 if meth == 'raise' else -1
    for comp, nm_ in (('#re', 'cspat_re'), ('#im', 'cspat_im')):
        x = pv.resolve(sel(r.st.mem[o.path + (comp,)], (i,)), cx)
        F = one(x, nm_)
        k.eq('%s part = synthesis at every point' % comp[1:], x, sel(F, (i,)), cx)
        # coefficients f_{l,m}, -l <= m <= l, at l(l+1)+m; input real
        lo = (le(I(0), l), le(l, nl))
        rng = lo + ((lt(mul(I(-1), l), m), le(m, l)) if sg > 0 else (le(mul(I(-1), l), m), lt(m, l)))
        c2 = r.ctx(*rng)
        here, there = l * (l + 1) + m, l * (l + 1) + m - sg
        z = fresh('k')
        cc = cfg(r)
        sc = tuple(r.st.mem[cc + (q,)] for q in FIELDS)
        zero = tm.aconst(R(0))
        arrs = ((V, (z,), ((I(0), NS),), (z,)), (zero, (z,), ((I(0), NS),), (z,)))
        src = [tm.farr(q, sc, arrs) for q in ('cSHre', 'cSHim')]
        fac = tm.powr(tm.toreal((l - m * sg + 1) * (l + m * sg)), R(1) / R(2))
        for q in (0, 1):
            k.eq('%s: coefficient (l,m) = factor times coefficient (l,m%+d), component %d' % (comp[1:], -sg, q), coef(F, q, (here,), c2),
                 fac * sel(src[q], (there,)), c2)
            edge = l * (l + 1) - l * sg
            k.eq('%s: coefficient m=%sl is cleared, component %d' % (comp[1:], '-' if sg > 0 else '', q), coef(F, q, (edge,), r.ctx(*lo)), R(0), r.ctx(*lo))
    pure(k, r, x)
    k.frame('input unchanged, only the output written', m0, r, [o.path + ('#re',), o.path + ('#im',)])


def sphx(k, cheb, contig):
    r, s = sphere_run(k, cheb, contig)
    v, d = r.vec('v', NS), r.vec('vX', NS)
    ra, lo, ph = r.vec('ra', NS, 'C'), r.vec('lo', NS, 'C'), r.vec('ph', NS)
    r.call('Sphere::raise', s, [v, ra])
    r.call('Sphere::lower', s, [v, lo])
    r.call('Sphere::partial_phi', s, [v, ph])
    k.clear(r)
    m0 = r.snapshot()
    r.call('Sphere::sphereX', s, [v, d])
    cx = r.ctx(*INS)
    g = lambda p, c: sel(r.st.mem[p.path + (c,)], (i,))
    x = pv.resolve(r.at(d, i), cx)
    k.eq('minus raised times lowered plus squared azimuthal derivative', x,
         mul(R(-1), g(ra, '#re') * g(lo, '#re') - g(ra, '#im') * g(lo, '#im')) + power(g(ph, '#d'), 2), cx)
    pure(k, r, x)
    k.frame('input unchanged, only the output written', m0, r, [d.path + ('#d',)])


def c13():
    T = []
    for c in CONFIGS:
        T += [('Sphere::%s (%s build)' % (q, cfg_name(c)), ladder, c + (q,)) for q in ('raise', 'lower')]
        T.append(('Sphere::sphereX (%s build)' % cfg_name(c), sphx, c))
    return T


# ---------------------------------------------------------------- C15
def power_spec(k, cheb, contig):
    r, s = sphere_run(k, cheb, contig)
    v, p = r.vec('v', NS), r.vec('p', nl)
    V = r.arr(v)
    m0 = r.snapshot()
    r.call('Sphere::power_spectrum', s, [v, p])
    re, im = analysis(k, r, V, 'SHre'), analysis(k, r, V, 'SHim')
    mod = lambda m_: power(sel(re, (lmidx(l, m_),)), 2) + power(sel(im, (lmidx(l, m_),)), 2)
    f = (le(I(0), l), lt(l, nl))
    x = r.at(p, l)
    # negative orders of a real field have the modulus of the positive ones
    q = fresh('m')
    for nm_, top, g in (('all orders retained', l, (le(l, nm),)), ('orders up to the maximum order', nm, (lt(nm, l),))):
        k.eq('sum over every retained order, %s' % nm_, x, mod(I(0)) + R(2) * tm.summ(q, I(1), top + 1, mod(q)), r, f + g)
    pure(k, r, pv.resolve(x, r.ctx(*f)), ('l',))
    k.frame('input unchanged, only the output written', m0, r, [p.path + ('#d',)])


def ylm(k, cheb, contig):
    r, s = sphere_run(k, cheb, contig)
    r.assume(*INLM)
    m0 = r.snapshot()
    o = r.call('Sphere::compute_ylm', s, [l, m])
    cx = r.ctx(*INS)
    x = pv.resolve(r.at(o, i), cx)
    F = one(x, 'spat')
    k.eq('harmonic = synthesis at every point', x, sel(F, (i,)), cx)
    k.eq('size', r.st.mem[o.path + ('#n',)], NS, r)
    l2, m2_ = var('l2'), var('m2')
    f2 = (le(I(0), l2), le(l2, nl), le(I(0), m2_), le(m2_, l2), le(m2_, nm), lt(lmidx(l2, m2_), app('nlm', nl, nm, s='I')), le(I(0), lmidx(l2, m2_)))
    me = (eq(l, l2), eq(m, m2_))
    c0 = coef(F, 0, (lmidx(l, m),), r.ctx())
    k.eq('unit real coefficient of the requested harmonic', c0, R(1), r)
    k.eq('no imaginary coefficient', coef(F, 1, (lmidx(l2, m2_),), r.ctx(*f2)), R(0), r.ctx(*f2))
    f3 = f2 + (nott(andd(*me)),)
    k.eq('every other coefficient is zero', coef(F, 0, (lmidx(l2, m2_),), r.ctx(*f3)), R(0), r.ctx(*f3))
    pure(k, r, x, ('l', 'm'))
    k.frame('nothing else is written', m0, r, [])


def transform(k, cheb, contig, meth, dom):
    """the vector interface of the transforms: every cell of the result is the library's analysis or synthesis of the data given"""
    r, s = sphere_run(k, cheb, contig)
    cplx_ = dom == 'complex'
    n = (nl + 1) * (nl + 1) if cplx_ else NLM
    u, y = r.vec('u', NS, 'C' if cplx_ else 'R'), r.vec('y', n, 'C')
    src, dst, ns, nd = (u, y, NS, n) if meth == 'to_Ylm' else (y, u, n, NS)
    mem = r.st.mem
    comps = lambda p: [mem[p.path + (q,)] for q in (('#d',) if p is u and not cplx_ else ('#re', '#im'))]
    sc = tuple(mem[cfg(r) + (q,)] for q in FIELDS)
    z = fresh('k')
    arrs = tuple((A, (z,), ((I(0), ns),), (z,)) for A in comps(src))
    m0 = r.snapshot()
    fs = [r.prog.funcs[f] for f in r.prog.byname['Sphere::' + meth]]
    fs = [f for f in fs if ('vector<double>' in f['type']['qualType']) == (not cplx_)]
    if len(fs) != 1:
        raise SpecFail('no overload of %s for %s fields' % (meth, dom))
    r.ex.run(fs[0], s.path, [src, dst], r.st)
    mem = r.st.mem
    names = {('to_Ylm', False): ('SHre', 'SHim'), ('to_Ylm', True): ('cSHre', 'cSHim'), ('to_Sph', False): ('spat',), ('to_Sph', True): ('cspat_re', 'cspat_im')}[meth, cplx_]
    j = var('j')
    cx = r.ctx(le(I(0), j), lt(j, nd))
    for q, (A, nm_) in enumerate(zip(comps(dst), names)):
        x = pv.resolve(sel(A, (j,)), cx)
        k.eq('every cell of the result is the %s of the given data, component %d' % ('analysis' if meth == 'to_Ylm' else 'synthesis', q), x,
             sel(tm.farr(nm_, sc, arrs), (j,)), cx)
    k.frame('input unchanged, only the output written', m0, r, [dst.path + (q,) for q in ('#d', '#re', '#im')])
    k.flag('output size unchanged', mem[dst.path + ('#n',)] is m0[dst.path + ('#n',)])


def c29():
    T = []
    for c in CONFIGS:
        T += [('Sphere::%s, %s fields (%s build)' % (q, d, cfg_name(c)), transform, c + (q, d)) for q in ('to_Ylm', 'to_Sph') for d in ('real', 'complex')]
        T.append(('Sphere::compute_ylm (%s build)' % cfg_name(c), ylm, c))
    return T


def c15():
    T = []
    for c in CONFIGS:
        T.append(('Sphere::power_spectrum (%s build)' % cfg_name(c), power_spec, c))
    return T
