"""C08-C11, C27 and the grid part of C14."""
from .common import *


# ---------------------------------------------------------------- C08
def index_maps(k, cheb, contig):
    r, g = grid_run(k, cheb, contig)
    s = P(g.path + ('_sphere',))
    m0 = r.snapshot()
    f = INX + INT + INP
    a = r.call('Grid::indx_R_th_ph', g, [ix, it, ip])
    b = r.call('Grid::indx_th_ph', g, [it, ip])
    c = r.call('Sphere::indx', s, [it, ip])
    k.true('3D index is below the number of points', andd(le(I(0), a), lt(a, N3)), r, f)
    k.true('shell index is below the number of shell points', andd(le(I(0), b), lt(b, NS)), r, f)
    x2, t2, p2 = var('ix2'), var('it2'), var('ip2')
    f2 = f + inr(x2, nx) + inr(t2, nlat) + inr(p2, nphi)
    a2 = r.call('Grid::indx_R_th_ph', g, [x2, t2, p2])
    same = andd(eq(ix, x2), eq(it, t2), eq(ip, p2))
    # one-to-one: equal storage positions force equal index triples
    def one2one(nm_, u, w, goal):
        d = pv.digit_eqs(pv.resolve(u, r.ctx(*f2)), pv.resolve(w, r.ctx(*f2)), r.ctx(*f2))
        if d is not None:
            k.true(nm_, implies(andd(*[eq(p, q) for p, q in d]), goal), r, f2)
        else:
            k.true(nm_, goal, r, f2 + (eq(u, w),))
    one2one('3D index is one-to-one', a, a2, same)
    b2 = r.call('Grid::indx_th_ph', g, [t2, p2])
    one2one('shell index is one-to-one', b, b2, andd(eq(it, t2), eq(ip, p2)))
    k.eq('a shell is a contiguous block in shell order', a, nlat * nphi * ix + b, r, f)
    k.eq('the sphere module uses the same order inside a shell', c, b, r, f)
    # the layout the transform library was told to use (PHI_CONTIGUOUS = 512)
    for nm_, i_, j_, n_ in (('indx_r_th', ix, it, nlat), ('indx_r_ph', ix, ip, nphi), ('indx_r_l', ix, il, nl)):
        q = r.call('Grid::' + nm_, g, [i_, j_])
        k.eq(nm_ + ' is row-major', q, n_ * i_ + j_, r, f + INL)
    flags = [v for kk, v in r.st.mem.items() if kk[-1] == '#flags' and kk[0] == 'shtns']
    k.flag('one transform configuration', len(flags) == 1)
    for v in flags:
        e = imod(idiv(v, I(512)), I(2)) if isinstance(v, T) else I((int(v) // 512) % 2)
        k.eq('transform library stores fields in the same order', e, I(0 if contig else 1), r, f)
    for q, v in zip(('cl', 'Rmin', 'Rmax', 'nx', 'nl', 'nm', 'nlat', 'nphi'), GARGS):
        k.eq(q + '()', r.call('Grid::' + q, g, []), v, r, f)
    k.frame('index functions write nothing', m0, r, [])


def tables(k, cheb, contig):
    r, g = grid_run(k, cheb, contig)
    s = g.path + ('_sphere',)
    m0 = r.snapshot()
    f = INX + INT + INP + INL
    r.assume(*f)
    Rv = r.call(('Cheb' if cheb else 'FD') + '::pt', P(g.path + ('_radial',)), [ix])
    th = r.call('Sphere::theta', P(s), [it])
    ph = r.call('Sphere::phi', P(s), [ip])
    k.eq('radial coordinate', Rv, Rpt(cheb, ix), r)
    k.eq('polar coordinate is the Gauss node of the transform', th, app('acos', sel(tm.farr('gauss_ct', (nlat,), ()), (it,))), r)
    k.eq('azimuth is uniformly spaced', ph, R(2) * PI * toreal(ip) / toreal(nphi), r)
    st, cp, sp, c_t = sin(th), cos(ph), sin(ph), cos(th)

    def tab(meth, args, vals):
        for n_args in (args,):
            v = r.call('Grid::' + meth, g, n_args, nparams=len(n_args))
            k.eq('%s(%d index): number of entries' % (meth, len(n_args)), r.st.mem[v.path + ('#n',)], I(len(vals)), r)
            for q, want in enumerate(vals):
                k.eq('%s(%d index)[%d]' % (meth, len(n_args), q), r.at(v, I(q)), want, r)
    i3, i2, ir = idx3(contig, ix, it, ip), idx2(contig, it, ip), nl * ix + il
    sph, xyz = [Rv, th, ph], [Rv * cp * st, Rv * sp * st, Rv * c_t]
    tab('R_th_ph', [ix, it, ip], sph)
    tab('R_th_ph', [i3], sph)
    tab('x_y_z', [ix, it, ip], xyz)
    tab('x_y_z', [i3], xyz)
    tab('th_ph', [it, ip], [th, ph])
    tab('th_ph', [i2], [th, ph])
    tab('R_l', [ix, il], [Rv, toreal(il)])
    tab('R_l', [ir], [Rv, toreal(il)])
    if cheb:
        tab('n_l', [ix, il], [toreal(ix), toreal(il)])
        tab('n_l', [ir], [toreal(ix), toreal(il)])
    k.frame('accessors write nothing', m0, r, [])


def c08():
    T = []
    for c in CONFIGS:
        T.append(('index maps (%s build)' % cfg_name(c), index_maps, c))
        T.append(('coordinate tables (%s build)' % cfg_name(c), tables, c))
    return T


# ---------------------------------------------------------------- C09
# name -> (fixed indices, running indices, position in the extracted array, its size)
def rows(contig):
    x, t, p, l = ix, it, ip, il
    n3 = lambda x, t, p: idx3(contig, x, t, p)
    return {
        'R': ([it, ip], [(ix, nx)], lambda: (n3(ix, it, ip),), lambda: (ix,), nx, N3),
        'th': ([ix, ip], [(it, nlat)], lambda: (n3(ix, it, ip),), lambda: (it,), nlat, N3),
        'ph': ([ix, it], [(ip, nphi)], lambda: (n3(ix, it, ip),), lambda: (ip,), nphi, N3),
        'n': ([il], [(ix, nx)], lambda: (nl * ix + il,), lambda: (ix,), nx, nx * nl),
        'R_th': ([ip], [(ix, nx), (it, nlat)], lambda: (n3(ix, it, ip),), lambda: (nlat * ix + it,), nx * nlat, N3),
        'R_ph': ([it], [(ix, nx), (ip, nphi)], lambda: (n3(ix, it, ip),), lambda: (nphi * ix + ip,), nx * nphi, N3),
        'th_ph': ([ix], [(it, nlat), (ip, nphi)], lambda: (n3(ix, it, ip),), lambda: (idx2(contig, it, ip),), NS, N3),
        'l': ([ix], [(il, nl)], lambda: (nl * ix + il,), lambda: (il,), nl, nx * nl),
    }


def row(k, cheb, contig, name):
    r, g = grid_run(k, cheb, contig)
    fixed, run, big, small, ns, nb = rows(contig)[name]
    rng = {ix: nx, it: nlat, ip: nphi, il: nl}
    ff = tuple(q for v in fixed for q in inr(v, rng[v]))
    rf = tuple(q for v, n in run for q in inr(v, n))
    r.assume(*ff)
    st0 = r.st.fork()
    if name != 'l':
        A, o = r.vec('A', nb), r.vec('o', ns)
        A0 = r.arr(A)
        m0 = r.snapshot()
        r.call('Grid::get_row_' + name, g, fixed + [A, o])
        k.eq('get_row_%s returns the stored values' % name, r.at(o, *small()), sel(A0, big()), r, rf)
        k.frame('get_row_%s writes its output only' % name, m0, r, [o.path + ('#d',)])
        # insert what was extracted: identity
        r.call('Grid::set_row_' + name, g, fixed + [o, A])
        z = var('z')
        k.eq('inserting what was extracted changes nothing', r.at(A, z), sel(A0, (z,)), r, inr(z, nb))
    r.st.take(st0)
    A, o = r.vec('A2', nb), r.vec('o2', ns)
    A0, o0 = r.arr(A), r.arr(o)
    m0 = r.snapshot()
    r.call('Grid::set_row_' + name, g, fixed + [o, A])
    k.eq('set_row_%s stores the values' % name, r.at(A, *big()), sel(o0, small()), r, rf)
    # every other cell: another index combination
    oth = {v: var(str(v.a[0]) + '_o') for v in fixed}
    fo = tuple(q for v in fixed for q in inr(oth[v], rng[v]))
    bo = tuple(tm.subst(b, {v: oth[v] for v in fixed}) for b in big())
    differs = orr(*[ne(v, oth[v]) for v in fixed])
    k.eq('set_row_%s leaves every other value' % name, r.at(A, *bo), sel(A0, bo), r, rf + fo + (differs,))
    k.frame('set_row_%s writes its output only' % name, m0, r, [A.path + ('#d',)])
    if name != 'l':
        q = r.vec('q2', ns)
        r.call('Grid::get_row_' + name, g, fixed + [A, q])
        k.eq('extracting what was inserted returns it', r.at(q, *small()), sel(o0, small()), r, rf)


def c09():
    return [('get/set_row_%s (%s build)' % (n, cfg_name(c)), row, c + (n,)) for c in CONFIGS for n in rows(True)]


# ---------------------------------------------------------------- C10
def rderiv(k, cheb, contig, which):
    r, g = grid_run(k, cheb, contig)
    v, d = r.vec('v', N3), r.vec('dv', N3)
    V = r.arr(v)
    m0 = r.snapshot()
    r.call('Grid::' + which, g, [v, d])
    f = INX + INT + INP
    L = line_R(contig, V, it, ip)
    nm1 = 'Cheb.der' if cheb else 'FD.der'
    D1 = radial(nm1, L)
    Rv = Rpt(cheb, ix)
    J = power(R(1) - Rv / cl, 2)
    if which == 'set_partial_R':
        want = sel(D1, (ix,))
    elif which == 'set_partial_r':
        want = J * sel(D1, (ix,))
    else:
        D2 = radial('Cheb.der', D1) if cheb else radial('FD.der2', L)
        want = R(-2) / cl * power(R(1) - Rv / cl, 3) * sel(D1, (ix,)) + power(J, 2) * sel(D2, (ix,))
    k.eq('value at every point', r.at(d, idx3(contig, ix, it, ip)), want, r, f)
    k.frame('input unchanged, only the output written', m0, r, [d.path + ('#d',)])
    k.flag('output size unchanged', r.st.mem[d.path + ('#n',)] is N3)


def jac(k):
    """the documented compactification R = r/(1+r/L)"""
    L, q, x = var('L', 'R'), var('r', 'R'), var('x', 'R')
    f = (lt(R(0), L), le(R(0), q))
    Rq = q / (R(1) + q / L)
    J = power(R(1) - Rq / L, 2)
    k.eq('lemma: dR/dr of R = r/(1+r/L) is (1-R/L)^2 (quotient rule)', J, (R(1) + q / L - q / L) / power(R(1) + q / L, 2), f, (lt(R(0), R(1) + q / L),))
    k.eq('lemma: R\'\'(r) is -2/L (1-R/L)^3', R(-2) / L * power(R(1) - Rq / L, 3), R(-2) / L / power(R(1) + q / L, 3), f, (lt(R(0), R(1) + q / L),))


def r_of_R(k, cheb, contig):
    r, g = grid_run(k, cheb, contig)
    Rv = var('R', 'R')
    r.assume(lt(R(1) / R(10 ** 16), absr(Rv - cl)))
    m0 = r.snapshot()
    x = r.call('Grid::R_to_r', g, [Rv])
    k.eq('R_to_r inverts the compactification', x, Rv / (R(1) - Rv / cl), r, (lt(Rv, cl),))
    k.frame('R_to_r writes nothing', m0, r, [])


def c10():
    T = [('%s (%s build)' % (w, cfg_name(c)), rderiv, c + (w,)) for c in CONFIGS for w in ('set_partial_R', 'set_partial_r', 'set_partial2_r')]
    T += [('compactification lemmas', jac, ())]
    T += [('R_to_r (%s build)' % cfg_name(c), r_of_R, c) for c in CONFIGS]
    return T


# ---------------------------------------------------------------- C11
def angular(k, cheb, contig, which):
    r, g = grid_run(k, cheb, contig)
    op = {'set_partial_phi': 'partial_phi', 'set_spherical_lap': 'laplace_beltrami', 'set_sphereX': 'sphereX',
          'set_angular_power_spectrum': 'power_spectrum', 'set_n_l_coef': 'power_spectrum'}[which]
    no = nx * nl if op == 'power_spectrum' else N3
    v, d = r.vec('v', N3), r.vec('dv', no)
    V = r.arr(v)
    m0 = r.snapshot()
    r.call('Grid::' + which, g, [v, d])
    D = lambda x: sphere(op, shell(contig, V, x), contig)
    if which == 'set_n_l_coef':
        x = fresh('x')
        row_ = tm.fam(tm.aconst(R(0)), (x,), ((I(0), nx),), (x,), tm.powr(sel(D(x), (il,)), R(1) / R(2)))
        k.eq('value at every (n,l)', r.at(d, nl * ix + il), sel(radial('Cheb.to_ch', row_), (ix,)), r, INX + INL)
    elif op == 'power_spectrum':
        k.eq('value at every (shell, degree)', r.at(d, nl * ix + il), sel(D(ix), (il,)), r, INX + INL)
    else:
        k.eq('value at every point', r.at(d, idx3(contig, ix, it, ip)), sel(D(ix), (idx2(contig, it, ip),)), r, INX + INT + INP)
    k.frame('input unchanged, only the output written', m0, r, [d.path + ('#d',)])
    k.flag('output size unchanged', r.st.mem[d.path + ('#n',)] is no)


def c11():
    W = ('set_partial_phi', 'set_spherical_lap', 'set_sphereX', 'set_angular_power_spectrum')
    T = [('%s (%s build)' % (w, cfg_name(c)), angular, c + (w,)) for c in CONFIGS for w in W]
    T += [('set_n_l_coef (%s build)' % cfg_name(c), angular, c + ('set_n_l_coef',)) for c in CONFIGS if c[0]]
    return T


# ---------------------------------------------------------------- C14 (grid part)
def gfilter(k, cheb, contig):
    r, g = grid_run(k, cheb, contig)
    v = r.vec('v', N3)
    V = r.arr(v)
    m0 = r.snapshot()
    r.call('Grid::filter', g, [v])
    S = lambda x, t, p: sel(sphere('filter', shell(contig, V, x), contig), (idx2(contig, t, p),))
    x = fresh('x')
    line = tm.fam(tm.aconst(R(0)), (x,), ((I(0), nx),), (x,), S(x, it, ip))
    F = radial('Cheb.filter' if cheb else 'FD.filter', line)
    for nm_, i, f in (('first radial point', I(0), ()), ('last radial point', nx - 1, ())):
        k.eq('%s: angular filter only' % nm_, r.at(v, idx3(contig, i, it, ip)), S(i, it, ip), r, INT + INP + f)
    k.eq('interior: angular then radial filter', r.at(v, idx3(contig, ix, it, ip)), sel(F, (ix,)), r, INT + INP + (le(I(1), ix), lt(ix, nx - 1)))
    k.frame('only the field is written', m0, r, [v.path + ('#d',)])


# ---------------------------------------------------------------- C27
def resid(k, cheb, contig):
    r, g = grid_run(k, cheb, contig)
    dt = var('dt', 'R')
    r.assume(lt(R(0), dt))
    a, b, p = r.vec('fn', N3), r.vec('fnp1', N3), r.vec('p', N3)
    A, B, Pp = r.arr(a), r.arr(b), r.arr(p)
    m0 = r.snapshot()
    x = r.call('Grid::norm_indep_res', g, [dt, a, b, p])
    j = fresh('j')
    s = tm.summ(j, I(0), N3, power(sel(Pp, (j,)) - (sel(B, (j,)) - sel(A, (j,))) / dt, 2))
    k.eq('root mean square of p - (f_next - f_now)/dt', x, tm.powr(s / toreal(N3), R(1) / R(2)), r)
    k.frame('nothing is written', m0, r, [])


def totvar(k, cheb, contig):
    r, g = grid_run(k, cheb, contig)
    v = r.vec('v', N3)
    V = r.arr(v)
    m0 = r.snapshot()
    x = r.call('Grid::total_variation', g, [v])
    X, Tt, Pp = fresh('x'), fresh('t'), fresh('p')
    at = lambda a, b, c: sel(V, (idx3(contig, a, b, c),))
    c0 = at(X, Tt, Pp)
    q = power(at(X + 1, Tt, Pp) - c0, 2) + power(at(X, Tt + 1, Pp) - c0, 2) + power(at(X, Tt, Pp + 1) - c0, 2)
    s = tm.summ(X, I(0), nx - 1, tm.summ(Tt, I(0), nlat - 1, tm.summ(Pp, I(0), nphi - 1, tm.powr(q, R(1) / R(2)))))
    k.eq('mean length of the forward differences', x, s / toreal(N3), r)
    k.frame('nothing is written', m0, r, [])


def c27():
    T = []
    for c in CONFIGS:
        T += [('norm_indep_res (%s build)' % cfg_name(c), resid, c), ('total_variation (%s build)' % cfg_name(c), totvar, c)]
    return T


def c14():
    from . import sphere as sp
    return sp.c14s() + [('Grid::filter (%s build)' % cfg_name(c), gfilter, c) for c in CONFIGS]
