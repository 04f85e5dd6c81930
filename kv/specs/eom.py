"""C16-C18: equations of motion, energy density, time step."""
from .common import *
from .. import lib
from ..exec import Ptr, P

M, A = var('M', 'R'), var('a', 'R')
NAMES = {'cl': cl, 'Rmin': R0, 'Rmax': R1, 'nx': nx, 'nl': nl, 'nm': nm, 'nlat': nlat, 'nphi': nphi, 'bh_mass': M, 'bh_spin': A,
         'km1': var('km1', 'R'), 'k0': var('k0', 'R'), 'k1': var('k1', 'R'), 'k2': var('k2', 'R'), 'V2': var('V2', 'R'),
         'V3': var('V3', 'R'), 'V4': var('V4', 'R'), 'dt': var('dt', 'R')}
EPS = R(1) / R(10 ** 16)


def params_obj(r, names=NAMES):
    """a Params object whose accessors return the given symbolic values (every other member is arbitrary)"""
    mem = r.st.mem
    p = ('obj', 'params')
    mem[p + ('#class',)] = 'Params'
    for f in r.ex.fields('Params'):
        t, q = f['type']['qualType'], f['name']
        if 'vector' in t:
            mem[p + (q, '#n')] = var('P' + q + '.n')
            mem[p + (q, '#d')] = avar('P' + q)
            r.assume(le(I(0), var('P' + q + '.n')))
        elif 'string' in t:
            mem[p + (q,)] = var('P' + q, 'S')
        elif 'size_t' in t or 'int' in t or 'long' in t:
            mem[p + (q,)] = var('P' + q)
        elif 'bool' in t:
            mem[p + (q,)] = var('P' + q, 'B')
        else:
            mem[p + (q,)] = var('P' + q, 'R')
    o = P(p)
    for q, v in names.items():
        x = r.call('Params::' + q, o, [])
        ks = [kk for kk, w in mem.items() if kk[:2] == p and w is x]
        if len(ks) != 1:
            raise SpecFail('accessor Params::%s does not return one member' % q)
        mem[ks[0]] = v
    return o


def eom_run(k, cheb, contig, contracts=None, omp=False, havoc=True):
    k.prefer = pref()
    k.prefer.update({'M': lambda g: round(g.uniform(0.2, 2), 3), 'a': lambda g: round(g.uniform(-0.2, 0.2), 3)})
    c = dict(ct.UPPER if contracts is None else contracts)
    r = k.run(cheb, contig, c, omp)
    r.assume(*VALID)
    r.assume(lt(R(0), M), le(absr(A), M), orr(eq(absr(A), M), le(EPS, absr(M - absr(A)))), orr(eq(A, R(0)), le(EPS, absr(A))))
    g = r.obj('Grid', GARGS, 'grid')
    p = params_obj(r)
    e = r.obj('Scalar_eom', [g, p], 'eom')
    k.clear(r)
    if havoc:
        # members written by set_k / set_rho hold arbitrary values on entry
        scratch = set()
        for meth, na in (('set_k', 4), ('set_rho', 3)):
            st0 = r.st.fork()
            m0 = r.snapshot()
            args = [r.vec('probe%d' % q, N3) for q in range(na)]
            r.call('Scalar_eom::' + meth, e, [g] + args)
            scratch |= {kk for kk in changed_keys(m0, r.st.mem) if kk[:2] == ('obj', 'eom')}
            r.st.take(st0)
        k.clear(r)
        for kk in scratch:
            if kk[-1] != '#d':
                raise SpecFail('set_k/set_rho change %r' % (kk,))
            r.st.mem[kk] = tm.avar('scratch.' + '.'.join(str(q) for q in kk[2:-1]))
        k.scratch = scratch
    return r, g, p, e


def point_cases(cheb, r):
    """the two kinds of radial point: finite radius, and r = infinity (R = L)"""
    Rv = Rpt(cheb, ix)
    base = INX + INT + INP
    rr = Rv / (R(1) - Rv / cl)
    fin = base + (lt(EPS, absr(Rv - cl)), lt(R(0), Rv), lt(Rv, cl))
    inf = base + (eq(Rv, cl),)
    return (('finite radius', rr, fin), ('r = infinity', None, inf))


RV, RR = var('Rv', 'R'), var('r', 'R')


def generalise(r, g, cheb, f=INX + INT + INP):
    """the radial coordinate becomes a variable R, and (finite radius) R = r cl / (r + cl) with r > 0"""
    st0 = r.st.fork()
    r.assume(*f)
    x = r.call('Grid::R_th_ph', g, [ix, it, ip], nparams=3)
    R_ = pv.resolve(r.at(x, I(0)), r.ctx())
    r.st.take(st0)
    return dict(gens=(((Rpt(cheb, ix), R_), RV, ix),), params=((RV, RR * cl / (RR + cl), (lt(R(0), RR), lt(R(0), cl))),))


def theta():
    return app('acos', sel(tm.farr('gauss_ct', (nlat,), ()), (it,)))


def gop(op, A_, cheb, contig):
    return fn1('Grid.' + op, GARGS + (I(1 if cheb else 0), I(1 if contig else 0)), A_, N3)


def couplings(f):
    km1, k0, k1, k2, V2, V3, V4 = [NAMES[q] for q in ('km1', 'k0', 'k1', 'k2', 'V2', 'V3', 'V4')]
    kk = k0 + km1 / (f + R(1)) + k1 * f + k2 / R(2) * power(f, 2)
    kp = mul(R(-1), km1) / power(f + R(1), 2) + k1 + k2 * f
    V = V2 / R(2) * power(f, 2) + V3 / R(6) * power(f, 3) + V4 / R(24) * power(f, 4)
    Vp = V2 * f + V3 / R(2) * power(f, 2) + V4 / R(6) * power(f, 3)
    return kk, kp, V, Vp


def set_k(k, cheb, contig):
    r, g, p, e = eom_run(k, cheb, contig)
    vf, vp, fk, pk = r.vec('f', N3), r.vec('p', N3), r.vec('fk', N3), r.vec('pk', N3)
    F, Pp = r.arr(vf), r.arr(vp)
    gz = generalise(r, g, cheb)
    k.clear(r)
    m0 = r.snapshot()
    r.call('Scalar_eom::set_k', e, [g, vf, vp, fk, pk])
    id_ = idx3(contig, ix, it, ip)
    D = lambda op, A_: sel(gop(op, A_, cheb, contig), (id_,))
    f, pv_ = sel(F, (id_,)), sel(Pp, (id_,))
    fr, pr, frr = D('set_partial_r', F), D('set_partial_r', Pp), D('set_partial2_r', F)
    fphi = D('set_partial_phi', F)
    frphi = D('set_partial_r', gop('set_partial_phi', F, cheb, contig))
    X, lap = D('set_sphereX', F), D('set_spherical_lap', F)
    kk, kp, V, Vp = couplings(f)
    k.eq('d(psi)/dv = p at every point', r.at(fk, id_), pv_, r, INX + INT + INP)
    for nm_, rr, facts in point_cases(cheb, r):
        if rr is None:
            want = frr + kp / (R(2) * kk) * (power(fr, 2) - power(pv_, 2)) - Vp / kk
        else:
            S = power(rr, 2) + power(A, 2) * power(cos(theta()), 2)
            Dl = power(rr, 2) - R(2) * M * rr + power(A, 2)
            H = R(1) + R(2) * M * rr / S
            lin = R(2) * M / S * pv_ + R(2) * (rr - M) / S * fr + R(4) * M * rr / S * pr + Dl / S * frr + R(2) * A / S * frphi + lap / S
            grad = mul(R(-1), H) * power(pv_, 2) + R(4) * M * rr / S * pv_ * fr + Dl / S * power(fr, 2) + R(2) * A / S * fr * fphi + X / S
            want = (lin + kp / (R(2) * kk) * grad - Vp / kk) / H
        k.alg('dp/dv solves the wave equation, ' + nm_, r.at(pk, id_), want, r, facts + (ne(kk, R(0)), ne(f + R(1), R(0))), **gz)
    k.frame('inputs, tables and everything but scratch and output unchanged', m0, r, [fk.path + ('#d',), pk.path + ('#d',)] + sorted(k.scratch, key=str))


def set_rho(k, cheb, contig):
    r, g, p, e = eom_run(k, cheb, contig)
    vf, vp, rho = r.vec('f', N3), r.vec('p', N3), r.vec('rho', N3)
    F, Pp = r.arr(vf), r.arr(vp)
    gz = generalise(r, g, cheb)
    k.clear(r)
    m0 = r.snapshot()
    r.call('Scalar_eom::set_rho', e, [g, vf, vp, rho])
    id_ = idx3(contig, ix, it, ip)
    D = lambda op, A_: sel(gop(op, A_, cheb, contig), (id_,))
    f, pv_ = sel(F, (id_,)), sel(Pp, (id_,))
    fr, fphi, X = D('set_partial_r', F), D('set_partial_phi', F), D('set_sphereX', F)
    kk, kp, V, Vp = couplings(f)
    for nm_, rr, facts in point_cases(cheb, r):
        if rr is None:
            q = power(pv_, 2) + power(fr, 2)
        else:
            S = power(rr, 2) + power(A, 2) * power(cos(theta()), 2)
            H = R(1) + R(2) * M * rr / S
            q = H * power(pv_, 2) - R(4) * M * rr / S * pv_ * fr + ((power(rr, 2) + R(2) * M * rr + power(A, 2)) / S - R(4) * M * rr / (R(2) * M * rr + S)) * power(fr, 2) \
                + R(2) * A / S * fr * fphi + X / S
        k.alg('energy density, ' + nm_, r.at(rho, id_), kk / R(2) * q + V, r, facts + (ne(f + R(1), R(0)),), **gz)
    k.frame('inputs, tables and everything but scratch and output unchanged', m0, r, [rho.path + ('#d',)] + sorted(k.scratch, key=str))


def ctor(k, cheb, contig):
    """the constructor itself: bounds, asserts, no change of the grid or the parameters"""
    c = dict(ct.UPPER)
    r = k.run(cheb, contig, c)
    r.assume(*VALID)
    r.assume(lt(R(0), M), le(absr(A), M))
    g = r.obj('Grid', GARGS, 'grid')
    p = params_obj(r)
    m0 = r.snapshot()
    k.clear(r)
    r.obj('Scalar_eom', [g, p], 'eom')
    k.frame('grid and parameters unchanged by the constructor', m0, r, [('obj', 'eom')])


def geometry(k, what):
    """lemmas about the documented metric, by computer algebra"""
    import sympy as sp
    v, r, th, ph, m, a = sp.symbols('v r theta phi M a', real=True)
    s2, c2 = sp.sin(th) ** 2, sp.cos(th) ** 2
    Sg, Dl = r ** 2 + a ** 2 * c2, r ** 2 - 2 * m * r + a ** 2
    g = sp.zeros(4)
    g[0, 0] = -(1 - 2 * m * r / Sg)
    g[0, 1] = g[1, 0] = 2 * m * r / Sg
    g[0, 3] = g[3, 0] = -2 * m * r * a * s2 / Sg
    g[1, 1] = 1 + 2 * m * r / Sg
    g[1, 3] = g[3, 1] = -a * s2 * (1 + 2 * m * r / Sg)
    g[2, 2] = Sg
    g[3, 3] = (r ** 2 + a ** 2 + 2 * m * r * a ** 2 * s2 / Sg) * s2
    z = lambda e: sp.simplify(sp.trigsimp(sp.simplify(e))) == 0
    H = 1 + 2 * m * r / Sg
    gi = sp.zeros(4)
    gi[0, 0] = -H
    gi[0, 1] = gi[1, 0] = 2 * m * r / Sg
    gi[1, 1] = Dl / Sg
    gi[1, 3] = gi[3, 1] = a / Sg
    gi[2, 2] = 1 / Sg
    gi[3, 3] = 1 / (Sg * s2)
    prod = sp.simplify(g * gi)
    k.must('metric lemma: inverse metric', all(z(prod[i, j] - (1 if i == j else 0)) for i in range(4) for j in range(4)))
    k.must('metric lemma: sqrt(-g) = Sigma sin(theta)', z(sp.simplify(g.det()) + Sg ** 2 * s2))
    X = [v, r, th, ph]
    if what == 'box':
        u = sp.Function('u')(*X)
        w = Sg * sp.sin(th)
        box = sum(sp.diff(w * gi[i, j] * sp.diff(u, X[j]), X[i]) for i in range(4) for j in range(4)) / w
        lap = sp.diff(sp.sin(th) * sp.diff(u, th), th) / sp.sin(th) + sp.diff(u, ph, 2) / s2
        doc = (-H * sp.diff(u, v, 2) + 4 * m * r / Sg * sp.diff(u, v, r) + Dl / Sg * sp.diff(u, r, 2) + 2 * a / Sg * sp.diff(u, r, ph)
               + lap / Sg + 2 * m / Sg * sp.diff(u, v) + 2 * (r - m) / Sg * sp.diff(u, r))
        k.must('metric lemma: wave operator used in the specification', z(sp.expand(box - doc)))
        p0, f1, f2, f3 = sp.symbols('p f_r f_th f_ph')
        d = [p0, f1, f2, f3]
        gr = sum(gi[i, j] * d[i] * d[j] for i in range(4) for j in range(4))
        k.must('metric lemma: squared gradient used in the specification',
               z(gr - (-H * p0 ** 2 + 4 * m * r / Sg * p0 * f1 + Dl / Sg * f1 ** 2 + 2 * a / Sg * f1 * f3 + (f2 ** 2 + f3 ** 2 / s2) / Sg)))
    else:
        p0, f1, f2, f3, kk, V = sp.symbols('p f_r f_th f_ph k V')
        d = [p0, f1, f2, f3]
        gr = sum(gi[i, j] * d[i] * d[j] for i in range(4) for j in range(4))
        # n_mu = -H^(-1/2) dv; n^mu = g^{mu nu} n_nu
        n = [-gi[i, 0] / sp.sqrt(H) for i in range(4)]
        nn = sum(g[i, j] * n[i] * n[j] for i in range(4) for j in range(4))
        k.must('metric lemma: unit normal', z(nn + 1))
        nd = sum(n[i] * d[i] for i in range(4))
        T = kk * nd ** 2 - nn * (kk * gr / 2 + V)
        rho = kk / 2 * (H * p0 ** 2 - 4 * m * r / Sg * p0 * f1 + ((r ** 2 + 2 * m * r + a ** 2) / Sg - 4 * m * r / (2 * m * r + Sg)) * f1 ** 2
                        + 2 * a / Sg * f1 * f3 + (f2 ** 2 + f3 ** 2 / s2) / Sg) + V
        k.must('metric lemma: n^mu n^nu T_mu_nu used in the specification', z(T - rho))


def c16():
    T = [('metric lemmas', geometry, ('box',))]
    for c in CONFIGS:
        T += [('Scalar_eom::set_k (%s build)' % cfg_name(c), set_k, c), ('Scalar_eom constructor (%s build)' % cfg_name(c), ctor, c)]
    return T


def c17():
    T = [('metric lemmas', geometry, ('rho',))]
    for c in CONFIGS:
        T += [('Scalar_eom::set_rho (%s build)' % cfg_name(c), set_rho, c)]
    return T


# ---------------------------------------------------------------- C18, C28
def k_contract(scratch):
    """set_k(grid, f, p, fk, pk): (fk, pk) is a function of the cells of (f, p), scratch members take any value and
    nothing else is written (proved for the body by C16)"""
    def c(ex, fd, this, vals, st, n):
        g, vf, vp, ok, pk = vals
        a = ct._args(st, this)
        cnt = N3
        ps = [ct._vec(ex, v, st) for v in (vf, vp, ok, pk)]
        for q, p in enumerate(ps):
            ct.size_pre(ex, st, n, p, cnt, 'argument %d of set_k' % (q + 1))
        if not ex.dry:
            distinct = len(set(ps)) == 4
            ex.oblig('contract-precondition', TRUE if distinct else FALSE, st, n, 'set_k writes arrays different from its inputs')
        for p in ps[:2]:
            ex.access('r', p, None, st, n)
        for p in ps[2:]:
            ex.access('w', p, None, st, n)
        args = [lib.canon(ex, p, '#d', *lib.cells1(cnt), st=st, off=I(0)) for p in ps[:2]]
        for nm_, p in (('f', ps[2]), ('p', ps[3])):
            lib.set_all(ex, Ptr(p), '#d', cnt, tm.farr('Scalar_eom.set_k.' + nm_, (), tuple(args)), st)
        for kk in scratch:
            kk = this + kk[2:]
            st.mem[kk] = tm.afresh('scratch')
        return None
    return c


def kfun(which, Fa, Pa):
    i, j = fresh('k'), fresh('k')
    return tm.farr('Scalar_eom.set_k.' + which, (), ((Fa, (i,), ((I(0), N3),), (i,)), (Pa, (j,), ((I(0), N3),), (j,))))


def field(r, name, n):
    f = r.obj('Field', [var('name.' + name, 'S'), n, var('init.' + name, 'R')], name)
    for m in ('n', 'l', 'np1', 'k'):
        r.st.mem[f.path + (m, '#d')] = avar(name + '.' + m)
    return f


def time_step(k, cheb, contig):
    r, g, p, e = eom_run(k, cheb, contig)
    f, q = field(r, 'f', N3), field(r, 'p', N3)
    k.clear(r)
    r.ex.contracts = dict(r.ex.contracts)
    r.ex.contracts['Scalar_eom::set_k'] = k_contract(k.scratch)
    dt = NAMES['dt']
    F0, P0 = avar('f.n'), avar('p.n')
    m0 = r.snapshot()
    r.call('Scalar_eom::time_step', e, [g, f, q])
    y = {'f': fn1('Grid.filter', GARGS + (I(1 if cheb else 0), I(1 if contig else 0)), F0, N3),
         'p': fn1('Grid.filter', GARGS + (I(1 if cheb else 0), I(1 if contig else 0)), P0, N3)}

    def stage(K, w):
        if K is None:
            return y
        out = {}
        for s in 'fp':
            i = fresh('k')
            out[s] = tm.fam(tm.aconst(R(0)), (i,), ((I(0), N3),), (i,), sel(y[s], (i,)) + w * dt * sel(K[s], (i,)))
        return out
    K1 = {s: kfun(s, y['f'], y['p']) for s in 'fp'}
    l2 = stage(K1, R(1) / R(2))
    K2 = {s: kfun(s, l2['f'], l2['p']) for s in 'fp'}
    l3 = stage(K2, R(1) / R(2))
    K3 = {s: kfun(s, l3['f'], l3['p']) for s in 'fp'}
    l4 = stage(K3, R(1))
    K4 = {s: kfun(s, l4['f'], l4['p']) for s in 'fp'}
    i = var('i')
    for s, o, nm_ in (('f', f, 'field'), ('p', q, 'conjugate')):
        A = lambda m: r.st.mem[o.path + (m, '#d')]
        k.eq('%s: current level is the filtered state' % nm_, sel(A('n'), (i,)), sel(y[s], (i,)), r, inr(i, N3))
        want = sel(y[s], (i,)) + dt / R(6) * (sel(K1[s], (i,)) + R(2) * sel(K2[s], (i,)) + R(2) * sel(K3[s], (i,)) + sel(K4[s], (i,)))
        k.eq('%s: new level is the Runge-Kutta step' % nm_, sel(A('np1'), (i,)), want, r, inr(i, N3))
    k.frame('only field levels and scratch change', m0, r,
            [o.path + (m, '#d') for o in (f, q) for m in ('n', 'l', 'np1', 'k')] + sorted(k.scratch, key=str))


def c18():
    return [('Scalar_eom::time_step (%s build)' % cfg_name(c), time_step, c) for c in CONFIGS]


def field_new(k, cheb, contig):
    r = k.run(cheb, contig, {})
    n, v, nm_ = var('n'), var('v', 'R'), var('name', 'S')
    r.assume(le(I(0), n))
    f = r.obj('Field', [nm_, n, v], 'f')
    i = var('i')
    for m in ('n', 'l', 'np1', 'k'):
        k.eq('level %s has the requested size' % m, r.st.mem[f.path + (m, '#n')], n, r)
        k.eq('level %s is filled with the initial value' % m, sel(r.st.mem[f.path + (m, '#d')], (i,)), v, r, inr(i, n))
    k.eq('size', r.st.mem[f.path + ('size',)], n, r)
    w = r.st.mem[f.path + ('name',)]
    k.flag('the field carries its name', w is nm_ or (isinstance(w, P) and r.st.mem.get(w.path) is nm_), repr(w))


def field_shift(k, cheb, contig):
    r = k.run(cheb, contig, {})
    n = var('n')
    r.assume(le(I(0), n))
    f = field(r, 'f', n)
    k.clear(r)
    m0 = r.snapshot()
    r.call('Field::shift', f, [])
    i = var('i')
    for m, w in (('n', 'np1'), ('np1', 'np1'), ('l', 'l'), ('k', 'k')):
        k.eq('level %s after shift' % m, sel(r.st.mem[f.path + (m, '#d')], (i,)), sel(avar('f.' + w), (i,)), r, inr(i, n))
    k.frame('only the current level is written', m0, r, [f.path + ('n', '#d')])


def c28():
    T = []
    for c in CONFIGS:
        T += [('Field::Field (%s build)' % cfg_name(c), field_new, c), ('Field::shift (%s build)' % cfg_name(c), field_shift, c)]
    return T


def support_cases(cheb):
    Rv = Rpt(cheb, ix)
    base = INX + INT + INP
    return (('finite radius', base + (lt(EPS, absr(Rv - cl)), lt(R(0), Rv), lt(Rv, cl))), ('r = infinity', base + (eq(Rv, cl),)))
