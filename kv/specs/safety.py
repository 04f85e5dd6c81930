"""C23 (parallel regions) and C24 (memory, indices, resources): every public operation of every module, run on arbitrary
inputs; the obligations are those the executor generates at each access, call, allocation, loop and parallel region."""
from .common import *
from . import eom, ident, main as mn
from .eom import params_obj
from ..exec import Ptr

PAR = ('race', 'reduction')
l, m = var('l'), var('m')
i, j = var('i'), var('j')
NR, LO, HI = var('n'), var('lower', 'R'), var('upper', 'R')
NLM = app('nlm', nl, nm, s='I')


def keep(k, kinds, r):
    r.ex.obs[:] = [o for o in r.ex.obs if (o.kind in PAR) == (kinds is PAR)]
    k.flag('every statement of the operation was executed symbolically', True)


def owned(r, path):
    """some persistent object holds a pointer to this block"""
    for q, v in r.st.mem.items():
        if q[0] in ('obj', 'g', 'a') and isinstance(v, Ptr) and v.path == path:
            return True
    return False


def leaks(k, r, before=()):
    for q, v in list(r.st.mem.items()):
        if q[0] == 'h' and q[-1] == '#alive' and q not in before and not owned(r, q[:-1]):
            k.true('every temporary buffer is freed', nott(v) if isinstance(v, T) else (tm.FALSE if v else TRUE), r)


# the Grid operations that Scalar_eom runs in concurrent sections on the same grid
CONCURRENT = ('set_partial_phi', 'set_spherical_lap', 'set_sphereX', 'set_partial_r', 'set_partial2_r', 'filter')


def op(k, r, cls, o, meth, args, kinds, nparams=None, sig=None):
    """one call, on whatever state the object is in; nothing but its arguments is written"""
    m0 = r.snapshot()
    r.call((cls + '::' if cls else '') + meth, o, args, nparams, sig)
    if kinds is PAR:
        # no write to the object itself, so concurrent calls on different arrays do not interfere
        if cls not in ('Scalar_eom', 'Field', ''):
            (k.must if cls == 'Grid' and meth in CONCURRENT else k.flag)('%s writes no storage shared between threads' % meth, not [q for q in changed_keys(m0, r.st.mem) if q[:len(o.path)] == o.path or q[0] == 'g'])
    else:
        leaks(k, r, m0)


# ------------------------------------------------------------------------------------------- radial grids
def radial_ops(k, cls, cheb, contig, kinds):
    meths = {'FD': ('der', 'der2', 'filter'), 'Cheb': ('to_ch', 'to_po', 'der', 'filter')}[cls]
    for w in meths:
        r = k.run(cheb, contig, {}, kinds is PAR)
        r.assume(le(I(8), NR), lt(LO, HI))
        o = r.obj(cls, [NR, LO, HI], 'o')
        if kinds is PAR:
            k.clear(r)
        a = r.vec('v', NR)
        op(k, r, cls, o, w, [a] if w == 'filter' else [a, r.vec('d', NR)], kinds)
        r.assume(*inr(i, NR))
        r.call(cls + '::pt', o, [i])
        keep(k, kinds, r)


# ------------------------------------------------------------------------------------------- sphere
def sphere_ops(k, cheb, contig, w, kinds):
    from .sphere import sphere_run
    r, s = sphere_run(k, cheb, contig, contracts=ct.CTORS, clear=kinds is PAR, omp=kinds is PAR)
    v = r.vec('v', NS)
    if w in ('laplace_beltrami', 'partial_phi', 'sphereX'):
        a = [v, r.vec('d', NS)]
    elif w == 'filter':
        a = [v]
    elif w in ('raise', 'lower'):
        a = [v, r.vec('c', NS, 'C')]
    elif w == 'power_spectrum':
        a = [v, r.vec('p', nl)]
    elif w == 'compute_ylm':
        r.assume(le(I(0), m), le(m, l), le(l, nl), le(m, nm))
        a = [l, m]
    elif w == 'coordinates':
        r.assume(*INT, *INP)
        op(k, r, 'Sphere', s, 'theta', [it], kinds)
        w, a = 'phi', [ip]
    elif w.startswith('to_'):
        w, dom = w.split(' ')
        c, y = r.vec('c', NS, 'C'), r.vec('y', NLM if dom == 'real' else (nl + 1) * (nl + 1), 'C')
        u = v if dom == 'real' else c
        a = [u, y] if w == 'to_Ylm' else [y, u]
        for fd in r.prog.byname['Sphere::' + w]:
            f = r.prog.funcs[fd]
            t = f['type']['qualType']
            if (('vector<double>' in t) == (dom == 'real')):
                m0 = r.snapshot()
                r.ex.run(f, s.path, a, r.st)
                if kinds is PAR:
                    k.flag('%s writes no storage shared between threads' % w, not [q for q in changed_keys(m0, r.st.mem) if q[:len(s.path)] == s.path or q[0] == 'g'])
                else:
                    leaks(k, r, m0)
                keep(k, kinds, r)
                return
        raise SpecFail('no overload of %s for %s fields' % (w, dom))
    op(k, r, 'Sphere', s, w, a, kinds)
    keep(k, kinds, r)


SPH = ('laplace_beltrami', 'partial_phi', 'sphereX', 'filter', 'raise', 'lower', 'power_spectrum', 'compute_ylm', 'coordinates',
       'to_Ylm real', 'to_Ylm complex', 'to_Sph real', 'to_Sph complex')


# ------------------------------------------------------------------------------------------- grid
def grid_ops(k, cheb, contig, w, kinds):
    # parallel regions are analysed through the real bodies of everything they call
    r, g = grid_run(k, cheb, contig, contracts=ct.CTORS if kinds is PAR else ct.LOWER, omp=kinds is PAR, clear=kinds is PAR)
    v = r.vec('v', N3)
    if w in ('set_angular_power_spectrum', 'set_n_l_coef'):
        a = [v, r.vec('p', nx * nl)]
    elif w == 'filter':
        a = [v]
    elif w == 'norm_indep_res':
        dt = var('dt', 'R')
        r.assume(lt(R(0), dt))
        a = [dt, v, r.vec('v2', N3), r.vec('v3', N3)]
    elif w == 'total_variation':
        a = [v]
    elif w == 'compute_ylm':
        r.assume(le(I(0), m), le(m, l), le(l, nl), le(m, nm))
        a = [l, m]
    else:
        a = [v, r.vec('d', N3)]
    op(k, r, 'Grid', g, w, a, kinds)
    keep(k, kinds, r)


GRIDW = ('set_partial_phi', 'set_spherical_lap', 'set_sphereX', 'set_partial_R', 'set_partial_r', 'set_partial2_r',
         'set_angular_power_spectrum', 'set_n_l_coef', 'filter', 'norm_indep_res', 'total_variation', 'compute_ylm')


def grid_rows(k, cheb, contig, kinds):
    from .grid import rows
    rng = {ix: nx, it: nlat, ip: nphi, il: nl}
    for name, (fixed, run, big, small, ns, nb) in rows(contig).items():
        for w in ('set_row_', 'get_row_'):
            if name == 'l' and w == 'get_row_':
                continue
            r, g = grid_run(k, cheb, contig, omp=kinds is PAR)
            r.assume(*[q for x in fixed for q in inr(x, rng[x])])
            A, o = r.vec('A', nb), r.vec('o', ns)
            op(k, r, 'Grid', g, w + name, fixed + ([A, o] if w == 'get_row_' else [o, A]), kinds)
            keep(k, kinds, r)


def grid_access(k, cheb, contig, kinds):
    r, g = grid_run(k, cheb, contig, omp=kinds is PAR)
    r.assume(*INX, *INT, *INP, *INL)
    for w, a in (('R_th_ph', [ix, it, ip]), ('R_th_ph', [i]), ('x_y_z', [ix, it, ip]), ('x_y_z', [i]), ('th_ph', [it, ip]), ('th_ph', [j]),
                 ('R_l', [ix, il]), ('R_l', [var('q')])) + ((('n_l', [ix, il]), ('n_l', [var('q')])) if cheb else ()):
        r.assume(*inr(i, N3), *inr(j, NS), *inr(var('q'), nx * nl))
        r.call('Grid::' + w, g, a, nparams=len(a))
    keep(k, kinds, r)


# ------------------------------------------------------------------------------------------- fields, equations, initial data
def field_ops(k, cheb, contig, kinds):
    r = k.run(cheb, contig, {}, kinds is PAR)
    r.assume(le(I(0), NR))
    f = eom.field(r, 'f', NR)
    op(k, r, 'Field', f, 'shift', [], kinds)
    keep(k, kinds, r)


def eom_ops(k, cheb, contig, w, kinds):
    r, g, p, e = eom.eom_run(k, cheb, contig, omp=kinds is PAR, havoc=w == 'time_step')
    if w == 'set_k':
        a = [g] + [r.vec(q, N3) for q in ('f', 'p', 'fk', 'pk')]
    elif w == 'set_rho':
        a = [g] + [r.vec(q, N3) for q in ('f', 'p', 'rho')]
    else:
        a = [g, eom.field(r, 'f', N3), eom.field(r, 'p', N3)]
        k.clear(r)
        r.ex.contracts = dict(r.ex.contracts)
        r.ex.contracts['Scalar_eom::set_k'] = eom.k_contract(k.scratch)
    op(k, r, 'Scalar_eom', e, w, a, kinds)
    keep(k, kinds, r)


def eom_ctor(k, cheb, contig, kinds):
    r = k.run(cheb, contig, dict(ct.UPPER), kinds is PAR)
    r.assume(*VALID)
    r.assume(lt(R(0), eom.M), le(absr(eom.A), eom.M))
    g = r.obj('Grid', GARGS, 'grid')
    p = params_obj(r)
    k.clear(r)
    r.obj('Scalar_eom', [g, p], 'eom')
    keep(k, kinds, r)


def pulse(k, cheb, contig, kinds):
    from .ident import NAMES, RL, RU, LA, MA
    r = k.run(cheb, contig, dict(ct.UPPER), kinds is PAR)
    r.assume(*VALID)
    r.assume(lt(RL, RU), le(R(1) / R(10 ** 14), RU - RL), lt(RU, R(10 ** 12)), le(I(0), MA), le(MA, LA), le(LA, nl), le(MA, nm))
    g = r.obj('Grid', GARGS, 'grid')
    p = params_obj(r, NAMES)
    k.clear(r)
    op(k, r, '', P(()), 'ID::compact_pulse', [p, g, r.vec('f', N3), r.vec('p', N3)], kinds)
    keep(k, kinds, r)


def csv(k, cheb, contig, w, kinds):
    from .io import NAME, ITM, SC, VMIN, VMAX, RMIN, RMAX
    r, g = grid_run(k, cheb, contig, dict(ct.UPPER), omp=kinds is PAR)
    r.assume(le(I(0), ITM), lt(ITM, I(10 ** 6)))
    v = r.vec('v', N3)
    a = {'write': [NAME, ITM, v], 'write_x_y_z': [g, NAME, SC, ITM, VMIN, VMAX, RMIN, RMAX, v]}.get(w, [g, NAME, SC, ITM, v])
    op(k, r, '', P(()), 'Csv::' + w, a, kinds)
    keep(k, kinds, r)


def driver(k, cheb, contig, kinds):
    r = mn.run_main(k, cheb, contig, omp=kinds is PAR)
    keep(k, kinds, r)


# ------------------------------------------------------------------------------------------- life cycle
RES = ('plan', 'shtns', 'h')


def alive(r):
    return {q: v for q, v in r.st.mem.items() if q[0] in RES and q[-1] == '#alive'}


def life(k, cheb, contig, cls):
    """two objects; destroying one leaves the other's resources alive and ends its own, exactly once"""
    if cls in ('Cheb', 'FD'):
        r = k.run(cheb, contig, {})
        r.assume(le(I(8), NR), lt(LO, HI))
        mk_ = lambda nm_: r.obj(cls, [NR, LO, HI], nm_)
        use = lambda o: r.call(cls + '::filter', o, [r.vec('v', NR)])
    elif cls == 'Sphere':
        r = k.run(cheb, contig, {})
        r.assume(*VALID)
        mk_ = lambda nm_: r.obj('Sphere', [nl, nm, nlat, nphi], nm_)
        use = lambda o: r.call('Sphere::filter', o, [r.vec('v', NS)])
    else:
        r = k.run(cheb, contig, {})
        r.assume(*VALID)
        mk_ = lambda nm_: r.obj('Grid', GARGS, nm_)
        use = lambda o: None
    a0 = alive(r)
    a = mk_('A')
    own_a = set(alive(r)) - set(a0)
    b = mk_('B')
    own_b = set(alive(r)) - set(a0) - own_a
    for first, second, mine, theirs, tag in ((a, b, own_a, own_b, 'the older'), (b, a, own_b, own_a, 'the newer')):
        st0 = r.st.fork()
        use(first)
        mine = mine | (set(alive(r)) - own_a - own_b - set(a0))
        r.ex.destroy_obj(cls, first.path, r.st)
        for q in sorted(mine, key=str):
            if q[0] != 'h' or not owned(r, q[:-1]):
                k.true('destroying %s object ends its %s' % (tag, {'plan': 'transform plan', 'shtns': 'transform configuration', 'h': 'buffer'}[q[0]]), nott(r.st.mem[q]), r)
        for q in sorted(theirs, key=str):
            k.true('destroying %s object leaves the other usable' % tag, r.st.mem[q], r)
        use(second)
        r.ex.destroy_obj(cls, second.path, r.st)
        for q, v in sorted(alive(r).items(), key=str):
            if q not in a0:
                k.true('nothing outlives both objects', nott(v), r)
        r.st.take(st0)
    k.flag('two objects created, used and destroyed in both orders', True)


def tasks(kinds):
    T = []
    for c in CONFIGS:
        n = ' (%s build)' % cfg_name(c)
        T += [('Scalar_eom::' + w + n, eom_ops, c + (w, kinds)) for w in ('time_step', 'set_k', 'set_rho')]
        T += [('Grid::' + w + n, grid_ops, c + (w, kinds)) for w in GRIDW if c[0] or w != 'set_n_l_coef']
        T += [('Sphere::' + w + n, sphere_ops, c + (w, kinds)) for w in SPH]
        T += [('radial operations' + n, radial_ops, ('Cheb' if c[0] else 'FD',) + c + (kinds,)),
              ('Field::shift' + n, field_ops, c + (kinds,)), ('Scalar_eom constructor' + n, eom_ctor, c + (kinds,)),
              ('initial data' + n, pulse, c + (kinds,)), ('row operations' + n, grid_rows, c + (kinds,)), ('coordinate access' + n, grid_access, c + (kinds,)),
              ('main' + n, driver, c + (kinds,))]
        T += [('Csv::' + w + n, csv, c + (w, kinds)) for w in ('write', 'write_R_psl', 'write_x_y_z') + (('write_n_psl',) if c[0] else ())]
    return T


def c23():
    return tasks(PAR)


def c24():
    T = tasks('safety')
    for c in CONFIGS:
        T += [('life cycle of %s (%s build)' % (w, cfg_name(c)), life, c + (w,)) for w in (('Cheb' if c[0] else 'FD'), 'Sphere', 'Grid')]
    return T
