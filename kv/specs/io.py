"""C21: output files."""
from .common import *
from .. import lib
from ..exec import Trace

NAME, ITM, SC = var('name', 'S'), var('itm'), var('save_coords', 'B')
VMIN, VMAX, RMIN, RMAX = [var(q, 'R') for q in ('vmin', 'vmax', 'rmin', 'rmax')]
NL = ('str', tm.string('\n'))
COMMA = ('str', tm.string(','))


def fname(kind):
    return lib.scat(NAME, tm.string(kind + '_'), lib.itos(ITM), tm.string('.csv'))


def afile(kind, items):
    nm_ = fname(kind)
    o = tm.app('canopen', nm_, s='B')
    return Trace(None, (('file', nm_, I(1), o, Trace(None, (('ite', o, Trace(None, tuple(items)), Trace(None, ())),))),))


def header(labels):
    return ('ite', SC, Trace(None, (('str', tm.string(','.join(labels) + '\n')),)), Trace(None, ()))


def num(v):
    return ('num', v, I(17))


def row(vals):
    out = []
    for q, v in enumerate(vals):
        out += ([COMMA] if q else []) + [num(v)]
    return tuple(out) + (NL,)


def logp(p):
    return ite(lt(p, R(1) / R(10 ** 16)), R(-16), app('log', p) / app('log', R(10)))


def setup(k, cheb, contig):
    r, g = grid_run(k, cheb, contig, dict(ct.UPPER))
    r.assume(le(I(0), ITM), lt(ITM, I(10 ** 6)))
    v = r.vec('v', N3)
    return r, g, v, r.arr(v), r.snapshot()


def finish(k, r, m0, want):
    k.trace('file name, mode and contents', r.st.mem.get(('fs',), Trace(None, ())), want, r)
    k.frame('nothing in memory is changed', m0, r, [])


def dump(k):
    n = var('n')
    r = k.run(True, True, dict(ct.UPPER))
    r.assume(le(I(0), n), le(I(0), ITM), lt(ITM, I(10 ** 6)))
    v = r.vec('v', n)
    m0 = r.snapshot()
    r.call('Csv::write', P(()), [NAME, ITM, v])
    s = var('s')
    finish(k, r, m0, afile('', [('loop', s, n, row([r.at(v, s)]))]))


def spectrum(k, cheb, contig, kind):
    r, g, v, A, m0 = setup(k, cheb, contig)
    if kind == 'R':
        r.call('Csv::write_R_psl', P(()), [g, NAME, SC, ITM, v])
        op, lab, c0 = 'Grid.set_angular_power_spectrum', 'R', Rpt(cheb, ix)
    else:
        r.call('Csv::write_n_psl', P(()), [g, NAME, SC, ITM, v])
        op, lab, c0 = 'Grid.set_n_l_coef', 'n', toreal(ix)
    S = fn1(op, GARGS + (I(1 if cheb else 0), I(1 if contig else 0)), A, N3)
    rows = ('loop', ix, nx, (('loop', il, nl, row([c0, toreal(il), logp(sel(S, (nl * ix + il,)))])),))
    finish(k, r, m0, afile('_%sPsl' % ('R' if kind == 'R' else 'N'), [header([lab, 'l', 'log(value)']), rows]))


def volume(k, cheb, contig):
    r, g, v, A, m0 = setup(k, cheb, contig)
    r.call('Csv::write_x_y_z', P(()), [g, NAME, SC, ITM, VMIN, VMAX, RMIN, RMAX, v])
    Rv = Rpt(cheb, ix)
    th = app('acos', sel(tm.farr('gauss_ct', (nlat,), ()), (it,)))
    ph = R(2) * PI * toreal(ip) / toreal(nphi)
    xyz = [Rv * cos(ph) * sin(th), Rv * sin(ph) * sin(th), Rv * cos(th)]
    val = sel(A, (idx3(contig, ix, it, ip),))
    a = absr(val)
    # the distance from the centre is R at every point
    mag = sqrt(power(xyz[0], 2) + power(xyz[1], 2) + power(xyz[2], 2))
    keep = andd(lt(VMIN, a), lt(a, VMAX), lt(RMIN, mag), lt(mag, RMAX))
    cell = (('ite', keep, Trace(None, row(xyz + [val])), Trace(None, ())),)
    o, n_o, i, n_i = (ip, nphi, it, nlat) if contig else (it, nlat, ip, nphi)
    rows = ('loop', ix, nx, (('loop', o, n_o, (('loop', i, n_i, cell),)),))
    finish(k, r, m0, afile('_XYZ', [header(['x', 'y', 'z', 'value']), rows]))


def c21():
    T = [('Csv::write', dump, ())]
    for c in CONFIGS:
        T.append(('Csv::write_R_psl (%s build)' % cfg_name(c), spectrum, c + ('R',)))
        if c[0]:
            T.append(('Csv::write_n_psl (%s build)' % cfg_name(c), spectrum, c + ('n',)))
        T.append(('Csv::write_x_y_z (%s build)' % cfg_name(c), volume, c))
    return T
