"""C19: initial data."""
from .common import *
from . import eom
from .eom import params_obj, generalise, RV, RR, EPS

AMP, RL, RU, DIR = var('amp', 'R'), var('rl', 'R'), var('ru', 'R'), var('dir', 'S')
LA, MA = var('lang'), var('mang')
NAMES = dict(eom.NAMES, initial_data_direction=DIR, amp=AMP, rl=RL, ru=RU, l_ang=LA, m_ang=MA)


def exprs(rr, Y):
    w = RU - RL
    x, y = (rr - RL) / w, (RU - rr) / w
    b = exp(mul(R(-1), w) / (rr - RL)) * exp(R(-2) * w / (RU - rr))
    f = power(x, 4) * power(y, 4) * b * Y
    # d/dr of the same expression, by the product rule
    df = (R(4) * power(x, 3) * power(y, 4) / w - R(4) * power(x, 4) * power(y, 3) / w
          + power(x, 4) * power(y, 4) * (w / power(rr - RL, 2) - R(2) * w / power(RU - rr, 2))) * b * Y
    return f, df


def pulse(k, cheb, contig):
    k.prefer = pref()
    k.prefer.update({'rl': lambda g: round(g.uniform(-3, 4), 3), 'ru': lambda g: round(g.uniform(5, 20), 3)})
    c = dict(ct.UPPER)
    r = k.run(cheb, contig, c)
    r.assume(*VALID)
    r.assume(lt(RL, RU), le(R(1) / R(10 ** 14), RU - RL), lt(RU, R(10 ** 12)), le(I(0), MA), le(MA, LA), le(LA, nl), le(MA, nm))
    g = r.obj('Grid', GARGS, 'grid')
    p = params_obj(r, NAMES)
    gz = generalise(r, g, cheb)
    k.clear(r)
    f, q = r.vec('f', N3), r.vec('p', N3)
    m0 = r.snapshot()
    r.call('ID::compact_pulse', P(()), [p, g, f, q])
    Yarr = tm.farr('Sphere.compute_ylm', (nl, nm, nlat, nphi, I(1 if contig else 0), LA, MA), ())

    def point(x, t, s):
        Rv = Rpt(cheb, x)
        rr = ite(lt(EPS, absr(Rv - cl)), Rv / (R(1) - Rv / cl), R(10 ** 12))
        fe, de = exprs(rr, sel(Yarr, (idx2(contig, t, s),)))
        return andd(lt(rr, RU), lt(RL, rr)), fe, de
    a, b, c_ = fresh('mx'), fresh('mx'), fresh('mx')
    ins, fe, _ = point(a, c_, b)
    mx = tm.mk('maxf', (R(0), (a, b, c_), ((I(0), nx), (I(0), nphi), (I(0), nlat)), ite(ins, absr(fe), tm.mk('v', ('-inf',), 'R'))), 'R')
    id_ = idx3(contig, ix, it, ip)
    ins, fe, de = point(ix, it, ip)
    scale = AMP / mx
    sgn = ite(eq(DIR, tm.string('ingoing')), R(1), ite(eq(DIR, tm.string('outgoing')), R(-1), R(0)))
    for nm_, facts in eom.support_cases(cheb):
        ff = facts + (lt(EPS, mx),)
        k.alg('field: scaled pulse times harmonic, zero outside the support, ' + nm_, r.at(f, id_), ite(ins, fe * scale, R(0)), r, ff, **gz)
        k.alg('time derivative: direction times the radial derivative, ' + nm_, r.at(q, id_), ite(ins, sgn * de * scale, R(0)), r, ff, **gz)
    k.frame('only the two fields are written', m0, r, [f.path + ('#d',), q.path + ('#d',)])


def derivative(k):
    """lemma: the time-derivative profile of the specification is the radial derivative of the pulse profile"""
    import sympy as sp
    r, rl, ru = sp.symbols('r rl ru', real=True)
    w = ru - rl
    x, y = (r - rl) / w, (ru - r) / w
    b = sp.exp(-w / (r - rl)) * sp.exp(-2 * w / (ru - r))
    f = x ** 4 * y ** 4 * b
    d = (4 * x ** 3 * y ** 4 / w - 4 * x ** 4 * y ** 3 / w + x ** 4 * y ** 4 * (w / (r - rl) ** 2 - 2 * w / (ru - r) ** 2)) * b
    k.must('derivative lemma', sp.simplify(sp.expand((sp.diff(f, r) - d) / b)) == 0)


def c19():
    from . import sphere, grid
    T = [('derivative lemma', derivative, ())]
    for c in CONFIGS:
        T += [('ID::compact_pulse (%s build)' % cfg_name(c), pulse, c)]
    T += [('Sphere::compute_ylm (%s build)' % cfg_name(c), sphere.ylm, c) for c in CONFIGS]
    T += [('Grid::compute_ylm (%s build)' % cfg_name(c), grid_ylm, c) for c in CONFIGS]
    return T


def grid_ylm(k, cheb, contig):
    from .grid import grid_run
    r, g = grid_run(k, cheb, contig)
    l, m = var('l'), var('m')
    r.assume(le(I(0), m), le(m, l), le(l, nl), le(m, nm))
    m0 = r.snapshot()
    v = r.call('Grid::compute_ylm', g, [l, m])
    k.eq('number of values', r.st.mem[v.path + ('#n',)], NS, r)
    Yarr = tm.farr('Sphere.compute_ylm', (nl, nm, nlat, nphi, I(1 if contig else 0), l, m), ())
    i = var('i')
    k.eq('the sphere harmonic', r.at(v, i), sel(Yarr, (i,)), r, inr(i, NS))
    k.frame('nothing is written', m0, r, [])
