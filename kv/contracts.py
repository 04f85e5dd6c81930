"""Contracts of project functions that callers are checked against (modular step).

Each contract states: preconditions (array sizes, live object, distinct output), the value of every cell of the output
as a function of the constructor arguments and of the cells of the input only, and that nothing else is written.  That
the body of the function really satisfies the contract is proved where the function has its own property (see
`CONTRACT_OF` for the list), so a caller never sees the body."""
from . import term as tm, lib
from .term import I, R, T, eq, le, lt, andd, mul, TRUE, FALSE
from .exec import P, Ptr, Cx, Unsupported, Row


def _vec(ex, v, st):
    if isinstance(v, Ptr) and tm.is_c(v.off) and tm.cval(v.off) == 0:
        v = P(v.path)
    if not isinstance(v, P) or isinstance(v.path, Row) or v.path + ('#n',) not in st.mem:
        raise Unsupported('array argument of a contract: %r' % (v,))
    if v.path + ('#in',) in st.mem:
        raise Unsupported('nested array argument of a contract')
    return v.path


def _args(st, this):
    a = st.mem.get(this + ('#args',))
    if a is None:
        raise Unsupported('object of unknown construction')
    return a


def remember(ex, fd, this, vals, st, n):
    """constructor: the real body runs; its argument values are remembered for the method contracts"""
    st.mem[this + ('#args',)] = tuple(ex.rv(v, st) if not isinstance(v, T) else v for v in vals)
    return NotImplemented


def size_pre(ex, st, n, path, cnt, what):
    if not ex.dry:
        ex.oblig('contract-precondition', eq(ex.size_of(path, st), cnt), st, n, what + ' has the size the callee requires')


def op1(name, size_of, out_size=None, extra=None):
    """void op(in, out) const"""
    def c(ex, fd, this, vals, st, n):
        a = _args(st, this)
        src, dst = _vec(ex, vals[0], st), _vec(ex, vals[1], st)
        cnt = size_of(a)
        co = out_size(a) if out_size else cnt
        size_pre(ex, st, n, src, cnt, 'input of ' + name)
        size_pre(ex, st, n, dst, co, 'output of ' + name)
        if not ex.dry:
            ex.oblig('contract-precondition', FALSE if src == dst else TRUE, st, n, name + ' writes an array different from its input')
        ex.access('r', src, None, st, n)
        ex.access('w', dst, None, st, n)
        arg = lib.canon(ex, src, '#d', *lib.cells1(cnt), st=st, off=I(0))
        sc = a + (extra(ex) if extra else ())
        lib.set_all(ex, Ptr(dst), '#d', co, tm.farr(name, sc, (arg,)), st)
        return None
    return c


def inplace(name, size_of, extra=None):
    def c(ex, fd, this, vals, st, n):
        a = _args(st, this)
        src = _vec(ex, vals[0], st)
        cnt = size_of(a)
        size_pre(ex, st, n, src, cnt, 'argument of ' + name)
        ex.access('r', src, None, st, n)
        ex.access('w', src, None, st, n)
        arg = lib.canon(ex, src, '#d', *lib.cells1(cnt), st=st, off=I(0))
        sc = a + (extra(ex) if extra else ())
        lib.set_all(ex, Ptr(src), '#d', cnt, tm.farr(name, sc, (arg,)), st)
        return None
    return c


def n_radial(a): return a[0]
def n_sphere(a): return mul(a[2], a[3])
def n_grid(a): return mul(mul(a[3], a[6]), a[7])
def n_psl(a): return mul(a[3], a[4])


def contig(ex): return (I(1 if ex.prog.contiguous else 0),)
def both(ex): return (I(1 if ex.prog.cheb else 0), I(1 if ex.prog.contiguous else 0))


def compute_ylm(name, size_of, extra):
    def c(ex, fd, this, vals, st, n):
        a = _args(st, this)
        l, m = [v if isinstance(v, T) else ex.rv(v, st) for v in vals]
        L, M = (a[0], a[1]) if name.startswith('Sphere') else (a[4], a[5])
        if not ex.dry:
            ex.oblig('contract-precondition', andd(le(I(0), m), le(m, l), le(l, L), le(m, M)), st, n, 'requested harmonic is retained')
        p = ex.newtmp()
        cnt = mul(a[2], a[3]) if name.startswith('Sphere') else mul(a[6], a[7])
        st.mem[p + ('#n',)] = cnt
        ss = a[:4] if name.startswith('Sphere') else (a[4], a[5], a[6], a[7])
        st.mem[p + ('#d',)] = tm.farr('Sphere.compute_ylm', ss + contig(ex) + (l, m), ())
        return P(p)
    return c


def scalar(name, nv, arrs):
    """double op(...) const reading whole grid arrays"""
    def c(ex, fd, this, vals, st, n):
        a = _args(st, this)
        sc, ar = [], []
        for k, v in enumerate(vals):
            if k in arrs:
                p = _vec(ex, v, st)
                size_pre(ex, st, n, p, n_grid(a), 'argument of ' + name)
                ex.access('r', p, None, st, n)
                ar.append(lib.canon(ex, p, '#d', *lib.cells1(n_grid(a)), st=st, off=I(0)))
            else:
                sc.append(v if isinstance(v, T) else ex.rv(v, st))
        return tm.sel(tm.farr(name, a + both(ex) + tuple(sc), tuple(ar)), (I(0),))
    return c


CTORS = {k: remember for k in ('FD::FD', 'Cheb::Cheb', 'Sphere::Sphere', 'Grid::Grid', 'Scalar_eom::Scalar_eom', 'Field::Field')}

RADIAL = {
    'FD::der': op1('FD.der', n_radial), 'FD::der2': op1('FD.der2', n_radial), 'FD::filter': inplace('FD.filter', n_radial),
    'Cheb::der': op1('Cheb.der', n_radial), 'Cheb::filter': inplace('Cheb.filter', n_radial),
    'Cheb::to_ch': op1('Cheb.to_ch', n_radial),
}
SPHERE = {
    'Sphere::partial_phi': op1('Sphere.partial_phi', n_sphere, extra=contig),
    'Sphere::laplace_beltrami': op1('Sphere.laplace_beltrami', n_sphere, extra=contig),
    'Sphere::sphereX': op1('Sphere.sphereX', n_sphere, extra=contig),
    'Sphere::filter': inplace('Sphere.filter', n_sphere, extra=contig),
    'Sphere::power_spectrum': op1('Sphere.power_spectrum', n_sphere, out_size=lambda a: a[0], extra=contig),
    'Sphere::compute_ylm': compute_ylm('Sphere.compute_ylm', n_sphere, contig),
}
GRID = {'Grid::' + k: op1('Grid.' + k, n_grid, extra=both) for k in
        ('set_partial_phi', 'set_spherical_lap', 'set_sphereX', 'set_partial_R', 'set_partial_r', 'set_partial2_r')}
GRID.update({
    'Grid::set_angular_power_spectrum': op1('Grid.set_angular_power_spectrum', n_grid, out_size=n_psl, extra=both),
    'Grid::set_n_l_coef': op1('Grid.set_n_l_coef', n_grid, out_size=n_psl, extra=both),
    'Grid::filter': inplace('Grid.filter', n_grid, extra=both),
    'Grid::compute_ylm': compute_ylm('Grid.compute_ylm', n_grid, contig),
    'Grid::norm_indep_res': scalar('Grid.norm_indep_res', 4, (1, 2, 3)),
    'Grid::total_variation': scalar('Grid.total_variation', 1, (0,)),
})

LOWER = dict(CTORS, **RADIAL, **SPHERE)          # callees of Grid
UPPER = dict(CTORS, **GRID)                      # callees of Scalar_eom, ID, Csv, main

# where each contract is proved
CONTRACT_OF = {'FD.der': 'C01', 'FD.der2': 'C02', 'FD.filter': 'C03', 'Cheb.der': 'C06', 'Cheb.filter': 'C07', 'Cheb.to_ch': 'C05',
               'Sphere.partial_phi': 'C12', 'Sphere.laplace_beltrami': 'C12', 'Sphere.sphereX': 'C13', 'Sphere.filter': 'C14',
               'Sphere.power_spectrum': 'C15', 'Sphere.compute_ylm': 'C29', 'Grid.set_partial_phi': 'C11',
               'Grid.set_spherical_lap': 'C11', 'Grid.set_sphereX': 'C11', 'Grid.set_partial_R': 'C10', 'Grid.set_partial_r': 'C10',
               'Grid.set_partial2_r': 'C10', 'Grid.set_angular_power_spectrum': 'C11', 'Grid.set_n_l_coef': 'C11',
               'Grid.filter': 'C14', 'Grid.norm_indep_res': 'C27', 'Grid.total_variation': 'C27', 'Grid.compute_ylm': 'C19'}
