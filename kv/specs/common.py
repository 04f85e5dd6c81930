"""Shared vocabulary of the grid-level specifications."""
from ..spec import *
from ..term import *
from .. import term as tm, prove as pv, contracts as ct
from ..core import SpecFail

nx, nl, nm, nlat, nphi = [var(x) for x in ('nx', 'nl', 'nm', 'nlat', 'nphi')]
cl, R0, R1 = [var(x, 'R') for x in ('cl', 'Rmin', 'Rmax')]
ix, it, ip, il = [var(x) for x in ('ix', 'it', 'ip', 'il')]
N3 = nx * nlat * nphi
NS = nlat * nphi
GARGS = (cl, R0, R1, nx, nl, nm, nlat, nphi)
RAD = (nx, R0, R1)
VALID = (le(I(8), nx), le(I(1), nl), le(I(0), nm), le(nm, nl), lt(nl, nlat), lt(I(2) * nm, nphi), lt(R(0), R0), lt(R0, R1), le(R1, cl))


def pref(g=None):
    def f(rng):
        return rng
    return {'cl': lambda g: round(g.uniform(12, 40), 3), 'Rmin': lambda g: round(g.uniform(0.5, 2), 3),
            'Rmax': lambda g: round(g.uniform(5, 12), 3)}


def inr(i, n):
    return (le(I(0), i), lt(i, n))


INX, INT, INP, INL = inr(ix, nx), inr(it, nlat), inr(ip, nphi), inr(il, nl)


def idx3(contig, x, t, p):
    return nphi * nlat * x + (nlat * p + t if contig else nphi * t + p)


def idx2(contig, t, p):
    return nlat * p + t if contig else nphi * t + p


def grid_run(k, cheb, contig, contracts=ct.LOWER, omp=False, facts=VALID, clear=True, log=False):
    k.prefer = pref()
    r = k.run(cheb, contig, contracts, omp, log)
    r.assume(*facts)
    g = r.obj('Grid', GARGS, 'grid')
    if clear:
        k.clear(r)
    return r, g


def line_R(contig, A, t, p):
    """the radial line (t,p) of a 3D array, as an array"""
    x = fresh('x')
    return tm.fam(tm.aconst(R(0)), (x,), ((I(0), nx),), (x,), sel(A, (idx3(contig, x, t, p),)))


def shell(contig, A, x):
    """the shell x of a 3D array, as a sphere array"""
    t, p = fresh('t'), fresh('p')
    return tm.fam(tm.aconst(R(0)), (t, p), ((I(0), nlat), (I(0), nphi)), (idx2(contig, t, p),), sel(A, (idx3(contig, x, t, p),)))


def fn1(name, scal, A, n):
    """contract value: function `name` of the first n cells of A"""
    i = fresh('k')
    return tm.farr(name, scal, ((A, (i,), ((I(0), n),), (i,)),))


def radial(op, A):
    return fn1(op, RAD, A, nx)


def sphere(op, A, contig, extra=()):
    return fn1('Sphere.' + op, (nl, nm, nlat, nphi, I(1 if contig else 0)) + extra, A, NS)


def Rpt(cheb, x):
    if cheb:
        return (R1 - R0) / R(2) * cos(PI * toreal(x) / toreal(nx - 1)) + (R1 + R0) / R(2)
    return R0 + (R1 - R0) / toreal(nx - 1) * toreal(x)
