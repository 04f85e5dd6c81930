"""Independent numerical oracles (numpy): radial schemes, spherical-harmonic transforms, grid operators.

Written from the mathematics, not from /repo.  Used (1) to evaluate array-valued contracts when a failed obligation is
searched for a concrete counterexample and (2) as expected values when the real code is replayed."""
import functools
import math
import numpy as np


# ---------------------------------------------------------------- finite differences
def fd_weights(z, x, m):
    """Fornberg weights of derivatives 0..m at z for nodes x"""
    n = len(x)
    c = np.zeros((n, m + 1))
    c1 = 1.0
    c4 = x[0] - z
    c[0, 0] = 1.0
    for i in range(1, n):
        mn = min(i, m)
        c2 = 1.0
        c5 = c4
        c4 = x[i] - z
        for j in range(i):
            c3 = x[i] - x[j]
            c2 *= c3
            if j == i - 1:
                for k in range(mn, 0, -1):
                    c[i, k] = c1 * (k * c[i - 1, k - 1] - c5 * c[i - 1, k]) / c2
                c[i, 0] = -c1 * c5 * c[i - 1, 0] / c2
            for k in range(mn, 0, -1):
                c[j, k] = (c4 * c[j, k] - k * c[j, k - 1]) / c3
            c[j, 0] = c4 * c[j, 0] / c3
        c1 = c2
    return c


@functools.lru_cache(None)
def fd_matrix(n, order):
    """order 1: 7-point windows; order 2: centred 7-point rows, 8-point one-sided rows (unit spacing)"""
    D = np.zeros((n, n))
    for i in range(n):
        if 3 <= i < n - 3:
            w = range(i - 3, i + 4)
        else:
            k = 7 if order == 1 else 8
            w = range(0, k) if i < 3 else range(n - k, n)
        w = list(w)
        D[i, w] = fd_weights(float(i), np.array(w, float), order)[:, order]
    return D


def fd_pts(n, lo, hi):
    return lo + (hi - lo) / (n - 1) * np.arange(n)


def fd_der(n, lo, hi, v):
    return fd_matrix(n, 1) @ v / ((hi - lo) / (n - 1))


def fd_der2(n, lo, hi, v):
    return fd_matrix(n, 2) @ v / ((hi - lo) / (n - 1)) ** 2


def fd_filter(n, lo, hi, v):
    out = np.array(v, float)
    b = [1, -8, 28, -56, 70, -56, 28, -8, 1]
    for i in range(4, n - 4):
        out[i] = v[i] - sum(b[k] * v[i - 4 + k] for k in range(9)) / 256.0
    return out


# ---------------------------------------------------------------- Chebyshev
@functools.lru_cache(None)
def dct1_matrix(n):
    k = np.arange(n)
    M = 2 * np.cos(np.pi * np.outer(k, k) / (n - 1))
    M[:, 0] = 1
    M[:, n - 1] = (-1.0) ** k
    return M


@functools.lru_cache(None)
def cheb_T(n):
    """values of T_k at the collocation points cos(pi i/(n-1))"""
    k = np.arange(n)
    return np.cos(np.pi * np.outer(k, k) / (n - 1))


@functools.lru_cache(None)
def cheb_Tinv(n):
    return np.linalg.inv(cheb_T(n))


@functools.lru_cache(None)
def cheb_D(n):
    """coefficients -> coefficients of the derivative on [-1,1]"""
    D = np.zeros((n, n))
    for k in range(1, n):
        c = np.zeros(k + 1)
        c[k] = 1
        d = np.polynomial.chebyshev.chebder(c)
        D[:len(d), k] = d
    return D


def cheb_pts(n, lo, hi):
    return (hi - lo) / 2 * np.cos(np.pi * np.arange(n) / (n - 1)) + (hi + lo) / 2


def cheb_to_ch(n, v):
    return cheb_Tinv(n) @ v


def cheb_to_po(n, c):
    return cheb_T(n) @ c


def cheb_der(n, lo, hi, v):
    c = cheb_to_ch(n, v)
    c[n - 1] = 0
    if n >= 2:
        c[n - 2] = 0
    return cheb_to_po(n, cheb_D(n) @ c) / ((hi - lo) / 2)


def cheb_filter(n, lo, hi, v):
    return cheb_to_po(n, cheb_to_ch(n, v) * np.exp(-40 * (np.arange(n) / n) ** 16))


# ---------------------------------------------------------------- spherical harmonics (orthonormal, Condon-Shortley)
def legendre_table(lmax, x):
    """P[m][l][i]: orthonormal associated Legendre functions (with Condon-Shortley phase), including 1/sqrt(2 pi)"""
    x = np.asarray(x, float)
    s = np.sqrt(np.maximum(0, 1 - x * x))
    P = [[None] * (lmax + 1) for _ in range(lmax + 1)]
    pmm = np.full_like(x, 1 / math.sqrt(4 * math.pi))
    for m in range(lmax + 1):
        if m > 0:
            pmm = -pmm * s * math.sqrt((2 * m + 1) / (2 * m))
        P[m][m] = pmm
        if m + 1 <= lmax:
            P[m][m + 1] = x * math.sqrt(2 * m + 3) * pmm
        for l in range(m + 2, lmax + 1):
            a = math.sqrt((4 * l * l - 1) / (l * l - m * m))
            b = math.sqrt(((l - 1) ** 2 - m * m) / (4 * (l - 1) ** 2 - 1))
            P[m][l] = a * (x * P[m][l - 1] - b * P[m][l - 2])
    return P


class Sph:
    """spectral transforms on nlat Gauss nodes x nphi points; contig: theta runs fastest"""

    def __init__(self, lmax, mmax, nlat, nphi, contig):
        self.lmax, self.mmax, self.nlat, self.nphi, self.contig = lmax, mmax, nlat, nphi, contig
        x, w = np.polynomial.legendre.leggauss(nlat)
        self.ct = x[::-1].copy()
        self.w = w[::-1].copy()
        self.P = legendre_table(lmax, self.ct)
        self.phi = 2 * np.pi * np.arange(nphi) / nphi
        self.lm = [(l, m) for m in range(mmax + 1) for l in range(m, lmax + 1)]
        self.nlm = len(self.lm)
        self.ix = {lm: i for i, lm in enumerate(self.lm)}
        ip = np.arange(nphi)
        it = np.arange(nlat)
        self.index = (nlat * ip[None, :] + it[:, None]) if contig else (nphi * it[:, None] + ip[None, :])
        self.theta = np.arccos(self.ct)

    def to2(self, v):
        return np.asarray(v)[self.index]

    def to1(self, g):
        out = np.zeros(self.nlat * self.nphi, dtype=g.dtype)
        out[self.index] = g
        return out

    def Y(self, l, m):
        """complex harmonic on the nodes (nlat,nphi)"""
        p = self.P[abs(m)][l]
        y = p[:, None] * np.exp(1j * abs(m) * self.phi)[None, :]
        return y if m >= 0 else (-1) ** m * np.conj(y)

    def anal(self, g, l, m):
        return np.sum(g * np.conj(self.Y(l, m)) * self.w[:, None]) * 2 * np.pi / self.nphi

    def to_Ylm(self, v):
        g = self.to2(v)
        F = g @ np.exp(-1j * np.outer(self.phi, np.arange(self.mmax + 1))) * (2 * np.pi / self.nphi)
        out = np.zeros(self.nlm, complex)
        for i, (l, m) in enumerate(self.lm):
            out[i] = np.sum(F[:, m] * self.P[m][l] * self.w)
        return out

    def to_Sph(self, q):
        F = np.zeros((self.nlat, self.mmax + 1), complex)
        for i, (l, m) in enumerate(self.lm):
            F[:, m] += q[i] * self.P[m][l]
        g = np.real(F[:, :1]) * np.ones((1, self.nphi))
        for m in range(1, self.mmax + 1):
            g = g + 2 * np.real(F[:, m:m + 1] * np.exp(1j * m * self.phi)[None, :])
        return self.to1(g)

    def to_Ylm_c(self, v):
        """complex data; coefficient (l,m) at l(l+1)+m"""
        g = self.to2(v)
        L = self.lmax
        out = np.zeros((L + 1) ** 2, complex)
        for l in range(L + 1):
            for m in range(-l, l + 1):
                if abs(m) <= self.mmax:
                    out[l * (l + 1) + m] = self.anal(g, l, m)
        return out

    def to_Sph_c(self, q):
        g = np.zeros((self.nlat, self.nphi), complex)
        L = self.lmax
        for l in range(L + 1):
            for m in range(-l, l + 1):
                if abs(m) <= self.mmax:
                    g = g + q[l * (l + 1) + m] * self.Y(l, m)
        return self.to1(g)

    # ---- operators, from their definitions
    def ls(self):
        return np.array([l for l, m in self.lm], float)

    def ms(self):
        return np.array([m for l, m in self.lm], float)

    def laplace_beltrami(self, v):
        l = self.ls()
        return self.to_Sph(-l * (l + 1) * self.to_Ylm(v))

    def partial_phi(self, v):
        return self.to_Sph(1j * self.ms() * self.to_Ylm(v))

    def filter(self, v):
        lp = lambda k: np.exp(-40 * (k / self.lmax) ** 16)
        return self.to_Sph(lp(self.ls()) * lp(self.ms()) * self.to_Ylm(v))

    def raised(self, v):
        q = self.to_Ylm_c(np.asarray(v, complex))
        out = np.zeros_like(q)
        for l in range(self.lmax + 1):
            for m in range(-l + 1, l + 1):
                out[l * (l + 1) + m] = math.sqrt((l - m + 1) * (l + m)) * q[l * (l + 1) + m - 1]
        return self.to_Sph_c(out)

    def lowered(self, v):
        q = self.to_Ylm_c(np.asarray(v, complex))
        out = np.zeros_like(q)
        for l in range(self.lmax + 1):
            for m in range(-l, l):
                out[l * (l + 1) + m] = math.sqrt((l + m + 1) * (l - m)) * q[l * (l + 1) + m + 1]
        return self.to_Sph_c(out)

    def sphereX(self, v):
        return -np.real(self.raised(v) * self.lowered(v)) + self.partial_phi(v) ** 2

    def power_spectrum(self, v):
        q = self.to_Ylm(v)
        out = np.zeros(self.lmax)
        for i, (l, m) in enumerate(self.lm):
            if l < self.lmax:
                out[l] += (1 if m == 0 else 2) * abs(q[i]) ** 2
        return out

    def compute_ylm(self, l, m):
        q = np.zeros(self.nlm, complex)
        q[self.ix[(l, m)]] = 1
        return self.to_Sph(q)


@functools.lru_cache(64)
def sph(lmax, mmax, nlat, nphi, contig):
    return Sph(lmax, mmax, nlat, nphi, bool(contig))


# ---------------------------------------------------------------- full grid
class Grid:
    def __init__(self, cl, Rmin, Rmax, nx, nl, nm, nlat, nphi, cheb, contig):
        self.cl, self.Rmin, self.Rmax = cl, Rmin, Rmax
        self.nx, self.nl, self.nm, self.nlat, self.nphi = nx, nl, nm, nlat, nphi
        self.cheb, self.contig = bool(cheb), bool(contig)
        self.S = sph(nl, nm, nlat, nphi, bool(contig))
        self.R = (cheb_pts if cheb else fd_pts)(nx, Rmin, Rmax)
        self.N = nx * nlat * nphi
        self.index = (np.arange(nx) * nlat * nphi)[:, None, None] + self.S.index[None]
        self.dR = (1 - self.R / cl) ** 2
        self.d2R = (-2 / cl) * (1 - self.R / cl) ** 3

    def to3(self, v):
        return np.asarray(v)[self.index]

    def to1(self, g):
        out = np.zeros(self.N)
        out[self.index] = g
        return out

    def r(self):
        out = np.full(self.nx, 1e12)
        ok = np.abs(self.R - self.cl) > 1e-16
        out[ok] = self.R[ok] / (1 - self.R[ok] / self.cl)
        return out

    def rad(self, f, g):
        out = np.zeros_like(g, dtype=float)
        for i in range(self.nlat):
            for j in range(self.nphi):
                out[:, i, j] = f(self.nx, self.Rmin, self.Rmax, g[:, i, j])
        return out

    def der(self, g):
        return self.rad(cheb_der if self.cheb else fd_der, g)

    def der2(self, g):
        return self.der(self.der(g)) if self.cheb else self.rad(fd_der2, g)

    def set_partial_R(self, v):
        return self.to1(self.der(self.to3(v)))

    def set_partial_r(self, v):
        return self.to1(self.dR[:, None, None] * self.der(self.to3(v)))

    def set_partial2_r(self, v):
        g = self.to3(v)
        # R'' d/dR + R'^2 d2/dR2 with R'' the derivative of R' = (1-R/cl)^2 along r
        return self.to1(self.d2R[:, None, None] * self.der(g) + (self.dR ** 2)[:, None, None] * self.der2(g))

    def shells(self, f, v):
        n = self.nlat * self.nphi
        return np.concatenate([f(np.asarray(v)[i * n:(i + 1) * n]) for i in range(self.nx)])

    def set_partial_phi(self, v): return self.shells(self.S.partial_phi, v)
    def set_spherical_lap(self, v): return self.shells(self.S.laplace_beltrami, v)
    def set_sphereX(self, v): return self.shells(self.S.sphereX, v)
    def set_angular_power_spectrum(self, v): return self.shells(self.S.power_spectrum, v)

    def set_n_l_coef(self, v):
        p = np.sqrt(self.set_angular_power_spectrum(v).reshape(self.nx, self.nl))
        return (cheb_Tinv(self.nx) @ p).reshape(-1)

    def filter(self, v):
        g = self.to3(self.shells(self.S.filter, v))
        h = self.rad(cheb_filter if self.cheb else fd_filter, g)
        h[0], h[-1] = g[0], g[-1]
        return self.to1(h)

    def norm_indep_res(self, dt, fn, fnp1, p):
        return math.sqrt(np.mean((np.asarray(p) - (np.asarray(fnp1) - np.asarray(fn)) / dt) ** 2))

    def total_variation(self, v):
        g = self.to3(v)
        a = g[1:, :-1, :-1] - g[:-1, :-1, :-1]
        b = g[:-1, 1:, :-1] - g[:-1, :-1, :-1]
        c = g[:-1, :-1, 1:] - g[:-1, :-1, :-1]
        return np.sum(np.sqrt(a * a + b * b + c * c)) / self.N


@functools.lru_cache(64)
def grid(*a):
    return Grid(*a)
