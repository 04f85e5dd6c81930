"""Sampled inputs and expected values, per property (expected values: kv/oracle.py and the formulas below, never /repo)."""
import math
import os
import re
import subprocess
import numpy as np
from .. import oracle as O
from . import f2c, c2f, Crash, Unavailable, Driver

POISON = 7.25e77
BOTH = [(0, 0), (0, 1), (1, 0), (1, 1)]


def arr(c, n, scale=None):
    k = c.rng.integers(0, 6)
    v = c.rng.standard_normal(n)
    if k == 0:
        v = v * 10.0 ** c.rng.uniform(-24, 4)
    elif k == 3:
        v = v * 10.0 ** c.rng.uniform(-4, 3)
    elif k == 1:
        v = np.zeros(n)
        if n:
            v[c.rng.integers(0, n)] = 1.0
    elif k == 2:
        v = v + c.rng.uniform(-5, 5)
    return v


def many(c, quick, thorough):
    """iterate while there is time; `quick`/`thorough` rounds"""
    for i in range(quick if c.tier == 'quick' else thorough):
        if c.over():
            return
        yield i


# ------------------------------------------------------------------ radial schemes
LARGE = (65, 129, 200, 263, 300, 514, 1030)


def rad_args(c, lo_n, hi_n=40, large=0):
    n = int(c.rng.choice([lo_n, lo_n + 1, c.rng.integers(lo_n, hi_n)]))
    if large and c.rng.random() < 0.12:
        n = int(c.rng.choice([x for x in LARGE if x <= large]))
    lo = float(c.rng.choice([0.0, -1.0, c.rng.uniform(-20, 20)]))
    return n, lo, lo + float(c.rng.choice([1.0, 2.0, 10 ** c.rng.uniform(-2, 2.5)]))


def radial_case(kind, op, nmin, oracle, scale, inplace=False, poly=None):
    def f(c):
        d = c.driver('radial', 1, 1)
        for i in many(c, 60, 600):
            n, lo, hi = rad_args(c, nmin, large=1030 if kind == 'fd' else 130)
            a = 'n=%d [%r,%r]' % (n, lo, hi)
            d(kind + '.new', 1, n, d=(lo, hi))
            v = arr(c, n)
            s = scale(n, lo, hi) * max(np.max(np.abs(v)), 1e-250)
            for rep in range(2):
                out = d(kind + '.' + op, 1, a=([v] if inplace else [v, np.full(n, POISON)]))
                got = out[0] if inplace else out[1]
                c.check('%s::%s %s on %s' % (kind, op, a, list(v[:6])), got, oracle(n, lo, hi, v), 1e-10, s)
                if not inplace:
                    c.same('%s::%s %s: input left unchanged' % (kind, op, a), out[0], v)
            if poly is not None and n > poly:
                deg = int(c.rng.integers(0, poly(n) + 1 if callable(poly) else poly + 1))
                x = d(kind + '.info', 1)[1]
                cf = c.rng.uniform(-1, 1, deg + 1)
                t = (x - lo) / (hi - lo)
                p = np.polynomial.Polynomial(cf)
                out = d(kind + '.' + op, 1, a=[p(t), np.full(n, POISON)])
                e = p.deriv(2 if op == 'der2' else 1)(t) / (hi - lo) ** (2 if op == 'der2' else 1)
                c.check('%s::%s %s on the degree-%d polynomial %s' % (kind, op, a, deg, list(cf)), out[1], e, 1e-9, scale(n, lo, hi) * 10)
            d(kind + '.del', 1)
            if c.over():
                return
    f.__name__ = '%s_%s' % (kind, op)
    return f


c01 = radial_case('fd', 'der', 7, O.fd_der, lambda n, lo, hi: n / (hi - lo), poly=6)
c02 = radial_case('fd', 'der2', 8, O.fd_der2, lambda n, lo, hi: (n / (hi - lo)) ** 2, poly=7)
c03 = radial_case('fd', 'filter', 8, O.fd_filter, lambda n, lo, hi: 1.0, inplace=True)
c06 = radial_case('ch', 'der', 4, O.cheb_der, lambda n, lo, hi: n * n / (hi - lo))
c07 = radial_case('ch', 'filter', 3, O.cheb_filter, lambda n, lo, hi: 1.0, inplace=True)


def c03b(c):
    d = c.driver('radial', 1, 1)
    for i in many(c, 20, 200):
        n, lo, hi = rad_args(c, 8)
        d('fd.new', 1, n, d=(lo, hi))
        v = (-1.0) ** np.arange(n)
        g = d('fd.filter', 1, a=[v])[0]
        e = v.copy()
        e[4:n - 4] = 0
        c.check('FD filter n=%d of the grid mode' % n, g, e, 1e-12, 1.0)
        d('fd.del', 1)


def c04(c):
    d = c.driver('radial', 1, 1)
    for i in many(c, 60, 600):
        for kind, nmin, pts in (('fd', 2, O.fd_pts), ('ch', 2, O.cheb_pts)):
            n, lo, hi = rad_args(c, nmin, 60, large=1030 if kind == 'fd' else 130)
            d(kind + '.new', 1, n, d=(lo, hi))
            m, p = d(kind + '.info', 1)
            a = '%s n=%d [%r,%r]' % (kind, n, lo, hi)
            c.same(a + ': size and bounds', m, [n, lo, hi])
            c.check(a + ': points', p, pts(n, lo, hi), 1e-12, abs(lo) + abs(hi))
            d(kind + '.del', 1)
        if c.over():
            return
    # a few points of a very large grid (the finite differences keep no table)
    for n in (1 << 16, (1 << 24) + 11):
        d('fd.new', 1, n, d=(1.0, 3.0))
        for i in (0, 1, 1 << 15, n // 2, (1 << 24) + 1, n - 2, n - 1):
            if i < n:
                c.check('fd n=%d: point %d' % (n, i), d('fd.pt', 1, i)[0], [1.0 + 2.0 * i / (n - 1)], 1e-15, 4.0)
        d('fd.del', 1)


def c05(c):
    d = c.driver('radial', 1, 1)
    for i in many(c, 60, 600):
        n, lo, hi = rad_args(c, 2, 50)
        a = 'Cheb n=%d' % n
        d('ch.new', 1, n, d=(lo, hi))
        v = arr(c, n)
        s = max(np.max(np.abs(v)), 1e-250) * n
        o = d('ch.toch', 1, a=[v, np.full(n, POISON)])
        c.check(a + ' to_ch of %s' % list(v[:5]), o[1], O.cheb_to_ch(n, v), 1e-11, s)
        c.same(a + ' to_ch leaves the data', o[0], v)
        b = d('ch.topo', 1, a=[o[1], np.full(n, POISON)])
        c.check(a + ' round trip of %s' % list(v[:5]), b[1], v, 1e-11, s)
        b = d('ch.topo', 1, a=[v, np.full(n, POISON)])
        c.check(a + ' to_po of %s' % list(v[:5]), b[1], O.cheb_to_po(n, v), 1e-11, s)
        d('ch.del', 1)
        if c.over():
            return


# ------------------------------------------------------------------ sphere
def sph_args(c, lmax=8):
    L = int(c.rng.integers(1, lmax + 1))
    M = int(c.rng.choice([L, L, c.rng.integers(0, L + 1)]))
    nt = L + 1 + int(c.rng.integers(0, 4))
    return L, M, nt, 2 * M + 1 + int(c.rng.integers(0, 5))


def sphere(c, body, quick=20, thorough=150, lmax=8):
    for contig in (1, 0):
        d = c.driver('sphere', 1, contig)
        for i in many(c, quick, thorough):
            L, M, nt, npp = sph_args(c, lmax)
            S = O.sph(L, M, nt, npp, contig)
            d('sp.new', 1, L, M, nt, npp)
            body(c, d, S, 'Sphere(lmax=%d,mmax=%d,nlat=%d,nphi=%d,contiguous=%d)' % (L, M, nt, npp, contig), nt * npp)
            d('sp.del', 1)
            if c.over():
                return


def op_check(c, d, S, a, op, v, exp, cplx=False, size=None, tol=1e-9, pre='sp'):
    n = len(v)
    m = size if size is not None else (2 * n if cplx else n)
    ins = [v, np.full(m, POISON)]
    o = d(pre + '.' + op, 1, a=ins)
    got = f2c(o[1]) if cplx else o[1]
    L = S.lmax
    c.check('%s %s of %s' % (a, op, list(v[:4])), got, exp, tol, max(np.max(np.abs(exp)) if len(exp) else 0, np.max(np.abs(v)) ** (2 if op == 'power' else 1) * (1 + (L * (L + 1) if op == 'lap' else 1))))
    c.same('%s %s: input unchanged' % (a, op), o[0], v)


def c12(c):
    def body(c, d, S, a, n):
        v = arr(c, n)
        op_check(c, d, S, a, 'lap', v, S.laplace_beltrami(v))
        op_check(c, d, S, a, 'dphi', v, S.partial_phi(v))
        l = int(c.rng.integers(0, S.lmax + 1))
        if c.rng.integers(0, 2):
            l = S.lmax
        m = int(c.rng.integers(0, min(l, S.mmax) + 1))
        y = S.compute_ylm(l, m)
        op_check(c, d, S, a + ' Y(%d,%d)' % (l, m), 'lap', y, -l * (l + 1) * y)
    sphere(c, body)


def c13(c):
    def body(c, d, S, a, n):
        v = arr(c, n)
        op_check(c, d, S, a, 'raise', v, S.raised(v), True)
        op_check(c, d, S, a, 'lower', v, S.lowered(v), True)
        op_check(c, d, S, a, 'sphereX', v, S.sphereX(v))
    sphere(c, body, 15, 120, 6)


def c14s(c):
    def body(c, d, S, a, n):
        v = arr(c, n)
        c.check('%s filter of %s' % (a, list(v[:4])), d('sp.filter', 1, a=[v])[0], S.filter(v), 1e-10, max(1e-250, np.max(np.abs(v))))
    sphere(c, body)


def c15(c):
    def body(c, d, S, a, n):
        v = arr(c, n)
        op_check(c, d, S, a, 'power', v, S.power_spectrum(v), size=S.lmax)
        l = int(c.rng.integers(0, S.lmax + 1))
        m = int(c.rng.integers(0, min(l, S.mmax) + 1))
        y = S.compute_ylm(l, m)
        e = np.zeros(S.lmax)
        if l < S.lmax:
            e[l] = 1.0 if m == 0 else 2.0
        op_check(c, d, S, a + ' Y(%d,%d)' % (l, m), 'power', y, e, size=S.lmax)
    sphere(c, body)


def csphere(c):
    def body(c, d, S, a, n):
        o = d('sp.info', 1)
        c.same(a + ' sizes', o[0], [S.nlat, S.nphi, S.nlat * S.nphi, S.nlm])
        c.check(a + ' theta', o[1], S.theta, 1e-10, 1.0)
        c.check(a + ' phi', o[2], S.phi, 1e-12, 1.0)
        c.same(a + ' indx', o[3], S.index.reshape(-1))
    sphere(c, body)


def cylm(c):
    def body(c, d, S, a, n):
        l = int(c.rng.integers(0, S.lmax + 1))
        m = int(c.rng.integers(0, min(l, S.mmax) + 1))
        c.check('%s compute_ylm(%d,%d)' % (a, l, m), d('sp.ylm', 1, l, m)[0], S.compute_ylm(l, m), 1e-10, 1.0)
        v = arr(c, n)
        o = d('sp.to_Ylm', 1, a=[v, np.full(2 * S.nlm, POISON)])
        c.check(a + ' to_Ylm', f2c(o[1]), S.to_Ylm(v), 1e-10, max(1e-250, np.max(np.abs(v))) * 4)
        q = c.rng.standard_normal(S.nlm) + 1j * c.rng.standard_normal(S.nlm)
        o = d('sp.to_Sph', 1, a=[c2f(q), np.full(n, POISON)])
        c.check(a + ' to_Sph', o[1], S.to_Sph(q), 1e-10, S.nlm)
    sphere(c, body)


def c29(c):
    def body(c, d, S, a, n):
        L2 = (S.lmax + 1) ** 2
        v = arr(c, n)
        w = arr(c, n) + 1j * arr(c, n)
        o = d('sp.to_Ylm', 1, a=[v, np.full(2 * S.nlm, POISON)])
        c.check('%s to_Ylm of %s' % (a, list(v[:4])), f2c(o[1]), S.to_Ylm(v), 1e-10, max(1e-250, np.max(np.abs(v))) * 4)
        c.same(a + ' to_Ylm leaves its input', o[0], v)
        q = c.rng.standard_normal(S.nlm) + 1j * c.rng.standard_normal(S.nlm)
        o = d('sp.to_Sph', 1, a=[c2f(q), np.full(n, POISON)])
        c.check(a + ' to_Sph of random coefficients', o[1], S.to_Sph(q), 1e-10, S.nlm)
        c.same(a + ' to_Sph leaves its input', o[0], c2f(q))
        o = d('sp.to_Ylm_c', 1, a=[c2f(w), np.full(2 * L2, POISON)])
        c.check('%s complex to_Ylm of %s' % (a, list(w[:2])), f2c(o[1]), S.to_Ylm_c(w), 1e-10, max(1e-250, np.max(np.abs(w))) * 4)
        c.same(a + ' complex to_Ylm leaves its input', o[0], c2f(w))
        q = np.array([(c.rng.standard_normal() + 1j * c.rng.standard_normal()) * (abs(m) <= S.mmax) for l in range(S.lmax + 1) for m in range(-l, l + 1)])
        o = d('sp.to_Sph_c', 1, a=[c2f(q), np.full(2 * n, POISON)])
        c.check(a + ' complex to_Sph of random coefficients', f2c(o[1]), S.to_Sph_c(q), 1e-10, L2)
        c.same(a + ' complex to_Sph leaves its input', o[0], c2f(q))
        l = int(c.rng.integers(0, S.lmax + 1))
        m = int(c.rng.integers(0, min(l, S.mmax) + 1))
        c.check('%s compute_ylm(%d,%d)' % (a, l, m), d('sp.ylm', 1, l, m)[0], S.compute_ylm(l, m), 1e-10, 1.0)
    sphere(c, body, 15, 120, 6)


# ------------------------------------------------------------------ grid
def grid_args(c, big=False, inf=None):
    nx = int(c.rng.choice([8, 9, c.rng.integers(8, 15)]))
    L = int(c.rng.integers(1, 5))
    M = int(c.rng.choice([L, c.rng.integers(0, L + 1)]))
    nt = L + 1 + int(c.rng.integers(0, 3))
    npp = 2 * M + 1 + int(c.rng.integers(0, 4))
    if nt == npp and c.rng.integers(0, 3):
        npp += 1
    cl = float(c.rng.choice([10.0, c.rng.uniform(5, 40)]))
    Rmin = float(c.rng.uniform(0.05, 0.5) * cl)
    k = c.rng.integers(0, 3) if inf is None else inf
    Rmax = cl if k else float((c.rng.uniform(0.6, 1.0) if c.rng.integers(0, 3) else 1 - 10 ** c.rng.uniform(-9, -1)) * cl)
    return cl, Rmin, Rmax, nx, L, M, nt, npp


def gname(g, cheb, contig):
    return 'Grid(cl=%r,Rmin=%r,Rmax=%r,nx=%d,nl=%d,nm=%d,nlat=%d,nphi=%d) cheb=%d contiguous=%d' % (tuple(g) + (cheb, contig))


def on_grids(c, body, quick=6, thorough=60, what='grid', inf=None, cfgs=BOTH):
    for cheb, contig in cfgs:
        d = c.driver(what, cheb, contig)
        for i in many(c, quick, thorough):
            g = grid_args(c, inf=inf)
            G = O.grid(*g, bool(cheb), bool(contig))
            d('gr.new', 1, *g[3:], d=g[:3])
            body(c, d, G, gname(g, cheb, contig))
            d('gr.del', 1)
            if c.over():
                return


def g_op(c, d, G, a, op, v, exp, size=None, scale=1.0, tol=1e-9):
    m = size if size is not None else len(v)
    o = d('gr.' + op, 1, a=[v, np.full(m, POISON)])
    c.check('%s: %s of %s' % (a, op, list(v[:4])), o[1], exp, tol, max(np.max(np.abs(exp)), np.max(np.abs(v)) ** (2 if op == 'power' else 1) * scale, 1e-250))
    c.same('%s: %s leaves its input' % (a, op), o[0], v)


def c08(c):
    def body(c, d, G, a):
        o = d('gr.info', 1)
        N = G.N
        idx = G.index.reshape(-1)
        c.same(a + ' 3D storage map', o[0], idx)
        R, th, ph = np.meshgrid(G.R, G.S.theta, G.S.phi, indexing='ij')
        P = np.stack([R, th, ph], -1).reshape(-1, 3)
        X = np.stack([R * np.cos(ph) * np.sin(th), R * np.sin(ph) * np.sin(th), R * np.cos(th)], -1).reshape(-1, 3)
        c.check(a + ' R_th_ph(ix,it,ip)', o[1], P.reshape(-1), 1e-9, G.cl)
        c.check(a + ' x_y_z(ix,it,ip)', o[2], X.reshape(-1), 1e-9, G.cl)
        fl = np.zeros((N, 3))
        fl[idx] = P
        c.check(a + ' R_th_ph(i)', o[8], fl.reshape(-1), 1e-9, G.cl)
        fl[idx] = X
        c.check(a + ' x_y_z(i)', o[9], fl.reshape(-1), 1e-9, G.cl)
        i2 = G.S.index.reshape(-1)
        c.same(a + ' 2D storage map', o[3], i2)
        T = np.stack(np.meshgrid(G.S.theta, G.S.phi, indexing='ij'), -1).reshape(-1, 2)
        c.check(a + ' th_ph(it,ip)', o[4], T.reshape(-1), 1e-9, 1.0)
        f2 = np.zeros_like(T)
        f2[i2] = T
        c.check(a + ' th_ph(i)', o[10], f2.reshape(-1), 1e-9, 1.0)
        c.same(a + ' radius/degree map', o[5], np.arange(G.nx * G.nl))
        RL = np.stack(np.meshgrid(G.R, np.arange(G.nl), indexing='ij'), -1).reshape(-1)
        c.check(a + ' R_l(ix,il)', o[6], RL, 1e-9, G.cl)
        c.check(a + ' R_l(i)', o[11], RL, 1e-9, G.cl)
        if G.cheb:
            NL = np.stack(np.meshgrid(np.arange(G.nx), np.arange(G.nl), indexing='ij'), -1).reshape(-1)
            c.check(a + ' n_l', o[7], NL, 1e-9, 1.0)
        c.same(a + ' accessors', o[12], [G.cl, G.Rmin, G.Rmax, G.nx, G.nl, G.S.mmax, G.nlat, G.nphi])
    on_grids(c, body)


def c09(c):
    def body(c, d, G, a):
        v = c.rng.standard_normal(G.N)
        g = G.to3(v)
        nx, nt, npp, nl = G.nx, G.nlat, G.nphi, G.nl
        rx, rt, rp, rl = [int(c.rng.integers(0, k)) for k in (nx, nt, npp, nl)]
        T = lambda s: np.moveaxis(s, 0, 0)
        spec = [('R', (rt, rp), (slice(None), rt, rp), None), ('th', (rx, rp), (rx, slice(None), rp), None), ('ph', (rx, rt), (rx, rt, slice(None)), None),
                ('R_th', (rp,), (slice(None), slice(None), rp), None), ('R_ph', (rt,), (slice(None), rt, slice(None)), None),
                ('th_ph', (rx,), (rx, slice(None), slice(None)), G.S.index)]
        for nm, ii, sl, ix in spec:
            s = g[sl]
            flat = s.reshape(-1).copy()
            if ix is not None:
                flat = np.zeros(s.size)
                flat[ix] = s
            o = d('gr.get_' + nm, 1, *ii, a=[v, np.full(s.size, POISON)])
            c.same('%s get_row_%s%s' % (a, nm, ii), o[1], flat)
            c.same('%s get_row_%s%s leaves its input' % (a, nm, ii), o[0], v)
            w = c.rng.standard_normal(s.size)
            h = g.copy()
            h[sl] = w.reshape(s.shape) if ix is None else w[ix]
            e = np.zeros(G.N)
            e[G.index] = h
            o = d('gr.set_' + nm, 1, *ii, a=[w, v])
            c.same('%s set_row_%s%s' % (a, nm, ii), o[1], e)
        q = c.rng.standard_normal((nx, nl))
        o = d('gr.get_n', 1, rl, a=[q, np.full(nx, POISON)])
        c.same('%s get_row_n(%d)' % (a, rl), o[1], q[:, rl])
        w = c.rng.standard_normal(nx)
        e = q.copy()
        e[:, rl] = w
        c.same('%s set_row_n(%d)' % (a, rl), d('gr.set_n', 1, rl, a=[w, q])[1], e.reshape(-1))
        w = c.rng.standard_normal(nl)
        e = q.copy()
        e[rx] = w
        c.same('%s set_row_l(%d)' % (a, rx), d('gr.set_l', 1, rx, a=[w, q])[1], e.reshape(-1))
    on_grids(c, body)


def c10(c):
    def body(c, d, G, a):
        v = arr(c, G.N)
        s = G.nx ** 2 / (G.Rmax - G.Rmin)
        g_op(c, d, G, a, 'dR', v, G.set_partial_R(v), scale=s)
        g_op(c, d, G, a, 'dr', v, G.set_partial_r(v), scale=s)
        g_op(c, d, G, a, 'drr', v, G.set_partial2_r(v), scale=s * s)
        R = np.append(G.R[np.abs(G.R - G.cl) > 1e-9 * G.cl], [G.cl * x for x in (0.1, 0.5, 0.9)])
        e = R / (1 - R / G.cl)
        got = d('gr.R2r', 1, a=[R])[0]
        c.check(a + ' R_to_r', got / e, np.ones(len(R)), 1e-5, 1.0)
        # scaled comparison away from infinity, so that an error at small dR/dr is seen
        ok = G.R < 0.99 * G.cl
        o = G.to3(d('gr.dr', 1, a=[v, np.full(G.N, POISON)])[1])[ok] / G.dR[ok][:, None, None]
        c.check(a + ': dr / (dR/dr) of %s' % list(v[:4]), o.reshape(-1), G.to3(G.set_partial_R(v))[ok].reshape(-1), 1e-9, max(1e-250, np.max(np.abs(v))) * s)
        # the boundary point itself, where R'(r) is small but not zero
        o = G.to3(d('gr.drr', 1, a=[v, np.full(G.N, POISON)])[1])
        e = G.to3(G.set_partial2_r(v))
        sc = np.abs(G.d2R)[:, None, None] * np.max(np.abs(G.to3(G.set_partial_R(v)))) + (G.dR ** 2)[:, None, None] * np.max(np.abs(v)) * s * s + 1e-13 * s * s * np.max(np.abs(v)) + 1e-250
        c.check(a + ': second radial derivative, line by line', (o / sc).reshape(-1), (e / sc).reshape(-1), 1e-7, 1.0)
    on_grids(c, body)


def c11(c):
    def body(c, d, G, a):
        v = arr(c, G.N)
        L = G.S.lmax
        g_op(c, d, G, a, 'dphi', v, G.set_partial_phi(v))
        g_op(c, d, G, a, 'lap', v, G.set_spherical_lap(v), scale=L * L)
        g_op(c, d, G, a, 'sphereX', v, G.set_sphereX(v))
        g_op(c, d, G, a, 'power', v, G.set_angular_power_spectrum(v), size=G.nx * G.nl)
    on_grids(c, body, 4, 40)


def c14g(c):
    def body(c, d, G, a):
        v = arr(c, G.N)
        c.check('%s: filter of %s' % (a, list(v[:4])), d('gr.filter', 1, a=[v])[0], G.filter(v), 1e-10, max(1e-250, np.max(np.abs(v))))
    on_grids(c, body)


def c27(c):
    def body(c, d, G, a):
        x, y, p = arr(c, G.N), arr(c, G.N), arr(c, G.N)
        dt = float(10 ** c.rng.uniform(-3, 0))
        o = d('gr.norm', 1, d=(dt,), a=[x, y, p])
        c.check(a + ' norm_indep_res dt=%r' % dt, o[0], [G.norm_indep_res(dt, x, y, p)], 1e-9)
        o = d('gr.norm', 1, d=(dt,), a=[x, x + dt * p, p])
        c.check(a + ' norm_indep_res of consistent data', o[0], [0.0], 1e-9, max(1, np.max(np.abs(x)) / dt))
        o = d('gr.tv', 1, a=[x])
        c.check(a + ' total_variation', o[0], [G.total_variation(x)], 1e-9, max(1e-300, G.total_variation(x)) + 1e-12)
        z = np.full(G.N, c.rng.uniform(-3, 3))
        c.check(a + ' total_variation of a constant', d('gr.tv', 1, a=[z])[0], [0.0], 1e-12, 1.0)
    on_grids(c, body, 8, 80)


def c28(c):
    d = c.driver('field', 1, 1)
    for i in many(c, 40, 400):
        n = int(c.rng.choice([1, 2, c.rng.integers(1, 200)]))
        x = float(c.rng.choice([0.0, 1.5, c.rng.standard_normal()]))
        nm = str(c.rng.choice(['f', 'p', 'a longer name']))
        d('fi.new', 1, n, d=(x,), s=(nm,))
        o = d('fi.get', 1)
        for k in range(4):
            c.same('Field(%r,%d,%r) level %d' % (nm, n, x, k), o[k], np.full(n, x))
        c.true('Field(%r,%d,%r) name and size' % (nm, n, x), d.text == nm and o[4][0] == n, (d.text, o[4]), (nm, n))
        l = [c.rng.standard_normal(n) for _ in range(4)]
        d('fi.set', 1, a=l)
        d('fi.shift', 1)
        o = d('fi.get', 1)
        for k, e in enumerate([l[2], l[1], l[2], l[3]]):
            c.same('Field(size %d).shift(): level %d' % (n, k), o[k], e)
        d('fi.del', 1)
        if c.over():
            return


# ------------------------------------------------------------------ parameter files
PNAMES = ['nt', 'nx', 'nl', 'nm', 'nlat', 'nphi', 't_step_save', 'dt', 'compactification_length', 'Rmax', 'Rmin', 'black_hole_mass', 'black_hole_spin',
          'km1', 'k0', 'k1', 'k2', 'V2', 'V3', 'V4', 'amp', 'rl', 'ru', 'l_ang', 'm_ang']
PINT = {'nt', 'nx', 'nl', 'nm', 'nlat', 'nphi', 't_step_save', 'l_ang', 'm_ang'}
PWORD = ['initial_data_type', 'initial_data_direction']


def pfile(c, path, vals, shuffle=True, decoys=True, tail='\n'):
    lines = ['%s %s' % (k, v) for k, v in vals.items()]
    if shuffle:
        c.rng.shuffle(lines)
    if decoys:
        extra = ['', '# a comment', ' nx 77', 'nx_extra 99', 'xnx 98', '\tnt 5', 'amplitude 9', 'V 3', 'Rm 4', 'description nx 5 nl 7', 'home_dir /tmp/x', 'rl_0 -1', 'NX 55', 'k 8', 'dt_max 9']
        for e in c.rng.permutation(len(extra))[:int(c.rng.integers(2, len(extra)))]:
            lines.insert(int(c.rng.integers(0, len(lines) + 1)), extra[e])
        # a second line of the same name, later: the first counts
        k = str(c.rng.choice(list(vals)))
        lines.append('%s %s' % (k, 1 if k not in PWORD else 'later'))
    with open(path, 'w') as fh:
        fh.write('\n'.join(lines) + tail)
    return '\n'.join(lines)


def pvals(c):
    v = {}
    for n in PNAMES:
        v[n] = int(c.rng.integers(0, 500)) if n in PINT else float(c.rng.choice([c.rng.uniform(-5, 5), round(c.rng.uniform(0, 99), 3), 1e-7 * c.rng.uniform(), 12345.678, -0.25]))
    v['l_ang'], v['m_ang'] = int(c.rng.integers(0, 9)), int(c.rng.integers(-3, 9))
    v['initial_data_type'] = str(c.rng.choice(['compact_pulse', 'other']))
    v['initial_data_direction'] = str(c.rng.choice(['ingoing', 'outgoing', 'time_symmetric']))
    return v


def pinfo(d, i=1):
    o = d('pa.info', i)[0]
    return dict(zip(PNAMES, o)), d.text.split('\n')


def c20(c):
    d = c.driver('params', 1, 1)
    path = os.path.join(c.scratch, 'p.txt')
    for i in many(c, 40, 300):
        v = pvals(c)
        w = dict(v)
        if i % 3 == 0:
            w[str(c.rng.choice(PNAMES))]  # unchanged
            k = str(c.rng.choice(PNAMES))
            w[k] = '  %s trailing words 7' % v[k]
        txt = pfile(c, path, w, shuffle=i > 0, decoys=i > 1, tail=['\n', '', '\n\n'][i % 3])
        try:
            d('pa.new', 1, s=(path,))
        except Crash as e:
            c.fail('Params of a complete file stops: %s\n%s' % (e, txt))
            return
        g, t = pinfo(d)
        for n in PNAMES:
            c.true('parameter %s of\n%s' % (n, txt), g[n] == v[n], g[n], v[n])
        c.true('words of\n%s' % txt, t == [v['initial_data_type'], v['initial_data_direction']], t, [v['initial_data_type'], v['initial_data_direction']])
        d('pa.del', 1)
        if c.over():
            return
    for i in many(c, 27, 54):
        k = (PNAMES + PWORD)[i % 27]
        v = pvals(c)
        del v[k]
        with open(path, 'w') as fh:
            fh.write('\n'.join('%s %s' % kv for kv in v.items()) + '\n%s_x 1\n%s1 2\n%s\n' % (k, k, 'note ' + k + ' 3'))
        d2 = Driver(c.b.build('params', 1, 1))
        try:
            d2('pa.new', 1, s=(path,))
            d2.close()
            c.fail('a file without %s is accepted' % k)
        except Crash:
            c.true('a file without %s stops with failure' % k, d2.p.returncode != 0, d2.p.returncode, 'nonzero')
        if c.over():
            return
    # list parameters
    try:
        d = c.driver('params', 1, 1)
        for i in many(c, 15, 100):
            d('pa.new', 1, s=(pf(c, path),))
            break
    except Crash:
        return


def pf(c, path):
    pfile(c, path, pvals(c))
    return path


def c20list(c):
    d = c.driver('params', 1, 1)
    path = os.path.join(c.scratch, 'pl.txt')
    v = pvals(c)
    pfile(c, path, v, decoys=False)
    d('pa.new', 1, s=(path,))
    for i in many(c, 20, 200):
        n = int(c.rng.integers(0, 7))
        s = [int(x) for x in c.rng.integers(0, 1000, n)]
        f = [float(x) for x in c.rng.uniform(-9, 9, n)]
        q = os.path.join(c.scratch, 'q.txt')
        with open(q, 'w') as fh:
            fh.write('sizes_x 5 6\nother 1\nsizes ' + ' '.join(map(str, s)) + '\nreals ' + '  '.join(map(repr, f)) + '\nsizes 7\nreals 8\n')
        c.same('list of %s' % s, d('pa.arr', 1, 0, s=(q, 'sizes'))[0], np.array(s, float))
        c.same('list of %s' % f, d('pa.arr', 1, 1, s=(q, 'reals'))[0], np.array(f, float))
    d2 = Driver(c.b.build('params', 1, 1))
    try:
        d2('pa.new', 1, s=(path,))
        d2('pa.arr', 1, 1, s=(q, 'missing'))
        d2.close()
        c.fail('a missing list parameter is accepted')
    except Crash:
        c.true('a missing list parameter stops with failure', d2.p.returncode != 0, d2.p.returncode, 'nonzero')


# ------------------------------------------------------------------ equations
def sim_params(c, g, **kw):
    cl, Rmin, Rmax, nx, nl, nm, nt, npp = g
    M = float(c.rng.uniform(0.3, 1.5))
    a = float(c.rng.choice([0.0, M, -M, M * (1 - 10 ** c.rng.uniform(-12, -1)), -M * (1 - 10 ** c.rng.uniform(-6, -1)), M * 10 ** c.rng.uniform(-10, -1), c.rng.uniform(-M, M), c.rng.uniform(-M, M)]))
    v = dict(nt=3, nx=nx, nl=nl, nm=nm, nlat=nt, nphi=npp, t_step_save=1, dt=float(10 ** c.rng.uniform(-3, -1)), compactification_length=cl, Rmax=Rmax, Rmin=Rmin,
             black_hole_mass=M, black_hole_spin=a, km1=0.0, k0=1.0, k1=0.0, k2=0.0, V2=0.0, V3=0.0, V4=0.0, amp=0.5, rl=1.0, ru=5.0, l_ang=0, m_ang=0,
             initial_data_type='compact_pulse', initial_data_direction='ingoing')
    if c.rng.integers(0, 4):
        v.update(km1=float(c.rng.choice([0, c.rng.uniform(-.2, .2)])), k0=float(c.rng.uniform(.8, 2)), k1=float(c.rng.uniform(-.3, .3)), k2=float(c.rng.uniform(-.3, .3)),
                 V2=float(c.rng.uniform(-1, 1)), V3=float(c.rng.uniform(-1, 1)), V4=float(c.rng.uniform(-1, 50)))
    v.update(kw)
    return v


def put_params(c, d, v, i=1, name='sim.txt'):
    path = os.path.join(c.scratch, name)
    with open(path, 'w') as fh:
        for k, x in v.items():
            fh.write('%s %s\n' % (k, repr(x) if isinstance(x, float) else x))
    d('pa.new', i, s=(path,))
    return path


def couplings(v, f):
    k = v['k0'] + v['km1'] / (f + 1) + v['k1'] * f + v['k2'] / 2 * f * f
    kp = -v['km1'] / (f + 1) ** 2 + v['k1'] + v['k2'] * f
    V = v['V2'] / 2 * f ** 2 + v['V3'] / 6 * f ** 3 + v['V4'] / 24 * f ** 4
    Vp = v['V2'] * f + v['V3'] / 2 * f ** 2 + v['V4'] / 6 * f ** 3
    return k, kp, V, Vp


def eom_terms(v, G, f):
    """metric functions divided by r^2, and the derivatives of f; x = 1/r so that r = infinity is x = 0"""
    M, a = v['black_hole_mass'], v['black_hole_spin']
    R = G.R[:, None, None] * np.ones_like(G.index)
    th = G.S.theta[None, :, None] * np.ones_like(G.index)
    x = (1 - R / v['compactification_length']) / R
    Sg = 1 + (a * x * np.cos(th)) ** 2
    D = 1 - 2 * M * x + (a * x) ** 2
    t3 = lambda w: G.to3(w)
    return M, a, x, Sg, D, dict(fr=t3(G.set_partial_r(f)), frr=t3(G.set_partial2_r(f)), fp=t3(G.set_partial_phi(f)), frp=t3(G.set_partial_r(G.set_partial_phi(f))),
                                lap=t3(G.set_spherical_lap(f)), X=t3(G.set_sphereX(f)))


def rhs(v, G, f, p):
    """dp/dv of Box f + k'/(2k) (grad f)^2 - V'/k = 0; returns (value, sum of magnitudes of the terms)"""
    M, a, x, Sg, D, q = eom_terms(v, G, f)
    k, kp, V, Vp = [G.to3(z) for z in couplings(v, f)]
    pr = G.to3(G.set_partial_r(p))
    P = G.to3(p)
    # (Sigma + 2 M r) p_v = ...; everything divided by r^2
    lhs = Sg + 2 * M * x
    grad = [-(Sg + 2 * M * x) * P ** 2, 4 * M * x * P * q['fr'], D * q['fr'] ** 2, 2 * a * x * x * q['fr'] * q['fp'], x * x * q['X']]
    terms = [2 * M * x * x * P, 4 * M * x * pr, D * q['frr'], 2 * (x - M * x * x) * q['fr'], 2 * a * x * x * q['frp'], x * x * q['lap'], -Sg * Vp / k] + [0.5 * kp / k * g for g in grad]
    return G.to1(sum(terms) / lhs), G.to1(sum(np.abs(t) for t in terms) / lhs)


def rho_of(v, G, f, p):
    M, a, x, Sg, D, q = eom_terms(v, G, f)
    k, kp, V, Vp = [G.to3(z) for z in couplings(v, f)]
    P = G.to3(p)
    A, B = (Sg + 2 * M * x) / Sg, 2 * M * x / Sg
    grad = (-(Sg + 2 * M * x) * P ** 2 + 4 * M * x * P * q['fr'] + D * q['fr'] ** 2 + 2 * a * x * x * q['fr'] * q['fp'] + x * x * q['X']) / Sg
    nd = (A * P - B * q['fr']) ** 2 / A
    mag = np.abs(k) * (nd + A * P ** 2 + B * np.abs(P * q['fr']) + (D * q['fr'] ** 2 + 2 * abs(a) * x * x * np.abs(q['fr'] * q['fp']) + x * x * np.abs(q['X'])) / Sg) + np.abs(V)
    return G.to1(k * (nd + 0.5 * grad) + V), G.to1(mag)


def on_eoms(c, body, quick=6, thorough=60, what='eom'):
    for cheb, contig in BOTH:
        d = c.driver(what, cheb, contig)
        for i in many(c, quick, thorough):
            g = grid_args(c)
            G = O.grid(*g, bool(cheb), bool(contig))
            v = sim_params(c, g)
            d('gr.new', 1, *g[3:], d=g[:3])
            put_params(c, d, v)
            d('eo.new', 1, 1, 1)
            body(c, d, G, v, gname(g, cheb, contig) + ' ' + ' '.join('%s=%r' % (k, v[k]) for k in ('black_hole_mass', 'black_hole_spin', 'km1', 'k0', 'k1', 'k2', 'V2', 'V3', 'V4', 'dt')))
            for o in ('eo.del', 'pa.del', 'gr.del'):
                d(o, 1)
            if c.over():
                return


def state(c, G):
    s = float(c.rng.choice([1, 0.1, 10 ** c.rng.uniform(-10, 0), 1.0]))
    f = c.rng.uniform(-0.5, 0.5, G.N) * s
    if c.rng.integers(0, 2):
        f = G.shells(G.S.filter, f)
    return f, c.rng.standard_normal(G.N) * float(c.rng.choice([1.0, s]))


def c16(c):
    def body(c, d, G, v, a):
        f, p = state(c, G)
        for rep in range(2):
            o = d('eo.k', 1, 1, a=[f, p, np.full(G.N, POISON), np.full(G.N, POISON)])
            e, m = rhs(v, G, f, p)
            c.same(a + ': d(psi)/dv = p', o[2], p)
            c.check(a + ': dp/dv', o[3] / (m + 1e-12 * np.max(m)), e / (m + 1e-12 * np.max(m)), 1e-6, 1.0)
            c.check(a + ': dp/dv', o[3], e, 1e-9, np.max(m))
            c.same(a + ': set_k leaves f', o[0], f)
            c.same(a + ': set_k leaves p', o[1], p)
            f, p = state(c, G)
    on_eoms(c, body)


def c17(c):
    def body(c, d, G, v, a):
        f, p = state(c, G)
        o = d('eo.rho', 1, 1, a=[f, p, np.full(G.N, POISON)])
        e, m = rho_of(v, G, f, p)
        c.check(a + ': rho', o[2] / (m + 1e-12 * np.max(m)), e / (m + 1e-12 * np.max(m)), 1e-6, 1.0)
        c.check(a + ': rho', o[2], e, 1e-9, np.max(m))
        c.same(a + ': set_rho leaves f', o[0], f)
        c.same(a + ': set_rho leaves p', o[1], p)
        u = np.full(G.N, float(c.rng.uniform(-.4, .4)))
        o = d('eo.rho', 1, 1, a=[u, np.zeros(G.N), np.full(G.N, POISON)])
        V = couplings(v, u)[2]
        c.check(a + ': rho of a static uniform field', o[2], V, 1e-9, max(np.max(np.abs(V)), 1e-6 * np.max(np.abs(u)) ** 2, 1e-250))
    on_eoms(c, body)


def c18(c):
    def body(c, d, G, v, a):
        # the step: filter, then RK4 with the real right-hand side (C16 decides that one)
        f, p = state(c, G)
        N = G.N
        for k, nm in ((1, 'f'), (2, 'p')) if c.rng.integers(0, 3) else ((1, 'psi'), (2, 'psi')):
            d('fi.new', k, N, d=(0.0,), s=(nm,))
        old = [[f, arr(c, N), arr(c, N), arr(c, N)], [p, arr(c, N), arr(c, N), arr(c, N)]]
        d('fi.set', 1, a=old[0])
        d('fi.set', 2, a=old[1])
        d('eo.step', 1, 1, 1, 2)
        F, P = d('fi.get', 1), d('fi.get', 2)
        f0, p0 = d('gr.filter', 1, a=[f])[0], d('gr.filter', 1, a=[p])[0]
        K = lambda x, y: d('eo.k', 1, 1, a=[x, y, np.zeros(N), np.zeros(N)])[2:4]
        h = v['dt']
        k1 = K(f0, p0)
        k2 = K(f0 + h / 2 * k1[0], p0 + h / 2 * k1[1])
        k3 = K(f0 + h / 2 * k2[0], p0 + h / 2 * k2[1])
        k4 = K(f0 + h * k3[0], p0 + h * k3[1])
        ef = f0 + h / 6 * (k1[0] + 2 * k2[0] + 2 * k3[0] + k4[0])
        ep = p0 + h / 6 * (k1[1] + 2 * k2[1] + 2 * k3[1] + k4[1])
        big = max(np.max(np.abs(z)) for z in list(k1) + list(k2) + list(k3) + list(k4))
        if np.isfinite(big) and big < 1e12:
            c.check(a + ': new level of the field', F[2], ef, 1e-9, max(1e-250, np.max(np.abs(f)), h * big))
            c.check(a + ': new level of the conjugate', P[2], ep, 1e-9, max(1e-250, np.max(np.abs(p)), h * big))
        c.check(a + ': current level is the filtered state', F[0], f0, 1e-12, max(1e-250, np.max(np.abs(f))))
        c.check(a + ': current level is the filtered conjugate', P[0], p0, 1e-12, max(1e-250, np.max(np.abs(p))))
        d('fi.del', 1)
        d('fi.del', 2)
    on_eoms(c, body)


# ------------------------------------------------------------------ initial data
def pulse_case(c, g, cheb, rs=None):
    cl, Rmin, Rmax = g[:3]
    r = lambda R: R / (1 - R / cl) if R < cl * (1 - 1e-12) else 1e9
    hi = min(r(Rmax), 60.0)
    lo = r(Rmin)
    rl = float(c.rng.uniform(0, 0.6) * (hi - lo) + lo)
    k = c.rng.integers(0, 6)
    if k == 0:
        rl = float(c.rng.uniform(-2, lo))
    ru = rl + float(c.rng.uniform(0.3, 1.2) * (hi - lo))
    if rs is not None and k == 1:
        # a pulse that the grid hardly resolves: one point, near the edge
        q = np.sort(rs[rs < 60])
        i = int(c.rng.integers(0, len(q) - 1))
        w = 0.8 * (q[i + 1] - q[i])
        rl = float(q[i] - 10 ** c.rng.uniform(-1.4, -0.4) * w)
        ru = float(rl + w)
    l = int(c.rng.integers(0, g[4] + 1))
    return dict(rl=rl, ru=ru, l_ang=l, m_ang=int(c.rng.integers(0, min(l, g[5]) + 1)), amp=float(c.rng.choice([0.5, -0.3, 1.0, 10 ** c.rng.uniform(-3, 2)])),
                initial_data_direction=str(c.rng.choice(['ingoing', 'outgoing', 'time_symmetric', 'something_else'])))


def pulse(v, G):
    w = abs(v['ru'] - v['rl'])
    r = G.r()
    b = np.zeros(G.nx)
    db = np.zeros(G.nx)
    for i, x in enumerate(r):
        if v['rl'] < x < v['ru']:
            u, s = (x - v['rl']) / w, (v['ru'] - x) / w
            b[i] = u ** 4 * s ** 4 * math.exp(-1 / u) * math.exp(-2 / s)
            db[i] = b[i] * (4 / u - 4 / s + 1 / u ** 2 - 2 / s ** 2) / w
    Y = G.S.to2(G.S.compute_ylm(v['l_ang'], v['m_ang']))
    f = b[:, None, None] * Y[None]
    p = db[:, None, None] * Y[None] * {'ingoing': 1, 'outgoing': -1}.get(v['initial_data_direction'], 0)
    m = np.max(np.abs(f))
    if m > 0:
        f, p = f * v['amp'] / m, p * v['amp'] / m
    return G.to1(f), G.to1(p), m


def c19(c):
    for cheb, contig in BOTH:
        d = c.driver('id', cheb, contig)
        for i in many(c, 12, 100):
            g = grid_args(c)
            G = O.grid(*g, bool(cheb), bool(contig))
            v = sim_params(c, g, **pulse_case(c, g, cheb, G.r()))
            f, p, m = pulse(v, G)
            if 0 < m < 1.1e-16:
                continue
            d('gr.new', 1, *g[3:], d=g[:3])
            put_params(c, d, v)
            o = d('m.pulse', 1, 1, a=[np.full(G.N, POISON), np.full(G.N, POISON)])
            a = gname(g, cheb, contig) + ' ' + ' '.join('%s=%r' % (k, v[k]) for k in ('rl', 'ru', 'amp', 'l_ang', 'm_ang', 'initial_data_direction'))
            c.check(a + ': field', o[0], f, 1e-8, max(abs(v['amp']), 1e-12))
            c.check(a + ': time derivative', o[1], p, 1e-8, max(np.max(np.abs(p)), abs(v['amp']), 1e-12))
            d('pa.del', 1)
            d('gr.del', 1)
            if c.over():
                return


# ------------------------------------------------------------------ output files
def num_rows(path):
    rows = []
    with open(path) as fh:
        for l in fh.read().split('\n'):
            if l:
                rows.append(l)
    return rows


def parse(rows):
    return np.array([[float(x) for x in r.split(',')] for r in rows])


def log_check(c, a, got, pw, amp):
    """log10 of powers, -16 below 1e-16; entries at the rounding level or next to the threshold are skipped"""
    for i, (g, p) in enumerate(zip(got, pw)):
        noise = 4 * math.sqrt(max(p, 0)) * 1e-12 * amp + 1e-24 * amp * amp
        if p < 1e-16 and p + noise < 1e-16:
            if not c.true('%s: entry %d (power %r)' % (a, i, p), g == -16, g, -16):
                return
        elif p > 1e-16 and p - noise > 1e-16:
            if not c.true('%s: entry %d (power %r)' % (a, i, p), abs(g - math.log10(p)) < noise / p + 1e-8, g, math.log10(p)):
                return


def table(c, a, path, header, coords, check_vals):
    rows = num_rows(path) if os.path.exists(path) else None
    if not c.true(a + ': file %s exists' % os.path.basename(path), rows is not None, sorted(os.listdir(os.path.dirname(path))), os.path.basename(path)):
        return
    k = 0
    if header:
        bad = not rows or all(re.fullmatch(r'[-+0-9.e]*', x) for x in rows[0].split(','))
        if not c.true(a + ': header line present', not bad, rows[:1], 'a header'):
            return
        k = 1
    try:
        M = parse(rows[k:]) if len(rows) > k else np.zeros((0, coords.shape[1] + 1))
    except ValueError:
        c.fail(a + ': lines that are not numbers: %s' % rows[k:k + 2])
        return
    if not c.true(a + ': number of lines', M.shape == (coords.shape[0], coords.shape[1] + 1), M.shape, (coords.shape[0], coords.shape[1] + 1)):
        return
    if len(M):
        c.check(a + ': coordinates', M[:, :-1].reshape(-1), coords.reshape(-1), 1e-9, max(1.0, np.max(np.abs(coords))))
    check_vals(M[:, -1])


def c21(c):
    for cheb, contig in BOTH:
        d = c.driver('io', cheb, contig)
        for i in many(c, 4, 40):
            g = grid_args(c)
            G = O.grid(*g, bool(cheb), bool(contig))
            d('gr.new', 1, *g[3:], d=g[:3])
            base = os.path.join(c.scratch, 'o%d%d_%d' % (cheb, contig, i), *(['long' * 40, 'path' * 40] if i % 4 == 2 else []))
            os.makedirs(base)
            v = c.rng.standard_normal(G.N) * float(c.rng.choice([1, 10 ** c.rng.uniform(-9, 1), 100]))
            if i % 2:
                v = np.zeros(G.N)
                n = G.nlat * G.nphi
                l = int(c.rng.integers(0, G.nl))
                for s in range(G.nx):
                    v[s * n:(s + 1) * n] = G.S.compute_ylm(l, int(c.rng.integers(0, min(l, G.S.mmax) + 1))) * 10.0 ** c.rng.uniform(-7, 1)
            amp = np.max(np.abs(v))
            a = gname(g, cheb, contig)
            itm = int(c.rng.choice([0, 7, 123456]))
            hd = int(i % 3 != 1)
            RL = np.stack(np.meshgrid(G.R, np.arange(G.nl), indexing='ij'), -1).reshape(-1, 2)
            pw = G.set_angular_power_spectrum(v)
            d('m.rpsl', 1, hd, itm, s=(base + '/q',), a=[v])
            table(c, a + ' write_R_psl', base + '/q_RPsl_%d.csv' % itm, hd, RL, lambda x: log_check(c, a + ' write_R_psl', x, pw, amp))
            if cheb:
                NL = np.stack(np.meshgrid(np.arange(G.nx), np.arange(G.nl), indexing='ij'), -1).reshape(-1, 2).astype(float)
                d('m.npsl', 1, hd, itm, s=(base + '/q',), a=[v])
                n0 = len(c.violations)
                cf = G.set_n_l_coef(v)

                def chk(x):
                    for j, (gg, p) in enumerate(zip(x, cf)):
                        noise = 1e-6 * amp * G.nx
                        if p > 10 * noise:
                            if not c.true(a + ' write_n_psl entry %d (%r)' % (j, p), abs(gg - math.log10(p)) < 0.2, gg, math.log10(p)):
                                return
                        elif p < -10 * noise:
                            if not c.true(a + ' write_n_psl entry %d (%r)' % (j, p), gg == -16, gg, -16):
                                return
                table(c, a + ' write_n_psl', base + '/q_NPsl_%d.csv' % itm, hd, NL, chk)
            # volume file
            R, th, ph = np.meshgrid(G.R, G.S.theta, G.S.phi, indexing='ij')
            X = np.zeros((G.N, 3))
            X[G.index.reshape(-1)] = np.stack([R * np.cos(ph) * np.sin(th), R * np.sin(ph) * np.sin(th), R * np.cos(th)], -1).reshape(-1, 3)
            rr = np.zeros(G.N)
            rr[G.index.reshape(-1)] = R.reshape(-1)
            for lim in ((-1.0, 1e300, -1.0, 1e300), (0.3 * amp, 0.8 * amp, float(c.rng.uniform(0, .5)) * G.cl, float(c.rng.uniform(.5, 1.)) * G.cl)):
                vv = v if i % 2 == 0 else c.rng.standard_normal(G.N) * amp
                keep = (np.abs(vv) > lim[0]) & (np.abs(vv) < lim[1]) & (rr > lim[2]) & (rr < lim[3])
                if np.any(np.abs(rr[:, None] - np.array(lim[2:])[None]) < 1e-9 * G.cl):
                    continue
                nm = 'w%d' % (lim[0] > 0)
                d('m.xyz', 1, hd, itm, s=(base + '/' + nm,), d=lim, a=[vv])
                table(c, a + ' write_x_y_z limits %s' % (lim,), base + '/%s_XYZ_%d.csv' % (nm, itm), hd, X[keep],
                      lambda x: c.check(a + ' write_x_y_z values', x, vv[keep], 1e-12, amp) if keep.any() else None)
            u = arr(c, int(c.rng.integers(1, 30)))
            d('m.csv', itm, s=(base + '/d',), a=[u])
            d('m.csv', itm, s=(base + '/d',), a=[u[::-1]])
            p = base + '/d_%d.csv' % itm
            rows = num_rows(p) if os.path.exists(p) else []
            if c.true(a + ' write: appended dump has %d lines' % (2 * len(u)), len(rows) == 2 * len(u), len(rows), 2 * len(u)):
                c.check(a + ' write: values', [float(x) for x in rows], np.concatenate([u, u[::-1]]), 1e-13)
            # later files of the same quantity
            d('m.rpsl', 1, 1, itm + 1, s=(base + '/q',), a=[v])
            table(c, a + ' write_R_psl (a later save)', base + '/q_RPsl_%d.csv' % (itm + 1), 1, RL, lambda x: log_check(c, a + ' write_R_psl (a later save)', x, pw, amp))
            d('m.xyz', 1, 1, itm + 1, s=(base + '/w0',), d=(-1.0, 1e300, -1.0, 1e300), a=[v])
            keep = np.abs(v) > -1
            table(c, a + ' write_x_y_z (a later save)', base + '/w0_XYZ_%d.csv' % (itm + 1), 1, X[keep], lambda x: c.check(a + ' write_x_y_z (a later save) values', x, v, 1e-12, amp))
            # appending to the spectrum and volume files
            for op, path in (('m.rpsl', '/q_RPsl_%d.csv'), ('m.xyz', '/w0_XYZ_%d.csv')):
                q = base + path % itm
                if os.path.exists(q):
                    before = open(q).read()
                    d(op, 1, 0, itm, s=(base + '/' + path[1:].split('_')[0],), a=[v], d=(-1.0, 1e300, -1.0, 1e300))
                    c.true('%s: %s appends' % (a, op), open(q).read().startswith(before) and len(open(q).read()) > len(before), 'truncated', 'appended')
            d('gr.del', 1)
            if c.over():
                return


# ------------------------------------------------------------------ the run
def c22(c):
    for cheb, contig in ((0, 1), (1, 0)) if c.tier == 'quick' else BOTH:
        exe = c.b.build('solver', cheb, contig)
        d = c.driver('all', cheb, contig)
        for i in many(c, 6, 30):
            g = (10.0, 1.6, 10.0, int(c.rng.integers(9, 12)), 3, int(c.rng.integers(1, 4)), 5, 8)
            G = O.grid(*g, bool(cheb), bool(contig))
            nt, ts = [(1, 1), (2, 1), (5, 2), (7, 3), (6, 1), (4, 5), (9, 4)][(i + 1) % 7]
            v = sim_params(c, g, nt=nt, t_step_save=ts, dt=0.01, black_hole_mass=0.5, black_hole_spin=0.3, rl=2.0, ru=30.0, l_ang=2, m_ang=1, amp=0.3,
                           initial_data_direction='ingoing', V2=1.0, V4=3.0, k0=1.0, k1=0.1, k2=0.1, km1=0.0)
            if i % 3 == 2:
                v.update(k1=0.0, k2=0.0, V4=0.0, amp=float(10.0 ** c.rng.choice([-12, 8, 13])), l_ang=1, m_ang=0,
                         initial_data_direction=str(c.rng.choice(['outgoing', 'time_symmetric'])))
            a = gname(g, cheb, contig) + ' nt=%d t_step_save=%d amp=%g %s' % (nt, ts, v['amp'], v['initial_data_direction'])
            out = os.path.join(c.scratch, 'run%d%d_%d' % (cheb, contig, i))
            os.makedirs(out)
            pth = put_params(c, d, v)
            r = subprocess.run([exe, pth, out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
            if not c.true(a + ': exit status', r.returncode == 0, '%s %s' % (r.returncode, r.stdout[-300:]), 0):
                continue
            d('gr.new', 1, *g[3:], d=g[:3])
            d('eo.new', 1, 1, 1)
            N = G.N
            z = np.zeros(N)
            f, p = d('m.pulse', 1, 1, a=[z, z])
            saved = [(f, p)]
            for k, nm in ((1, 'f'), (2, 'p')):
                d('fi.new', k, N, d=(0.0,), s=(nm,))
            for s in range(1, nt):
                d('fi.set', 1, a=[f, z, z, z])
                d('fi.set', 2, a=[p, z, z, z])
                d('eo.step', 1, 1, 1, 2)
                f, p = d('fi.get', 1)[2], d('fi.get', 2)[2]
                if s % ts == 0:
                    saved.append((f, p))
            names = sorted(os.listdir(out))
            exp = sorted('%s_RPsl_%d.csv' % (n, k) for n in ('f', 'rho') for k in range(len(saved)))
            if c.true(a + ': saved files', names == exp, names, exp):
                for k, (f, p) in enumerate(saved):
                    rho = d('eo.rho', 1, 1, a=[f, p, z])[2]
                    for n, w in (('f', f), ('rho', rho)):
                        RL = np.stack(np.meshgrid(G.R, np.arange(G.nl), indexing='ij'), -1).reshape(-1, 2)
                        pw = G.set_angular_power_spectrum(w)
                        rows = num_rows(os.path.join(out, '%s_RPsl_%d.csv' % (n, k)))
                        hd = bool(rows) and not re.fullmatch(r'[-+0-9.e,]*', rows[0])
                        M = parse(rows[1:] if hd else rows)
                        if c.true(a + ': lines of %s_RPsl_%d' % (n, k), M.shape == (len(RL), 3), M.shape, (len(RL), 3)):
                            c.check(a + ': coordinates of %s_RPsl_%d' % (n, k), M[:, :2].reshape(-1), RL.reshape(-1), 1e-9, G.cl)
                            log_check(c, a + ': %s at save %d (state after step %d)' % (n, k, k * ts), M[:, 2], pw, max(np.max(np.abs(w)), 1e-3))
            for o in ('eo.del', 'pa.del', 'gr.del'):
                d(o, 1)
            d('fi.del', 1)
            d('fi.del', 2)
            if c.over():
                return


# ------------------------------------------------------------------ memory
def all_ops(c, d, cheb, contig, g, eom=True):
    """every public operation once, with valid arguments"""
    G = O.grid(*g, bool(cheb), bool(contig))
    N, nl, nx = G.N, G.nl, G.nx
    v, w = c.rng.uniform(-.4, .4, N), c.rng.uniform(-.4, .4, N)
    z = np.zeros(N)
    d('gr.info', 1)
    for op in ('dphi', 'lap', 'sphereX', 'dR', 'dr', 'drr'):
        yield op, d('gr.' + op, 1, a=[v, z])[1]
    yield 'power', d('gr.power', 1, a=[v, np.zeros(nx * nl)])[1]
    if cheb:
        yield 'nl', d('gr.nl', 1, a=[v, np.zeros(nx * nl)])[1]
    yield 'filter', d('gr.filter', 1, a=[v])[0]
    yield 'norm', d('gr.norm', 1, d=(0.1,), a=[v, w, v])[0]
    yield 'tv', d('gr.tv', 1, a=[v])[0]
    if eom:
        k = d('eo.k', 1, 1, a=[v, w, z, z])
        yield 'set_k', np.concatenate(k[2:4])
        yield 'set_rho', d('eo.rho', 1, 1, a=[v, w, z])[2]
        d('fi.set', 1, a=[v, z, z, z])
        d('fi.set', 2, a=[w, z, z, z])
        d('eo.step', 1, 1, 1, 2)
        yield 'time_step', np.concatenate(d('fi.get', 1)[:4] + d('fi.get', 2)[:4])
        d('fi.shift', 1)
        yield 'shift', np.concatenate(d('fi.get', 1)[:4])
        yield 'compact_pulse', np.concatenate(d('m.pulse', 1, 1, a=[z, z]))
    yield 'ylm', d('gr.ylm', 1, 1, 0)[0]


def setup_all(c, d, g):
    v = sim_params(c, g)
    d('gr.new', 1, *g[3:], d=g[:3])
    put_params(c, d, v)
    d('eo.new', 1, 1, 1)
    for k, nm in ((1, 'f'), (2, 'p')):
        d('fi.new', k, g[3] * g[6] * g[7], d=(0.0,), s=(nm,))


def drop_all(d):
    for o in ('eo.del', 'pa.del', 'gr.del'):
        d(o, 1)
    d('fi.del', 1)
    d('fi.del', 2)


def c24(c):
    for cheb, contig in BOTH:
        d = c.driver('all', cheb, contig, san='asan')
        for i in many(c, 4, 30):
            g = grid_args(c)
            b0 = d('m.counts')[0]
            setup_all(c, d, g)
            b1 = d('m.counts')[0]
            a = gname(g, cheb, contig)
            for nm, _ in all_ops(c, d, cheb, contig, g):
                b2 = d('m.counts')[0]
                if not c.true('%s: %s leaves no transform buffer or plan behind' % (a, nm), list(b1) == list(b2), b2, b1):
                    return
            f, p = d('m.pulse', 1, 1, a=[np.zeros(g[3] * g[6] * g[7])] * 2)
            base = os.path.join(c.scratch, 'm%d%d_%d' % (cheb, contig, i))
            d('m.rpsl', 1, 1, 0, s=(base,), a=[f])
            d('m.xyz', 1, 1, 0, s=(base,), d=(0, 1e9, 0, 1e9), a=[f])
            if cheb:
                d('m.npsl', 1, 1, 0, s=(base,), a=[f])
            for k, j in (('R', 2), ('th', 2), ('ph', 2), ('n', 1), ('R_th', 1), ('R_ph', 1), ('th_ph', 1)):
                size = {'R': g[3], 'th': g[6], 'ph': g[7], 'n': g[3], 'R_th': g[3] * g[6], 'R_ph': g[3] * g[7], 'th_ph': g[6] * g[7]}[k]
                tot = g[3] * g[4] if k == 'n' else g[3] * g[6] * g[7]
                last = {'R': (g[6] - 1, g[7] - 1), 'th': (g[3] - 1, g[7] - 1), 'ph': (g[3] - 1, g[6] - 1), 'n': (g[4] - 1,), 'R_th': (g[7] - 1,), 'R_ph': (g[6] - 1,), 'th_ph': (g[3] - 1,)}[k]
                d('gr.get_' + k, 1, *last, a=[np.zeros(tot), np.zeros(size)])
                d('gr.set_' + k, 1, *last, a=[np.zeros(size), np.zeros(tot)])
            d('gr.set_l', 1, g[3] - 1, a=[np.zeros(g[4]), np.zeros(g[3] * g[4])])
            # two grids: destroying one leaves the other usable
            d('gr.new', 2, *g[3:], d=g[:3])
            v = c.rng.standard_normal(g[3] * g[6] * g[7])
            e = d('gr.filter', 2, a=[v])[0]
            drop_all(d)
            c.check(a + ': filter after another grid was destroyed', d('gr.filter', 2, a=[v])[0], e, 1e-12)
            e2 = d('gr.lap', 2, a=[v, v])[1]
            d('gr.new', 3, *g[3:], d=g[:3])
            d('gr.del', 2)
            c.check(a + ': Laplacian after another grid was destroyed', d('gr.lap', 3, a=[v, v])[1], e2, 1e-9)
            d('gr.del', 3)
            c.true(a + ': nothing left after destruction', list(d('m.counts')[0]) == list(b0), d('m.counts')[0], b0)
            if c.over():
                return
    d = c.driver('radial', 1, 1, san='asan')
    b0 = d('m.counts')[0]
    for i in many(c, 20, 200):
        for kind, nmin, ops in (('fd', 8, ('der', 'der2', 'filter')), ('ch', 4, ('der', 'filter', 'toch', 'topo'))):
            n, lo, hi = rad_args(c, nmin)
            d(kind + '.new', 1, n, d=(lo, hi))
            d(kind + '.new', 2, n, d=(lo, hi))
            v = arr(c, n)
            for o in ops:
                d(kind + '.' + o, 1, a=[v, v])
            e = d(kind + '.filter', 2, a=[v])[0]
            d(kind + '.del', 1)
            c.same('%s n=%d: usable after another object was destroyed' % (kind, n), d(kind + '.filter', 2, a=[v])[0], e)
            d(kind + '.del', 2)
            c.true('%s n=%d: nothing left after destruction' % (kind, n), list(d('m.counts')[0]) == list(b0), d('m.counts')[0], b0)
    for contig in (0, 1):
        d = c.driver('sphere', 1, contig, san='asan')
        for i in many(c, 10, 100):
            L, M, nt, npp = sph_args(c)
            d('sp.new', 1, L, M, nt, npp)
            n, nlm, nc = nt * npp, O.sph(L, M, nt, npp, contig).nlm, (L + 1) ** 2
            z = np.zeros
            b1 = d('m.counts')[0]
            d('sp.info', 1)
            for op, x, y in (('to_Sph', 2 * nlm, n), ('to_Ylm', n, 2 * nlm), ('to_Sph_c', 2 * nc, 2 * n), ('to_Ylm_c', 2 * n, 2 * nc), ('lap', n, n), ('dphi', n, n), ('sphereX', n, n), ('power', n, L), ('filter', n, 0), ('raise', n, 2 * n), ('lower', n, 2 * n)):
                d('sp.' + op, 1, a=[z(x), z(y)])
                c.true('Sphere %s: no buffer left behind' % op, list(d('m.counts')[0]) == list(b1), d('m.counts')[0], b1)
            d('sp.ylm', 1, L, M)
            d('sp.del', 1)
            if c.over():
                return


# ------------------------------------------------------------------ threads
def c23(c):
    env = {'KV_THREADS': '4', 'TSAN_OPTIONS': 'exitcode=66:halt_on_error=0:report_bugs=1', 'OMP_NUM_THREADS': '4', 'OMP_MAX_ACTIVE_LEVELS': '2'}
    for cheb, contig in ((0, 1), (1, 0)):
        try:
            e1 = dict(env, KV_THREADS='1')
            d = c.driver('all', cheb, contig, san='tsan', omp='kv', env=env)
            s = c.driver('all', cheb, contig)
            d('m.counts')
        except Crash as e:
            if 'unexpected memory mapping' in str(e) or 'ThreadSanitizer' in str(e) and 'data race' not in str(e):
                c.errors.append('ThreadSanitizer does not run here: %s' % str(e)[:200])
                continue
            raise
        for i in many(c, 2, 12):
            g = grid_args(c)
            a = gname(g, cheb, contig)
            st = c.rng.bit_generator.state
            setup_all(c, d, g)
            par = [(n, x) for n, x in all_ops(c, d, cheb, contig, g)]
            c.rng.bit_generator.state = st
            setup_all(c, s, g)
            ser = [(n, x) for n, x in all_ops(c, s, cheb, contig, g)]
            for (n, x), (_, y) in zip(par, ser):
                c.check('%s: %s with 4 threads against 1' % (a, n), x, y, 1e-9, max(np.max(np.abs(y)), 1e-12))
            drop_all(d)
            drop_all(s)
            if c.over():
                break
        rc, err = d.close()
        c.n += 1
        reps = [b for b in err.split('==================') if 'WARNING: ThreadSanitizer: data race' in b]
        if reps:
            ls = [l.strip() for l in reps[0].split('\n') if l.strip()]
            c.fail('%s cheb=%d contiguous=%d: ThreadSanitizer reports %d data race(s) while running every grid and equation operation with 4 threads; first:\n      %s' % (
                'Grid/Scalar_eom', cheb, contig, len(reps), '\n      '.join(ls[:22])))
        # the same with the system's OpenMP runtime, several thread counts
        o = c.driver('all', cheb, contig, omp='omp', env={'OMP_MAX_ACTIVE_LEVELS': '2'})
        for i in many(c, 3, 20):
            g = grid_args(c)
            st = c.rng.bit_generator.state
            ref = None
            for nth in (1, 2, 3, 8, 8):
                c.rng.bit_generator.state = st
                o('m.threads', nth)
                setup_all(c, o, g)
                res = [(n, x) for n, x in all_ops(c, o, cheb, contig, g)]
                drop_all(o)
                if ref is None:
                    ref = res
                for (n, x), (_, y) in zip(res, ref):
                    c.check('%s: %s with %d OpenMP threads against 1' % (gname(g, cheb, contig), n, nth), x, y, 1e-9, max(np.max(np.abs(y)), 1e-12))
            if c.over():
                return


def c25(c):
    from . import launcher
    launcher.c25(c)


def c26(c):
    from . import launcher
    launcher.c26(c)


FOR = {'C01': [c01], 'C02': [c02], 'C03': [c03, c03b], 'C04': [c04], 'C05': [c05], 'C06': [c06], 'C07': [c07], 'C08': [c08, csphere], 'C09': [c09], 'C10': [c10],
       'C11': [c11], 'C12': [c12], 'C13': [c13], 'C14': [c14s, c14g], 'C15': [c15], 'C16': [c16], 'C17': [c17], 'C18': [c18], 'C19': [c19, cylm], 'C20': [c20, c20list],
       'C21': [c21], 'C22': [c22], 'C23': [c23], 'C24': [c24], 'C25': [c25], 'C26': [c26], 'C27': [c27], 'C28': [c28], 'C29': [c29]}
RULE = {p: 'sampled inputs replayed on the real code (compiled from /repo), every output compared with an independent oracle' for p in FOR}
RULE['C23'] = 'every parallel operation under ThreadSanitizer with an instrumented OpenMP runtime (4 threads), and results compared across 1, 2, 3 and 8 threads'
RULE['C24'] = 'every public operation under AddressSanitizer, UndefinedBehaviorSanitizer and library assertions, with transform buffers, plans and configurations counted'
