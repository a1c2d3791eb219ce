"""Reference model of the three-point estimators, in plain numpy.

The statistics are evaluated bin pair by bin pair from the definitions; the
sum over azimuthal orders is explicit, with the half of the orders related
by (m1, m2, M) -> -(m1, m2, M) obtained by conjugation as the estimator
prescribes (the two agree up to the asymmetric Nyquist planes).
"""
from functools import lru_cache

import numpy as np
from scipy.interpolate import CubicSpline
from scipy.special import spherical_jn
from sympy import S
from sympy.physics.wigner import wigner_3j

import refmodel as rm


@lru_cache(maxsize=None)
def w3j(a, b, c, d, e, f):
    return float(wigner_3j(S(a), S(b), S(c), S(d), S(e), S(f)))


def coupling(l1, l2, L, m1, m2, M):
    if abs(l1 - l2) > L or L > l1 + l2 or m1 + m2 + M != 0:
        return 0.
    return (2*l1 + 1)*(2*l2 + 1)*(2*L + 1) * w3j(l1, l2, L, 0, 0, 0) \
        * w3j(l1, l2, L, m1, m2, M)


def orders(l1, l2, L, box):
    """(m1, m2, M, coupling, mirrored?) of the terms to be computed."""
    out, seen = [], set()
    for m1 in range(-l1, l1 + 1):
        for m2 in range(-l2, l2 + 1):
            for M in ([0] if box else range(-L, L + 1)):
                if (-m1, -m2, -M) in seen:
                    continue
                c = coupling(l1, l2, L, m1, m2, M)
                if abs(c) < 1e-10:
                    continue
                seen.add((m1, m2, M))
                out.append((m1, m2, M, c, (m1, m2, M) != (0, 0, 0)))
    return out


def pairs(form, n, idx, same):
    """Bin pairs of a form, in the documented order."""
    if form == 'diag':
        return [(i, i) for i in range(n)]
    if form == 'off-diag':
        if idx >= 0:
            return [(i, i + idx) for i in range(n - idx)]
        return [(i - idx, i) for i in range(n + idx)]
    if form == 'row':
        return [(idx, i) for i in range(n)]
    if same:      # equal degrees: upper triangle only
        return [(i, j) for i in range(n) for j in range(i, n)]
    return [(i, j) for i in range(n) for j in range(n)]


class Bessel:
    """j_l, exact or as interpolated from samples 0.05 apart."""

    def __init__(self, ell, mimic=False):
        self.ell = ell
        self.spline = None
        if mimic:
            x = np.arange(0, 1000 + 0.15, 0.05)
            self.spline = CubicSpline(x, spherical_jn(ell, x),
                                      bc_type='natural')

    def __call__(self, x):
        x = np.asarray(x, float)
        out = spherical_jn(self.ell, x)
        if self.spline is not None:
            out = np.where(x < 1000, self.spline(np.minimum(x, 1000)), out)
        return out


@lru_cache(maxsize=None)
def bessel(ell, mimic):
    return Bessel(ell, mimic)


class Fields:
    """Fields entering a three-point estimator.

    kind: 'box' (`data` positions only), 'survey', 'window'.
    """

    def __init__(self, mesh, kind, data=None, rand=None, wa=None):
        self.mesh, self.kind = mesh, kind
        self.wa = wa
        self.cache = {}
        if kind == 'box':
            self.pos = np.asarray(data, float)
            n = len(self.pos)
            self.n = n
            f = mesh.fields(self.pos, np.ones(n))
            self.raw_k = mesh.fft(f)
            self.dn_k = mesh.fft([x - n/mesh.vol for x in f])
        else:
            self.data = data
            self.rand = rand
            self.alpha = 1. if kind == 'window' else rm.alpha_of(data, rand)

    def _get(self, key, make):
        if key not in self.cache:
            self.cache[key] = make()
        return self.cache[key]

    def dn(self, ell, m):
        """Fourier-space (fluctuation) field with y_LM weights."""
        if self.kind == 'box':
            return self.dn_k
        return self._get(('dn', ell, m), lambda: self.mesh.fft(
            rm.delta_lm(self.mesh, self.data, self.rand, self.alpha,
                        ell, m)))

    def quad(self, ell, m):
        if self.kind == 'box':
            return self.raw_k
        return self._get(('nn', ell, m), lambda: self.mesh.fft(
            rm.quad_lm(self.mesh, self.data, self.rand, self.alpha,
                       ell, m)))

    def g(self, ell, m):
        """Compensated configuration-space field of the third leg."""
        def make():
            mesh = self.mesh
            out = mesh.ifft(self.dn(ell, m) / mesh.window) / mesh.vol
            if self.wa is not None:
                i, j = self.wa
                r = mesh.r
                fac = np.where(r < 1e-6, 0.,
                               np.where(r < 1e-6, 1., r)**(-i - j))
                out = out*np.where(r < 1e-6, 1., fac)
            return out
        return self._get(('g', ell, m), make)

    def sbar(self, ell, m):
        """Cubic shot-noise amplitude."""
        if self.kind == 'box':
            return complex(self.n)
        a = self.alpha

        def one(src):
            return np.sum(src.w**3 * rm.reduced_ylm(ell, m, src.los))
        if self.kind == 'window':
            return a**3*one(self.rand)
        return one(self.data) - a**3*one(self.rand)

    def xi3d(self, ell, m):
        """Shot-noise-subtracted cross 'correlation' of dn_LM and N_00."""
        def make():
            mesh = self.mesh
            pk, sn = rm.twopt_modes(mesh, self.dn(ell, m), self.quad(0, 0),
                                    self.sbar(ell, m))
            return mesh.ifft((pk - sn) / mesh.vol)
        return self._get(('xi', ell, m), make)


def _mirror(x, factor):
    return x + factor*np.conj(x)


def bispec(fields, degrees, edges, form, idx):
    """Raw bispectrum, shot noise and coordinates; Bessel-exact and mimic."""
    mesh = fields.mesh
    l1, l2, L = degrees
    box = fields.kind == 'box'
    n = len(edges) - 1
    masks, counts, keff = rm.bin_modes(mesh.k, edges, rm_centres(edges))
    pp = pairs(form, n, idx, l1 == l2)
    need_a = sorted({i for i, _ in pp})
    need_b = sorted({j for _, j in pp})
    raw = np.zeros(len(pp), complex)
    mag = np.zeros(len(pp))
    shot = {False: np.zeros(len(pp), complex),
            True: np.zeros(len(pp), complex)}
    smag = np.zeros(len(pp))
    dn00 = fields.dn(0, 0)
    comp = dn00 / mesh.window

    def band(ell, m, bins):
        out = {}
        for b in bins:
            if counts[b]:
                f = np.where(masks[b], comp*mesh.ylm_k(ell, m), 0.)
                out[b] = mesh.ifft(f) / counts[b]
        return out
    cache = {}
    phase = 1j**(l1 + l2)
    for m1, m2, M, c, mirrored in orders(l1, l2, L, box):
        mir = (-1.)**L if mirrored else 0.
        mir3 = 1. if mirrored else 0.
        for key, bins in (((l1, m1, 'a'), need_a), ((l2, m2, 'b'), need_b)):
            if key not in cache:
                cache[key] = band(key[0], key[1], bins)
        fa, fb = cache[l1, m1, 'a'], cache[l2, m2, 'b']
        # the box field carries y_L0 = 1
        g = fields.g(0, 0) if box else fields.g(L, M)
        sbar = fields.sbar(L, M)
        dn_lm = (0, 0) if box else (L, M)
        xi = fields.xi3d(*dn_lm)
        ya, yb = mesh.ylm_r(l1, m1), mesh.ylm_r(l2, m2)
        leg_a = leg_b = None
        pk, sn = rm.twopt_modes(mesh, dn00, fields.quad(*dn_lm), sbar)
        if l2 == 0:
            leg_a = rm.binned(masks, (pk - sn)*mesh.ylm_k(l1, m1))
        if l1 == 0:
            leg_b = rm.binned(masks, (pk - sn)*mesh.ylm_k(l2, m2))
        jj = {}
        for t, (a, b) in enumerate(pp):
            if not (counts[a] and counts[b]):
                continue
            prod = fa[a]*fb[b]*g
            raw[t] += c*mesh.vol_cell*_mirror(prod.sum(), mir)
            mag[t] += abs(c)*mesh.vol_cell*np.abs(prod).sum()
            s = 0.
            if l1 == 0 and l2 == 0:
                s = s + c*sbar
            if leg_a is not None:
                s = s + _mirror(c*leg_a[a], mir)
            if leg_b is not None:
                s = s + _mirror(c*leg_b[b], mir)
            for mimic in (False, True):
                for side, ell, bb in ((0, l1, a), (1, l2, b)):
                    if (side, bb, mimic) not in jj:
                        jj[side, bb, mimic] = bessel(ell, mimic)(
                            keff[bb]*mesh.r)
                term = jj[0, a, mimic]*jj[1, b, mimic]*ya*yb*xi
                u = c*mesh.vol_cell*term.sum()
                shot[mimic][t] += s + phase*_mirror(u, mir3)
            smag[t] += abs(c)*(mesh.vol_cell*np.abs(term).sum()
                               + abs(sbar)) + abs(s)
    valid = np.array([bool(counts[a] and counts[b]) for a, b in pp])
    cen = rm_centres(edges)
    return dict(
        valid=valid, raw=raw, rawmag=mag, shot=shot[False],
        shotslack=np.abs(shot[False] - shot[True]), shotmag=smag,
        bin1=np.array([cen[a] for a, _ in pp]),
        bin2=np.array([cen[b] for _, b in pp]),
        eff1=np.array([keff[a] for a, _ in pp]),
        eff2=np.array([keff[b] for _, b in pp]),
        n1=np.array([counts[a] for a, _ in pp]),
        n2=np.array([counts[b] for _, b in pp]))


def rm_centres(edges):
    edges = np.asarray(edges)
    return (edges[1:] + edges[:-1]) / 2


def corrfunc(fields, degrees, edges, form, idx):
    """Raw three-point correlation function, shot noise and coordinates."""
    mesh = fields.mesh
    l1, l2, L = degrees
    box = fields.kind == 'box'
    n = len(edges) - 1
    cen = rm_centres(edges)
    masks, counts, reff = rm.bin_modes(mesh.r, edges, cen)
    pp = pairs(form, n, idx, l1 == l2)
    need_a = sorted({i for i, _ in pp})
    need_b = sorted({j for _, j in pp})
    raw = {k: np.zeros(len(pp), complex) for k in (False, True)}
    mag = np.zeros(len(pp))
    shot = np.zeros(len(pp), complex)
    smag = np.zeros(len(pp))
    comp = fields.dn(0, 0) / mesh.window / mesh.vol
    cache = {}

    def shells(ell, m, bins, mimic):
        f = comp*mesh.ylm_k(ell, m)
        return {b: mesh.ifft(f*bessel(ell, mimic)(mesh.k*reff[b]))
                for b in bins}
    phase = 1j**(l1 + l2)
    parity = (-1.)**(l1 + l2)
    for m1, m2, M, c, mirrored in orders(l1, l2, L, box):
        mir = (-1.)**L if mirrored else 0.
        mir3 = 1. if mirrored else 0.
        lm = (0, 0) if box else (L, M)
        g = fields.g(*lm)
        for mimic in (False, True):
            for side, ell, m, bins in ((0, l1, m1, need_a),
                                       (1, l2, m2, need_b)):
                if (side, m, mimic) not in cache:
                    cache[side, m, mimic] = shells(ell, m, bins, mimic)
            fa, fb = cache[0, m1, mimic], cache[1, m2, mimic]
            for t, (a, b) in enumerate(pp):
                prod = fa[a]*fb[b]*g
                raw[mimic][t] += phase*c*mesh.vol_cell*_mirror(
                    prod.sum(), mir)
                if not mimic:
                    mag[t] += abs(c)*mesh.vol_cell*np.abs(prod).sum()
        vals = fields.xi3d(*lm)*mesh.ylm_r(l1, m1)*mesh.ylm_r(l2, m2)
        for t, (a, b) in enumerate(pp):
            if a == b and counts[a]:
                x = parity*vals[masks[a]].mean() / (mesh.vol_cell*counts[a])
                shot[t] += c*_mirror(x, mir3)
                smag[t] += abs(c)*np.abs(vals[masks[a]]).mean() / (
                    mesh.vol_cell*counts[a])
    return dict(
        valid=np.ones(len(pp), bool), raw=raw[False], rawmag=mag,
        rawslack=np.abs(raw[False] - raw[True]), shot=shot, shotmag=smag,
        bin1=np.array([cen[a] for a, _ in pp]),
        bin2=np.array([cen[b] for _, b in pp]),
        eff1=np.array([reff[a] for a, _ in pp]),
        eff2=np.array([reff[b] for _, b in pp]),
        n1=np.array([counts[a] for a, _ in pp]),
        n2=np.array([counts[b] for _, b in pp]))
