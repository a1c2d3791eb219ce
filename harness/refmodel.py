"""Reference model of the estimators, in plain numpy.

Everything is evaluated from definitions: B-spline assignment, numpy FFT,
explicit sums over modes.  Nothing is shared with the code under test.
"""
import numpy as np
from scipy.special import sph_harm_y, spherical_jn

ORDER = {'ngp': 1, 'cic': 2, 'tsc': 3, 'pcs': 4}


def bspline(order, s):
    """Centred cardinal B-spline of the given order."""
    s = np.abs(s)
    if order == 1:
        return np.where(s <= 0.5, 1., 0.)
    if order == 2:
        return np.where(s < 1, 1 - s, 0.)
    if order == 3:
        return np.where(s < 0.5, 0.75 - s**2,
                        np.where(s < 1.5, 0.5 * (1.5 - s)**2, 0.))
    if order == 4:
        return np.where(
            s < 1, (4 - 6*s**2 + 3*s**3) / 6,
            np.where(s < 2, (2 - s)**3 / 6, 0.))
    raise ValueError(order)


class Mesh:
    """Grid geometry and transforms."""

    def __init__(self, boxsize, ngrid, assignment='tsc', interlace=False):
        self.L = np.asarray(boxsize, dtype=float)
        self.N = np.asarray(ngrid, dtype=int)
        self.order = ORDER[assignment]
        self.assignment = assignment
        self.interlace = bool(interlace)
        self.vol = float(np.prod(self.L))
        self.vol_cell = self.vol / float(np.prod(self.N))
        ints = [np.where(np.arange(n) < (n + 1)//2, np.arange(n),
                         np.arange(n) - n) for n in self.N]
        self.ijk = np.meshgrid(*ints, indexing='ij')
        self.kvec = np.stack([i * 2*np.pi/L
                              for i, L in zip(self.ijk, self.L)])
        self.rvec = np.stack([i * L/n for i, L, n in
                              zip(self.ijk, self.L, self.N)])
        self.k = np.sqrt(np.sum(self.kvec**2, axis=0))
        self.r = np.sqrt(np.sum(self.rvec**2, axis=0))
        win = 1.
        for i, n in zip(self.ijk, self.N):
            win = win * np.sinc(i / n)**self.order
        self.window = win
        self.alias = self._alias()
        self._ylm = {}

    def _alias(self):
        def poly(s2):
            if self.order == 1:
                return np.ones_like(s2)
            if self.order == 2:
                return 1 - 2/3*s2
            if self.order == 3:
                return 1 - s2 + 2/15*s2**2
            return 1 - 4/3*s2 + 2/5*s2**2 - 4/315*s2**3
        if self.interlace:
            u = np.sqrt(sum((np.pi*i/n)**2
                            for i, n in zip(self.ijk, self.N))) / 2
            return np.cos(u)**(2*self.order) * poly(np.sin(u)**2)
        out = 1.
        for i, n in zip(self.ijk, self.N):
            out = out * poly(np.sin(np.pi*i/n)**2)
        return out

    # -- assignment ----------------------------------------------------
    def assign(self, pos, w, shift=0.):
        """Density field of weights `w` at `pos` (shift in cell units)."""
        field = np.zeros(tuple(self.N), dtype=complex)
        pos = np.asarray(pos, dtype=float).reshape(-1, 3)
        w = np.asarray(w, dtype=complex)
        if len(pos) == 0:
            return field
        u = pos / self.L * self.N + shift
        p = self.order
        idx, wgt = [], []
        for ax in range(3):
            if p % 2:
                base = np.floor(u[:, ax] + 0.5).astype(int)
                offs = np.arange(-(p//2), p//2 + 1)
            else:
                base = np.floor(u[:, ax]).astype(int)
                offs = np.arange(-(p//2) + 1, p//2 + 1)
            nodes = base[:, None] + offs[None, :]
            if p == 1:
                wgt.append(np.ones(nodes.shape))
            else:
                wgt.append(bspline(p, u[:, ax][:, None] - nodes))
            idx.append(nodes % self.N[ax])
        for a in range(p):
            for b in range(p):
                for c in range(p):
                    np.add.at(
                        field, (idx[0][:, a], idx[1][:, b], idx[2][:, c]),
                        w * wgt[0][:, a] * wgt[1][:, b] * wgt[2][:, c])
        return field / self.vol_cell

    def fields(self, pos, w):
        """Mesh field(s): the plain one and, if interlaced, the shadow."""
        out = [self.assign(pos, w)]
        if self.interlace:
            out.append(self.assign(pos, w, shift=0.5))
        return out

    def fft(self, fields):
        f = np.fft.fftn(fields[0]) * self.vol_cell
        if len(fields) > 1:
            phase = np.exp(1j*np.pi*sum(
                i / n for i, n in zip(self.ijk, self.N)))
            f = (f + phase * np.fft.fftn(fields[1]) * self.vol_cell) / 2
        return f

    def ifft(self, f):
        """sum_k f(k) exp(+ikx), no volume factor."""
        return np.fft.ifftn(f) * np.prod(self.N)

    # -- spherical harmonics --------------------------------------------
    def ylm_k(self, ell, m):
        key = ('k', ell, m)
        if key not in self._ylm:
            self._ylm[key] = reduced_ylm(ell, m, np.moveaxis(
                self.kvec, 0, -1))
        return self._ylm[key]

    def ylm_r(self, ell, m):
        key = ('r', ell, m)
        if key not in self._ylm:
            self._ylm[key] = reduced_ylm(ell, m, np.moveaxis(
                self.rvec, 0, -1))
        return self._ylm[key]


def reduced_ylm(ell, m, vec):
    """sqrt(4 pi / (2 l + 1)) times the conjugate spherical harmonic."""
    vec = np.asarray(vec, dtype=float)
    if ell == 0 and m == 0:
        return np.ones(vec.shape[:-1], dtype=complex)
    norm = np.sqrt(np.sum(vec**2, axis=-1))
    zero = norm < 1e-9
    safe = np.where(zero, 1., norm)
    theta = np.arccos(np.clip(vec[..., 2] / safe, -1, 1))
    phi = np.arctan2(vec[..., 1], vec[..., 0])
    y = np.conj(sph_harm_y(ell, m, theta, phi)) \
        * np.sqrt(4*np.pi / (2*ell + 1))
    return np.where(zero, 0., y)


# -- two-point -------------------------------------------------------------

def twopt_modes(mesh, fa, fb, shot):
    win = mesh.window**2 if mesh.interlace else mesh.alias
    pk = fa * np.conj(fb) / win
    sn = shot * mesh.alias / win
    return pk, sn


def bin_modes(scale, edges, centres, quantum=None):
    """Masks of each bin, counts, mean scales."""
    masks, counts, means = [], [], []
    s = np.floor(scale / quantum) * quantum if quantum else scale
    for lo, hi, c in zip(edges[:-1], edges[1:], centres):
        m = (s >= lo) & (s < hi)
        n = int(m.sum())
        masks.append(m)
        counts.append(n)
        means.append(float(scale[m].mean()) if n else float(c))
    return masks, np.array(counts), np.array(means)


def binned(masks, values):
    return np.array([values[m].mean() if m.any() else 0. for m in masks],
                    dtype=complex)


def powspec_box(mesh, pos, ell, edges, centres):
    n = len(pos)
    f = mesh.fields(pos, np.ones(n))
    f = [x - n/mesh.vol for x in f]
    fk = mesh.fft(f)
    pk, sn = twopt_modes(mesh, fk, fk, n)
    y = (2*ell + 1) * mesh.ylm_k(ell, 0)
    masks, counts, keff = bin_modes(mesh.k, edges, centres)
    return dict(nmodes=counts, keff=keff, raw=binned(masks, pk*y),
                shot=binned(masks, sn*y))


def corrfunc_from_modes(mesh, pk, sn):
    return mesh.ifft((pk - sn) / mesh.vol)


def corrfunc_box(mesh, pos, ell, edges, centres):
    n = len(pos)
    f = [x - n/mesh.vol for x in mesh.fields(pos, np.ones(n))]
    fk = mesh.fft(f)
    pk, sn = twopt_modes(mesh, fk, fk, n)
    xi = corrfunc_from_modes(mesh, pk, sn) \
        * (2*ell + 1) * mesh.ylm_r(ell, 0)
    masks, counts, reff = bin_modes(mesh.r, edges, centres)
    return dict(npairs=counts, reff=reff, xi=binned(masks, xi))


class Source:
    """Catalogue as the estimators see it (positions as placed)."""

    def __init__(self, pos, ws, wc, nz, los):
        self.pos = np.asarray(pos, float)
        self.ws = np.asarray(ws, float)
        self.wc = np.asarray(wc, float)
        self.nz = np.asarray(nz, float)
        self.los = np.asarray(los, float)
        self.w = self.ws * self.wc
        self.wstotal = self.ws.sum()


def delta_lm(mesh, data, rand, alpha, ell, m):
    fd = mesh.fields(data.pos, data.w*reduced_ylm(ell, m, data.los)) \
        if data is not None else None
    fr = mesh.fields(rand.pos, rand.w*reduced_ylm(ell, m, rand.los))
    if data is None:
        return [alpha*x for x in fr]
    return [a - alpha*b for a, b in zip(fd, fr)]


def quad_lm(mesh, data, rand, alpha, ell, m):
    def one(src):
        return mesh.fields(
            src.pos, src.w**2*np.conj(reduced_ylm(ell, m, src.los)))
    fr = one(rand)
    if data is None:
        return [alpha**2*x for x in fr]
    return [a + alpha**2*b for a, b in zip(one(data), fr)]


def shot_amp(data, rand, alpha, ell, m):
    out = alpha**2*np.sum(rand.w**2*reduced_ylm(ell, m, rand.los))
    if data is not None:
        out = out + np.sum(data.w**2*reduced_ylm(ell, m, data.los))
    return out


def _twopt_survey(mesh, data, rand, ell, alpha):
    """Mode sums: list of (weighted over m) -> (pk, sn) for ylm index m1."""
    f00 = mesh.fft(delta_lm(mesh, data, rand, alpha, 0, 0))
    out = []
    for big_m in range(-ell, ell + 1):
        flm = mesh.fft(delta_lm(mesh, data, rand, alpha, ell, big_m))
        amp = shot_amp(data, rand, alpha, ell, big_m)
        # sum_m1 (2L+1) (-1)^m1 delta_{m1,-M}: addition theorem
        m1 = -big_m
        coef = (2*ell + 1) * (-1)**m1
        out.append((coef, m1) + twopt_modes(mesh, flm, f00, amp))
    return out


def alpha_of(data, rand):
    return data.wstotal / rand.wstotal


def powspec_survey(mesh, data, rand, ell, edges, centres):
    alpha = alpha_of(data, rand)
    masks, counts, keff = bin_modes(mesh.k, edges, centres)
    raw = shot = 0.
    for coef, m1, pk, sn in _twopt_survey(mesh, data, rand, ell, alpha):
        y = mesh.ylm_k(ell, m1)
        raw = raw + coef*binned(masks, pk*y)
        shot = shot + coef*binned(masks, sn*y)
    return dict(nmodes=counts, keff=keff, raw=raw, shot=shot)


def corrfunc_survey(mesh, data, rand, ell, edges, centres, alpha=None):
    if alpha is None:
        alpha = alpha_of(data, rand)
    masks, counts, reff = bin_modes(mesh.r, edges, centres)
    xi = 0.
    for coef, m1, pk, sn in _twopt_survey(mesh, data, rand, ell, alpha):
        x = corrfunc_from_modes(mesh, pk, sn)
        xi = xi + coef*binned(masks, x*mesh.ylm_r(ell, m1))
    return dict(npairs=counts, reff=reff, xi=xi)


# -- normalisation -----------------------------------------------------------

def norm_particles(src, alpha, order):
    """1/(alpha sum ws nz^(order-1) wc^order)."""
    return 1. / (alpha*np.sum(src.ws*src.nz**(order - 1)*src.wc**order))


def norm_mesh(mesh, src, alpha, order):
    f = mesh.assign(src.pos, src.w).real
    return 1. / (np.sum(f**order)*mesh.vol_cell) / alpha**order


def norm_meshes(mesh, data, rand, alpha):
    fd = mesh.assign(data.pos, data.w).real
    fr = mesh.assign(rand.pos, rand.w).real
    return 1. / (alpha*mesh.vol_cell*np.sum(fd*fr))
