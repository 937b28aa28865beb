"""Independent reference computations (no redrock numerics are used here)."""
import os
import numpy as np
from . import core

C_KMS = 299792.458
SERIES = dict(Calura12=[(1215.67, 0.0023, 3.64), (1025.72, 0.0023 / 5.2615, 3.64), (972.537, 0.0023 / 14.356, 3.64),
                        (949.7431, 0.0023 / 29.85984, 3.64), (937.8035, 0.0023 / 53.36202, 3.64)],
              Kamble20=[(1215.67, 0.00554, 3.182)])
LAF = np.loadtxt(os.path.join(core.VERIF, 'data', 'LAFcoeff.txt'))
DLA = np.loadtxt(os.path.join(core.VERIF, 'data', 'DLAcoeff.txt'))
LL = 911.8


def tau(model, z, lo):
    """Optical depth at one redshift, observed wavelengths lo: the published formulas."""
    t = np.zeros(len(lo))
    if model in SERIES:
        for line, A, B in SERIES[model]:
            w = lo / (1 + z) < line
            t[w] += A * (lo[w] / line) ** B
        return t
    if model != 'Inoue14':
        return t
    for (_, lj, a1, a2, a3), (_, _, d1, d2) in zip(LAF, DLA):
        on = lo / (1 + z) < lj
        if not on.any():
            continue
        r = lo / lj
        t += on * np.select([r < 2.2, r < 5.7], [a1 * r ** 1.2, a2 * r ** 3.7], a3 * r ** 5.5)      # eq 21
        t += on * np.where(r < 3.0, d1 * r ** 2.0, d2 * r ** 3.0)                                   # eq 22
    on = lo < LL * (1 + z)
    if not on.any():
        return t
    r = lo / LL
    p = 1.0 + z
    if z < 1.2:                                                                                     # eq 25
        laf = 0.3248 * (r ** 1.2 - p ** -0.9 * r ** 2.1)
    elif z < 4.7:                                                                                   # eq 26
        laf = np.where(r >= 2.2, 2.545e-2 * (p ** 1.6 * r ** 2.1 - r ** 3.7),
                       2.545e-2 * p ** 1.6 * r ** 2.1 + 0.3248 * r ** 1.2 - 0.2496 * r ** 2.1)
    else:                                                                                           # eq 27
        laf = np.select([r >= 5.7, r >= 2.2], [5.221e-4 * (p ** 3.4 * r ** 2.1 - r ** 5.5),
                        5.221e-4 * p ** 3.4 * r ** 2.1 + 0.2182 * r ** 2.1 - 2.545e-2 * r ** 3.7],
                        5.221e-4 * p ** 3.4 * r ** 2.1 + 0.3248 * r ** 1.2 - 3.140e-2 * r ** 2.1)
    if z < 2.0:                                                                                     # eq 28
        dla = 0.2113 * p ** 2 - 0.07661 * p ** 2.3 * r ** -0.3 - 0.1347 * r ** 2
    else:                                                                                           # eq 29
        dla = np.where(r >= 3.0, 0.04696 * p ** 3 - 0.01779 * p ** 3.3 * r ** -0.3 - 0.02916 * r ** 3,
                       0.6340 + 0.04696 * p ** 3 - 0.01779 * p ** 3.3 * r ** -0.3 - 0.1347 * r ** 2 - 0.2905 * r ** -0.3)
    return t + on * (laf + dla)


def cumulative(x, y, t):
    """Integral of the piecewise-linear function through (x, y) from x[0] to each t."""
    seg = np.concatenate([[0.], np.cumsum(0.5 * (y[1:] + y[:-1]) * np.diff(x))])
    k = np.clip(np.searchsorted(x, t, side='right') - 1, 0, len(x) - 2)
    d = t - x[k]
    slope = (y[k + 1] - y[k]) / (x[k + 1] - x[k])
    return seg[k] + d * (y[k] + 0.5 * slope * d)


def edges_of(w):
    w = np.asarray(w, float)
    e = np.empty(len(w) + 1)
    e[1:-1] = 0.5 * (w[1:] + w[:-1])
    e[0] = w[0] - 0.5 * (w[1] - w[0])
    e[-1] = w[-1] + 0.5 * (w[-1] - w[-2])
    return e


def rebin(x, y2, wave):
    """(nwave, nbasis) bin averages of the piecewise-linear basis vectors."""
    e = edges_of(wave)
    return np.array([np.diff(cumulative(x, y, e)) / np.diff(e) for y in np.atleast_2d(y2)]).T


def Rmat(s):
    R = s.R if hasattr(s, 'R') else s._Rcsr
    return R.toarray() if R is not None else np.eye(len(s.wave))


def basis_on(template, wave, z):
    """Template basis vectors at redshift z, absorbed, on a wavelength grid."""
    b = rebin(np.asarray(template.wave) * (1 + z), template.flux, wave)
    return b * np.exp(-tau(template.igm_model, z, np.asarray(wave, float)))[:, None]


def design(spectra, template, z, Rs=None):
    return np.vstack([(Rs[i] if Rs is not None else Rmat(s)) @ basis_on(template, s.wave, z) for i, s in enumerate(spectra)])


def stack(spectra):
    return (np.concatenate([np.asarray(s.ivar, float) for s in spectra]),
            np.concatenate([np.asarray(s.flux, float) for s in spectra]))


def chi2_of(T, w, f, c):
    r = np.where(w > 0, f - T @ c, 0.)
    return float(np.sum(w * r * r))


def optimum(T, w, f, method='PCA', lower=None, P=None):
    """Minimum over c of sum w (f - T c)^2 + c' P c; returns (coefficients, chi2 alone, conditioning)."""
    sw = np.sqrt(w)
    A = T * sw[:, None]
    b = np.where(w > 0, f, 0.) * sw
    if P is not None:
        d = np.sqrt(np.diag(P))
        A = np.vstack([A, np.diag(d)])
        b = np.concatenate([b, np.zeros(len(d))])
    sv = np.linalg.svd(A, compute_uv=False)
    cond = sv[0] / sv[-1] if sv[-1] > 0 and len(b) >= A.shape[1] else np.inf
    n = A.shape[1]
    if method == 'PCA':
        c = np.linalg.lstsq(A, b, rcond=None)[0]
    else:
        c = bounded(A, b, [True] * n if lower is None else lower)
    return c, chi2_of(T, w, f, c), cond


def bounded(A, b, nonneg):
    """Least squares with some coefficients >= 0 by enumeration of the active sets (exact, small n)."""
    import itertools
    idx = [i for i, q in enumerate(nonneg) if q]
    n = A.shape[1]
    best = None
    for k in range(len(idx) + 1):
        for off in itertools.combinations(idx, k):
            on = [i for i in range(n) if i not in off]
            c = np.zeros(n)
            if on:
                c[on] = np.linalg.lstsq(A[:, on], b, rcond=None)[0]
            if any(c[i] < -1e-12 * (1 + abs(c).max()) for i in idx):
                continue
            r = float(np.sum((A @ c - b) ** 2))
            if best is None or r < best[0] * (1 - 1e-13) - 1e-300:
                best = (r, c)
    return best[1]


def oii_penalty(template, c):
    if template.template_type != 'GALAXY' or template.method != 'PCA':
        return 0.0
    w = np.asarray(template.wave)
    sel = (w >= 3724) & (w <= 3733)
    s = float(np.sum(np.asarray(c) @ np.asarray(template.flux)[:, sel]))
    return -s if s < 0 else 0.0


def dvlimit(spectype):
    return 100. if spectype == 'STAR' else 1000.


class ZW:
    """The documented warning bits of the output files."""
    SKY, LITTLE_COVERAGE, SMALL_DELTA_CHI2, NEGATIVE_MODEL, MANY_OUTLIERS, Z_FITLIMIT, NEGATIVE_EMISSION, UNPLUGGED, BAD_TARGET, NODATA, BAD_MINFIT, POORDATA = [1 << i for i in range(12)]
