"""Deterministic synthetic templates, spectra and targets (no RNG)."""
import numpy as np
import scipy.sparse
from . import core


def noise(n, key):
    """Deterministic pseudo-random values in [-1,1] (LCG, no global RNG)."""
    s = (hash_int(key) % 2147483646) + 1
    out = np.empty(n)
    for i in range(n):
        s = (s * 48271) % 2147483647
        out[i] = 2.0 * s / 2147483647 - 1
    return out


def hash_int(key):
    import hashlib
    return int(hashlib.blake2b(repr(key).encode(), digest_size=8).hexdigest(), 16)


def mk_R(n, width=1, kind='gauss', sigma=1.0):
    """Resolution matrix (dia) with 2*width+1 diagonals, rows summing to ~1."""
    off = np.arange(width, -width - 1, -1)
    y = np.exp(-off ** 2 / 2.0 / sigma ** 2)
    y /= y.sum()
    data = np.repeat(y[:, None], n, axis=1)
    R = scipy.sparse.dia_matrix((data, off), shape=(n, n))
    # renormalise the edge rows so that no pixel is rejected for poor resolution
    rs = np.asarray(R.sum(axis=1))[:, 0]
    A = R.tocsr()
    A = scipy.sparse.diags(1 / rs) @ A
    d = np.zeros((len(off), n))
    A = A.tocsr()
    for k, o in enumerate(off):
        diag = A.diagonal(o)
        if o >= 0:
            d[k, o:o + len(diag)] = diag
        else:
            d[k, :len(diag)] = diag
    return scipy.sparse.dia_matrix((d, off), shape=(n, n))


BANDS = dict(b=(4000., 20., 14), r=(4270., 24., 12), z=(4560., 30., 10), n=(4820., 36., 9))


def band_wave(band, shift=0.):
    w0, dw, n = BANDS[band]
    return w0 + shift + dw * np.arange(n)


def mk_template(spectype='GALAXY', subtype='', nz=7, zmin=0.0, zmax=0.3, nbasis=2, method='PCA', igm='None',
                wmin=2500., wmax=5600., dw=12., key=0, redshifts=None, version='1.0'):
    from redrock.templates import Template
    wave = np.arange(wmin, wmax + dw / 2, dw)
    x = (wave - wmin) / (wmax - wmin)
    flux = np.zeros((nbasis, len(wave)))
    ph = (hash_int((spectype, subtype, key)) % 97) / 97.
    for i in range(nbasis):
        line = 3800. + 173. * i + 120. * ph
        flux[i] = 1.0 / (1 + i) + 0.3 * np.sin(2 * np.pi * ((2 + i) * x + ph)) + 2.5 * np.exp(-(wave - line) ** 2 / (2 * 40. ** 2))
        if i > 0:
            flux[i] -= 0.8 * np.exp(-(wave - line - 300.) ** 2 / (2 * 60. ** 2))
    if method == 'NMF':
        flux = np.abs(flux)
    if redshifts is None:
        redshifts = np.linspace(zmin, zmax, nz)
    return Template(spectype=spectype, subtype=subtype, redshifts=np.array(redshifts, dtype=float), wave=wave, flux=flux,
                    method=method, igm_model=igm, version=version)


def mk_target(tid, bands='br', nspec=1, mask='none', width=1, key=0, z=0.13, coadd=False, meta=None, csr=False, amp=1.0,
              use_band=True, dtype=np.float64, rvary=False):
    """bands: string of band letters; nspec: spectra per band (int or per-band list)."""
    from redrock.targets import Spectrum, Target
    spectra = []
    for ib, b in enumerate(bands):
        w = band_wave(b)
        k = nspec[ib] if isinstance(nspec, (list, tuple)) else nspec
        for e in range(k):
            line = 3800. * (1 + z)
            f = amp * (2 + 5 * np.exp(-(w - line) ** 2 / (2 * 45. ** 2)) + 0.4 * np.sin(w / 150. + (hash_int((tid, key)) % 7))) \
                + 0.5 * noise(len(w), (tid, key, b, e))
            iv = 2.0 + noise(len(w), (tid, key, b, e, 'iv'))
            if mask == 'all':
                iv[:] = 0
            elif mask == 'some':
                iv[(np.arange(len(w)) + e) % 3 == 0] = 0
            elif mask == 'band0' and ib == 0:
                iv[:] = 0
            elif mask == 'few':
                iv[2:] = 0
            f = f.astype(dtype); iv = iv.astype(dtype)
            R = mk_R(len(w), width, sigma=1.0 if not rvary else 0.5 + 0.4 * ((ib + tid) % 4))
            spectra.append(Spectrum(w.copy(), f, iv, R, R.tocsr() if csr else None, band=b if use_band else None))
    t = Target(tid, spectra, coadd=coadd, meta=meta)
    return t


def zfit_rows(tab, cols=None):
    """Canonical comparable form of a zfind table."""
    return {c: np.asarray(tab[c]) for c in (cols or tab.colnames)}


FLOATTOL = dict(rtol=1e-7, atol=1e-9)


def compare_tables(a, b, what, skip=(), rtol=1e-7, atol=1e-8):
    if list(a.colnames) != list(b.colnames):
        raise core.Violation(f'{what}:columns', f'columns {a.colnames} vs {b.colnames}')
    if len(a) != len(b):
        raise core.Violation(f'{what}:nrows', f'{len(a)} rows vs {len(b)}')
    for c in a.colnames:
        if c in skip:
            continue
        x, y = np.asarray(a[c]), np.asarray(b[c])
        if x.dtype.kind in 'SU' or y.dtype.kind in 'SU':
            ok = x.astype(str).tolist() == y.astype(str).tolist()
        else:
            ok = core.close(x, y, rtol, atol)
        if not ok:
            raise core.Violation(f'{what}:{c}', f'column {c} differs:\n{x}\nvs\n{y}')


def compare_scan(a, b, what, rtol=1e-7, atol=1e-8):
    ka, kb = sorted(map(str, a)), sorted(map(str, b))
    if ka != kb:
        raise core.Violation(f'{what}:targets', f'targets {ka} vs {kb}')
    for t in a:
        if sorted(a[t]) != sorted(b[t]):
            raise core.Violation(f'{what}:types', f'target {t}: types {sorted(a[t])} vs {sorted(b[t])}')
        for ft in a[t]:
            if ft == 'meta':
                continue
            for k in ('redshifts', 'zchi2', 'penalty', 'zcoeff'):
                if k not in a[t][ft] or k not in b[t][ft]:
                    raise core.Violation(f'{what}:missing-{k}', f'target {t} type {ft}: {k} missing')
                if not core.close(a[t][ft][k], b[t][ft][k], rtol, atol):
                    raise core.Violation(f'{what}:{k}', f'target {t} type {ft}: {k} differs\n{a[t][ft][k]}\nvs\n{b[t][ft][k]}')


def quiet_fit(fn):
    """Run fn with python-level stdout discarded."""
    import io, contextlib
    with contextlib.redirect_stdout(io.StringIO()):
        return fn()


def mk_archetypes(path, rrtype='GALAXY', n=4, key=0, wmin=2300., dw=14., nw=260, loglam=False, subtypes=None, version='v1', flux=None):
    """Write a synthetic archetype file; returns its path."""
    from astropy.io import fits
    if loglam:
        l0 = np.log10(wmin)
        dl = (np.log10(wmin + dw * nw) - l0) / nw
        wave = 10 ** (l0 + dl * np.arange(nw))
        crval, cdelt = l0, dl
    else:
        wave = wmin + dw * np.arange(nw)
        crval, cdelt = wmin, dw
    x = (wave - wave[0]) / (wave[-1] - wave[0])
    if flux is None:
        flux = np.zeros((n, nw))
        ph = (hash_int((rrtype, key)) % 89) / 89.
        for i in range(n):
            line = 3800. + 90. * (i - 1) + 60. * ph
            flux[i] = 1.5 + 0.4 * np.sin(2 * np.pi * ((1.5 + i) * x + ph)) + (2.0 + 0.5 * i) * np.exp(-(wave - line) ** 2 / (2 * (35. + 6 * i) ** 2)) \
                - 0.5 * (i % 2) * np.exp(-(wave - line - 260.) ** 2 / (2 * 70. ** 2))
    sub = subtypes if subtypes is not None else ['AB'[i % 2] for i in range(n)]
    hdu = fits.BinTableHDU.from_columns([fits.Column('ARCHETYPE', f'{nw}D', array=flux), fits.Column('SUBTYPE', f'{max([10] + [len(x) for x in sub])}A', array=np.array(sub))], name='ARCHETYPES')
    hdu.header['RRTYPE'] = rrtype
    hdu.header['VERSION'] = version
    hdu.header['CRVAL1'] = crval
    hdu.header['CDELT1'] = cdelt
    hdu.header['LOGLAM'] = loglam
    fits.HDUList([fits.PrimaryHDU(), hdu]).writeto(path, overwrite=True)
    return path
