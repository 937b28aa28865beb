"""C12: coaddition and cosmic rejection."""
import itertools
import numpy as np
import scipy.sparse
from mc import core


def resmat(n, kind):
    """Small banded resolution matrices whose rows sum to one, different along the rows."""
    A = np.zeros((n, n))
    for i in range(n):
        a = {0: 0.0, 1: 0.1 + 0.05 * (i % 3), 2: 0.3 - 0.04 * (i % 4)}[kind]
        b = {0: 0.0, 1: 0.2, 2: 0.05 + 0.03 * (i % 2)}[kind]
        A[i, i] = 1.0
        if i > 0:
            A[i, i - 1] = a
            A[i, i] -= a
        if i < n - 1:
            A[i, i + 1] = b
            A[i, i] -= b
    off = [1, 0, -1]
    d = np.zeros((3, n))
    for k, o in enumerate(off):
        g = np.diagonal(A, o)
        if o >= 0:
            d[k, o:o + len(g)] = g
        else:
            d[k, :len(g)] = g
    # values of the format outside of the matrix are meaningless
    d[0, 0] = 123.
    d[2, n - 1] = -55.
    return scipy.sparse.dia_matrix((d, off), shape=(n, n)), A


_M = {}


def R(n, kind):
    if (n, kind) not in _M:
        _M[n, kind] = resmat(n, kind)
    return _M[n, kind]


def spec(wave, f, w, kind, band):
    from redrock.targets import Spectrum
    return Spectrum(wave, np.array(f, float), np.array(w, float), R(len(wave), kind)[0].copy(), None, band=band)


def coadd(specs, nsig=0., cache=False, later=False):
    from redrock.targets import Target
    if later:
        t = Target(5, specs)
        t.compute_coadd(cache, cosmics_nsig=nsig)
    else:
        t = Target(5, specs, coadd=True, cosmics_nsig=nsig)
    return t


def check_one(sp, F, W, A, tag):
    """One coadded spectrum against the plain weighted mean."""
    n = F.shape[1]
    w = W.sum(axis=0)
    if sp.ivar.shape != (n,) or not np.allclose(sp.ivar, w, rtol=1e-12, atol=0):
        raise core.Violation('weight', f'{tag}: weight {sp.ivar}, expected {w}')
    ok = w > 0
    f = (W * F).sum(axis=0)[ok] / w[ok]
    if not np.allclose(sp.flux[ok], f, rtol=1e-10, atol=1e-12 * np.abs(F).max()):
        raise core.Violation('flux', f'{tag}: flux {sp.flux[ok]}, expected {f}')
    if not np.all(np.isfinite(sp.flux)):
        raise core.Violation('finite', f'{tag}: flux {sp.flux}')
    r = sum(W[k][:, None] * A[k] for k in range(len(F)))[ok] / w[ok][:, None]
    for what, got in (('R', sp.R.toarray()), ('Rcsr', sp.Rcsr.toarray())):
        if not np.allclose(got[ok], r, rtol=0, atol=1e-10):
            raise core.Violation('resolution', f'{tag}: {what} {got[ok].tolist()}, expected {r.tolist()} for weights {W.tolist()}')


def run_mean(rec, c):
    n, ns = c['npix'], c['ns']
    wave = 4000. + 10 * np.arange(n)
    kinds = [(k + c['k0']) % 3 for k in range(ns)]
    A = [R(n, k)[1] for k in kinds]
    for cells in itertools.product(c['alpha'], repeat=n * ns - 1):
        cells = (tuple(c['first']),) + cells
        F = np.array([[cells[s * n + i][0] for i in range(n)] for s in range(ns)])
        W = np.array([[cells[s * n + i][1] for i in range(n)] for s in range(ns)]) * c.get('wscale', 1.0)
        F *= c.get('fscale', 1.0)
        with rec.case(dict(c, flux=F.tolist(), ivar=W.tolist())):
            specs = [spec(wave.copy(), F[s], W[s], kinds[s], 'b') for s in range(ns)]
            t = coadd(specs, c['nsig'], cache=c['k0'] == 1, later=c['k0'] == 2)
            if len(t.spectra) != 1 or not np.array_equal(t.spectra[0].wave, wave) or t.spectra[0].band != 'b':
                raise core.Violation('spectra', 'coadd of one grid is not one spectrum on that grid')
            for s in range(ns):
                if not (np.array_equal(specs[s].flux, F[s]) and np.array_equal(specs[s].ivar, W[s])):
                    raise core.Violation('input-changed', f'spectrum {s} modified')
            if c['nsig'] == 0:
                check_one(t.spectra[0], F, W, A, 'mean')
            else:
                check_cosmic(rec, t.spectra[0], F, W, A, c['nsig'])
            rec.ev()
            if ns > 1 and np.any((W > 0).sum(axis=0) > 1):
                rec.nontrivial(n, ns, c['nsig'], cells)
        if rec.viol:
            return


def gradients(F, W):
    """Pixel-to-pixel gradients, interpolated over masked pixels, and their variances."""
    ns, n = F.shape
    G, V = np.zeros((ns, n)), np.full((ns, n), np.inf)
    x = np.arange(n)
    for s in range(ns):
        g = W[s] > 0
        if not g.any():
            continue
        f, w = np.interp(x, x[g], F[s][g]), np.interp(x, x[g], W[s][g])
        v = 1 / w
        G[s, 1:] = f[1:] - f[:-1]
        V[s, 0] = v[0]
        V[s, 1:] = v[1:] + v[:-1]
    return G, V


def check_cosmic(rec, sp, F, W, A, nsig):
    ns, n = F.shape
    live = (W > 0).any(axis=1)
    kills = [[()] for _ in range(n)]
    if live.sum() > 1:
        G, V = gradients(F, W)
        iv = 1 / V
        mean = (iv * G).sum(axis=0) / iv.sum(axis=0)
        terms = iv * (G - mean) ** 2
        chi2 = terms.sum(axis=0) / (live.sum() - 1)
        for j in range(n):
            top = terms[:, j].max()
            who = [(k,) for k in range(ns) if terms[k, j] > top * (1 - 1e-9)]
            if chi2[j] > nsig ** 2 * (1 + 1e-9):
                kills[j] = who
                rec.count('rejected')
            elif chi2[j] > nsig ** 2 * (1 - 1e-9):
                kills[j] = who + [()]
    last = None
    # ties leave the choice of the rejected spectrum free
    W2 = W.copy()
    for j in range(n):
        opts = []
        for kk in kills[j]:
            w = W[:, j].copy()
            for k in kk:
                w[k] = 0
            opts.append(w)
        fit = [w for w in opts if abs(w.sum() - sp.ivar[j]) <= 1e-12 * (1 + w.sum()) and
               (w.sum() == 0 or abs((w * F[:, j]).sum() / w.sum() - sp.flux[j]) <= 1e-10 * (1 + abs(sp.flux[j])))]
        if not fit:
            raise core.Violation('cosmic', f'pixel {j}: weight {sp.ivar[j]} flux {sp.flux[j]}, expected rejection of one of {kills[j]}; flux {F[:, j]} weights {W[:, j]} all {F.tolist()} {W.tolist()}')
        W2[:, j] = fit[0]
        if len(fit) > 1 and len({tuple(x) for x in map(tuple, fit)}) > 1:
            last = j
    if last is None:
        check_one(sp, F, W2, A, 'cosmic')


def run_outlier(rec, c):
    """Every position, spectrum, amplitude and threshold of one outlier; identical spectra; all orders."""
    n = c['npix']
    wave = 4000. + 10 * np.arange(n)
    base = np.array([c['shape'][i % len(c['shape'])] for i in range(n)], float)
    for ns in c['ns']:
        for weights in itertools.product(c['weights'], repeat=ns):
            for mask in c['masks']:
                F = np.array([base] * ns)
                W = np.array([[0. if i in mask else weights[s] * (1 + 0.2 * (i % 2)) for i in range(n)] for s in range(ns)])
                kinds = [s % 3 for s in range(ns)]
                A = [R(n, k)[1] for k in kinds]
                for nsig in c['nsig']:
                    t = coadd([spec(wave, F[s], W[s], kinds[s], 'r') for s in range(ns)], nsig)
                    check_one(t.spectra[0], F, W, A, f'identical spectra, threshold {nsig}')
                    rec.ev()
                    if ns < 3 or max(weights) > 2 * min(weights):
                        continue
                    for k, p, amp in itertools.product(range(ns), range(1, n), c['amps']):
                        if p in mask or p == min(set(range(n)) - set(mask)):
                            continue
                        G = F.copy()
                        G[k, p] += amp * nsig / np.sqrt(min(weights))
                        t = coadd([spec(wave, G[s], W[s], kinds[s], 'r') for s in range(ns)], nsig)
                        sp = t.spectra[0]
                        tag = f'outlier in spectrum {k} at pixel {p} of {ns}, weights {weights}, mask {mask}, threshold {nsig}'
                        if abs(sp.ivar[p] - (W[:, p].sum() - W[k, p])) > 1e-9 or abs(sp.flux[p] - base[p]) > 1e-9 * (1 + abs(base[p])):
                            raise core.Violation('outlier', f'{tag}: weight {sp.ivar[p]} flux {sp.flux[p]}, others {base[p]}')
                        far = [i for i in range(n) if abs(i - p) > 1 + len(mask)]
                        if not np.allclose(sp.ivar[far], W[:, far].sum(axis=0)):
                            raise core.Violation('overmask', f'{tag}: weights {sp.ivar} of {W.sum(axis=0)}')
                        rec.ev()
                        rec.nontrivial('o', n, ns, weights, mask, nsig, k, p, amp)


def run_mix(rec, c):
    """Interleaved bands and grids, every order of the spectra: bands never mix, the order does not matter."""
    from redrock.targets import Spectrum
    items = []
    for b, m in enumerate(c['bands']):
        name, n = ('b', 4) if m == 'b' else ('r', 5) if m == 'r' else (None, 6 if m == 'x' else 7)
        items.append((m, name, 3600. + 400 * n + 8. * np.arange(n), np.array([(b * 3 + i * i) % 7 for i in range(n)], float),
                      np.array([(b + 2 * i) % 4 for i in range(n)], float), b % 3))
    groups = {}
    for it in items:
        groups.setdefault(it[0], []).append(it)
    for perm in itertools.permutations(items):
        t = coadd([spec(w.copy(), f, v, k, name) for m, name, w, f, v, k in perm], 0., later=c['later'])
        order = list(dict.fromkeys(m for m, *_ in perm))
        if len(t.spectra) != len(groups):
            raise core.Violation('groups', f'{len(t.spectra)} coadds of {len(groups)} grids')
        if list(t.bands) != [s.band for s in t.spectra]:
            raise core.Violation('bands', f'bands {t.bands} of spectra {[s.band for s in t.spectra]}')
        for m, sp in zip(order, t.spectra):
            g = groups[m]
            if sp.band != g[0][1] or not np.array_equal(sp.wave, g[0][2]):
                raise core.Violation('order', f'coadds {[s.band for s in t.spectra]} of {order}')
            check_one(sp, np.array([x[3] for x in g]), np.array([x[4] for x in g]), [R(len(sp.wave), x[5])[1] for x in g], f'group {m}')
        rec.ev()
        rec.nontrivial('x', tuple(x[0] for x in perm), tuple(x[5] for x in perm))
        # coadding again changes nothing
        b4 = [(s.flux.copy(), s.ivar.copy()) for s in t.spectra]
        t.compute_coadd()
        for (f, v), s in zip(b4, t.spectra):
            if not np.allclose(s.ivar, v) or not np.allclose(s.flux[v > 0], f[v > 0]):
                raise core.Violation('again', 'a second coadd changes the spectra')


def run_narrow(rec, c):
    """Resolution matrices stored with fewer columns than pixels (empty last column)."""
    n = c['n']
    wave = 5000. + 10 * np.arange(n)
    for ns in (1, 2, 3):
        for W in itertools.product(itertools.product((0., 1., 3.), repeat=n), repeat=ns) if ns < 3 else [((1.,) * n,) * 3]:
            W = np.array(W)
            F = np.array([[s + i * i for i in range(n)] for s in range(ns)], float)
            specs = []
            for s in range(ns):
                from redrock.targets import Spectrum
                r = scipy.sparse.dia_matrix((np.array([[1.] * (n - 1), [0.] * (n - 2) + [1.]]), [0, -1]), shape=(n, n))
                specs.append(Spectrum(wave, F[s], W[s].copy(), r, None, band='z'))
            A = [specs[0].R.toarray()] * ns
            check_one(coadd(specs).spectra[0], F, W, A, 'narrow')
            rec.ev()


def run_poor(rec, c):
    """Pixels whose resolution integral is poor are masked, and only those."""
    from redrock.targets import Spectrum
    n = c['n']
    wave = 5000. + 10 * np.arange(n)
    for sums in itertools.product((1.0, 0.9901, 0.9899, 0.5), repeat=n):
        w = np.arange(1., n + 1)
        r = scipy.sparse.dia_matrix((np.array([sums]), [0]), shape=(n, n))
        s = Spectrum(wave, np.ones(n), w.copy(), r)
        e = np.where(np.array(sums) < 0.99, 0., w)
        if not np.array_equal(s.ivar, e):
            raise core.Violation('poor', f'row sums {sums}: weights {s.ivar}, expected {e}')
        rec.ev()


def dispatch(rec, c):
    with rec.case(c):
        dict(mean=run_mean, outlier=run_outlier, mix=run_mix, poor=run_poor, narrow=run_narrow)[c['k']](rec, c)


def make():
    return core.Check('C12', 'exploration',
        rule='every flux/weight assignment over a small alphabet for 1-3 spectra (with and without cosmic rejection), every position of one outlier, every order of mixed bands; non-trivial: at least two spectra with weight at one pixel',
        assumptions=['masked flux is finite', 'spectra of one band have resolution matrices with the same diagonals', 'an outlier is strong when its gradient exceeds several times the threshold, among at least three spectra of comparable weight, after the first unmasked pixel'],
        explanation='bounded-exhaustive enumeration of coadds against the defining weighted sums and the documented gradient test')


def run(ck):
    items = []
    T = ck.thorough
    A5 = [(0., 1.), (1., 1.), (5., 4.), (-2., 0.), (7., 2.)]
    A3 = [(1., 1.), (5., 4.), (7., 0.)]
    C4 = [(1., 1.), (1.5, 4.), (30., 1.), (-4., 0.)]
    C3 = [(1., 1.), (30., 4.), (-4., 0.)]
    for k0 in (0, 1, 2):
        for npix, ns, al in ((3, 1, A5), (4, 1, A5), (3, 2, A5), (4, 2, A3), (3, 3, A3) if T or k0 == 1 else (2, 3, A5)) + (((4, 3, A3), (5, 2, A3)) if T else ()):
            for f in al:
                items.append(dict(k='mean', npix=npix, ns=ns, alpha=al, first=f, nsig=0., k0=k0))
    for nsig in (3., 0.5, 8.) if T else (3.,):
        for npix, ns, al in ((4, 2, C4), (3, 3, C4 if T else C3)) + (((5, 2, C4),) if T else ()):
            for f in al:
                for g in range(1):
                    items.append(dict(k='mean', npix=npix, ns=ns, alpha=al, first=f, nsig=nsig, k0=(int(f[1]) + npix) % 3))
    # differences near the threshold, entirely masked spectra
    D4, D3 = [(1., 1.), (8., 1.), (3., 2.), (-4., 0.)], [(1., 1.), (8., 1.), (-4., 0.)]
    for npix, ns, al in ((2, 3, D4), (3, 2, D4)) + (((3, 3, D3), (2, 4, D3)) if T else ()):
        for f in al:
            items.append(dict(k='mean', npix=npix, ns=ns, alpha=al, first=f, nsig=3., k0=npix % 3))
    items.append(dict(k='mean', npix=4, ns=1, alpha=A5, first=A5[0], nsig=3., k0=0))
    for ws, fs in ((1e10, 1e-5), (1e-8, 1e4), (0.04, 5.), (1e3, 1.), (1e-3, 1.)):
        for nsig in (0., 3.):
            for npix, ns, al in ((3, 2, C4), (2, 3, C3)):
                for f in al:
                    items.append(dict(k='mean', npix=npix, ns=ns, alpha=al, first=f, nsig=nsig, k0=1, wscale=ws, fscale=fs))
    for shape in ((1., 1.), (0., 5., 2.), (10., -3., 100., 1.)):
        for npix in (4, 6) + ((9,) if T else ()):
            for ns in (1, 2, 3, 4):
                for m in ((), (2,), (0,), (npix - 1,), (1, 2)):
                    items.append(dict(k='outlier', npix=npix, shape=shape, ns=(ns,), weights=(1., 1.5), masks=(m,),
                                      nsig=(2., 4., 6.) if T else (2., 6.), amps=(20., -20., 500.) if T else (20., -500.)))
    for bands in ('bbrr', 'brbr', 'bxyb', 'xxyy', 'bbb', 'brxy') + (('brbrx', 'bbrrx', 'xxyyb') if T else ()):
        for later in (False, True):
            items.append(dict(k='mix', bands=bands, later=later))
    items.append(dict(k='narrow', n=3))
    for n in (4, 5):
        items.append(dict(k='poor', n=n))
    items.sort(key=lambda c: -np.max(c.get('ns', 0)))
    core.pmap(items, dispatch, ck, timeout=800)


def replay(rec, case):
    if case['k'] == 'mean' and 'flux' in case:
        c = dict(case)
        F, W = np.array(c['flux']), np.array(c['ivar'])
        n, ns = c['npix'], c['ns']
        kinds = [(k + c['k0']) % 3 for k in range(ns)]
        with rec.case(case):
            t = coadd([spec(4000. + 10 * np.arange(n), F[s], W[s], kinds[s], 'b') for s in range(ns)], c['nsig'], later=c['k0'] == 2)
            A = [R(n, k)[1] for k in kinds]
            if c['nsig']:
                check_cosmic(rec, t.spectra[0], F, W, A, c['nsig'])
            else:
                check_one(t.spectra[0], F, W, A, 'mean')
    else:
        dispatch(rec, case)
