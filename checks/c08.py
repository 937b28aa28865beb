"""C08: candidates are the true separated minima of the scan."""
import itertools
import numpy as np
from mc import core, fix, oracle

INF, NAN = np.inf, np.nan
BADMIN, FITLIM = None, None


def bits():
    ZW = oracle.ZW
    return ZW.BAD_MINFIT, ZW.Z_FITLIMIT


def dv(z, zref):
    return oracle.C_KMS * (z - zref) / (1 + zref)


def minima_of(x):
    """Indices not higher than their neighbours (NaN compares false)."""
    n = len(x)
    return [i for i in range(n) if (i == 0 or x[i] <= x[i - 1]) and (i == n - 1 or x[i] <= x[i + 1])]


def parabola(x, y):
    """Vertex of the parabola through three points, in centred coordinates."""
    h1, h2 = x[0] - x[1], x[2] - x[1]
    d1, d2 = y[0] - y[1], y[2] - y[1]
    a = (d1 / h1 - d2 / h2) / (h1 - h2)
    b = d1 / h1 - a * h1
    return a, b


GR = dict(
    coarse=[0.100, 0.115, 0.130, 0.145, 0.160],
    edgelo=[0.130, 0.145, 0.160, 0.175, 0.190],
    edgehi=[0.070, 0.085, 0.100, 0.115, 0.1302],
    limit=[0.1230, 0.1268, 0.1306, 0.1344, 0.1382],        # steps just above 1000 km/s
    below=[0.1244, 0.1281, 0.1318, 0.1355, 0.1392],        # steps just below 1000 km/s
    fine=[0.1270, 0.1282, 0.1294, 0.1306, 0.1318],
    irregular=[0.100, 0.1012, 0.1290, 0.1302, 0.1318],
    gap=[0.100, 0.1272, 0.1300, 0.1328, 0.200],
    zero=[-0.004, -0.001, 0.002, 0.005, 0.008],
    high=[2.40, 2.41, 2.4105, 2.42, 2.45],
    shoulderlo=[0.136, 0.140, 0.165, 0.20, 0.21],          # concave at the ends: the parabola has its vertex at the other side
    shoulderhi=[0.10, 0.11, 0.12, 0.13, 0.132])
STARGR = dict(
    star=[-0.0010, -0.0006, -0.0002, 0.0002, 0.0006],
    starlimit=[-0.00068, -0.00034, 0.0, 0.00034, 0.00068],
    starbelow=[-0.00066, -0.00033, 0.0, 0.00033, 0.00066],
    starfine=[-0.0002, -0.0001, 0.0, 0.0001, 0.0002])

LONGGR = dict(
    long=[round(0.1 + 0.04 * i / 12, 9) for i in range(13)],          # steps just below 1000 km/s
    longfine=[round(0.11 + 0.002 * i, 9) for i in range(13)],         # refined intervals about one limit wide
    longirr=[0.100, 0.1021, 0.1045, 0.1066, 0.1102, 0.1122, 0.1158, 0.1181, 0.1203, 0.1241, 0.1262],
    longhigh=[2.40, 2.4106, 2.4219, 2.4325, 2.4443, 2.455, 2.4668, 2.4776, 2.489])
LONGSTAR = dict(
    longstar=[round(-0.0012 + 0.0002 * i, 9) for i in range(13)])

_SET = {}


def setup(c):
    key = (c['type'], c['grid'], c['n'], c['npts'], c['mask'], c['nb'], c['method'], c.get('key', ''))
    if key not in _SET:
        g = list({**GR, **STARGR, **LONGGR, **LONGSTAR}[c['grid']])
        if c['n'] > len(g):
            g.append(g[-1] + (g[-1] - g[-2]))
        g = np.array(g[:c['n']])
        t = fix.mk_template(c['type'], nbasis=c['nb'], redshifts=g, method=c['method'], wmin=900. if g[0] > 1 else 2500., dw=7.,
                            igm='Inoue14' if g[0] > 1 else 'None', key='c08')
        tg = fix.mk_target(3, bands='br', key='c08' + c.get('key', ''), z=0.13 if abs(g[0]) < 0.09 and g[0] > 0.03 or 1 > g[0] >= 0.1 else 0.0, mask=c['mask'])
        _SET[key] = (g, t, tg, {})
    return _SET[key]


def refined(c, i):
    """Reference refined scan around scan point i."""
    g, t, tg, memo = setup(c)
    if i not in memo:
        nz = 15 if c['npts'] is None else c['npts']
        zz = np.linspace(g[max(0, i - 1)], g[min(len(g) - 1, i + 1)], nz)
        w, f = oracle.stack(tg.spectra)
        y, good = np.zeros(nz), True
        for k, z in enumerate(zz):
            if np.sum(w) == 0:
                y[k] = 9999999.0
                continue
            co, chi2, cond = oracle.optimum(oracle.design(tg.spectra, t, z), w, f, t.method)
            good &= cond < 1e6
            y[k] = chi2 + oracle.oii_penalty(t, co)
        memo[i] = (zz, y, good)
    return memo[i]


def check_row(c, r, i, g, tag):
    """One candidate against the refined scan around scan point i."""
    BADMIN, FITLIM = bits()
    zz, y, good = refined(c, i)
    gz, gy = np.asarray(r['zz']), np.asarray(r['zzchi2'])
    if gz.shape != zz.shape or not np.allclose(gz, zz, rtol=0, atol=1e-12):
        raise core.Violation('zz', f'{tag}: refined grid {gz} for scan point {i}, expected {zz}')
    if good and not np.allclose(gy, y, rtol=1e-7, atol=1e-7):
        raise core.Violation('zzchi2', f'{tag}: refined chi2 {gy}, expected {y}')
    z, zerr, chi2, zw = float(r['z']), float(r['zerr']), float(r['chi2']), int(r['zwarn'])
    k = min(max(int(np.argmin(gy)), 1), len(gz) - 2)
    a, b = parabola(gz[k - 1:k + 2], gy[k - 1:k + 2])
    span = gz[k + 1] - gz[k - 1]
    amp = np.ptp(gy[k - 1:k + 2])
    noise = 1e-13 * max(1., abs(gy[k])) * (1 + (1 + abs(gz[k])) / span) ** 2
    if not (zz[0] <= z <= zz[-1]):
        raise core.Violation('outside', f'{tag}: z={z} outside of the refined interval [{zz[0]}, {zz[-1]}]')
    edge = z < g[1] or z > g[-2]
    if edge and not zw & FITLIM:
        raise core.Violation('fitlimit-missing', f'{tag}: z={z} is beyond the second or last-but-one redshift of {g} and not flagged')
    if zw & ~(BADMIN | FITLIM):
        raise core.Violation('zwarn-bits', f'{tag}: zwarn {zw}')
    if abs(a) * span ** 2 < 1e3 * noise or amp < 1e3 * noise:
        return 'flat'
    x0 = gz[k] - b / (2 * a)
    y0 = gy[k] - b * b / (4 * a)
    lo, hi = gz[k - 1], gz[k + 1]
    eps = 1e-6 * span + noise / (abs(a) * span)
    sure_bad = a < 0 or x0 < lo - eps or x0 > hi + eps or y0 < -noise
    sure_ok = a > 0 and lo + eps < x0 < hi - eps and y0 > noise
    if sure_bad and not zw & BADMIN:
        raise core.Violation('badmin-missing', f'{tag}: parabola a={a} x0={x0} y0={y0} in [{lo}, {hi}] is not a minimum, zwarn={zw}')
    if sure_ok and zw & BADMIN:
        raise core.Violation('badmin-wrong', f'{tag}: parabola a={a} x0={x0} y0={y0} in [{lo}, {hi}] is a minimum, zwarn={zw}')
    if (x0 < g[1] - eps or x0 > g[-2] + eps) and not zw & FITLIM:
        raise core.Violation('fitlimit-missing', f'{tag}: parabola minimum {x0} beyond the second or last-but-one redshift of {g} is not flagged')
    if zw & FITLIM and not edge and not (x0 < g[1] + eps or x0 > g[-2] - eps):
        raise core.Violation('fitlimit-wrong', f'{tag}: z={z} parabola {x0} flagged at the limit of {g}')
    inside = gz[0] + eps < x0 < gz[-1] - eps
    outside = x0 < gz[0] - eps or x0 > gz[-1] + eps
    if inside:
        if abs(z - x0) > eps + 1e-5 * span:
            raise core.Violation('z', f'{tag}: z={z}, parabola minimum {x0}')
        if abs(chi2 - y0) > 1e-5 * amp + 10 * noise:
            raise core.Violation('chi2', f'{tag}: chi2={chi2}, parabola minimum {y0}')
    elif outside:
        if not zw & BADMIN:
            raise core.Violation('badmin-missing', f'{tag}: no valid parabola, zwarn={zw}')
        if z not in gz or chi2 != gy[list(gz).index(z)] or chi2 > gy.min():
            raise core.Violation('fallback', f'{tag}: no minimum inside, but z={z} chi2={chi2} is not the lowest refined point')
    if abs(zerr - 1 / np.sqrt(abs(a))) > 1e-4 * zerr + 10 * noise / abs(a) ** 1.5 / span ** 2:
        raise core.Violation('zerr', f'{tag}: zerr={zerr}, expected {1 / np.sqrt(abs(a))}')
    return 'bad' if zw else 'ok'


def check_coeff(c, z, coeff, i, tag):
    """The coefficients are the best fit of the template at the reported redshift."""
    g, t, tg, memo = setup(c)
    w, f = oracle.stack(tg.spectra)
    if ('c', z) not in memo:
        memo['c', z] = None
        if np.sum(w) > 0:
            T = oracle.design(tg.spectra, t, z)
            co, _, cond = oracle.optimum(T, w, f, t.method)
            memo['c', z] = (T, co) if cond < 1e6 else None
    if memo['c', z] is None:
        return
    T, co = memo['c', z]
    if float(np.sum(w * (T @ (coeff - co)) ** 2)) > 1e-9 * float(np.sum(w * np.where(w > 0, f, 0) ** 2)):
        raise core.Violation('coeff', f'{tag}: coefficients {coeff} at z={z}, the best fit there has {co}')


def check_fit(c, zchi2, zf, rec):
    g, t, tg, _ = setup(c)
    lim = oracle.dvlimit(t.template_type)
    tag = f'zchi2={list(zchi2)} nminima={c["nmin"]}'
    n = len(zf['chi2'])
    mins = minima_of(zchi2)
    if n > c['nmin']:
        raise core.Violation('too-many', f'{tag}: {n} candidates')
    rows = []
    for k in range(n):
        r = {q: zf[q][k] if zf[q].shape[1] > 1 else zf[q][k, 0] for q in ('z', 'zerr', 'chi2', 'zwarn', 'zz', 'zzchi2')}
        zz = np.asarray(r['zz'])
        who = [i for i in range(len(g)) if abs(zz[0] - g[max(0, i - 1)]) < 1e-12 and abs(zz[-1] - g[min(len(g) - 1, i + 1)]) < 1e-12]
        if len(who) != 1:
            raise core.Violation('zz-range', f'{tag}: candidate refined over [{zz[0]}, {zz[-1]}] on grid {g}')
        i = who[0]
        if i not in mins:
            raise core.Violation('not-a-minimum', f'{tag}: candidate around scan point {i}, minima are {mins}')
        if i in [x[0] for x in rows]:
            raise core.Violation('duplicate', f'{tag}: two candidates around scan point {i}')
        rec.outcome(check_row(c, r, i, g, tag))
        check_coeff(c, float(r['z']), np.asarray(zf['coeff'][k], float).ravel(), i, tag)
        rows.append((i, float(r['z']), float(r['chi2'])))
    if any(rows[k][2] > rows[k + 1][2] for k in range(n - 1)):
        raise core.Violation('order', f'{tag}: chi2 {[x[2] for x in rows]}')
    for (i, a, _), (j, b, _) in itertools.combinations(rows, 2):
        if max(abs(dv(a, b)), abs(dv(b, a))) < lim * (1 - 1e-9):
            raise core.Violation('too-close', f'{tag}: candidates at {a} and {b}, {dv(a, b)} km/s apart')
    for j in mins:
        if j in [x[0] for x in rows]:
            continue
        if n == c['nmin'] and all(zchi2[i] <= zchi2[j] for i, _, _ in rows):
            continue
        # a lower or equal reported candidate must be within the limit of the scan point or of its refined minimum
        zs = [g[j]]
        zz, y, good = refined(c, j)
        k = min(max(int(np.argmin(y)), 1), len(zz) - 2)
        a, b = parabola(zz[k - 1:k + 2], y[k - 1:k + 2])
        x0 = zz[k] - b / (2 * a) if a else -1.
        zs.append(x0 if zz[0] <= x0 <= zz[-1] else zz[int(np.argmin(y))])
        if not any(zchi2[i] <= zchi2[j] and abs(dv(q, z)) < lim * (1 + 1e-5) for i, z, _ in rows for q in zs):
            raise core.Violation('skipped', f'{tag}: minimum {j} (z={g[j]}) is missing: reported {rows}')
        rec.count('close_minima_dropped')
    rec.state(c['grid'], tuple(sorted(x[0] for x in rows)), n)
    return rows


def scans(c):
    """Every scan of a family: all words over the alphabet, or separated minima of every order on a long grid."""
    if 'perm' in c:
        for p in itertools.permutations(range(c['off'], c['n'], 2), c['perm']):
            if p[0] != c['first']:
                continue
            x = np.full(c['n'], 100.) + np.arange(c['n']) % 2 * (1 - 2 * c['off'])
            for rank, k in enumerate(p):
                x[k] = 10. + rank
            yield x
        return
    for tail in itertools.product(c['alpha'], repeat=c['n'] - 1):
        yield np.array((c['first'],) + tail, float)


def run_fitz(rec, c):
    from redrock.fitz import fitz
    g, t, tg, _ = setup(c)
    kw = {} if c['npts'] is None else dict(zminfit_npoints=c['npts'])
    for x in scans(c):
        with rec.case(dict(c, seq=[str(v) for v in x])):
            x0 = x.copy()
            rep = fitz(x, g.copy(), tg, t, nminima=c['nmin'], **kw)
            if not np.array_equal(x, x0, equal_nan=True):
                raise core.Violation('input-changed', 'the scan was modified')
            rows = check_fit(c, x, rep, rec)
            rec.ev()
            if len(minima_of(x)) > 1 or np.isnan(x).any():
                rec.nontrivial('f', c['grid'], c['type'], c['nmin'], tuple(map(str, x)))
        if rec.viol:
            return
    rec.sample(dict(grid=c['grid'], zchi2=list(map(str, x)), rows=rows), 1)


def run_minima(rec, c):
    """The list of minima of every sequence: all of them, by increasing value."""
    from redrock import fitz as F
    if not hasattr(F, 'find_minima'):
        raise core.Skip('no find_minima')
    for x in itertools.product(c['alpha'], repeat=c['n']):
        with rec.case(dict(c, seq=[str(v) for v in x])):
            x = np.array(x, float)
            got = [int(i) for i in F.find_minima(x)]
            if sorted(got) != minima_of(x):
                raise core.Violation('minima', f'{list(x)}: {got}, expected the set {minima_of(x)}')
            v = x[got]
            if len(got) > 1 and np.any(v[1:] < v[:-1]):
                raise core.Violation('minima-order', f'{list(x)}: {got}')
            rec.ev()
            rec.nontrivial('m', tuple(map(str, x)))


def run_minfit(rec, c):
    """Every triple of points against the exact vertex."""
    from redrock import fitz as F
    from fractions import Fraction as Q
    BADMIN, _ = bits()
    if not hasattr(F, 'minfit'):
        raise core.Skip('no minfit')
    for h in c['h']:
        for y in itertools.product(c['vals'], repeat=3):
            with rec.case(dict(c, h=h, y=y)):
                x = [c['x0'], c['x0'] + h[0], c['x0'] + h[0] + h[1]]
                X, Y = [Q(v) for v in x], [Q(v) for v in y]
                a = ((Y[0] - Y[1]) / (X[0] - X[1]) - (Y[2] - Y[1]) / (X[2] - X[1])) / (X[0] - X[2])
                rx, re, ry, zw = F.minfit(np.array(x), np.array(y, float))
                rec.ev()
                if abs(a) * Q(h[0] + h[1]) ** 2 < Q(1, 10 ** 9) * (1 + max(abs(v) for v in Y)):
                    continue           # on a line up to rounding: undefined either way
                b = (Y[0] - Y[1]) / (X[0] - X[1]) - a * (X[0] - X[1])
                x0, y0 = X[1] - b / (2 * a), Y[1] - b * b / (4 * a)
                e = 1e-6 * (h[0] + h[1])
                bad = a < 0 or x0 <= X[0] or x0 >= X[2] or y0 <= 0
                border = abs(float(x0 - X[0])) < e or abs(float(x0 - X[2])) < e or abs(float(y0)) < 1e-6
                if not border and bool(zw & BADMIN) != bad:
                    raise core.Violation('minfit-flag', f'{x} {y}: flag {zw}, vertex at {float(x0)}, {float(y0)}, curvature {float(a)}')
                if zw & ~BADMIN:
                    raise core.Violation('minfit-bits', f'{zw}')
                if abs(rx - float(x0)) > 1e-5 * (abs(float(x0) - x[1]) + h[0] + h[1]) or abs(re - abs(float(a)) ** -0.5) > 1e-5 * re or \
                        abs(ry - float(y0)) > 1e-5 * (1 + abs(float(y0))):
                    raise core.Violation('minfit-value', f'{x} {y}: got {rx} {re} {ry}, exact {float(x0)} {abs(float(a)) ** -0.5} {float(y0)}')
                rec.nontrivial('v', h, y)


def run_dv(rec, c):
    """Velocity difference of every pair, scalars and arrays, and its antisymmetry in sign."""
    from redrock import fitz as F
    if not hasattr(F, 'get_dv'):
        raise core.Skip('no get_dv')
    zs = np.array(c['z'])
    for a in zs:
        for b in zs:
            got = F.get_dv(a, b)
            if abs(got - dv(a, b)) > 1e-9 * (1 + abs(got)):
                raise core.Violation('dv', f'z={a} zref={b}: {got}, expected {dv(a, b)}')
            rec.ev()
        if not np.allclose(F.get_dv(zs, a), dv(zs, a), rtol=1e-9, atol=1e-9) or not np.allclose(F.get_dv(a, zs), dv(a, zs), rtol=1e-9, atol=1e-9):
            raise core.Violation('dv', f'arrays against {a}')


def dispatch(rec, c):
    with rec.case(c):
        if c['k'] == 'dv':
            run_dv(rec, c)
    dict(dv=lambda r, c: None, fitz=run_fitz, minima=run_minima, minfit=run_minfit)[c['k']](rec, c)


def make():
    return core.Check('C08', 'exploration',
        rule='every scan over a small alphabet (ties, plateaus, infinite and undefined values) of 3 to 6 redshifts on each grid, type and candidate limit; every sequence for the list of minima; every triple for the parabola; non-trivial: more than one minimum or undefined values',
        assumptions=['at least three redshifts, in increasing order', 'parabola results are compared where the three refined values differ by more than rounding errors'],
        explanation='bounded-exhaustive enumeration of chi2 scans through the real refinement, judged against recomputed refined scans and the separation rules')


def run(ck):
    items = []
    T = ck.thorough
    for n in range(1, 8 if T else 7):
        items.append(dict(k='minima', n=n, alpha=(0., 1., 2., 3., INF, NAN) if n < 6 else (0., 1., 2., NAN)))
    for x0 in (-0.003, 0., 0.4, 1.3, 5.0):
        items.append(dict(k='minfit', x0=x0, vals=(-3., -1., 0., 1., 2., 5., 100.), h=[(1., 1.), (.01, .01), (0.01, 0.03), (.001, .001), (2., 1.)]))
    items.append(dict(k='dv', z=[-0.005, -0.001, 0.0, 0.0003, 0.1, 0.1034, 0.5, 1.6, 2.0, 6.0]))
    A3, A4, AN = (0., 1., 2.), (0., 1., 2., 3.), (0., 1., INF, NAN)

    def add(ty, grid, n, nmin, alpha, npts=None, mask='none', nb=2, method='PCA'):
        for first in alpha:
            items.append(dict(k='fitz', type=ty, grid=grid, n=n, nmin=nmin, alpha=alpha, npts=npts, mask=mask, nb=nb, method=method, first=first))
    for grid in GR:
        for nmin in (1, 2, 3, 5):
            add('GALAXY', grid, 5, nmin, A3 if not T else A4)
        add('QSO', grid, 4, 2, AN, method='NMF')
        add('GALAXY', grid, 3, 3, A4, npts=4)
        add('GALAXY', grid, 4, 2, A3, npts=9, nb=3, mask='some')
        if T:
            add('GALAXY', grid, 6, 3, A3)
            add('GALAXY', grid, 5, 2, AN, npts=30)
            add('QSO', grid, 5, 9, A3, npts=3)
    for grid in STARGR:
        for nmin in (1, 2, 3):
            add('STAR', grid, 5, nmin, A3 if not T else A4)
        add('STAR', grid, 4, 3, AN)
    for grid, ty in [(q, 'GALAXY') for q in LONGGR] + [(q, 'STAR') for q in LONGSTAR]:
        n = len({**LONGGR, **LONGSTAR}[grid])
        for key in ('', 'b', 'c', 'd') if T else ('', 'b'):
            for off in (0, 1):
                for first in range(off, n, 2):
                    items.append(dict(k='fitz', type=ty, grid=grid, n=n, nmin=5, perm=4 if T else 3, off=off, first=first, npts=None, mask='none',
                                      nb=1 if key else 2, method='PCA', key=key))
    add('GALAXY', 'coarse', 4, 3, A3, mask='all')
    add('GALAXY', 'limit', 4, 3, A3, mask='few', nb=1)
    core.pmap(items, dispatch, ck, timeout=800)


def replay(rec, case):
    if case['k'] == 'fitz':
        from redrock.fitz import fitz
        x = np.array([float(v) for v in case['seq']])
        g, t, tg, _ = setup(case)
        kw = {} if case['npts'] is None else dict(zminfit_npoints=case['npts'])
        with rec.case(case):
            check_fit(case, x, fitz(x, g.copy(), tg, t, nminima=case['nmin'], **kw), rec)
    else:
        c = dict(case)
        if case['k'] == 'minfit':
            c['h'] = [tuple(case['h'])]
        dispatch(rec, c)
