"""C20: redshift priors."""
import itertools
import os
import shutil
import tempfile
import numpy as np
from mc import core, fix

NAN, INF = np.nan, np.inf


def formula(func, z, z0, s0):
    """Value of the prior (for top-hats: the set of points inside the window)."""
    if func == 'gaussian':
        return ((z - z0) / s0) ** 2
    if func == 'lorentzien':
        return 2 * np.log(1 + ((z - z0) / s0) ** 2)
    return np.abs(z - z0) < s0 / 2


def write(path, rows):
    from astropy.table import Table
    from astropy.io import fits
    t = Table(dict(TARGETID=np.array([r[0] for r in rows], 'i8'), Z=np.array([r[1] for r in rows], 'f8'),
                   SIGMA=np.array([r[2] for r in rows], 'f8'), FUNCTION=np.array([r[3] for r in rows], 'U12')))
    h = fits.convenience.table_to_hdu(t)
    h.header['EXTNAME'] = 'PRIORS'
    fits.HDUList([fits.PrimaryHDU(), h]).writeto(path, overwrite=True)


def check_tophat(v, win, tag):
    """Inside the window 0 (infinite only at the first and last point of the grid), outside undefined or infinite."""
    v = np.asarray(v, float)
    n = len(win)
    if v.shape != win.shape:
        raise core.Violation('tophat-shape', f'{tag}: {v}')
    for i in range(n):
        if win[i]:
            ok = v[i] == 0 or (v[i] == INF and i in (0, n - 1))
        else:
            ok = np.isnan(v[i]) or v[i] == INF
        if not ok:
            raise core.Violation('tophat-value', f'{tag}: value {v[i]} at grid point {i} of {v}, window {win}')
    # every interior stretch is closed by infinite values so that its edges can be minima, and opened nowhere else
    for i in range(n):
        if v[i] == 0:
            for j in (i - 1, i + 1):
                if 0 <= j < n and not (v[j] == 0 or v[j] == INF):
                    raise core.Violation('tophat-border', f'{tag}: {v}')
        if v[i] == INF and not win[i] and not any(0 <= j < n and win[j] for j in (i - 1, i + 1)):
            raise core.Violation('tophat-border', f'{tag}: {v}')


def run_eval(rec, c):
    from redrock.priors import Priors
    d = tempfile.mkdtemp(prefix='c20')
    try:
        z = np.array(c['grid'])
        rows = [(100 + 3 * k, z0, s0, c['func']) for k, (z0, s0) in enumerate(itertools.product(c['z0'], c['s0']))]
        for rev in (False, True):
            p = os.path.join(d, 'p.fits')
            write(p, rows[::-1] if rev else rows)
            with core.quiet():
                P = Priors(p)
            for tid, z0, s0, func in rows:
                with rec.case(dict(c, z01=z0, s01=s0)), core.quiet():
                    zz = z.copy()
                    v = P.eval(tid, zz)
                    if not np.array_equal(zz, z):
                        raise core.Violation('grid-changed', 'redshift grid modified')
                    e = formula(func, z, z0, s0)
                    tag = f'{func} z0={z0} s0={s0} grid={list(z)}'
                    if func == 'tophat':
                        check_tophat(v, e, tag)
                    elif not np.allclose(v, e, rtol=1e-9, atol=1e-12):
                        raise core.Violation(f'value:{func}', f'{tag}: {v}, expected {e}')
                    rec.ev()
                    rec.nontrivial('e', func, z0, s0, tuple(z))
            with core.quiet():
                for tid in (99, 101, -1):
                    if np.any(np.asarray(P.eval(tid, z)) != 0):
                        raise core.Violation('unlisted', f'target {tid} is not in the file')
    finally:
        shutil.rmtree(d)


_R = {}


def setup(key):
    if key in _R:
        return _R[key]
    from redrock.targets import DistTargetsCopy
    from redrock.templates import DistTemplate
    from redrock.zfind import zfind
    kinds, = key
    ts = []
    for k in kinds:
        if k == 'G':
            ts.append(fix.mk_template('GALAXY', nbasis=3, redshifts=[0.05, 0.08, 0.11, 0.14, 0.17, 0.20], key='c20'))
        elif k == 'Q':
            ts.append(fix.mk_template('QSO', nbasis=2, redshifts=[0.00, 0.10, 0.16, 0.30], key='c20'))
        else:
            ts.append(fix.mk_template('STAR', 'F', nbasis=1, redshifts=[-0.002, -0.001, 0.0, 0.001, 0.002], key='c20'))
    tg = [fix.mk_target(39627000000000010 + i, bands='b', key='c20', z=z) for i, z in enumerate((0.13, 0.06, 0.0))]

    def make_run(order, prior, comm=None, **kw):
        dt = DistTargetsCopy([tg[i] for i in order], comm=comm)
        with core.quiet():
            return zfind(dt, [DistTemplate(t, dt.wavegrids(), comm=comm) for t in ts], priors=prior, nminima=3, **kw)
    base = make_run(range(3), None)
    _R[key] = ts, tg, make_run, base
    return _R[key]


def rows_of(tab, tid, spectype=None):
    sel = tab['targetid'] == tid
    if spectype is not None:
        sel &= tab['spectype'] == spectype
    return tab[sel]


def check_scan(s, b, ts, func, par, tag):
    """The scan s of one target is the scan b without prior plus the prior."""
    hidden = func == 'tophat' and not any(formula('tophat', m.redshifts, *par).any() for m in ts)
    for m in ts:
        x, y = s[m.full_type], b[m.full_type]
        for k in ('redshifts', 'penalty', 'zcoeff', 'fit'):
            if k in y and k != 'fit' and not np.array_equal(x[k], y[k]):
                raise core.Violation('scan-other', f'{tag}: {k} of {m.full_type} changed')
        if func is None or hidden:
            if not np.array_equal(x['zchi2'], y['zchi2']):
                raise core.Violation('scan-untouched', f'{tag}: the scan of a target which is not in the file, or with nothing allowed, changed')
            continue
        e = formula(func, m.redshifts, *par)
        v = np.asarray(x['zchi2']) - np.asarray(y['zchi2'])
        if func == 'tophat':
            v[np.abs(v) < 1e-12] = 0
            check_tophat(v, e, f'{tag} {m.full_type}')
        elif not np.allclose(v, e, rtol=1e-7, atol=1e-7 * (1 + np.abs(y['zchi2']))):
            raise core.Violation('scan-prior', f'{tag} {m.full_type}: {v} was added, expected {e}')


def same(a, b, what, tol=1e-7):
    if a[0] is not None and b[0] is not None:
        fix.compare_scan(a[0], b[0], what, rtol=tol, atol=tol)
    fix.compare_tables(a[1], b[1], what, rtol=tol, atol=tol)


def run_ways(rec, c):
    """The same prior in other ways of running the fit: processes, ranks, restart from a scan, a path with a variable; and with archetypes."""
    from checks import c18
    from mc import fakempi
    from redrock.results import write_zscan
    ts, tg, make_run, base = setup((tuple(c['kinds']),))
    d = tempfile.mkdtemp(prefix='c20')
    env = dict(os.environ)
    try:
        path = os.path.join(d, 'p.fits')
        z00, s0 = c['zs']
        par = {i: (z00 + 0.03 * i * c['shift'], s0) for i in range(3)}
        write(path, [(tg[i].id,) + par[i] + (c['func'],) for i in c['listed']])
        tag = str(c)
        ref = make_run(c['order'], path)
        rec.ev()
        if c['way'] == 'mp':
            same(make_run(c['order'], path, mp_procs=c['n']), ref, 'mp')
        elif c['way'] == 'mpi':
            res, s = fakempi.run_ranks(c['n'], lambda comm: make_run(c['order'], path, comm=comm), core.Chooser(), c['mode'], 'asc', timeout=120)
            r = res[0][1]
            same(r, ref, 'mpi')
            if any(x[1][0] is not None or x[1][1] is not None for x in res[1:]):
                raise core.Violation('mpi-rank', 'results on other ranks')
        elif c['way'] == 'env':
            os.environ['C20DIR'] = d
            same(make_run(c['order'], '$C20DIR/p.fits'), ref, 'env')
        elif c['way'] == 'scan':
            scan = os.path.join(d, 's.h5')
            with core.quiet():
                write_zscan(scan, *base)
            got = make_run(c['order'], path, chi2_scan=scan)
            for i in range(3):
                a, b = rows_of(got[1], tg[i].id), rows_of(ref[1], tg[i].id)
                if len(a) != len(b) or not np.allclose(a['z'], b['z'], atol=1e-5) or list(a['spectype']) != list(b['spectype']):
                    raise core.Violation('restart', f'{tag}: target {i} {list(a["z"])} after a restart, {list(b["z"])} directly')
            same((None, make_run(c['order'], None, chi2_scan=scan)[1]), (None, base[1]), 'restart-noprior', 1e-5)
        elif c['way'] == 'arch':
            kw = dict(archetypes=c18.archetypes(c['arch'], False), **c['opts'])
            b = make_run(range(3), None, **kw)
            got = make_run(c['order'], path, **kw)
            for i, t in enumerate(tg):
                check_scan(got[0][t.id], b[0][t.id], ts, c['func'] if i in c['listed'] else None, par[i], tag)
                x, y = rows_of(got[1], t.id), rows_of(b[1], t.id)
                if i not in c['listed']:
                    for col in ('z', 'chi2', 'zwarn', 'deltachi2', 'zerr', 'spectype', 'subtype'):
                        if list(x[col]) != list(y[col]):
                            raise core.Violation('untouched', f'{tag}: {col} of target {i} (not in the file) changed')
                    continue
                if not len(x):
                    raise core.Violation('lost', f'{tag}: target {i} has no rows')
                if c['func'] != 'tophat' or not any(formula('tophat', m.redshifts, *par[i]).any() for m in ts):
                    continue
                for m in ts:
                    g, q = m.redshifts, rows_of(x, t.id, m.template_type)
                    e = formula('tophat', g, *par[i])
                    if not e.any():
                        if len(q):
                            raise core.Violation('tophat-outside', f'{tag}: target {i} {m.template_type} fits at {list(q["z"])} with no grid point in the window')
                        continue
                    lo, hi = g[max(0, np.argmax(e) - 1)], g[min(len(g) - 1, len(g) - np.argmax(e[::-1]))]
                    if not len(q) or np.any(q['z'] < lo) or np.any(q['z'] > hi):
                        raise core.Violation('tophat-outside', f'{tag}: target {i} {m.template_type} fits at {list(q["z"])}, window {g[e]}')
        rec.nontrivial('w', str(c))
    finally:
        shutil.rmtree(d)
        os.environ.clear()
        os.environ.update(env)


def run_zfind(rec, c):
    from redrock.fitz import fitz
    ts, tg, make_run, (bscan, btab) = setup((tuple(c['kinds']),))
    d = tempfile.mkdtemp(prefix='c20')
    try:
        path = os.path.join(d, 'p.fits')
        for z00, s0 in c['zs']:
            par = {i: (z00 + (0.03 * i if c['shift'] else 0), s0) for i in range(3)}
            rows = [(tg[i].id,) + par[i] + (c['func'],) for i in c['listed']]
            if c['other']:
                rows.append((555, 0.1, 0.01, c['func']))
            with rec.case(dict(c, zs=[(z00, s0)])):
                if not rows:
                    continue
                write(path, rows)
                scan, tab = make_run(c['order'], path)
                tag = f'{c["func"]} z0={z00} shift={c["shift"]} width={s0} listed={c["listed"]} templates={c["kinds"]}'
                for i, t in enumerate(tg):
                    check_scan(scan[t.id], bscan[t.id], ts, c['func'] if i in c['listed'] else None, par[i], tag)
                for i, t in enumerate(tg):
                    z0 = par[i][0]
                    got = rows_of(tab, t.id)
                    ref = rows_of(btab, t.id)
                    hidden = i in c['listed'] and c['func'] == 'tophat' and not any(formula('tophat', m.redshifts, z0, s0).any() for m in ts)
                    if i not in c['listed'] or hidden:
                        if len(got) != len(ref):
                            raise core.Violation('untouched', f'{tag}: target {i} has {len(got)} rows, {len(ref)} without prior')
                        for col in ('z', 'chi2', 'zwarn', 'coeff', 'deltachi2', 'zerr', 'spectype'):
                            if not np.array_equal(np.asarray(got[col]), np.asarray(ref[col])):
                                raise core.Violation('untouched', f'{tag}: {col} of target {i} (not in the file or nothing allowed) changed: {list(got[col])} vs {list(ref[col])}')
                        if hidden:
                            rec.count('hides_everything')
                        continue
                    total = 0
                    for m in ts:
                        g = m.redshifts
                        e = formula(c['func'], g, z0, s0)
                        q = rows_of(tab, t.id, m.template_type)
                        if c['func'] == 'tophat':
                            step = np.max(np.diff(g))
                            if not e.any():
                                if len(q):
                                    raise core.Violation('tophat-outside', f'{tag}: target {i} has {m.template_type} fits at {list(q["z"])} with no grid point in the window')
                                continue
                            lo, hi = g[max(0, np.argmax(e) - 1)], g[min(len(g) - 1, len(g) - np.argmax(e[::-1]))]
                            if np.any(q['z'] < lo) or np.any(q['z'] > hi):
                                raise core.Violation('tophat-outside', f'{tag}: target {i} {m.template_type} fits at {list(q["z"])}, window {g[e]}')
                            if len(q) == 0:
                                raise core.Violation('tophat-lost', f'{tag}: no {m.template_type} fit of target {i} although {g[e]} is allowed')
                            v = np.where(e, 0., NAN)
                            k = np.where(e)[0]
                            for j in (k[0] - 1, k[-1] + 1):
                                if 0 <= j < len(g):
                                    v[j] = INF
                                else:
                                    v[min(max(j, 0), len(g) - 1)] = INF
                        else:
                            v = e
                        r = bscan[t.id][m.full_type]
                        want = fitz(r['zchi2'] + r['penalty'] + v, g, t, m, nminima=3)
                        zs = sorted(float(x) for x in want['z'].flatten())
                        if c['func'] == 'tophat' and (e[0] or e[-1]):
                            ok = len(q) >= 1          # the value at the first and last point may be 0 or infinite
                        else:
                            ok = len(zs) == len(q) and np.allclose(sorted(q['z']), zs, rtol=0, atol=1e-10)
                        if not ok:
                            raise core.Violation('refined', f'{tag}: target {i} {m.template_type} fits at {sorted(q["z"])}, expected {zs}')
                        total += len(q)
                    if total != len(got):
                        raise core.Violation('rows', f'{tag}: {len(got)} rows')
                rec.ev()
                rec.nontrivial('z', c['kinds'], c['func'], z00, s0, c['listed'], c['order'])
    finally:
        shutil.rmtree(d)


def dispatch(rec, c):
    with rec.case(c):
        dict(eval=run_eval, zfind=run_zfind, ways=run_ways)[c['k']](rec, c)


def make():
    return core.Check('C20', 'exploration',
        rule='every position and width of each prior function against small redshift grids, and the real zfind for every subset of listed targets, order and window; non-trivial: at least one listed target',
        assumptions=['one function per file', 'values of a top-hat at the first and last grid point may be 0 or infinite'],
        explanation='bounded-exhaustive enumeration of priors against their formulas and of whole fits against refits of the unprimed scans')


def run(ck):
    T = ck.thorough
    items = []
    for grid in ([0.1, 0.2, 0.3, 0.4, 0.5], [0.1, 0.11, 0.3], [0.0, 0.001, 0.002, 0.004, 0.008, 0.016, 0.032], [-0.002, -0.001, 0.0, 0.001], [2.0]):
        g = np.array(grid)
        mid = 0.5 * (g[1:] + g[:-1])
        z0 = sorted(set([float(x) for x in g] + [float(x) for x in mid] + [g[0] - 0.05, g[-1] + 0.05, g[0] - 1, 10.]))
        st = float(np.diff(g).min()) if len(g) > 1 else 0.1
        s0 = [st * x for x in (0.3, 0.9, 1.1, 2.0, 2.3, 4.5, 40., 1e4)]
        for func in ('gaussian', 'lorentzien', 'tophat'):
            items.append(dict(k='eval', grid=grid, func=func, z0=z0, s0=s0))
    zz = [x / 1000. for x in range(-20, 330, 10 if T else 25)] + [0.0, 0.05, 0.2, 0.11, 0.0005]
    ws = (0.0005, 0.0035, 0.031, 0.05, 0.07, 0.12, 0.5)
    subsets = [s for k in range(4) for s in itertools.combinations(range(3), k)]
    n = 0
    for kinds in ('G', 'GS', 'GQ', 'SQG'):
        for func in ('tophat', 'gaussian', 'lorentzien'):
            for w in ws:
                allz = [(z, w) for z in zz]
                for lo in range(0, len(allz), 10):
                    n += 1
                    # every subset with every window in thorough; quick walks through the subsets
                    for si, s in enumerate(subsets if T else [subsets[1 + n % 7], subsets[1 + (n * 3 + 2) % 7]]):
                        if func != 'tophat' and not T and w not in (0.0035, 0.07):
                            continue
                        items.append(dict(k='zfind', kinds=kinds, func=func, zs=allz[lo:lo + 10], listed=s if n % 3 else s[::-1], order=[0, 1, 2] if (n + si) % 2 else [2, 0, 1], other=n % 4 == 0, shift=(n + si) % 2))
    ways = [dict(way='mp', n=n) for n in (2, 3)] + [dict(way='mpi', n=n, mode=m) for n in (1, 2, 3, 4) for m in ('eager', 'sync')] + [dict(way='env'), dict(way='scan')] + \
        [dict(way='arch', arch=a, opts=o) for a in ('G', 'GS') for o in (dict(per_camera=False, deg_legendre=2), dict(per_camera=True, deg_legendre=1, prior_sigma=0.1, ncamera=1), dict(per_camera=True, deg_legendre=2, n_nearest=2, ncamera=1))]
    for j, (kinds, func, zs, s, w) in enumerate(itertools.product(('G', 'GS', 'SQG'), ('tophat', 'gaussian', 'lorentzien'), ((0.11, 0.07), (0.06, 0.03), (0.0005, 0.0035), (0.3, 0.5), (5., 0.01)), subsets[1:], ways)):
        if not T and j % 11:
            continue
        items.append(dict(k='ways', kinds=kinds, func=func, zs=list(zs), listed=list(s), order=[0, 1, 2] if j % 2 else [2, 0, 1], shift=j % 3 % 2, **w))
    core.pmap(items, dispatch, ck, timeout=800)


def replay(rec, case):
    c = dict(case)
    if 'z01' in c:
        c['z0'], c['s0'] = [c['z01']], [c['s01']]
    dispatch(rec, c)
