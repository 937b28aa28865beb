"""C10: rebinning conserves the integral of the piecewise-linear input exactly."""
import itertools
import numpy as np
from mc import core, fix

HALF = np.arange(0, 25) * 0.5          # lattice of edges 0 .. 12


def cumulative(x, y, t):
    """Integral of the piecewise-linear function through (x, y) from x[0] to each t."""
    seg = np.concatenate([[0.], np.cumsum(0.5 * (y[1:] + y[:-1]) * np.diff(x))])
    k = np.clip(np.searchsorted(x, t, side='right') - 1, 0, len(x) - 2)
    d = t - x[k]
    slope = (y[k + 1] - y[k]) / (x[k + 1] - x[k])
    return seg[k] + d * (y[k] + 0.5 * slope * d)


def basis(nx):
    y = [np.eye(nx)[i] for i in range(nx)] + [np.ones(nx), np.array([(-1.) ** i * (i + 1) for i in range(nx)])]
    return np.array(y)


def expect(x, y2, edges):
    out = np.empty((len(edges) - 1, len(y2)))
    for b, y in enumerate(y2):
        out[:, b] = np.diff(cumulative(x, y, edges)) / np.diff(edges)
    return out


def same(a, b, what, tol=1e-11):
    a = np.asarray(a)
    if a.shape != b.shape:
        raise core.Violation(f'{what}:shape', f'{a.shape} vs {b.shape}')
    if not np.allclose(a, b, rtol=tol, atol=tol):
        raise core.Violation(f'{what}:value', f'got\n{a}\nexpected\n{b}')


def refused(fn, what):
    try:
        r = fn()
    except ValueError:
        return
    raise core.Violation(f'{what}:not-refused', f'edges outside the input were not refused: {r}')


def run_grid(rec, blk):
    """All edge subsets for one input grid and redshift."""
    from redrock.rebin import trapz_rebin
    x, z, maxedges, step = blk['x'], blk['z'], blk['maxedges'], blk['step']
    x = np.array(x, dtype=float)
    y2 = basis(len(x))
    xz = x * (1. + z)
    lat = np.arange(0, 2 * blk['top'] + 1) * 0.5 if step == 0.5 else np.arange(0, blk['top'] * 2 + 1) * 1.0
    F = {}
    inside = (lat >= xz[0]) & (lat <= xz[-1])
    cum = np.array([cumulative(xz, y, np.clip(lat, xz[0], xz[-1])) for y in y2])
    n = len(lat)
    for k in range(2, maxedges + 1):
        for idx in itertools.combinations(range(n), k):
            idx = np.array(idx)
            edges = lat[idx]
            ok = inside[idx[0]] and inside[idx[-1]]
            if not ok and k > 2:
                continue
            case = dict(kind='grid', x=x.tolist(), z=z, edges=edges.tolist())
            with rec.case(case):
                check_one(x, y2, edges, z, ok, cum[:, idx] if ok else None)
            rec.ev()
            if ok:
                rec.nontrivial(x.tolist(), z, edges.tolist())
            if rec.viol:
                return
    rec.sample(dict(x=x.tolist(), z=z, last_edges=edges.tolist()), 1)


def check_one(x, y2, edges, z, ok, cum=None):
    from redrock.rebin import trapz_rebin
    if not ok:
        refused(lambda: trapz_rebin(x, y2[-1], edges=edges, myz=z), 'scalar')
        refused(lambda: trapz_rebin(x, y2, edges=edges, myz=np.array([z])), 'batch')
        if z == 0:
            refused(lambda: trapz_rebin(x, y2[0], edges=edges), 'noz')
        return
    exp = expect(x * (1. + z), y2, edges) if cum is None else (np.diff(cum, axis=1) / np.diff(edges)).T
    same(trapz_rebin(x, y2, edges=edges, myz=z), exp, 'multi-basis')
    same(trapz_rebin(x, y2[-1], edges=edges, myz=z), exp[:, -1], 'single-basis')


def run_batch(rec, c):
    """Batches of redshifts, 1-d / 2-d inputs, centres / edges, rebin_template."""
    from redrock.rebin import trapz_rebin, centers2edges, rebin_template
    x = np.array(c['x'], float)
    y2 = basis(len(x))[:c['nb']] if c['nb'] > 0 else basis(len(x))
    edges = np.array(c['edges'], float)
    zs = np.array(c['zs'], float)
    ok = all(edges[0] >= x[0] * (1 + z) and edges[-1] <= x[-1] * (1 + z) for z in zs)
    if not ok:
        refused(lambda: trapz_rebin(x, y2, edges=edges, myz=zs), 'batch-z')
        refused(lambda: trapz_rebin(x, y2[0], edges=edges, myz=zs), 'batch-z1')
    else:
        exp = np.array([expect(x * (1 + z), y2, edges) for z in zs])
        same(trapz_rebin(x, y2, edges=edges, myz=zs), exp, 'batch-z')
        same(trapz_rebin(x, y2, edges=list(edges), myz=list(zs)), exp, 'batch-list')
        same(trapz_rebin(x, y2[0], edges=edges, myz=zs), exp[:, :, 0], 'batch-z1')
        same(trapz_rebin(x, y2[:1], edges=edges, myz=zs), exp[:, :, :1], 'batch-one-basis')
        if len(zs) == 1:
            same(trapz_rebin(x, y2, edges=edges, myz=zs[0]), exp[0], 'scalar-z')
            if zs[0] == 0:
                same(trapz_rebin(x, y2, edges=edges), exp[0], 'no-z')
    rec.ev()
    rec.nontrivial('b', c)


def run_template(rec, c):
    """rebin_template: several grids, centres or edges or (edges, min, max)."""
    from redrock.rebin import centers2edges, rebin_template
    t = fix.mk_template(nbasis=c['nb'], wmin=c['wmin'], wmax=c['wmax'], dw=c['dw'])
    zs = np.array(c['zs'], float)
    waves = {i: np.array(w, float) for i, w in enumerate(c['waves'])}
    edges = {}
    for k, w in waves.items():
        e = np.empty(len(w) + 1)
        e[1:-1] = 0.5 * (w[1:] + w[:-1]); e[0] = w[0] - 0.5 * (w[1] - w[0]); e[-1] = w[-1] + 0.5 * (w[-1] - w[-2])
        same(centers2edges(w), e, 'centers2edges')
        same(centers2edges(list(w)), e, 'centers2edges')
        edges[k] = e
    lo, hi = t.wave[0] * (1 + zs.max()), t.wave[-1] * (1 + zs.min())
    ok = all(e[0] >= lo and e[-1] <= hi for e in edges.values())
    tup = {k: (e, e[0], e[-1]) for k, e in edges.items()}
    mixes = [dict(dwave=waves), dict(dedges=edges), dict(dedges=tup)]
    if len(edges) > 1:
        for first in (0, 1):
            mixes.append(dict(dedges={k: (tup if i % 2 == first else edges)[k] for i, k in enumerate(edges)}))
    for kw in mixes:
        for lim in ({}, dict(xmin=lo, xmax=hi)):
            if not ok:
                refused(lambda: rebin_template(t, zs, **kw, **lim), 'template')
                continue
            r = rebin_template(t, zs, **kw, **lim)
            if sorted(r) != sorted(edges):
                raise core.Violation('template:grids', f'{sorted(r)}')
            for k, e in edges.items():
                same(r[k], np.array([expect(t.wave * (1 + z), t.flux, e) for z in zs]), 'template', 1e-9)
    rec.ev(); rec.nontrivial('t', c)


def run_mismatch(rec, c):
    from redrock.rebin import trapz_rebin
    x = np.arange(6.)
    for n in (4, 5, 7, 8):
        for y in (np.ones(n), np.ones((2, n))):
            for kw in ({}, dict(myz=0.), dict(myz=np.array([0., 0.1]))):
                refused(lambda: trapz_rebin(x, y, edges=np.array([1., 2., 4.5]), **kw), 'length-mismatch')
                rec.ev(); rec.nontrivial('m', n, y.ndim, sorted(kw))


FORMS = dict(c=lambda a: a, f=lambda a: np.asfortranarray(a), step=lambda a: np.repeat(a, 2, axis=-1)[..., ::2], neg=lambda a: a[..., ::-1].copy()[..., ::-1],
             cut=lambda a: np.concatenate([a[..., :1] - 7, a, a[..., -1:] + 7], axis=-1)[..., 1:-1], ro=lambda a: (lambda b: (b.setflags(write=False), b)[1])(a.copy()))


def run_forms(rec, c):
    """The same numbers in other types and memory layouts, as centres or edges, and negative redshifts."""
    from redrock.rebin import trapz_rebin
    x = np.arange(0., 13.) if c['reg'] else np.array([0., 0.5, 2, 2.25, 3, 5, 5.5, 8, 9, 11, 11.25, 12])
    y2 = np.array([3 + (7 * np.arange(len(x)) % 5) * (-1.) ** np.arange(len(x)), 100 * np.eye(len(x))[4], 1. + np.arange(len(x))])[:c['nb']]
    y2 = (y2 * (1.1 if c['types'][1][0] == 'f' else 1)).astype(c['types'][1]).astype(float)
    cen = np.array(c['cen'], float)
    edges = np.empty(len(cen) + 1)
    edges[1:-1] = 0.5 * (cen[1:] + cen[:-1])
    edges[0] = 1.5 * cen[0] - 0.5 * cen[1]
    edges[-1] = 1.5 * cen[-1] - 0.5 * cen[-2]
    zs = np.array(c['zs'])
    tol = 1e-6 if 'f4' in c['types'] else 1e-11
    F = FORMS[c['form']]
    t = lambda a, k: F(a.astype(c['types'][k]))
    E = [expect(x * (1 + z), y2, edges) for z in zs]
    keep = [t(x, 0), t(y2, 1), t(edges, 2), F(zs), t(cen, 2)]
    before = [k.copy() for k in keep]
    X, Y, D, Z, W = keep
    for kw in (dict(edges=D), dict(xnew=W)):
        if 'edges' in kw and not np.array_equal(D, edges):
            continue
        same(trapz_rebin(X, Y, myz=Z, **kw), np.array(E), 'forms', tol)
        same(trapz_rebin(X, Y[0], myz=Z, **kw), np.array(E)[:, :, 0], 'forms-1d', tol)
        for k, z in enumerate(zs):
            same(trapz_rebin(X, Y, myz=z, **kw), E[k], 'forms-scalar', tol)
            same(trapz_rebin(X, Y[-1], myz=float(z), **kw), E[k][:, -1], 'forms-scalar-1d', tol)
            if z == 0:
                same(trapz_rebin(X, Y, **kw), E[k], 'forms-noz', tol)
                same(trapz_rebin(X, Y[0], **kw), E[k][:, 0], 'forms-noz-1d', tol)
    for a, b in zip(keep, before):
        if not np.array_equal(a, b):
            raise core.Violation('forms-input', 'an input was changed')
    rec.ev(); rec.nontrivial('f', str(c))


def dispatch(rec, blk):
    k = blk['kind']
    if k == 'grid':
        run_grid(rec, blk)
    else:
        with rec.case(blk):
            dict(batch=run_batch, mismatch=run_mismatch, template=run_template, forms=run_forms)[k](rec, blk)


def make():
    return core.Check('C10', 'exploration',
        rule='every pair of (input grid, output edges) on an integer/half-integer lattice and every basis unit vector (the operation is linear in y); non-trivial: accepted edges',
        assumptions=['grids are strictly increasing', 'GPU kernel is checked under C21'],
        explanation='bounded-exhaustive enumeration of grids; oracle is the closed-form integral of the interpolant')


def run(ck):
    top, me = (6, 5) if not ck.thorough else (7, 7)
    items = []
    for k in range(2, top + 2):
        for x in itertools.combinations(range(top + 1), k):
            for z in (0., 1., 0.5):
                if z and (k > (4 if not ck.thorough else 6)):
                    continue
                items.append(dict(kind='grid', x=x, z=z, maxedges=me if z == 0 else me - 1, step=0.5 if z != 1. else 1.0, top=top))
    for x in ((0, 1, 2, 3, 4, 5, 6, 7, 8), (1, 2, 4, 8), (1, 3, 5, 7, 9, 9.5), (0.5, 1.25, 6, 7)):
        for edges in ((2, 3, 4), (2, 4, 6), (1, 1.5, 1.75, 2), (2, 2.5, 7), (1.5, 3, 4.5, 6), (0, 1, 2), (7, 7.5, 8.5), (3, 3.0001, 3.0002), (2, 7.5)):
            for n in range(1, 4):
                for zs in itertools.permutations((0., 0.25, 0.5, 1.0), n):
                    for nb in (1, 2, 0):
                        items.append(dict(kind='batch', x=x, edges=edges, zs=zs, nb=nb))
    for waves in ([np.arange(4000, 4100, 10)], [np.arange(4000, 4100, 10), np.arange(4105, 4300, 17)],
                  [np.arange(4105, 4300, 17), np.arange(4000, 4100, 10), np.geomspace(4000, 4200, 9)],
                  [np.arange(4105, 4300, 17), np.arange(3000, 4100, 10)], [np.arange(3000, 3100, 10), np.arange(4105, 4300, 17)],
                  [np.arange(4105, 4300, 17), np.arange(5000, 5500, 100)], [np.arange(5000, 5500, 100), np.arange(4105, 4300, 17)],
                  [np.arange(3100, 3120, 5)], [np.arange(3200, 3250, 10)], [np.arange(3500, 3600, 10)], [np.arange(3800, 3890, 10)], [np.arange(3920, 4000, 10)],
                  [np.arange(5300, 5380, 10)], [np.arange(5500, 5600, 10)], [np.arange(5800, 5900, 10)], [np.arange(5900, 6000, 10)],
                  [np.arange(4000, 4100, 10), np.arange(3500, 3600, 10)], [np.arange(3500, 3600, 10), np.arange(4000, 4100, 10)]):
        for zs in ((0.,), (0.3, 0.1, 0.2), (0.1, 0.2, 0.3), (0.3, 0.2, 0.1), (0., 0.05), (0.05, 0.), (0.3,)):
            for nb in (1, 3):
                for dw in (0.7, 12., 33.):
                    items.append(dict(kind='template', waves=[w.tolist() for w in waves], zs=zs, nb=nb, dw=dw, wmin=3000.1, wmax=5400.))
    items.append(dict(kind='mismatch'))
    for k, (types, form, zs) in enumerate(itertools.product(itertools.product(('f8', 'f4', 'i4', 'i8'), repeat=3), FORMS, ((0.,), (0.5, 0.), (-0.25, -0.5), (-0.25, 0., 0.25), (1., 0.75, 0.5, 0.25, 0.)))):
        if not ck.thorough and (types.count('f8') < 2 and len(set(types)) > 1 or types.count('f8') < 3 and form not in ('c', 'step')):
            continue
        cen = [[4, 6, 8, 10], [3, 4, 5, 6], [4, 5, 6, 8], [2.5, 3, 3.5], [5, 6]][(k + k // 5) % 5] if min(zs) >= 0 else [[1, 2, 3, 4], [2, 3, 4, 5.5], [1.5, 4]][(k + k // 5) % 3]
        if types[2][0] == 'i':
            cen = [[4, 6, 8], [4, 7], [4, 5, 8], [5, 6]][k % 4] if min(zs) >= 0 else [[2, 4], [1, 2, 5]][k % 2]
        items.append(dict(kind='forms', reg=types[0][0] == 'i' or bool(k % 2), types=list(types), form=form, zs=list(zs), cen=cen, nb=1 + k % 3))
    items.sort(key=lambda b: -(b.get('maxedges', 0)))
    # compile once before forking
    from redrock.rebin import trapz_rebin
    trapz_rebin(np.arange(4.), np.ones((2, 4)), edges=np.array([0., 1.]), myz=np.array([0.]))
    trapz_rebin(np.arange(4.), np.ones(4), edges=np.array([0., 1.]))
    core.pmap(items, dispatch, ck, timeout=600, chunk=4)


def replay(rec, case):
    if case['kind'] == 'grid':
        x = np.array(case['x']); e = np.array(case['edges']); z = case['z']
        check_one(x, basis(len(x)), e, z, e[0] >= x[0] * (1 + z) and e[-1] <= x[-1] * (1 + z))
    else:
        dispatch(rec, case)
