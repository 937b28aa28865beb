"""C11: intergalactic transmission follows its model and never amplifies."""
import os
import numpy as np
from mc import core, fix

LYA = 1215.67
from mc.oracle import SERIES, LAF as _LAF, DLA as _DLA, LL, tau
MODELS = ('Calura12', 'Kamble20', 'Inoue14', 'None', None)


EPS = 1e-9


def waves(z):
    """Observed wavelengths around every break for redshift z, plus a coarse grid."""
    br = []
    for lj in list(_LAF[:, 1]) + [LL] + [s[0] for s in SERIES['Calura12']]:
        br += [lj * (1 + z)]
        br += [lj * f for f in (2.2, 3.0, 5.7)]
    br = np.array(br)
    w = np.concatenate([br * (1 - EPS), br * (1 + EPS), br, [LL * 5.7, LL * 2.2, LL * 3.0, LL * (1 + 4.7), LL * (1 + 1.2)],
                        (1 + z) * np.linspace(250., 1400., 231)])
    return np.unique(w)


def check_T(T, model, z, lo, what):
    T = np.asarray(T)
    if T.shape != lo.shape:
        raise core.Violation(f'{what}:shape', f'{T.shape} for {lo.shape}')
    if not (np.all(T >= 0) and np.all(T <= 1)):
        i = np.where(~((T >= 0) & (T <= 1)))[0][0]
        raise core.Violation(f'{what}:range', f'{model} z={z} wave={lo[i]!r}: T={T[i]!r}')
    e = [np.exp(-tau(model, z, lo * f)) for f in (1 - 1e-13, 1, 1 + 1e-13)]
    bad = np.all([~np.isclose(T, x, rtol=1e-8, atol=1e-11) for x in e], axis=0)
    if bad.any():
        i = np.where(bad)[0][0]
        raise core.Violation(f'{what}:formula', f'{model} z={z} wave={lo[i]!r}: T={T[i]!r}, formula {e[1][i]!r}')
    red = lo > LYA * (1 + z)
    if np.any(T[red] != 1):
        raise core.Violation(f'{what}:red', f'{model} z={z}: transmission below 1 redward of Lya')


def run_single(rec, c):
    from redrock.igm import transmission_Lyman
    model, z = c['model'], c['z']
    lo = waves(z)
    T1 = transmission_Lyman(z, lo, model=model)
    check_T(T1, model, z, lo, 'scalar-z')
    rec.ev(len(lo)); rec.nontrivial(model, z)
    Ta = transmission_Lyman(np.array([z]), lo, model=model)
    check_T(Ta[0], model, z, lo, 'array-z')
    # one pixel at a time
    for i in range(0, len(lo), 17):
        a = transmission_Lyman(z, float(lo[i]), model=model)
        if np.ndim(a) != 0 or not np.isclose(a, T1[i], rtol=1e-12, atol=0):
            raise core.Violation('pixel', f'{model} z={z} wave={lo[i]}: {a} alone, {T1[i]} in the grid')
    # integer and single precision grids
    il = np.unique(lo.astype(int))
    for w in (il, il.astype('f4'), il.tolist()):
        check_T(np.asarray(transmission_Lyman(z, w, model=model), dtype=float), model, z, il.astype(float), 'number-type') \
            if not (isinstance(w, np.ndarray) and w.dtype == 'f4') else \
            None if np.allclose(transmission_Lyman(z, w, model=model), transmission_Lyman(z, il.astype(float), model=model), atol=1e-5) or \
            np.any(np.abs(il / (1 + z) - LL) < .1) else _fail('float32')
    # skipping: None only if the transmission is 1 everywhere
    for k in range(0, len(lo), 5):
        sub = lo[k:]
        r = transmission_Lyman(z, sub, model=model, always_return_array=False)
        if r is None:
            if np.any(tau(model, z, sub * (1 - 1e-13)) * tau(model, z, sub) > 1e-14):
                raise core.Violation('skip', f'{model} z={z} from {sub[0]}: computation skipped although the transmission is not 1')
        else:
            check_T(r, model, z, sub, 'no-skip')
    if model in ('None', None) and transmission_Lyman(z, lo, model=model, always_return_array=False) is not None:
        raise core.Violation('none-model', 'no model but an array is returned')


def _fail(k):
    raise core.Violation(k, 'single precision wavelengths change the transmission')


def run_batch(rec, c):
    """Many redshifts at once equal each alone, also with the skipping flag."""
    from redrock.igm import transmission_Lyman
    model, zs = c['model'], np.array(c['zs'])
    lo = np.unique(np.concatenate([waves(z)[::7] for z in zs]))
    lo = lo[lo > 250 * (1 + zs.max())]
    for w in (lo, lo[lo > 1100 * (1 + zs.min())]):
        if len(w) == 0:
            continue
        T = transmission_Lyman(zs, w, model=model)
        if T.shape != (len(zs), len(w)):
            raise core.Violation('batch:shape', f'{T.shape}')
        for i, z in enumerate(zs):
            check_T(T[i], model, z, w, 'batch')
            rec.ev(len(w))
        r = transmission_Lyman(zs, w, model=model, always_return_array=False)
        if r is None:
            if model not in ('None', None) and np.any(T < 1):
                raise core.Violation('batch:skip', f'{model} {zs}: skipped although absorbed')
        elif not np.array_equal(r, T):
            raise core.Violation('batch:flag', 'always_return_array changes values')
        # grids in any order
        for p in (np.arange(len(w))[::-1], np.r_[len(w) // 2:len(w), :len(w) // 2], np.arange(len(w)) * 7 % len(w) if len(w) % 7 else np.r_[1:len(w), 0]):
            for flag in (True, False):
                q = transmission_Lyman(zs, w[p], model=model, always_return_array=flag)
                if q is None and not flag and r is None:
                    continue
                if q is None or not np.allclose(q, T[:, p], rtol=1e-12, atol=0):
                    raise core.Violation('batch:order', f'{model} {zs}: the order of the wavelengths changes the transmission')
        col = transmission_Lyman(zs, float(w[0]), model=model)
        if col.shape != (len(zs),) or not np.allclose(col, T[:, 0], rtol=1e-12):
            raise core.Violation('batch:column', f'{col} vs {T[:, 0]}')
    rec.nontrivial(model, c['zs'])


def run_many(rec, c):
    """Long lists of redshifts and long grids; the inputs are not changed."""
    from redrock.igm import transmission_Lyman
    model = c['model']
    zs = np.linspace(*c['z'])
    if c['perm']:
        zs = zs[np.argsort(np.arange(len(zs)) * 0.6180339887 % 1)]
    w = np.linspace(*c['w'])
    z0, w0 = zs.copy(), w.copy()
    T = transmission_Lyman(zs, w, model=model)
    if not (np.array_equal(zs, z0) and np.array_equal(w, w0)):
        raise core.Violation('many:input', 'the redshifts or wavelengths were changed')
    if T.shape != (len(zs), len(w)):
        raise core.Violation('many:shape', f'{T.shape}')
    for i, z in enumerate(zs):
        check_T(T[i], model, z, w, 'many')
    rec.ev(len(zs)); rec.nontrivial('m', str(c))


def run_template(rec, c):
    """Templates are attenuated by their own model only."""
    from redrock.igm import transmission_Lyman
    from redrock.templates import DistTemplate
    model = c['model']
    out = {}
    w = {1: np.arange(3600., 3900., 15), 2: np.arange(4000., 4400., 40.)}
    zs = c['zs']
    for m in (model, 'None'):
        t = fix.mk_template('QSO', igm=m, wmin=500., wmax=6000., redshifts=zs, nbasis=2)
        out[m] = DistTemplate(t, w).local.data
    for k in w:
        for i, z in enumerate(zs):
            exp = out['None'][k][i] * np.exp(-tau(model, z, w[k]))[:, None]
            if not np.allclose(out[model][k][i], exp, rtol=1e-8, atol=1e-10):
                raise core.Violation('template', f'{model} z={z}: rebinned template is not attenuated by its model')
    rec.ev(); rec.nontrivial('t', c)


def dispatch(rec, c):
    with rec.case(c):
        dict(single=run_single, batch=run_batch, template=run_template, many=run_many, unknown=run_unknown)[c['kind']](rec, c)


def run_unknown(rec, c):
    from redrock.igm import transmission_Lyman
    for m in ('Inoue', 'inoue14', '', 'Madau', 'none', 0, 'Calura', False):
        for z in (0., 3.):
            for w in (5000., np.array([3000., 9000.])):
                for a in (True, False):
                    try:
                        transmission_Lyman(z, w, model=m, always_return_array=a)
                    except ValueError:
                        rec.ev()
                        continue
                    raise core.Violation('unknown-model', f'model {m!r} accepted')


ZB = [0., 0.3, 1.0, 1.2, 2.0, 2.5, 3.1, 4.0, 4.7, 5.5, 6.9]


def make():
    return core.Check('C11', 'exploration',
        rule='models x emission redshifts (around every redshift break) x observed wavelengths (below, at and above every line, limit and redshift break) plus a uniform grid; every ordered batch of 2-3 redshifts',
        assumptions=['rest wavelengths above 250 A (the published fits are not valid far into the X-ray)', 'line coefficients are compared with a copy of the published tables'],
        explanation='bounded-exhaustive enumeration on a grid straddling every branch of the piecewise formulas')


def run(ck):
    import itertools
    zs = set()
    for z in ZB:
        zs |= {z, z + EPS, max(0., z - EPS), z + 0.05}
    zs |= {-0.002}
    zs |= set(np.round(np.arange(0, 7.01, 0.25 if not ck.thorough else 0.01), 4).tolist())
    items = [dict(kind='single', model=m, z=z) for m in MODELS for z in sorted(zs)]
    bz = [0., 0.7, 1.2, 1.9, 2.0, 3.3, 4.7, 6.0] if not ck.thorough else sorted(set(ZB + [0.7, 1.9, 3.3, 6.0, 1.21]))
    for m in MODELS:
        for n in (1, 2, 3):
            for p in itertools.permutations(bz, n):
                if n == 3 and p[0] > p[2]:
                    continue
                items.append(dict(kind='batch', model=m, zs=p))
    for m in MODELS:
        for zz in ([0.1, 0.4, 0.7], [1.5, 2.5, 3.5], [2.0, 4.0, 5.9], [3.0]):
            items.append(dict(kind='template', model=m, zs=zz))
    items.append(dict(kind='unknown'))
    for m in MODELS:
        for z in ((-0.005, 1.7, 701), (0.05, 6.9, 1001), (2.9, 3.1, 257), (1.9, 2.1, 129)):
            for w in ((3600., 5800., 37), (3600., 9800., 5), (2000., 4000., 300)):
                for perm in (False, True):
                    if z[2] > 500 and w[2] > 100 and not ck.thorough or w[0] < 300 * (1 + z[1]) and w[0] < 2100:
                        continue
                    items.append(dict(kind='many', model=m, z=z, w=w, perm=perm))
        items.append(dict(kind='many', model=m, z=(3., 3.2, 2), w=(3600., 9800., 12001), perm=True))
    core.pmap(items, dispatch, ck, timeout=300, chunk=8)
    ck.sample(dict(models=list(map(str, MODELS)), redshifts=sorted(zs)[:8]))


def replay(rec, case):
    dispatch(rec, case)
