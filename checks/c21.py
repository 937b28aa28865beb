"""C21: the GPU path computes what the CPU path computes."""
import itertools, os, tempfile
import numpy as np
from mc import core, fix, oracle, fakecupy
from checks import c14, c18
from checks.c02 import write_template

CP = None
HUGE = 9999999.0


def gpu(**kw):
    global CP
    CP = fakecupy.install(**kw)
    return CP


def blocks(size):
    """Threads per block of all kernels."""
    import redrock.rebin, redrock.zscan
    for m in (redrock.rebin, redrock.zscan):
        if size and hasattr(m, 'block_size'):
            m.block_size = size


def host(x):
    return x.get() if isinstance(x, fakecupy.ndarray) else np.asarray(x)


def attempt(f):
    try:
        return 'ok', f()
    except ValueError as e:
        return 'refused', str(e)


def kinds_of(x):
    """Which memory a result lives in."""
    return 'gpu' if isinstance(x, fakecupy.ndarray) else 'cpu'


# ---------------------------------------------------------------- rebinning
XG = dict(even=[10., 12., 14., 16., 18., 20.], uneven=[10., 11., 14., 14.5, 17., 20.], fine=[1000., 1000.1, 1000.3, 1000.4, 1000.6])
ZS = dict(none=None, zero=0., half=0.5, one=[0.], two=[0., 0.25], three=[0.1, 0.0, 0.3], many=[0.01 * i for i in range(7)])


def run_rebin(rec, c):
    from redrock.rebin import trapz_rebin
    cp = gpu()
    blocks(c['block'])
    fakecupy.schedule(c['order'])
    x = np.array(XG[c['x']])
    z = ZS[c['z']]
    zmax, zmin = (0., 0.) if z is None else (np.max(z), np.min(z))
    lo, hi = x[0] * (1 + zmax), x[-1] * (1 + zmin)
    pts = sorted(set(np.r_[lo, hi, [v for v in np.r_[x, (x[1:] + x[:-1]) / 2, x * (1 + zmax)] if lo < v < hi]].round(10)) | {lo, hi})
    pts = pts if len(pts) <= c['npts'] else [pts[i] for i in np.unique(np.linspace(0, len(pts) - 1, c['npts']).astype(int))]
    pts = [lo * (1 - 1e-9)] + pts + [hi * (1 + 1e-9)]
    nb = c['nb']
    y = np.array([[1., 2., 0., -3., 5., 4.], [0., 1., 0., 0., 2., 1e6], [1., 1., 1., 1., 1., 1.]])[:max(nb, 1), :len(x)]
    y = y[0] if nb == 0 else y
    for k in c['k']:
        for e in itertools.combinations(pts, k):
            e = np.array(e)
            with rec.case(dict(c, edges=e.tolist())):
                want = attempt(lambda: trapz_rebin(x, y, edges=e, myz=z))
                for form in c['forms']:
                    kw = dict(edges=e.copy(), myz=z)
                    gx, gy = x, y
                    if 'e' in form:
                        kw['edges'] = cp.asarray(e)
                    if 't' in form:
                        kw.update(edge_min=e[0], edge_max=e[-1], xmin=lo, xmax=hi)
                    if 'x' in form:
                        gx, gy = cp.asarray(x), cp.asarray(y)
                    if 'z' in form and z is not None and not np.isscalar(z):
                        kw['myz'] = cp.asarray(np.array(z))
                    got = attempt(lambda: trapz_rebin(gx, gy, use_gpu=True, **kw))
                    rec.ev()
                    if got[0] != want[0]:
                        raise core.Violation('refusal', f'edges {e} of {x} z={z}: GPU {got}, CPU {want}')
                    if got[0] == 'refused':
                        rec.outcome('refused')
                        continue
                    if kinds_of(got[1]) != 'gpu':
                        raise core.Violation('memory', 'the result of the GPU path is not in GPU memory')
                    g = host(got[1])
                    if g.shape != want[1].shape or not np.allclose(g, want[1], rtol=1e-9, atol=1e-9 * (1 + np.abs(y).max())):
                        raise core.Violation('rebin', f'edges {e} of {x} z={z} ({form}): GPU {g.tolist()}, CPU {want[1].tolist()}')
                    rec.nontrivial(c['x'], c['z'], nb, tuple(e))
    rec.count('kernel_threads', fakecupy.STATE['threads'])
    fakecupy.STATE['threads'] = 0


# ---------------------------------------------------------------- batched products
def run_prod(rec, c):
    """Every shape of the batched matrix products, every order of the threads that share an element."""
    from redrock import zscan
    cp = gpu()
    if not hasattr(zscan, 'calc_batch_dot_product_3d3d_gpu'):
        raise core.Skip('no calc_batch_dot_product_3d3d_gpu')
    zscan.cp = cp
    for nz, nr, nc in itertools.product(c['nz'], c['nr'], c['nc']):
        a = fix.noise(nz * nr * nc, ('c21a', nz, nr, nc)).reshape(nz, nr, nc)
        b = fix.noise(nz * nr * nc, ('c21b', nz, nr, nc)).reshape(nz, nr, nc)
        for tr in (True, False):
            # the kernel's elements are indexed (column of a, column of b); redrock only uses symmetric products
            A = a if tr else np.ascontiguousarray(a.swapaxes(1, 2))
            B = a * np.abs(b[:1])
            want = np.einsum('zri,zrj->zij', a, B)
            w2 = np.abs(b[:1, :, :1])
            B = a * w2
            want = np.einsum('zri,zrj->zij', a, B)
            for full in (True, False):
                for order, perm in c['sched']:
                    if perm is not None and not full:
                        continue
                    for blk in c['blocks']:
                        if not full and blk % 64:
                            continue
                        blocks(blk)
                        fakecupy.schedule(order, perm)
                        with rec.case(dict(c, nz=[nz], nr=[nr], nc=[nc], sched=[[order, perm]], blocks=[blk])):
                            g = host(zscan.calc_batch_dot_product_3d3d_gpu(cp.asarray(A), cp.asarray(B), transpose_a=tr, fullprecision=full))
                            rec.ev()
                            if g.shape != want.shape or not np.allclose(g, want, rtol=1e-10, atol=1e-10):
                                raise core.Violation('product', f'{nz}x{nr}x{nc} transpose={tr} fullprecision={full} block {blk} order {order} {perm}: {g.tolist()}, expected {want.tolist()}')
                            rec.nontrivial(nz, nr, nc, tr, full, blk, order, str(perm))
        if hasattr(zscan, 'calc_batch_dot_product_3d2d'):
            zc = b[:, 0, :]
            want = np.einsum('zri,zi->zr', a, zc)
            for order, _ in c['sched']:
                fakecupy.schedule(order)
                g = host(zscan.calc_batch_dot_product_3d2d(cp.asarray(a), cp.asarray(np.ascontiguousarray(zc)), True))
                rec.ev()
                if not np.allclose(g, want, rtol=1e-10, atol=1e-10):
                    raise core.Violation('product-2d', f'{nz}x{nr}x{nc}: {g.tolist()}, expected {want.tolist()}')
    blocks(512)


# ---------------------------------------------------------------- transmission
def run_igm(rec, c):
    from redrock.igm import transmission_Lyman
    cp = gpu()
    waves = dict(blue=np.linspace(3600., 4200., 7), full=np.linspace(3600., 9800., 13), one=np.array([3700.]), lines=np.array([1215.67, 1025.72, 972.537, 911.8, 949.7431]) * 3.5)
    zz = c['zz']
    for z in [list(p) for n in c['len'] for p in itertools.permutations(zz, n)] + (list(zz) if c['scalar'] else []):
        for wn, w in waves.items():
            for arr in (True, False):
                with rec.case(dict(c, zone=z, wave=wn)):
                    zin = z if np.isscalar(z) else np.array(z)
                    want = transmission_Lyman(zin, w, model=c['model'], always_return_array=arr)
                    for form in ('', 'w', 'z', 'zw'):
                        gz = cp.asarray(zin) if 'z' in form and not np.isscalar(z) else zin
                        gw = cp.asarray(w) if 'w' in form else w
                        got = transmission_Lyman(gz, gw, use_gpu=True, model=c['model'], always_return_array=arr)
                        rec.ev()
                        if (got is None) != (want is None):
                            raise core.Violation('igm-none', f'{c["model"]} z={z} {wn}: GPU {got}, CPU {want}')
                        if want is None:
                            continue
                        g = host(got)
                        if g.shape != np.shape(want) or not np.allclose(g, want, rtol=1e-10, atol=1e-12):
                            raise core.Violation('igm', f'{c["model"]} z={z} {wn} ({form}): GPU {g.tolist()}, CPU {np.asarray(want).tolist()}')
                        if np.any(g < 1):
                            rec.nontrivial(c['model'], str(z), wn, arr)


# ---------------------------------------------------------------- scans
def pieces(g, c, tgts, tmpl, comm=None):
    from redrock.targets import DistTargetsCopy
    from redrock.templates import DistTemplate
    dt = DistTargetsCopy(tgts, comm=comm)
    kw = dict(use_gpu=True, gpu_mode=True) if g else {}
    return dt, [DistTemplate(t, dt.wavegrids(), **kw) for t in tmpl]


def mk(c):
    tg = [fix.mk_target(k, bands=c['bands'], nspec=c.get('nspec', 1), mask=m, width=c.get('width', 1), key=('c21', k), z=(0.1, 0.2, 0.05)[k % 3] if c['zr'][0] < 1 else 2.3,
                        coadd=c.get('coadd', False), use_band=c.get('names', True)) for k, m in enumerate(c['masks'])]
    tm = [fix.mk_template(ty, su, nbasis=nb, method=me, igm=igm, redshifts=np.linspace(c['zr'][0], c['zr'][1], c['nz']) if ty != 'STAR' else np.linspace(-0.002, 0.002, max(3, c['nz'])),
                          wmin=900. if c['zr'][1] > 1 and ty != 'STAR' else 2400., wmax=5600., dw=7., key=('c21', ty, su, nb)) for ty, su, nb, me, igm in c['templates']]
    return tg, tm


def worst(t, tg, zs):
    w, f = oracle.stack(tg.spectra)
    if np.sum(w) == 0:
        return 0.
    return max(oracle.optimum(oracle.design(tg.spectra, t, z), w, f, t.method)[2] for z in zs)


def run_scan(rec, c):
    from redrock.zscan import calc_zchi2_targets
    gpu()
    blocks(c['block'])
    fakecupy.schedule(c['order'])
    fakecupy.Device.mem = (2 ** 30 if c.get('low') else 2 ** 36, 2 ** 36)
    out = []
    tgs = []
    for g in (False, True):
        tg, tm = mk(c)
        with core.quiet():
            dt, dtm = pieces(g, c, tg, tm)
            if g:
                for q in dtm:
                    for k, v in q.local.data.items():
                        if kinds_of(v) != 'gpu':
                            raise core.Violation('memory', 'rebinned templates of the GPU path are not in GPU memory')
            r = calc_zchi2_targets(dt, dtm, use_gpu=g)
            if c.get('again'):              # cached device arrays of targets and templates
                r = calc_zchi2_targets(dt, dtm, use_gpu=g)
        for q in dtm:
            d = {k: host(v) for k, v in q.local.data.items()}
            out.append(d)
        tgs.append((r, tg, tm))
    n = len(tm)
    for i in range(n):
        for k in out[i]:
            if not np.allclose(out[i][k], out[n + i][k], rtol=1e-9, atol=1e-9):
                raise core.Violation('templates', f'template {i}: rebinned values differ')
    (a, tg, tm), (b, _, _) = tgs
    if sorted(a) != sorted(b):
        raise core.Violation('targets', f'{sorted(b)} on the GPU, {sorted(a)} on the CPU')
    for x in tg:
        w, f = oracle.stack(x.spectra)
        scale = float(np.sum(w * np.where(w > 0, f, 0) ** 2)) + 1e-30
        for t in tm:
            p, q = a[x.id][t.full_type], b[x.id][t.full_type]
            rec.ev()
            if not np.array_equal(p['redshifts'], q['redshifts']):
                raise core.Violation('redshifts', 'redshifts differ')
            for k in ('zchi2', 'zcoeff', 'penalty'):
                if type(q[k]) is not np.ndarray or q[k].shape != p[k].shape:
                    raise core.Violation('kind', f'{k} is {type(q[k])} {np.shape(q[k])}, expected {p[k].shape}')
            cond = worst(t, x, t.redshifts)
            if cond > 1e6:
                rec.count('illconditioned')
                continue
            if not np.allclose(p['zchi2'], q['zchi2'], rtol=1e-9, atol=1e-9 * scale):
                raise core.Violation('chi2', f'target {x.id} {t.full_type}: GPU {q["zchi2"]}, CPU {p["zchi2"]}')
            if cond < 1e4 and not np.allclose(p['zcoeff'], q['zcoeff'], rtol=1e-6, atol=1e-7 * (np.abs(p['zcoeff']).max() + 1e-12)):
                raise core.Violation('coeff', f'target {x.id} {t.full_type}: GPU {q["zcoeff"]}, CPU {p["zcoeff"]}')
            if cond < 1e4 and not np.allclose(p['penalty'], q['penalty'], rtol=1e-6, atol=1e-7 * (np.abs(p['zcoeff']).max() + 1e-12)):
                raise core.Violation('penalty', f'target {x.id} {t.full_type}: GPU {q["penalty"]}, CPU {p["penalty"]}')
            rec.nontrivial(str(c), x.id, t.full_type)
    rec.count('kernel_threads', fakecupy.STATE['threads'])
    fakecupy.STATE['threads'] = 0


# ---------------------------------------------------------------- fits
def run_fit(rec, c):
    from redrock.zfind import zfind
    gpu()
    blocks(c['block'])
    fakecupy.schedule(c['order'])
    fakecupy.Device.mem = (2 ** 36, 2 ** 36)
    res = []
    for g in (False, True):
        tg, tm = mk(c)
        rows = []
        # the same targets fitted again with other options, and on either device before
        for h in c.get('hist', []) + [{}]:
            o = dict(c, **h)
            on = g and not o.get('cpu')
            ar = None
            if o.get('arch'):
                ar = c18.archetypes(o['arch'], False, o.get('narch', 4))
            kw = dict(archetypes=ar, per_camera=o['percam'], deg_legendre=o['deg'], n_nearest=o['nn'], prior_sigma=o['prior'],
                      ncamera=len(c['bands']) if o['percam'] or True else 1) if ar else {}
            with core.quiet():
                dt, dtm = pieces(on, c, tg, tm)
                rows.append(zfind(dt, dtm, use_gpu=on, nminima=c['nmin'], zminfit_npoints=c.get('npt', 9), **kw))
        res.append(rows)
    for k, ((sa, ta), (sb, tb)) in enumerate(zip(*res)):
        rec.ev()
        if list(ta.colnames) != list(tb.colnames) or len(ta) != len(tb):
            raise core.Violation('table', f'fit {k}: {len(tb)} rows {tb.colnames} on the GPU, {len(ta)} rows {ta.colnames} on the CPU')
        skip = set()
        if 'fitmethod' in ta.colnames and 'ARCH' in np.asarray(ta['fitmethod']).astype(str):
            # archetypes whose chi2 agree to rounding (unused ones) come in either order, and either may be the best
            skip |= {'subtype', 'coeff', 'fulltype'}
            ta, tb, bad = settled(ta, tb)
            if bad:
                rec.count('undetermined', bad)
            for x, y in zip(ta, tb):
                sx, sy = str(x['subtype']).split(';'), str(y['subtype']).split(';')
                if len(sx) != len(sy):
                    raise core.Violation('fit:neighbors', f'fit {k}: {sx} on the CPU, {sy} on the GPU')
                u, v = [np.array(r['coeff'], dtype=float) for r in (x, y)]
                if x['fitmethod'] == 'ARCH':
                    p, q = [dict(zip(n, w)) for n, w in ((sx, u), (sy, v))]
                    tol = 1e-6 * max(np.abs(u).max(), np.abs(v).max()) + 1e-9
                    odd = [n for n in set(p) | set(q) if not np.isclose(p.get(n, 0), q.get(n, 0), rtol=1e-4, atol=tol)]
                    u, v = u[len(sx):], v[len(sy):]
                else:
                    odd = [n for n in [0] if sx != sy]
                    tol = 1e-6 * np.abs(u).max() + 1e-9
                if odd or not np.allclose(u, v, rtol=1e-5, atol=tol):
                    raise core.Violation('fit:coeff', f'fit {k} target {x["targetid"]}: GPU {sy} {y["coeff"]}, CPU {sx} {x["coeff"]}')
        for name in ta.colnames:
            if name in skip:
                continue
            x, y = np.asarray(ta[name]), np.asarray(tb[name])
            if x.dtype.kind in 'SU':
                ok = x.astype(str).tolist() == y.astype(str).tolist()
            else:
                s = np.abs(np.where(np.isfinite(x), x, 0)).max() if x.size else 0
                # relative to the smallest detail that the fits determine
                ok = x.shape == y.shape and np.allclose(x, y, rtol=1e-5, atol=1e-6 * s + 1e-9, equal_nan=True)
            if not ok:
                raise core.Violation(f'fit:{name}', f'fit {k} {c.get("hist")}: column {name}: GPU {y.tolist()}, CPU {x.tolist()}')
        rec.nontrivial(str(c), k)
    rec.count('kernel_threads', fakecupy.STATE['threads'])
    fakecupy.STATE['threads'] = 0


def settled(ta, tb):
    """Rows of the targets whose flags and order do not hang on a rounding error."""
    bad = set()
    for t in (ta, tb):
        last = None
        for r in t:
            v = np.array(r['coeff'])
            if r['fitmethod'] == 'ARCH' and np.any((v != 0) & (np.abs(v) < 1e-9 * np.abs(v).max()) | (np.abs(v) > 1e3)):
                bad.add(int(r['targetid']))
            if last is not None and last['targetid'] == r['targetid'] and abs(last['chi2'] - r['chi2']) <= 1e-9 * abs(r['chi2']):
                bad.add(int(r['targetid']))
            last = r
    keep = [~np.isin(np.asarray(t['targetid']), sorted(bad)) for t in (ta, tb)]
    return ta[keep[0]], tb[keep[1]], len(bad)


# ---------------------------------------------------------------- archetype range
def run_range(rec, c):
    """Archetypes on wavelengths near the ends of their range, at every redshift: values or refusal."""
    from redrock.rebin import centers2edges
    cp = gpu()
    blocks(512)
    fakecupy.schedule('fwd')
    a = c18.archetypes('G', c['loglam'])['GALAXY']
    lo, hi = a.wave[0], a.wave[-1]
    for z in c['z']:
        for s in (lo * (1 + z) - 400, lo * (1 + z) - 20, lo * (1 + z) + 30, lo + 30, (lo + hi) / 2, hi * (1 + z) - 230, hi * (1 + z) - 180, hi - 150, hi - 230):
            w = s + 20. * np.arange(11)
            if w[0] < 50:
                continue
            with rec.case(dict(c, z=[z], start=s)):
                want = attempt(lambda: a.rebin_template_batch(z, dict(q=w))['q'])
                e = centers2edges(w)
                for form in ('tuple', 'array'):
                    ed = cp.asarray(e)
                    got = attempt(lambda: a.rebin_template_batch(z, dict(q=w), dedges=dict(q=(ed, e[0], e[-1]) if form == 'tuple' else ed), use_gpu=True)['q'])
                    rec.ev()
                    rec.outcome(want[0])
                    if got[0] != want[0]:
                        raise core.Violation('range', f'z={z} wavelengths {w[0]:.1f}-{w[-1]:.1f}, archetypes {lo}-{hi}: GPU {got[0]}, CPU {want[0]}')
                    if got[0] == 'ok' and not np.allclose(host(got[1]), want[1], rtol=1e-9, atol=1e-9):
                        raise core.Violation('archetype', f'z={z} {w[0]}: values differ')
                    rec.nontrivial(c['loglam'], z, s)


# ---------------------------------------------------------------- the command
def run_cmd(rec, c):
    from mc import fakempi
    import redrock.external.desi as D
    with tempfile.TemporaryDirectory(prefix='c21') as d:
        b = c14.prepare(dict(tmpl=c['tmpl'], arch=c.get('arch'), opts=c.get('opts', ())), d)
        rows = [dict(t=t, e=e) for t in c['ids'] for e in range(1 + (t % 3 == 0) * (not c['coadded']))]
        paths = c14.write_inputs([dict(rows=rows)], c['coadded'], d + '/in')
        v = dict(out='do' if not c.get('arch') else 'o')
        o = c14.options(b, v, d, paths, d + '/ref') + ['--mp', '1']
        import sys
        sys.modules.pop('cupy', None)
        with core.quiet():
            D.rrdesi(options=o)
        ref = c14.read(d + '/ref', v)
        gpu(ndev=c.get('ndev', 1), ids=(lambda: '0000:%02d' % (FakeRank.rank % max(1, c['ndev']))) if 'ndev' in c else None, available=not c.get('absent'))
        o = c14.options(b, v, d, paths, d + '/out') + ['--gpu']
        if c.get('max') is not None:
            o += ['--max-gpuprocs', str(c['max'])]
        refused = None

        def go(comm=None):
            if comm is not None:
                FakeRank.rank = comm.rank
            before = fakecupy.STATE['launches']
            with core.quiet():
                D.rrdesi(options=list(o), comm=comm)
            return fakecupy.STATE['launches'] - before
        n = c.get('ranks', 0)
        if n:
            try:
                res, s = fakempi.run_ranks(n, go, mode=c.get('mode', 'eager'), order=c.get('sched', 'asc'), timeout=200, allow_exc=bool(c.get('absent')))
            except core.Violation as e:
                raise
            if s.aborted is not None or any(r is None or r[0] != 'ok' or r[1] is None for r in res):
                refused = str(s.aborted)
            used = [r[1] > 0 for r in res if r is not None and r[0] == 'ok' and r[1] is not None]
            rec.trans(s.ops)
        else:
            o += ['--mp', str(c.get('mp', 1))]
            try:
                used = [go() > 0]
            except SystemExit as e:
                refused = f'exit {e.code}'
                if not e.code:
                    raise core.Violation('status', 'exit with status 0')
        rec.ev()
        if c.get('absent'):
            if refused is None:
                raise core.Violation('absent', '--gpu without a GPU is accepted')
            if os.path.exists(d + '/out') and os.listdir(d + '/out'):
                raise core.Violation('absent-files', str(os.listdir(d + '/out')))
            rec.nontrivial(str(c))
            return
        if refused is not None:
            raise core.Violation('refused', f'--gpu fails: {refused}')
        got = c14.read(d + '/out', v)
        if 'scan' in ref:
            fix.compare_scan(got['scan'], ref['scan'], 'gpu', rtol=1e-5, atol=1e-5)
        for k in ref:
            if k in ('scan',) or not hasattr(ref[k], 'colnames'):
                continue
            if len(ref[k]) != len(got[k]):
                raise core.Violation('rows', f'{k}: {len(got[k])} rows, {len(ref[k])} on the CPU')
            for name in ref[k].colnames:
                x, y = np.asarray(ref[k][name]), np.asarray(got[k][name])
                if x.dtype.kind in 'SU':
                    ok = x.astype(str).tolist() == y.astype(str).tolist()
                elif x.dtype.kind in 'fiub':
                    ok = np.allclose(x, y, rtol=1e-4, atol=1e-5 * (np.abs(np.where(np.isfinite(x), x, 0)).max() if x.size else 0) + 1e-9, equal_nan=True)
                else:
                    continue
                if not ok:
                    raise core.Violation(f'cmd:{name}', f'column {name}: GPU {y.tolist()}, CPU {x.tolist()}')
        # GPUs that are there are used, and no more than allowed
        lim = c['max'] if c.get('max') is not None else (c.get('ndev', 1) if not n else min(c.get('ndev', n), n))
        if sum(used) > max(lim, 0) or (lim > 0 and not any(used)):
            raise core.Violation('used', f'{sum(used)} processes used a GPU, {lim} available')
        rec.nontrivial(str(c))


class FakeRank:
    rank = 0


def dispatch(rec, c):
    with rec.case(c):
        try:
            dict(rebin=run_rebin, prod=run_prod, igm=run_igm, scan=run_scan, fit=run_fit, range=run_range, cmd=run_cmd)[c['kind']](rec, c)
        except fakecupy.KernelFault as e:
            raise core.Violation('kernel', str(e))
        except fakecupy.Unsupported as e:
            raise core.Skip(str(e))


def make():
    return core.Check('C21', 'exploration',
        rule='GPU and CPU paths on the same inputs: every set of bin edges over a candidate set, every shape and every order of the threads of a sum, every ordering of redshifts, and combinations of templates, masks, archetype options, histories and MPI ranks; every access of a kernel is bounds-checked; non-trivial: results actually compared',
        assumptions=['no GPU: the real CUDA kernel text is compiled as C++ and its threads are run one after the other in several orders', 'cupy is a stand-in that refuses implicit conversion', 'values are compared for condition numbers below 1e6'],
        explanation='bounded-exhaustive differential exploration of the GPU implementation under a controlled thread scheduler against the CPU implementation')


def run(ck):
    T = ck.thorough
    items = []
    q = 0
    for x in XG:
        for z in ZS:
            for nb in (0, 1, 2, 3):
                if x == 'fine' and z not in ('none', 'one', 'zero'):
                    continue
                q += 1
                items.append(dict(kind='rebin', x=x, z=z, nb=nb, k=[2, 3] if not T else [2, 3, 4], npts=9 if not T else 11, forms=['', 'etxz'] if q % 2 or not T else ['', 'e', 'et', 'x', 'z', 'etxz'],
                                  block=(512, 32, 1, 64)[q % 4], order=fakecupy.ORDERS[q // 2 % 4]))
    perms = [('fwd', list(p)) for p in itertools.permutations(range(4))]
    sched = [(o, None) for o in fakecupy.ORDERS] + perms
    for nc in (1, 2, 3, 4):
        items.append(dict(kind='prod', nz=[1, 2, 3], nr=[1, 2, 3, 4, 5, 7, 8, 9], nc=[nc], sched=sched, blocks=[4, 64] if not T else [4, 8, 32, 64, 256, 512]))
    items.append(dict(kind='prod', nz=[1, 5, 130], nr=[3, 63, 64, 65, 127, 130], nc=[1, 2], sched=[(o, None) for o in fakecupy.ORDERS], blocks=[64, 512]))
    items.append(dict(kind='prod', nz=[513, 600], nr=[5], nc=[2], sched=[('fwd', None), ('lane', None)], blocks=[512]))
    for m in ('None', 'Inoue14', 'Calura12', 'Kamble20'):
        items.append(dict(kind='igm', model=m, zz=[0.1, 1.9, 2.6, 3.5, 6.0], len=[1, 2] if not T else [1, 2, 3], scalar=True))
        items.append(dict(kind='igm', model=m, zz=[2.0, 4.7, 1.2, 3.0], len=[3], scalar=False))
    G3, G1, Q2, QN, S2, SN = ('GALAXY', '', 3, 'PCA', 'None'), ('GALAXY', '', 1, 'PCA', 'None'), ('QSO', 'HIZ', 2, 'PCA', 'Inoue14'), ('QSO', 'LOZ', 3, 'NMF', 'Calura12'), ('STAR', 'A', 2, 'PCA', 'None'), ('STAR', 'B', 1, 'NMF', 'None')
    msets = [['none', 'some', 'all', 'band0'], ['few', 'none'], ['all'], ['band0', 'all', 'some']]
    for j, (tm, zr) in enumerate([([G3], (0., .3)), ([G1, S2], (0., .2)), ([Q2], (2.1, 2.6)), ([QN], (2.2, 2.7)), ([QN, Q2, G3], (0.1, 0.4)), ([SN], (0., .1)), ([('GALAXY', 'X', 5, 'NMF', 'Inoue14')], (2., 2.2))]):
        for b in ('b', 'br', 'zrb', 'rb'):
            for ms in msets:
                q += 1
                if not T and q % 2 and ms != msets[0]:
                    continue
                items.append(dict(kind='scan', templates=tm, zr=zr, nz=(1, 3, 6)[q % 3], bands=b, masks=ms, nspec=1 + q % 2, coadd=q % 4 == 1, width=q % 3, block=(512, 64, 1024)[q % 3],
                                  order=fakecupy.ORDERS[q % 4], low=q % 5 == 0, again=q % 3 == 0))
    base = dict(kind='fit', bands='br', zr=(0., .3), nz=6, templates=[G3], masks=['none', 'some', 'all', 'band0'], nmin=3, block=512, order='fwd')
    for tm, zr in (([G3], (0., .3)), ([G3, Q2, S2], (0.0, 0.3)), ([Q2, QN], (2.1, 2.6)), ([QN], (0., .3)), ([S2, SN], (0., .1))):
        for b in ('b', 'br', 'zrb'):
            for nm in (1, 3):
                q += 1
                items.append(dict(base, templates=tm, zr=zr, bands=b, nmin=nm, order=fakecupy.ORDERS[q % 4], block=(512, 64)[q % 2], nspec=1 + q % 2, npt=(5, 9, 15)[q % 3]))
    # archetypes
    for b in ('b', 'rb', 'zrb') if T else ('rb', 'zrb'):
        for d in (0, 1, 2, 3) if T else (0, 1, 2):
            for p, s in ((True, None), (True, 0.1), (False, None)):
                for nn in (None, 2, 9):
                    q += 1
                    if not T and q % 2 and d:
                        continue
                    items.append(dict(base, bands=b, arch='G', deg=d, percam=p, prior=s, nn=nn, nmin=2, masks=['none', 'some', 'band0'] if s else ['none', 'some'], narch=(4, 1, 6)[q % 3] if nn != 9 else 4))
    items.append(dict(base, templates=[Q2, G3], zr=(2.2, 2.6), bands='br', arch='GQ', deg=1, percam=True, prior=0.1, nn=2, nmin=2, masks=['none', 'some']))
    items.append(dict(base, templates=[QN, S2], zr=(2.2, 2.6), bands='br', arch='Q', deg=2, percam=False, prior=None, nn=None, nmin=2, masks=['none', 'some']))
    modes = [dict(deg=d, percam=p, prior=None, nn=nn, cpu=cpu) for d in (0, 1, 2) for p, nn in ((True, 2), (False, None)) for cpu in (False, True)]
    for h in itertools.product(modes, repeat=2):
        q += 1
        if h[-1]['cpu'] or h[0]['deg'] == h[1]['deg'] and not h[0]['cpu']:
            continue
        items.append(dict(base, masks=['none'], arch='G', nmin=1, narch=3, hist=list(h[:-1]), **h[-1]))
    if T:
        for h in itertools.product(modes, repeat=3):
            if h[-1]['cpu'] or len({m['deg'] for m in h}) < 2 or not any(m['cpu'] for m in h):
                continue
            items.append(dict(base, masks=['none'], arch='G', nmin=1, narch=3, hist=list(h[:-1]), **h[-1]))
    for ll in (True, False):
        items.append(dict(kind='range', loglam=ll, z=[0., 0.1, 0.5, 1.5]))
    # the command
    for tmpl, arch, opts in (('GQS', None, ()), ('GL', None, ()), ('G', 'G', ()), ('G', 'G', ('--archetype-legendre-degree', '0'))):
        for n in (0, 1, 2, 3, 4):
            for mx in (None, 1, 2, 4) if n else (None, 1):
                q += 1
                if not T and q % 2 and arch:
                    continue
                items.append(dict(kind='cmd', tmpl=tmpl, arch=arch, opts=opts, ids=[5, 6, 9, 12, 7], coadded=bool(q % 2), ranks=n, max=mx, ndev=(1, 2, 3)[q % 3], mode=('eager', 'sync')[q % 2], sched=('asc', 'desc')[q // 2 % 2], mp=1 + q % 3))
    for n in (0, 2):
        items.append(dict(kind='cmd', tmpl='G', ids=[5, 6], coadded=True, ranks=n, max=None, absent=True))
        items.append(dict(kind='cmd', tmpl='G', ids=[5, 6], coadded=True, ranks=n, max=1, absent=True))
    core.pmap(items, dispatch, ck, timeout=800)


def replay(rec, case):
    c = dict(case)
    for k in ('edges', 'zone', 'wave', 'start'):
        c.pop(k, None)
    if 'sched' in c and c['kind'] == 'prod':
        c['sched'] = [tuple(s) for s in c['sched']]
    dispatch(rec, c)
