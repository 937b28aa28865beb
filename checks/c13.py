"""C13: every DESI target gets exactly its own spectra."""
import itertools, os, tempfile
import numpy as np
from mc import core, fix, files, fakempi

IDS = [39627000000000005, 39627000000000006, 2305843009213693952 + 11, 12]
BAND = dict(b='b', r='r', z='z')


def expected_ids(c):
    """Ids in reading order, or None if the selection has to be refused."""
    out = []
    for f in c['files']:
        if c.get('ids') is not None:
            keep = list(c['ids'])
        else:
            keep = []
            for r in f['rows']:
                if r['t'] not in keep:
                    keep.append(r['t'])
        a = c.get('first') or 0
        n = c['n'] if c.get('n') is not None else max(len(keep) - a, 0)
        if a > len(keep) or a + n > len(keep):
            return None
        out += keep[a:a + n]
    ids = list(dict.fromkeys(out))
    have = {r['t'] for f in c['files'] for r in f['rows']}
    if any(i not in have for i in ids):
        return None
    return ids


def mean(specs):
    W = sum(s[3] for s in specs)
    F = sum(s[3] * s[2] for s in specs)
    R = sum(s[3][:, None] * s[4] for s in specs)
    ok = W > 0
    f = np.where(ok, F / np.where(ok, W, 1), 0)
    R = np.where(ok[:, None], R / np.where(ok, W, 1)[:, None], 0)
    return W, f, R


def check_target(rec, c, t):
    exp = files.desi_expected(considered(c), int(t.id), c.get('neg', 5.))
    if c['coadd']:
        bands = list(dict.fromkeys(x[0] for x in exp))
        if sorted(s.wavehash for s in t.spectra) != sorted(bands):
            raise core.Violation('coadd-bands', f'target {t.id}: coadds {[s.wavehash for s in t.spectra]} of {bands}')
        groups = [(s, [x for x in exp if x[0] == s.wavehash]) for s in t.spectra]
    else:
        if len(t.spectra) != len(exp):
            raise core.Violation('count', f'target {t.id}: {len(t.spectra)} spectra of {len(exp)} rows')
        # spectra of a target are not ordered: match by content
        left = list(exp)
        groups = []
        for s in t.spectra:
            m = [x for x in left if x[0] == s.wavehash and np.array_equal(x[2], s.flux)]
            if not m:
                raise core.Violation('flux', f'target {t.id}: a {s.wavehash} spectrum is not one of its own rows')
            k = [x for x in m if np.array_equal(x[3], s.ivar)] or m
            left.remove(k[0]) if False else left.pop(next(i for i, x in enumerate(left) if x is k[0]))
            groups.append((s, [k[0]]))
    for s, g in groups:
        rec.ev()
        tag = f'target {t.id} band {s.wavehash}:'
        if not np.array_equal(s.wave, g[0][1]):
            raise core.Violation('wave', f'{tag} wavelengths')
        if len(g) == 1:
            W, f, R = g[0][3], g[0][2], g[0][4]
        else:
            W, f, R = mean(g)
        if not np.allclose(s.ivar, W, rtol=1e-12, atol=0):
            k = int(np.argmax(np.abs(s.ivar - W)))
            raise core.Violation('ivar', f'{tag} weight {s.ivar[k]} of pixel {k}, expected {W[k]}')
        ok = W > 0
        if not np.allclose(s.flux[ok], f[ok], rtol=1e-12, atol=1e-12) or not np.all(np.isfinite(s.flux)):
            raise core.Violation('flux', f'{tag} flux')
        A = s.R.toarray()
        ok2 = ok if c['coadd'] else np.ones(len(W), bool)
        if not np.allclose(A[ok2], R[ok2], rtol=1e-10, atol=1e-13):
            raise core.Violation('R', f'{tag} resolution differs by {np.abs(A[ok2] - R[ok2]).max()}')
        if s._Rcsr is not None and not np.allclose(s._Rcsr.toarray(), A, rtol=1e-12, atol=1e-14):
            raise core.Violation('Rcsr', f'{tag} cached resolution')
        if c.get('csr') and s._Rcsr is None:
            raise core.Violation('Rcsr', f'{tag} resolution not cached')
        rec.nontrivial(len(c['files']), c['coadd'], int(t.id) % 97, s.wavehash, len(g), round(float(W.sum()), 3))


def check_tables(rec, c, dt, ids, coadded):
    rec.ev()
    if [int(i) for i in dt.all_target_ids] != ids:
        raise core.Violation('ids', f'targets {list(dt.all_target_ids)}, expected {ids}')
    for name, tab in (('fibermap', dt.fibermap), ('tsnr2', dt.tsnr2)):
        if [int(i) for i in tab['TARGETID']] != ids:
            raise core.Violation(name, f'{name} has targets {[int(i) for i in tab["TARGETID"]]}, fitted are {ids}')
    rows = {i: [(f, r) for f in considered(c) for r in f['rows'] if r['t'] == i] for i in ids}
    for i, fm, ts in zip(ids, dt.fibermap, dt.tsnr2):
        r = rows[i]
        if not np.isclose(fm['TARGET_RA'], 10. + (i % 1000) * 0.01) or fm['FLUX_R'] != np.float32((i % 977) * 1.5) or fm['DESI_TARGET'] != i % 8191 or fm['OBJTYPE'] != r[0][1].get('obj', 'TGT'):
            raise core.Violation('metadata', f'target {i}: row {dict(zip(fm.colnames, fm))}')
        want = sum(np.float32((i % 101) * 2. + (0 if coadded else x['e'])) for _, x in r)
        if not np.isclose(ts['TSNR2_ELG_B'], want, rtol=1e-5):
            raise core.Violation('tsnr2', f'target {i}: TSNR2 {ts["TSNR2_ELG_B"]}, own rows give {want}')
        st = [x.get('status', 0) for _, x in r]
        if len(set(st)) == 1 and fm['COADD_FIBERSTATUS'] != st[0]:
            raise core.Violation('status', f'target {i}: status {fm["COADD_FIBERSTATUS"]} of {st}')
        if coadded and fm['COADD_FIBERSTATUS'] != np.bitwise_and.reduce(st):
            raise core.Violation('status', f'target {i}: status {fm["COADD_FIBERSTATUS"]} of the coadds {st}')
        if 'TILEID' in dt.fibermap.colnames and fm['TILEID'] not in [x.get('tile', 100) for _, x in r]:
            raise core.Violation('tile', f'target {i}: tile {fm["TILEID"]}')
    # per-exposure table: all rows of the selected targets, in file order
    sel = set(ids)
    want = []
    for f in c['files']:
        keep = sel_in_file(c, f)
        for r in f['rows']:
            if r['t'] in keep:
                want += [(r['t'], r['e'])] if not coadded else [(r['t'], 0), (r['t'], 1)]
    got = [(int(a), int(b) - 5000) for a, b in zip(dt.exp_fibermap['TARGETID'], dt.exp_fibermap['EXPID'])]
    if sorted(got) != sorted(want):
        raise core.Violation('exp_fibermap', f'exposures {got}, expected {want}')


def considered(c):
    """The files with the rows of the targets that the selection considers in each."""
    out = []
    for f in c['files']:
        keep = sel_in_file(c, f)
        out.append(dict(f, rows=[r for r in f['rows'] if r['t'] in keep]))
    return out


def sel_in_file(c, f):
    ids = list(c['ids']) if c.get('ids') is not None else list(dict.fromkeys(r['t'] for r in f['rows']))
    a = c.get('first') or 0
    n = c['n'] if c.get('n') is not None else len(ids)
    return ids[a:a + n]


def reader(c, paths, comm=None):
    from redrock.external.desi import DistTargetsDESI
    with core.quiet():
        return DistTargetsDESI(paths, coadd=c['coadd'], targetids=None if c.get('ids') is None else list(c['ids']), first_target=c.get('first'), n_target=c.get('n'), comm=comm,
                               cache_Rcsr=c.get('csr', False), negflux_nsig=c.get('neg', 5.), capacities=c.get('cap'), **({'cosmics_nsig': c['cosmics']} if c.get('cosmics') else {}))


def write(c, d):
    paths = []
    for k, f in enumerate(c['files']):
        p = os.path.join(d, f'{"coadd" if c["coadded"] else "spectra"}-{k}.fits')
        with core.quiet():
            files.write_desi(p, f['rows'], c['coadded'], bands=f.get('bands', 'brz'), masks=f.get('masks', True), offset=f.get('offset', 0.), order=f.get('order'))
        paths.append(p)
    return paths


def run_read(rec, c):
    ids = expected_ids(c)
    with tempfile.TemporaryDirectory(prefix='c13') as d:
        paths = write(c, d)
        if c.get('ranks', 1) == 1:
            try:
                dt = reader(c, paths)
            except Exception as e:
                if ids is None:
                    rec.outcome('refused')
                    rec.ev()
                    return
                raise
            if ids is None:
                raise core.Violation('accepted', f'selection accepted with targets {list(dt.all_target_ids)}')
            check_tables(rec, c, dt, ids, c['coadded'])
            loc = dt.local()
            if sorted(int(t.id) for t in loc) != sorted(ids) or [int(t.id) for t in loc] != [int(i) for i in dt.local_target_ids()]:
                raise core.Violation('local', f'local targets {[int(t.id) for t in loc]} of {ids}')
            for t in loc:
                check_target(rec, c, t)
        else:
            sub = core.Rec() if False else rec

            def body(comm):
                dt = reader(c, paths, comm)
                check_tables(sub, c, dt, ids, c['coadded'])
                loc = dt.local()
                if [int(t.id) for t in loc] != [int(i) for i in dt.local_target_ids()]:
                    raise core.Violation('local', f'rank {comm.rank}: {[int(t.id) for t in loc]}')
                for t in loc:
                    check_target(sub, c, t)
                return [int(t.id) for t in loc], sorted(dt.wavegrids())
            res, sched = fakempi.run_ranks(c['ranks'], body)
            for r in res:
                if r[0] != 'ok':
                    raise core.Violation('rank', f'{r[1]}')
            got = [i for r in res for i in r[1][0]]
            rec.ev(len(got))
            if sorted(got) != sorted(ids):
                raise core.Violation('partition', f'{c["ranks"]} ranks have {[r[1][0] for r in res]}, targets {ids}')
            if not c.get('cap'):            # balanced by the number of spectra to fit
                n = {i: sum(r['t'] == i for f in considered(c) for r in f['rows']) if not c['coadd'] else 1 for i in ids}
                share = [[n[i] for i in r[1][0]] for r in res]
                if any(x and sum(x) - min(x) > sum(y) for x in share for y in share):
                    raise core.Violation('balance', f'spectra of the targets of each rank: {share}')
            rec.nontrivial('mpi', c['ranks'], len(ids), c['coadd'])


def run_cosmics(rec, c):
    """The rejection threshold reaches the coadd."""
    from redrock.targets import Spectrum, Target
    from scipy.sparse import dia_matrix
    with tempfile.TemporaryDirectory(prefix='c13') as d:
        paths = write(c, d)
        dt = reader(c, paths)
        for t in dt.local():
            sp = [Spectrum(w.copy(), f.copy(), iv.copy(), dia_matrix(R) if False else fix_dia(R), None, band=b) for b, w, f, iv, R in files.desi_expected(c['files'], int(t.id))]
            r = Target(t.id, sp, coadd=False)
            with core.quiet():
                r.compute_coadd(False, cosmics_nsig=c['cosmics'])
            for s in t.spectra:
                q = [x for x in r.spectra if x.wavehash == s.wavehash][0]
                rec.ev()
                if not np.allclose(q.ivar, s.ivar, rtol=1e-10) or not np.allclose(q.flux, s.flux, rtol=1e-10, atol=1e-12):
                    raise core.Violation('cosmics', f'target {t.id} {s.wavehash}: coadd with rejection threshold {c["cosmics"]} differs')
                rec.nontrivial('cosmics', c['cosmics'], s.wavehash)


def fix_dia(R):
    n = len(R)
    off = np.arange(2, -3, -1)
    data = np.zeros((5, n))
    for k, o in enumerate(off):
        dg = np.diagonal(R, o)
        if o >= 0:
            data[k, o:o + len(dg)] = dg
        else:
            data[k, :len(dg)] = dg
    from scipy.sparse import dia_matrix
    return dia_matrix((data, off), shape=(n, n))


def run_many(rec, c):
    """More rows than fit into one broadcast of the resolution."""
    from astropy.io import fits
    from astropy.table import Table
    from redrock.external.desi import DistTargetsDESI
    n = c['nrows']
    with tempfile.TemporaryDirectory(prefix='c13') as d:
        p = os.path.join(d, 'spectra.fits')
        nt = 20
        tid = (np.arange(n, dtype=np.int64) * 7 + np.arange(n) // 11) % nt * 3 + 1
        fm = Table(dict(TARGETID=tid, OBJTYPE=np.array(['TGT'] * n), FIBERSTATUS=np.zeros(n, np.int32), TILEID=np.ones(n, np.int32), EXPID=np.arange(n, dtype=np.int32)))
        sc = Table(dict(TARGETID=tid, TSNR2_ELG_B=np.arange(n, dtype=np.float32)))
        hx = fits.HDUList([fits.PrimaryHDU()])
        for nm, t in (('FIBERMAP', fm), ('SCORES', sc)):
            t.meta['EXTNAME'] = nm
            hx.append(fits.table_to_hdu(t))
        w = np.arange(4) * 10. + 4000
        F = (np.arange(n)[:, None] + np.arange(4) / 10.).astype('f4')
        R = np.zeros((n, 3, 4), 'f4')
        R[:, 1] = 1 + np.arange(n)[:, None]
        for nm, a in (('WAVELENGTH', w), ('FLUX', F), ('IVAR', F * 0 + 1 + F / 2), ('RESOLUTION', R)):
            hx.append(fits.ImageHDU(a, name='B_' + nm))
        hx.writeto(p)
        sel = [int(t) for t in np.unique(tid)]
        if c['sel']:
            sel = sel[2:-1]

        def body(comm):
            with core.quiet():
                dt = DistTargetsDESI([p], coadd=False, comm=comm, targetids=sel if c['sel'] else None)
            for t in dt.local():
                rows = np.where(tid == t.id)[0]
                if len(t.spectra) != len(rows):
                    raise core.Violation('many', f'target {t.id}: {len(t.spectra)} spectra of {len(rows)}')
                for i, s in zip(rows, t.spectra):
                    if not np.array_equal(s.flux, F[i].astype(float)) or not np.allclose(s.ivar, 1 + F[i] / 2) or not np.array_equal(s.R.data, R[i].astype(float)):
                        raise core.Violation('many', f'row {i} of {n}: spectrum of another row')
            return [int(t.id) for t in dt.local()]
        res, _ = fakempi.run_ranks(c['ranks'], body)
        if any(r[0] != 'ok' for r in res):
            raise core.Violation('many', f'{[r for r in res if r[0] != "ok"][0][1]}')
        got = sorted(i for r in res for i in r[1])
        rec.ev(len(got))
        if got != sel:
            raise core.Violation('many', f'targets {got} of {sel}')
        rec.nontrivial('many', n, c['ranks'])


def dispatch(rec, c):
    with rec.case(c):
        dict(read=run_read, cosmics=run_cosmics, many=run_many)[c['kind']](rec, c)


def make():
    return core.Check('C13', 'exploration',
        rule='every row order of up to 3-4 rows in one file and of 1-2 rows in each of two files, every ordered selection by id, every range, each with coadded and uncoadded inputs, with and without coaddition, masks present for all, some or no bands, invalid and negative fluxes, 1-4 ranks with and without capacities; non-trivial: distinct (target, band, weight) spectra compared',
        assumptions=['files with the columns of DESI fibermaps needed by coadd_fibermap', 'desispec.coadd_fibermap and compute_coadd_tsnr_scores are outside the code under test'],
        explanation='bounded-exhaustive enumeration of input files and selections through the real reader; the content of every spectrum is a pure function of target, exposure and band and is recomputed independently')


def run(ck):
    T = ck.thorough
    I = IDS
    modes = ['ok', 'nan', 'neg', 'dead', 'masked']
    items = []
    j = 0

    def row(t, e, k=0):
        return dict(t=t, e=e, mode=modes[(k + e) % 5], status=(0, 0, 1 << 9, 1 << 8)[(t + 0) % 4], obj='SKY' if t == 12 else 'TGT')

    def number(seq, k=0):
        n = {}
        out = []
        for t in seq:
            n[t] = n.get(t, -1) + 1
            out.append(row(t, n[t], k + len(out)))
        return out

    def add(fs, coadded, **kw):
        nonlocal j
        j += 1
        c = dict(kind='read', files=fs, coadded=coadded, coadd=bool((j * 2654435761 >> 9) & 1), csr=bool(j % 3), neg=(5., 2., 5., 90.)[(j * 48271 >> 6) % 4])
        c.update(kw)
        items.append(c)
    MK = [True, False, 'b', 'rz', 'z', 'br']
    BO = [None, 'zrb', 'rb', 'z']
    # one file, all row orders
    for L in (1, 2, 3, 4):
        for seq in itertools.product(range(3), repeat=L):
            if L == 4 and not T and (sum(seq) + seq[0]) % 3:
                continue
            fs = [dict(rows=number([I[k] for k in seq], j), masks=MK[(j * 40503 >> 5) % 6], bands='brz', order=None)]
            if BO[j % 4]:
                fs[0]['order'] = BO[j % 4]
            for coadd in ((True, False) if T or L < 4 else (bool(j % 2),)):
                add(fs, False, coadd=coadd)
            if len(set(seq)) == L:
                for coadd in (True, False):
                    add(fs, True, coadd=coadd)
    # selections
    base = [0, 1, 0, 2]
    for coadded in (True, False):
        seq = [2, 0, 1] if coadded else base
        fs = [dict(rows=number([I[k] for k in seq]))]
        for L in (1, 2, 3):
            for sel in itertools.permutations([I[0], I[1], I[2], 999], L):
                add(fs, coadded, ids=list(sel))
        for sel in ([I[0], I[0]], [I[1], I[0], I[1]]):
            add(fs, coadded, ids=sel)
        for a in (None, 0, 1, 2, 3, 4):
            for n in (None, 0, 1, 2, 3, 4):
                if n == 0 or a == 3:
                    continue
                add(fs, coadded, first=a, n=n)
                add(fs, coadded, first=a, n=n, ids=[I[2], I[1], I[0]])
    # two files
    for s1 in [s for L in (1, 2) for s in itertools.product(range(3), repeat=L)]:
        for s2 in [s for L in (1, 2) for s in itertools.product(range(3), repeat=L)]:
            for coadded in (True, False):
                if coadded and (len(set(s1)) < len(s1) or len(set(s2)) < len(s2)):
                    continue
                if not T and (sum(s1) + 2 * sum(s2) + len(s1) + coadded) % 2:
                    continue
                e2 = [dict(r, e=r['e'] + 4) for r in number([I[k] for k in s2], 2)]
                fs = [dict(rows=number([I[k] for k in s1]), masks=MK[(j * 40503 >> 5) % 6]), dict(rows=e2, masks=MK[(j * 40503 >> 9) % 6])]
                if j % 5 == 0:
                    fs[1]['order'] = 'zb'
                add(fs, coadded)
                if j % 3 == 0:
                    add(fs, coadded, ids=[I[1], I[0]])
                    add(fs, coadded, ids=[I[0], I[2]])
    # tiles of the exposures, of one file and of two
    for L in (2, 3):
        for tiles in itertools.product((100, 101), repeat=L):
            rows = [dict(r, tile=t) for r, t in zip(number([I[0], I[1], I[0]][:L]), tiles)]
            add([dict(rows=rows)], False)
            for t2 in itertools.product((100, 101), repeat=2):
                e2 = [dict(r, e=r['e'] + 4, tile=t) for r, t in zip(number([I[1], I[2]], 2), t2)]
                add([dict(rows=rows), dict(rows=e2)], False, ranks=2 if (j & 3) == 3 else 1)
    # status bits of a target in several coadds; bands which only some files have
    for s1 in (0, 1 << 9, 1 << 8, (1 << 9) | (1 << 8)):
        for s2 in (0, 1 << 9, 1 << 8, (1 << 9) | (1 << 8)):
            add([dict(rows=[dict(t=I[0], e=0, status=s1), dict(t=I[1], e=0, status=1 << 9)]), dict(rows=[dict(t=I[0], e=4, status=s2)], order='bn')], True)
    for o1, o2 in itertools.product(('bn', 'n', 'nzb', 'brzn'), (None, 'b', 'nb')):
        for coadded in (True, False):
            fs = [dict(rows=number([I[0], I[1]] if coadded else [I[1], I[0], I[1]]), order=o1)]
            if o2:
                fs.append(dict(rows=[dict(r, e=4) for r in number([I[1]])], order=o2))
            add(fs, coadded, ids=[I[1], I[0]] if j % 3 == 0 and not o2 else None)
    # ranges are of the targets of each file
    for q, (s1, s2) in enumerate(itertools.product([(0, 1, 2), (1, 0), (0, 1, 0, 2)], [(0, 1, 2), (2, 1, 0), (1, 2), (2, 0, 2, 1)])):
        for a, n in itertools.product((None, 0, 1, 2), (None, 1, 2, 3)):
            coadded = len(set(s1)) == len(s1) and len(set(s2)) == len(s2) and q % 2 == 0
            if a is None and n is None or not T and (q + (a or 0) + (n or 0)) % 2:
                continue
            e2 = [dict(r, e=r['e'] + 4) for r in number([I[k] for k in s2], 2)]
            add([dict(rows=number([I[k] for k in s1])), dict(rows=e2)], coadded, first=a, n=n, coadd=bool((q + (n or 0)) % 3))
    f3 = [dict(rows=[row(I[k], 0)], bands='brz', order=o) for k, o in ((0, 'b'), (0, 'r'), (1, 'b'), (0, 'z'), (1, 'r'))]
    for p in itertools.permutations(range(5), 5 if T else 3):
        add([f3[k] for k in p], False)
    # ranks
    for ranks in (2, 3, 4):
        for seqs in (([0, 1, 2],), ([2, 0, 0, 1],), ([0],), ([0, 1], [1, 2, 1]), ([3, 1, 0, 2],), ([0, 0, 0, 0, 1, 2], [0, 1, 2])):
            for coadd in (True, False):
                for cap in (None, [1] + [0.0001] * (ranks - 1), [1. + k for k in range(ranks)]):
                    coadded = all(len(set(s)) == len(s) for s in seqs)
                    fs = [dict(rows=[dict(r, e=r['e'] + 4 * q) for r in number([I[k] for k in s])], masks=MK[(ranks + q) % 6]) for q, s in enumerate(seqs)]
                    add(fs, coadded, coadd=coadd, ranks=ranks, cap=cap)
    for nsig in (3., 5.):
        for b in (0, 1):
            rows = [dict(t=I[k % 2], e=k, mode='ok') for k in range(6)]
            items.append(dict(kind='cosmics', files=[dict(rows=rows)], coadded=False, coadd=True, cosmics=nsig, bandorder=b))
    for n in ((10000, 10001) if not T else (9999, 10000, 10001, 20000, 20001, 30005)):
        items += [dict(kind='many', nrows=n, ranks=2, sel=False), dict(kind='many', nrows=n, ranks=3, sel=True)]
    items.sort(key=lambda c: c['kind'] != 'many')
    core.pmap(items, dispatch, ck, timeout=800)


def replay(rec, case):
    dispatch(rec, case)
