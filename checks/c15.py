"""C15: BOSS spectra belong to their plate, MJD and fiber; identifiers are reversible; rrboss writes them."""
import itertools, os, tempfile
import numpy as np
from mc import core, fix, files, fakempi
from checks import c13, c14
from checks.c02 import write_template

# ---------------------------------------------------------------- identifiers
PL = [0, 1, 2, 266, 999, 3586, 9999, 10000, 15000, 32767, 65535, 99999]
MJ = [0, 1, 9, 10, 51602, 55182, 59999, 65535, 65536, 99998, 99999]
FB = [0, 1, 2, 499, 500, 501, 640, 999, 1000, 1001, 2147, 9998, 9999]
TYPES = [int, np.int16, np.uint16, np.int32, np.uint32, np.int64, np.uint64]


def fits_in(t, v):
    return t is int or np.iinfo(t).min <= v <= np.iinfo(t).max


def run_ids(rec, c):
    from redrock.external.boss import platemjdfiber2targetid as enc, targetid2platemjdfiber as dec
    tp, tm, tf = (TYPES[k] for k in c['types'])
    seen = {}
    for p, m, f in itertools.product(PL, MJ, FB):
        if not (fits_in(tp, p) and fits_in(tm, m) and fits_in(tf, f)):
            continue
        i = enc(tp(p), tm(m), tf(f))
        rec.ev()
        if seen.setdefault(int(i), (p, m, f)) != (p, m, f):
            raise core.Violation('unique', f'{(p, m, f)} and {seen[int(i)]} have id {i}')
        for j in (i, int(i), np.int64(i)):
            if tuple(int(x) for x in dec(j)) != (p, m, f):
                raise core.Violation('roundtrip', f'{(p, m, f)} -> {i} -> {dec(j)}')
    # arrays
    g = np.array([x for x in itertools.product(PL, MJ, FB) if fits_in(tp, x[0]) and fits_in(tm, x[1]) and fits_in(tf, x[2])])
    a = [g[:, k].astype(t if t is not int else np.int64) for k, t in enumerate((tp, tm, tf))]
    for args in ((a[0], a[1], a[2]), (tp(a[0][0]), tm(a[1][0]), a[2]), (tp(a[0][-1]), tm(a[1][-1]), a[2])):
        i = enc(*args)
        d = dec(np.asarray(i, dtype=np.int64))
        rec.ev()
        for x, y in zip(d, args):
            if not np.array_equal(np.broadcast_to(np.asarray(y, np.int64), np.shape(x)), x):
                raise core.Violation('array', 'array identifiers do not decode')
    rec.nontrivial('ids', c['types'], len(seen))


def run_near(rec, c):
    """All triples in a box around a corner."""
    from redrock.external.boss import platemjdfiber2targetid as enc, targetid2platemjdfiber as dec
    p0, m0, f0 = c['at']
    seen = {}
    for p, m, f in itertools.product(range(p0, p0 + 4), range(m0, m0 + 4), range(f0, f0 + 4)):
        i = int(enc(p, m, f))
        rec.ev()
        if i in seen or tuple(int(x) for x in dec(i)) != (p, m, f):
            raise core.Violation('roundtrip', f'{(p, m, f)} -> {i} -> {dec(i)}')
        seen[i] = 1
    rec.nontrivial('near', tuple(c['at']))


# ---------------------------------------------------------------- reading
def tid(c, f):
    return c['plate'] * 1000000000 + c['mjd'] * 10000 + f


def expid(cam, k):
    return f'{cam}-{10 + k:08d}'


def write(c, d):
    """Writes the files; returns (names, {target: [(file key, wave limits, spec)]})."""
    exp = {}
    names = []
    plates = c.get('plates') or [dict(plate=c['plate'], mjd=c['mjd'], fibers=c['fibers'])]
    for q, pl in enumerate(plates):
        p, m, fb = pl['plate'], pl['mjd'], pl['fibers']
        name = os.path.join(d, f'spPlate-{p:04d}-{m}.fits')
        nexp = {cam: [expid(cam, k + 5 * q) + '-extra' for k in range(n)] for cam, n in c['frames'].items()} if c.get('frames') else None
        files.write_boss(name, p, m, fb, nexp=nexp, c0=c.get('c0', 3.56), npix=c.get('npix', 60))
        names.append(name)
        if len(plates) > 1:
            import fitsio
            x = name.replace('spPlate', 'photoPosPlate')
            t = np.zeros(1000, dtype=[('THING_ID', 'i4')])
            t['THING_ID'] = np.arange(1000) + 70000 + 2000 * q
            for f, v in pl['thing'].items():
                t['THING_ID'][int(f) - 1] = v
            with fitsio.FITS(x, 'rw', clobber=True) as F:
                F.write(t)

        def add(f, spec, lo, hi, wdmax):
            t = pl['thing'][str(f)] if len(plates) > 1 else tid(dict(plate=p, mjd=m), f)
            exp.setdefault(t, []).append((spec, lo, hi, wdmax))
        if c.get('frames'):
            for cam in ('b1', 'r1', 'b2', 'r2'):
                for e in nexp.get(cam, []):
                    ff = [f for f in fb if (f <= 500) == (cam[1] == '1')]
                    ff = ff[::-1] if c.get('framerev') else ff
                    files.write_boss(os.path.join(d, f'spCFrame-{e[:11]}.fits'), p, m, ff, kind='frame', camera=cam, key=e[:11])
                    S = [files.boss_spec(p, m, f, kind='frame', camera=cam, key=e[:11]) for f in ff]
                    for f, s in zip(ff, S):
                        add(f, s, *((3500., 6000.) if cam[0] == 'b' else (5500., 10000.)), max(x['wdisp'].max() for x in S))
        else:
            S = [files.boss_spec(p, m, f, c0=c.get('c0', 3.56), npix=c.get('npix', 60)) for f in fb]
            for f, s in zip(fb, S):
                add(f, s, 3500., 10000., max(x['wdisp'].max() for x in S))
    return names, exp


def cut(s, wave):
    """Slice of the row that the wavelengths are."""
    w = s['wave']
    k = int(np.argmin(np.abs(w - wave[0])))
    return slice(k, k + len(wave))


MINRES = 0.99       # pixels with less of the resolution inside the spectrum are masked


def resolution(spec, sl, wdmax):
    wd = spec['wdisp'][sl].astype(float)
    wd[wd < 1e-5] = 2.
    ii = np.arange(len(wd))
    D = np.exp(-(ii[:, None] - ii) ** 2 / 2. / wd[None, :] ** 2)
    D[np.abs(ii[:, None] - ii) > 2 * np.ceil(max(2., wdmax))] = 0
    D /= D.sum(axis=0)
    return D


def check_spec(rec, c, t, sp, e):
    spec, lo, hi, wdmax = e
    w = spec['wave']
    sl = cut(spec, sp.wave)
    if not np.allclose(w[sl], sp.wave, rtol=1e-9):
        raise core.Violation('wave', f'target {t}: wavelengths are not those of its row')
    must = (w > lo * 1.02) & (w < hi * 0.98)
    must[[0, -1]] = False       # the ends are cropped
    inside = np.zeros(len(w), bool)
    inside[sl] = True
    if np.any(must & ~inside) or np.any(w[sl] < lo * 0.98) or np.any(w[sl] > hi * 1.02):
        raise core.Violation('crop', f'target {t}: wavelengths {sp.wave[0]}-{sp.wave[-1]} of {w[0]}-{w[-1]} in {lo}-{hi}')
    iv = spec['ivar'].astype(float)
    if c.get('andmask'):
        iv = iv * (spec['mask'] == 0)
    D = resolution(spec, sl, wdmax)
    iv = iv[sl] * (D.sum(axis=1) >= MINRES)
    ok = iv > 0
    if not np.allclose(sp.ivar, iv, rtol=1e-6):
        raise core.Violation('ivar', f'target {t}: weights {sp.ivar[:6]}, its row has {iv[:6]}')
    if not np.allclose(np.asarray(sp.flux)[ok], spec['flux'][sl][ok], rtol=1e-6):
        raise core.Violation('flux', f'target {t}: flux is not that of its row')
    n = len(sp.wave)
    A = sp.R.toarray()
    rows = ok if c.get('coadd') else np.ones(n, bool)
    if not np.allclose(A[rows], D[rows], atol=2e-6):
        raise core.Violation('R', f'target {t}: resolution differs by {np.abs(A[rows] - D[rows]).max()}')
    if c.get('csr') and (sp._Rcsr is None or not np.allclose(sp._Rcsr.toarray(), A, atol=1e-12)):
        raise core.Violation('Rcsr', f'target {t}')


def brick(c):
    """plate-mjd of all files, 0 where they differ."""
    pl = c.get('plates') or [c]
    return '-'.join(str(pl[0][k]) if len({p[k] for p in pl}) == 1 else '0' for k in ('plate', 'mjd'))


def run_read(rec, c):
    from redrock.external.boss import read_spectra
    with tempfile.TemporaryDirectory(prefix='c15') as d, core.quiet():
        names, exp = write(c, d)
        arg = names
        if c.get('glob'):
            arg = os.path.join(d, 'spPlate-*.fits')
        for sel in c['sel']:
            fid = c.get('fiberid')
            keep = list(exp)
            if fid is not None:
                keep = [t for t in keep if t % 10000 in np.atleast_1d(fid)]
            want = sorted(keep if sel is None else sel)
            bad = [t for t in want if t not in keep]
            try:
                tg, meta = read_spectra(arg, targetids=None if sel is None else (np.array(sel) if c.get('arr') else list(sel)), use_frames=bool(c.get('frames')), fiberid=fid, coadd=bool(c.get('coadd')), cache_Rcsr=bool(c.get('csr')),
                                        use_andmask=bool(c.get('andmask')))
            except Exception:
                if bad:
                    rec.ev()
                    continue
                raise
            rec.ev()
            if bad:
                raise core.Violation('missing', f'targets {bad} are not in the files, read {[t.id for t in tg]}')
            if [int(t.id) for t in tg] != want or [int(x) for x in meta['TARGETID']] != want:
                raise core.Violation('targets', f'targets {[int(t.id) for t in tg]} / {list(meta["TARGETID"])}, expected {want}')
            for t, mrow in zip(tg, meta):
                es = exp[int(t.id)]
                b = brick(c)
                bn = mrow['BRICKNAME']
                bn = bn.decode() if isinstance(bn, bytes) else str(bn)
                if t.meta['BRICKNAME'] != b or bn != b:
                    raise core.Violation('brick', f'{t.meta["BRICKNAME"]} / {bn} for {b}')
                if c.get('coadd'):
                    continue
                if len(t.spectra) != len(es):
                    raise core.Violation('count', f'target {t.id}: {len(t.spectra)} spectra, {len(es)} rows')
                if c.get('glob') and len(es) > 1:
                    # the order of the files is that of the pattern
                    def cost(sp, e):
                        f = e[0]['flux'][cut(e[0], sp.wave)]
                        return np.abs(sp.flux - f)[sp.ivar > 0].sum() if f.shape == np.shape(sp.flux) else np.inf
                    es = min(itertools.permutations(es), key=lambda p: sum(cost(s, e) for s, e in zip(t.spectra, p)))
                for sp, e in zip(t.spectra, es):
                    rec.ev()
                    check_spec(rec, c, t.id, sp, e)
                rec.nontrivial(len(es), int(t.id), tuple(sorted(exp)), str(sel))
            if c.get('coadd'):
                check_coadd(rec, c, tg, exp)


def check_coadd(rec, c, tg, exp):
    from redrock.external.boss import read_spectra
    for t in tg:
        # group rows by their wavelengths
        g = {}
        for e in exp[int(t.id)]:
            g.setdefault(round(float(e[0]['wave'][0]), 6), []).append(e)
        if len(t.spectra) != len(g):
            raise core.Violation('coadd-count', f'target {t.id}: {len(t.spectra)} coadds of {len(g)} wavelength grids')
        for sp in t.spectra:
            k = min(g, key=lambda x: abs(g[x][0][0]['wave'][cut(g[x][0][0], sp.wave).start] - sp.wave[0]))
            es = g[k]
            sl = cut(es[0][0], sp.wave)
            ivs = [e[0]['ivar'][sl].astype(float) * ((e[0]['mask'][sl] == 0) if c.get('andmask') else 1) * (resolution(e[0], sl, e[3]).sum(axis=1) >= MINRES) for e in es]
            W = sum(ivs)
            F = sum(e[0]['flux'][sl].astype(float) * iv for e, iv in zip(es, ivs))
            rec.ev()
            ok = W > 0
            if not np.allclose(sp.ivar, W, rtol=1e-5) or not np.allclose(np.asarray(sp.flux)[ok], (F[ok] / W[ok]), rtol=1e-5, atol=1e-6):
                raise core.Violation('coadd', f'target {t.id}: coadd is not the mean of its rows')
            rec.nontrivial('coadd', int(t.id), len(es))


# ---------------------------------------------------------------- the command
def call(o, v):
    import redrock.external.boss as B
    worked = []
    orig = getattr(B, 'zfind', None)

    def spy(*a, **k):
        worked.append(1)
        return orig(*a, **k)

    def go(comm=None):
        try:
            with core.quiet():
                B.rrboss(options=list(o), comm=comm)
        except SystemExit as e:
            if e.code in (0, None):
                raise core.Violation('status', 'exit with status 0')
            raise
    if orig is not None:
        B.zfind = spy
    try:
        if v.get('ranks'):
            res, sched = fakempi.run_ranks(v['ranks'], go, allow_exc=True, timeout=200)
            if sched.aborted is not None or any(r[0] == 'exit' for r in res):
                raise c14.Refused(str(sched.aborted))
            for k, r in enumerate(res):
                if r[0] == 'violation':
                    raise core.Violation(*r[1])
                if r[0] == 'exc':
                    raise core.Violation('rank-' + str(r[1][0]), f'rank {k}: {r[1][1]}')
        else:
            o = o + ['--mp', str(v.get('mp', 1))]
            try:
                go()
            except SystemExit as e:
                raise c14.Refused(f'exit status {e.code}')
            except core.Violation:
                raise
            except Exception as e:
                if not v.get('refuse'):
                    raise
                raise c14.Refused(repr(e))
    except c14.Refused:
        if worked and not v.get('none'):
            raise core.Violation('late', f'refused after fitting: {o}')
        raise
    finally:
        if orig is not None:
            B.zfind = orig


TM = c14.TM


def prepare(c, d):
    os.mkdir(d + '/t')
    for k in c['tmpl']:
        st, sub, nb, method, igm = TM[k]
        zs = np.linspace(0, 0.2, 7) if st != 'STAR' else np.linspace(-0.002, 0.002, 3)
        write_template(f'{d}/t/rrtemplate-{st.lower()}-{k}.fits', fix.mk_template(st, sub, redshifts=zs, nbasis=nb, method=method, igm=igm, wmin=2800., wmax=6200., key='c15'))
    if c.get('arch'):
        os.mkdir(d + '/a')
        for k in c['arch']:
            fix.mk_archetypes(f'{d}/a/rrarchetype-{TM[k][0].lower()}.fits', TM[k][0], n=3, key=k, wmin=2700., nw=270)


def options(c, v, d, names, out):
    o = ['--spplate'] + names + ['-t', d + '/t']
    if c.get('arch'):
        o += ['--archetypes', d + '/a']
    if c.get('frames'):
        o += ['--use-frames']
    if 'o' in v['out']:
        o += ['--output', out + '/details.h5']
    if 'z' in v['out']:
        o += ['--zbest', out + '/zbest.fits']
    if v.get('ids') is not None:
        o += ['--targetids', ','.join(str(x) for x in v['ids'])]
    if v.get('first') is not None:
        o += ['--mintarget', str(v['first'])]
    if v.get('n') is not None:
        o += ['--ntargets', str(v['n'])]
    return o + list(v.get('opts', ())) + list(c.get('opts', ()))


_base = {}


def products(c, v, out, ids):
    from astropy.io import fits
    from astropy.table import Table
    from redrock.results import read_zscan
    want = sorted(dict(o='details.h5', z='zbest.fits')[k] for k in v['out'])
    have = sorted(os.listdir(out)) if os.path.exists(out) else []
    if have != want:
        raise core.Violation('files', f'files {have}, requested {want}')
    r = {}
    if 'z' in v['out']:
        with fits.open(out + '/zbest.fits') as h:
            r['z'] = Table(np.array(h['ZBEST'].data))
    if 'o' in v['out']:
        with core.quiet():
            scan, t = read_zscan(out + '/details.h5')
        if sorted(int(x) for x in scan) != sorted(ids):
            raise core.Violation('details', f'scan of {sorted(scan)}')
        t = t[t['znum'] == 0]
        t.rename_columns(t.colnames, [x.upper() for x in t.colnames])
        r['o'] = t
    for k in r:
        if [int(x) for x in r[k]['TARGETID']] != ids:
            raise core.Violation('rows', f'{k}: rows of {[int(x) for x in r[k]["TARGETID"]]}, selected {ids}')
        if not c.get('plates') and any(str(x.decode() if isinstance(x, bytes) else x) != f'{c["plate"]}-{c["mjd"]}' for x in r[k]['BRICKNAME']):
            raise core.Violation('brick', f'{list(r[k]["BRICKNAME"])} for {c["plate"]}-{c["mjd"]}')
    if len(r) == 2:
        need = {'TARGETID', 'Z', 'ZERR', 'ZWARN', 'CHI2', 'COEFF', 'SPECTYPE', 'SUBTYPE', 'DELTACHI2'}
        cols = [x for x in r['z'].colnames if x in r['o'].colnames]
        if not need <= set(cols):
            raise core.Violation('columns', f'{cols}')
        for x in cols:
            if not c14.eq(r['z'][x], r['o'][x], 1e-6):
                raise core.Violation('differ-' + x, f'{x}: {list(r["z"][x])} in the catalogue, {list(r["o"][x])} in the details')
    return r


def direct(c, d, names, opts):
    """Best fits with the meaning of the options, without the command."""
    from redrock.external.boss import read_spectra
    from redrock.targets import DistTargetsCopy
    from redrock.templates import load_dist_templates
    from redrock.archetypes import All_archetypes
    from redrock.zfind import zfind
    n = int(opts[opts.index('--nminima') + 1]) if '--nminima' in opts else 3
    with core.quiet():
        tg, _ = read_spectra(names, use_frames=bool(c.get('frames')), coadd='--allspec' not in opts, cache_Rcsr=True, use_andmask='--use-andmask' in opts)
        tg = DistTargetsCopy(tg)
        dwave = tg.wavegrids()
        tm = load_dist_templates(dwave, templates=d + '/t', mp_procs=1)
        ar = All_archetypes(archetypes_dir=d + '/a').archetypes if c.get('arch') else None
        _, z = zfind(tg, tm, 1, nminima=n, archetypes=ar, per_camera=False, deg_legendre=2 if ar else 0, ncamera=len(dwave))
    return z


def run_cmd(rec, c):
    with tempfile.TemporaryDirectory(prefix='c15') as d:
        with core.quiet():
            names, exp = write(c, d)
        prepare(c, d)
        allids = sorted(exp)
        base = None
        for j, v in enumerate([dict(out='oz')] + c['runs']):
            ids = allids
            if v.get('ids') is not None:
                ids = sorted(v['ids'])
                if any(i not in exp for i in ids):
                    v = dict(v, refuse=True)
            elif v.get('first') is not None or v.get('n') is not None:
                a = v.get('first') or 0
                ids = allids[a:a + (v['n'] if v.get('n') is not None else len(allids))]
                if not ids:
                    v = dict(v, none=True, refuse=True)
            out = f'{d}/out{j}'
            with rec.case(dict(c, runs=[c['runs'][j - 1]] if j else [])):
                try:
                    call(options(c, v, d, names, out), v)
                except c14.Refused as e:
                    rec.ev()
                    if not v.get('refuse'):
                        raise core.Violation('refused', f'{v}: {e}')
                    if os.path.exists(out) and os.listdir(out):
                        raise core.Violation('refused-files', f'{os.listdir(out)}')
                    rec.outcome('refused')
                    rec.nontrivial('refused', str(v))
                    continue
                if v.get('refuse'):
                    raise core.Violation('accepted', f'not refused: {v}, wrote {os.listdir(out) if os.path.exists(out) else []}')
                r = products(c, v, out, ids)
                rec.ev()
                if base is None:
                    base = r['z']
                if v.get('other'):
                    from redrock.results import read_zscan
                    with core.quiet():
                        z, full = direct(c, d, names, v['opts']), read_zscan(out + '/details.h5')[1]
                    if [(int(a), int(b)) for a, b in z['targetid', 'znum']] != [(int(a), int(b)) for a, b in full['targetid', 'znum']]:
                        raise core.Violation('direct-rows', f'{v["opts"]}: {len(full)} fits, {len(z)} with the same options without the command')
                    for x in ('z', 'chi2', 'zwarn', 'deltachi2'):
                        if not c14.eq(z[x], full[x], 1e-5):
                            raise core.Violation('direct-' + x, f'{v["opts"]}: {x}={list(full[x])}, {list(z[x])} with the same options without the command')
                if not v.get('other'):
                    for k in r:
                        for q, i in enumerate(ids):
                            b = base[[int(x) for x in base['TARGETID']].index(i)]
                            for x in r[k].colnames:
                                if x == 'SUBTYPE' and c.get('arch') and not np.any(b['COEFF']):
                                    continue    # archetypes which do not contribute are ties
                                if x in base.colnames and x not in ('NCOEFF',) and not c14.eq(r[k][x][q], b[x], 1e-4 if '--chi2-scan' in v.get('opts', ()) else 1e-5):
                                    raise core.Violation('base-' + x, f'target {i}: {x}={r[k][x][q]}, plain run {b[x]}')
                rec.nontrivial(c['tmpl'], c.get('arch'), v['out'], tuple(ids), v.get('mp'), v.get('ranks'), str(v.get('opts')), bool(c.get('frames')))


def dispatch(rec, c):
    f = dict(ids=run_ids, near=run_near, read=run_read, cmd=run_cmd)[c['kind']]
    if c['kind'] == 'cmd':
        with rec.case(dict(c, runs=[])):
            f(rec, c)
        return
    with rec.case(c):
        f(rec, c)


def make():
    return core.Check('C15', 'exploration',
        rule='identifier triples around every boundary in every integer type; plates and frames with every listed order and subset of fibers, every ordered selection; rrboss over product subsets, selections, process counts, archetypes, frames and refusals',
        assumptions=['synthetic spPlate, spCFrame and photoPosPlate files of up to 4 fibers', 'with several plates targets are identified by THING_ID by design', 'MPI simulated (see C02)'],
        explanation='bounded-exhaustive enumeration of inputs and options through the real reader and command against recomputed rows and a plain run')


def run(ck):
    T = ck.thorough
    items = []
    tt = list(itertools.product(range(len(TYPES)), repeat=3))
    for k, t in enumerate(tt):
        if T or k % 11 == 0 or len(set(t)) == 1:
            items.append(dict(kind='ids', types=list(t)))
    for p in (0, 8, 98, 9998, 99990):
        for m in (0, 9, 9998, 51600, 99996):
            for f in (0, 8, 997, 998, 9996):
                items.append(dict(kind='near', at=[p, m, f]))
    # reading plates
    FIB = [1, 2, 500, 501, 1000, 37]
    j = 0
    for n in (1, 2, 3, 4):
        for fb in itertools.permutations(FIB[:5] if not T else FIB, n):
            j += 1
            if not T and n > 2 and j % 6:
                continue
            c = dict(kind='read', plate=(3586, 15000, 266, 99999)[j % 4], mjd=(55182, 59000)[j % 2], fibers=list(fb), andmask=bool(j % 2), csr=bool(j % 3), coadd=j % 5 == 0, glob=j % 4 == 1, arr=j % 7 == 1, c0=(3.56, 3.53, 3.9)[j % 3], npix=60)
            ids = [tid(c, f) for f in fb]
            sel = [None]
            for L in (1, 2, 3):
                ss = list(itertools.permutations(ids, L))
                sel += [list(s) for s in (ss if L < 3 or T else ss[:2])]
            if not c['arr']:
                sel.append([ids[0], ids[0] + 5])
            c['sel'] = sel
            items.append(c)
            if n > 1:
                for fid in (fb[-1], [fb[1]], [fb[1], fb[0]], [fb[0], 77]):
                    items.append(dict(c, fiberid=fid, sel=[None], coadd=False))
    # frames
    for cams in (dict(b1=1, r1=1, b2=1, r2=1), dict(b1=2, r1=2, b2=2, r2=2), dict(b1=2, r1=1), dict(b1=1, b2=2), dict(r1=1, r2=1)):
        for fb in ((1, 2, 501, 1000), (2, 501, 1), (500, 1), (1000, 37, 999)):
            if not any((f <= 500) == ('1' in k) for f in fb for k in cams):
                continue
            if any(k[1] == '1' for k in cams) and not any(f <= 500 for f in fb) or any(k[1] == '2' for k in cams) and not any(f > 500 for f in fb):
                continue
            for coadd in (False, True):
                j += 1
                fbs = [f for f in fb if any((f <= 500) == (k[1] == '1') for k in cams)]
                c = dict(kind='read', plate=4000 + j, mjd=56000, fibers=list(fb), frames=cams, coadd=coadd, andmask=bool(j % 2), csr=True, framerev=bool(j % 3 == 1))
                ids = [tid(c, f) for f in fbs]
                c['sel'] = [None] + [[i] for i in ids] + [ids[::-1]]
                items.append(c)
    # several plates
    for fb1, fb2, th1, th2 in (((1, 2), (1, 3), {'1': 11, '2': 12}, {'1': 12, '3': 13}), ((5, 1000, 2), (2, 5), {'5': 900, '1000': 7, '2': 901}, {'2': 900, '5': 7})):
        for samep in (True, False):
            for frames in (None, dict(b1=1, r1=1)):
                if frames and '1000' in th1:
                    continue
                c = dict(kind='read', plate=0, mjd=0, plates=[dict(plate=4001, mjd=56001, fibers=list(fb1), thing=th1), dict(plate=4001 if samep else 4002, mjd=56002, fibers=list(fb2), thing=th2)], frames=frames)
                allt = sorted(set(th1.values()) | set(th2.values()))
                c['sel'] = [None] + [[t] for t in allt] + [allt[::-1]]
                items.append(c)
                items.append(dict(c, glob=True))
                if not samep:
                    pl = [dict(p, mjd=56001) for p in c['plates']]
                    items.append(dict(c, plates=pl))
    # the command
    par = [dict(mp=1), dict(mp=2), dict(mp=3), dict(ranks=1), dict(ranks=2), dict(ranks=3), dict(ranks=5)]
    for k, (tm, fb, arch, frames) in enumerate(itertools.product(('GQS', 'G', 'ST'), ([1, 2, 501], [1000, 3, 2, 500]), (None, 'G', 'GS'), (None, dict(b1=2, r1=1, b2=2, r2=1)))):
        if frames and not T and (k % 2 or arch == 'GS'):
            continue
        c = dict(kind='cmd', plate=(3586, 12345)[k % 2], mjd=56000, fibers=fb, tmpl=tm, arch=arch, frames=frames)
        ids = sorted(tid(c, f) for f in fb)
        runs = []
        q = k
        for out in ('oz', 'o', 'z'):
            for p in par:
                q += 1
                if T or q % 4 == 0:
                    runs.append(dict(p, out=out))
        for p in (dict(mp=1), dict(ranks=2)):
            runs += [dict(p, out='', refuse=True), dict(p, out='oz', ids=[ids[0]], first=0, refuse=True), dict(p, out='oz', ids=[ids[0]], n=1, refuse=True), dict(p, out='z', ids=[ids[0], ids[0] + 7], refuse=True)]
        for L in (1, 2):
            for s in itertools.permutations(ids, L):
                q += 1
                if T or q % 3 == 0:
                    runs.append(dict(par[q % 7], out=('oz', 'o', 'z')[q % 3], ids=list(s)))
        for a in (None, 0, 1, 2, 3, 9):
            for n in (None, 0, 1, 2, 9):
                if a is None and n is None:
                    continue
                q += 1
                if T or q % 3 == 0 or (k == 0):
                    runs.append(dict(par[q % 7], out='oz', first=a, n=n))
        runs += [dict(out='oz', opts=['--use-andmask'], other=True), dict(out='oz', opts=['--allspec'], other=True, mp=2), dict(out='oz', opts=['--nminima', '1'], other=True)]
        for m in range(0, len(runs), 9):
            items.append(dict(c, runs=runs[m:m + 9]))
    core.pmap(items, dispatch, ck, timeout=800)


def replay(rec, case):
    dispatch(rec, case)
