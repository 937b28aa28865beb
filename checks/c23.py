"""C23: every option of the commands has its documented effect on the fits, and nothing else does."""
import itertools, os, tempfile
import numpy as np
from mc import core, fix, files
from checks import c14, c15
from checks.c02 import write_template

I = c14.I
TM = dict(G=('GALAXY', '', 3, 'PCA', 'None'), Q=('QSO', 'HIZ', 2, 'PCA', 'Inoue14'), S=('STAR', 'A', 2, 'PCA', 'None'))
ZR = dict(G=(0.0, 0.5), Q=(0.05, 0.55), S=(-0.002, 0.002))
KEY = dict(G='galaxy', Q='qso', S='star')


def grid(k, c):
    """Redshifts scanned for template k: those of the file, or of the range given for its type."""
    if c.get('old'):
        lo, hi, dz = (float(x) for x in c['zscan'][k].split(','))
        n = int(np.ceil(round(((hi - lo) if k == 'S' else np.log10((1 + hi) / (1 + lo))) / dz, 9)))
        return lo + dz * np.arange(n) if k == 'S' else (1 + lo) * 10 ** (dz * np.arange(n)) - 1
    return np.linspace(*ZR[k], 41 if k != 'S' else 5)


def template(k, c):
    st, sub, nb, method, igm = TM[k]
    lo, hi = c.get('wave', (2400., 5600.))
    return fix.mk_template(st, sub, redshifts=grid(k, c), nbasis=nb, method=method, igm=igm, wmin=lo, wmax=hi, key='c23')


def write_old(path, tx):
    """A template file without redshifts."""
    from astropy.io import fits
    write_template(path, tx)
    with fits.open(path) as h:
        h = fits.HDUList([x.copy() for x in h if x.name != 'REDSHIFTS'])
    h.writeto(path, overwrite=True)


def prepare(c, d):
    os.mkdir(d + '/t')
    for k in c['tmpl']:
        (write_old if c.get('old') else write_template)(f'{d}/t/rrtemplate-{KEY[k]}-{k}.fits', template(k, c))
    if c.get('arch'):
        os.mkdir(d + '/a')
        lo, hi = c.get('wave', (2400., 5600.))
        for k in c['arch']:
            fix.mk_archetypes(f'{d}/a/rrarchetype-{KEY[k]}.fits', TM[k][0], n=4, key=k, wmin=lo - 100, nw=int((hi - lo + 200) / 14))
    if c.get('prior'):
        from astropy.io import fits
        who, fn, z, s = c['prior']
        n = len(who)
        fits.HDUList([fits.PrimaryHDU(), fits.BinTableHDU.from_columns([
            fits.Column('TARGETID', 'K', array=np.array(who)), fits.Column('FUNCTION', '20A', array=np.array([fn] * n)),
            fits.Column('Z', 'D', array=np.full(n, z)), fits.Column('SIGMA', 'D', array=np.full(n, s))], name='PRIORS')]).writeto(d + '/priors.fits')


def settings(c, ncam, boss=False):
    """Documented meaning of the options of case c."""
    o = c.get('o', {})
    s = dict(nminima=3, zminfit_npoints=15, archetypes=None, per_camera=False, deg_legendre=0, n_nearest=None, prior_sigma=None)
    if c.get('arch'):
        if boss:
            s.update(deg_legendre=2)
        else:
            s.update(nminima=9, deg_legendre=2, per_camera=ncam > 1, prior_sigma=0.1)
    if 'nminima' in o:
        s['nminima'] = o['nminima']
    if 'zminfit-npoints' in o:
        s['zminfit_npoints'] = o['zminfit-npoints']
    if c.get('arch') and not boss:
        if 'archetype-nnearest' in o:
            s['n_nearest'] = o['archetype-nnearest']
        if o.get('archetypes-no-legendre'):
            s.update(deg_legendre=0, per_camera=False, prior_sigma=None)
        else:
            if 'archetype-legendre-degree' in o:
                s['deg_legendre'] = o['archetype-legendre-degree']
            if 'archetype-legendre-percamera' in o:
                s['per_camera'] = o['archetype-legendre-percamera'] == 'True'
            if 'archetype-legendre-prior' in o:
                s['prior_sigma'] = o['archetype-legendre-prior'] if o['archetype-legendre-prior'] > 0 else None
    return s


def targets_desi(c):
    """Targets as the input files and the options say."""
    import scipy.sparse
    from redrock.targets import Spectrum, Target
    o = c.get('o', {})
    ids = list(dict.fromkeys(r['t'] for f in c['files'] for r in f['rows']))
    out = []
    for t in ids:
        sp = []
        for b, w, fl, iv, R in files.desi_expected(c['files'], t, o.get('negflux-nsig', 5.)):
            D = scipy.sparse.dia_matrix(R)
            sp.append(Spectrum(w.copy(), fl.copy(), iv.copy(), D, D.tocsr(), band=b))
        tg = Target(t, sp)
        if not o.get('allspec'):
            tg.compute_coadd(True, cosmics_nsig=o.get('cosmics-nsig', 0.))
        if not o.get('no-skymask'):
            for s in tg.spectra:
                s.ivar[((s.wave >= 5572) & (s.wave <= 5582)) | ((s.wave >= 9792) & (s.wave <= 9795))] = 0
        out.append(tg)
    return out


def reference(c, d, tg, boss=False):
    """Fits of these targets with the settings the options stand for, computed without the commands."""
    from redrock.targets import DistTargetsCopy
    from redrock.templates import DistTemplate
    from redrock.archetypes import All_archetypes
    from redrock.zfind import zfind
    with core.quiet():
        dt = DistTargetsCopy(tg)
        grids = dt.wavegrids()
        s = settings(c, len(grids), boss)
        if c.get('arch'):
            s['archetypes'] = All_archetypes(archetypes_dir=d + '/a').archetypes
        if c.get('prior'):
            s['priors'] = d + '/priors.fits'
        scan, tab = zfind(dt, [DistTemplate(template(k, c), grids) for k in c['tmpl']], ncamera=len(grids), **s)
    return scan, tab


COLS = ['znum', 'z', 'zerr', 'chi2', 'deltachi2', 'zwarn', 'npixels', 'spectype', 'subtype', 'ncoeff', 'coeff', 'fitmethod', 'legcoeff', 'zz', 'zzchi2']


def differ(got, want):
    """Name of the first column where two lists of fits of one target differ, and the values."""
    if len(got) != len(want):
        return 'number', len(got), len(want)
    for n in COLS:
        if (n in got.colnames) != (n in want.colnames):
            if n == 'legcoeff' and len(want):
                x = (got if n in got.colnames else want)[n]
                if np.any(np.asarray(x) != 0):
                    return n, n in got.colnames, n in want.colnames
                continue
            return n, n in got.colnames, n in want.colnames
        if n not in want.colnames:
            continue
        a, b = np.asarray(got[n]), np.asarray(want[n])
        if not c14.eq(a, b, 1e-6 if n not in ('zerr', 'coeff', 'legcoeff') else 1e-4):
            return n, a.tolist(), b.tolist()
    return None


def compare(rec, c, tag, out, ref, sel=None):
    from redrock.results import read_zscan
    with core.quiet():
        scan, tab = read_zscan(out)
    rscan, rtab = ref
    ids = [int(t) for t in dict.fromkeys(rtab['targetid'])]
    if sorted({int(t) for t in tab['targetid']}) != sorted(ids if sel is None else sel):
        raise core.Violation('targets', f'{tag}: fits of {sorted({int(t) for t in tab["targetid"]})}, expected those of {ids}')
    for t in (ids if sel is None else sel):
        rec.ev()
        x = differ(tab[tab['targetid'] == t], rtab[rtab['targetid'] == t])
        if x:
            raise core.Violation('fit-' + x[0], f'{tag}: target {t}: {x[0]} is {x[1]}, with these settings it is {x[2]}')
        for sp in scan[t]:
            if sp not in rscan[t] or not np.allclose(scan[t][sp]['redshifts'], rscan[t][sp]['redshifts'], rtol=1e-9, atol=1e-9):
                raise core.Violation('redshifts', f'{tag}: target {t} {sp} scanned other redshifts')
            if not c14.eq(scan[t][sp]['zchi2'], rscan[t][sp]['zchi2'], 1e-5):
                raise core.Violation('scan', f'{tag}: target {t} {sp}: another chi2 scan')
        if set(scan[t]) != set(rscan[t]):
            raise core.Violation('scan', f'{tag}: target {t}: scans of {sorted(scan[t])}, expected {sorted(rscan[t])}')


def words(o):
    w = []
    for k, x in o.items():
        w += [f'--{k}'] if x is True else [f'--{k}', str(x)]
    return w


def sensitive(rec, c, ref, plain):
    """Does the option make a difference at all?"""
    for k in c.get('o', {}):
        if ref is not plain and any(differ(ref[1][ref[1]['targetid'] == t], plain[1][plain[1]['targetid'] == t]) for t in set(ref[1]['targetid'])):
            rec.count('effect_' + k)


def run_desi(rec, c):
    with tempfile.TemporaryDirectory(prefix='c23') as d:
        prepare(c, d)
        paths = c14.write_inputs(c['files'], c['coadded'], d + '/in')
        ref = reference(c, d, targets_desi(c))
        if c.get('o'):
            c0 = dict(c, o={})
            sensitive(rec, c, ref, reference(c0, d, targets_desi(c0)))
        if c.get('prior'):
            rec.count('effect_priors')
        for v in c['ways']:
            rec.trace()
            out = f'{d}/details-{len(os.listdir(d))}.h5'
            o = ['-i'] + paths + ['-t', d + '/t', '--details', out]
            if c.get('arch'):
                o += ['--archetypes', d + '/a']
            if c.get('prior'):
                o += ['--priors', d + '/priors.fits']
            for k, z in c.get('zscan', {}).items():
                o += [f'--zscan-{KEY[k]}={z}']
            o += words(c.get('o', {}))
            c14.call(o, v)
            compare(rec, c, f'rrdesi {" ".join(o[len(paths) + 5:])} {v}', out, ref)
            rec.nontrivial('desi', str(sorted(c.get('o', {}).items())), c.get('arch'), str(v), c['tmpl'])
            if c.get('restart'):
                # the scan of that run, with other options: the same fits as without it
                out2 = out.replace('details', 'again')
                c14.call([x if x != out else out2 for x in o] + ['--chi2-scan', out], v)
                rec.trace()
                compare(rec, c, f'rrdesi restarted {" ".join(o[len(paths) + 5:])} {v}', out2, ref)


def run_boss(rec, c):
    from redrock.external.boss import read_spectra
    with tempfile.TemporaryDirectory(prefix='c23') as d:
        prepare(c, d)
        names, exp = c15.write(c, d)
        o = c.get('o', {})
        with core.quiet():
            tg, meta = read_spectra(names, use_frames=bool(o.get('use-frames')), coadd=not o.get('allspec'), cache_Rcsr=True, use_andmask=bool(o.get('use-andmask')))
        ref = reference(c, d, tg, True)
        if o:
            with core.quiet():
                tg0, meta = read_spectra(names)
            sensitive(rec, c, ref, reference(dict(c, o={}), d, tg0, True))
        if c.get('prior'):
            rec.count('effect_priors')
        for v in c['ways']:
            rec.trace()
            out = f'{d}/details-{len(os.listdir(d))}.h5'
            w = ['--spplate'] + names + ['-t', d + '/t', '--output', out] + (['--archetypes', d + '/a'] if c.get('arch') else [])
            if c.get('prior'):
                w += ['--priors', d + '/priors.fits']
            w += words(o)
            c15.call(w, v)
            compare(rec, c, f'rrboss {" ".join(w[len(names) + 5:])} {v}', out, ref)
            rec.nontrivial('boss', str(sorted(o.items())), c.get('arch'), str(v), c['tmpl'])
            if c.get('restart'):
                out2 = out.replace('details', 'again')
                c15.call([x if x != out else out2 for x in w] + ['--chi2-scan', out], v)
                rec.trace()
                compare(rec, c, f'rrboss restarted {" ".join(w[len(names) + 5:])} {v}', out2, ref)


def dispatch(rec, c):
    with rec.case(c):
        dict(desi=run_desi, boss=run_boss)[c['k']](rec, c)


def make():
    return core.Check('C23', 'exploration',
        rule='options alone, in pairs and all archetype sub-options together, in every way of running, through the real commands; every fit and scan in the details file compared with a fit computed from the spectra with the documented settings; non-trivial: distinct option sets, kinds of run and templates',
        assumptions=['synthetic files of up to 3 targets and 3 bands', 'per-camera fitting requested for a single camera has no documented meaning', 'the fitting library itself is judged by the other properties'],
        explanation='bounded-exhaustive enumeration of option combinations of the real commands against library fits with independently translated settings')


def run(ck):
    T = ck.thorough
    items = []
    ways = [dict(mp=1), dict(mp=2), dict(ranks=2), dict(ranks=3)]

    def rows(modes=('ok', 'ok', 'neg'), e=1, ids=(0, 4, 2)):
        return [dict(t=I[k], e=q, mode=m, z=0.06 + 0.09 * j) for q in range(e) for j, (k, m) in enumerate(zip(ids, modes))]
    n = [0]

    def add(k='desi', nw=1, **c):
        n[0] += 1
        w = ways if T else [ways[(n[0] + q) % 4] for q in range(nw)]
        items.append(dict(dict(k=k, tmpl='GQS', ways=w), **c))
    # single options and pairs of them, without archetypes
    vals = {'nminima': [1, 2, 5], 'zminfit-npoints': [5, 9, 24], 'allspec': [True], 'cosmics-nsig': [3, 6], 'negflux-nsig': [1.5, 2]}
    single = [{}] + [{k: x} for k in vals for x in vals[k]]
    pairs = [{a: x, b: y} for a, b in itertools.combinations(vals, 2) for x in vals[a] for y in vals[b]]
    for j, o in enumerate(single + (pairs if T else pairs[::2])):
        e = 3 if set(o) & {'allspec', 'cosmics-nsig'} or j % 3 == 2 else 1
        add(nw=2 if j < len(single) else 1, files=[dict(rows=rows(e=e), bands=('br', 'brz', 'rb')[j % 3])], coadded=e == 1, o=o, tmpl=('GQS', 'G', 'QS')[j % 3], restart=j % 2 == 0)
    # sky lines
    for j, off in enumerate((1316., 1311., 1313., 1321., 1323., 5551., 5553., 5554.5, 5556.)):      # pixels on both sides of every limit
        for o in ({}, {'no-skymask': True}):
            for arch in ((None, 'G') if T or j % 4 == 0 else (None,)):
                add(files=[dict(rows=rows(), bands='br', offset=off)], coadded=True, o=o, wave=(3000., 11000.) if off > 2000 else (2800., 7200.), tmpl='GS', arch=arch)
    # archetypes
    A = {'archetype-legendre-degree': [None, 0, 1, 3], 'archetype-nnearest': [None, 2, 3], 'archetype-legendre-percamera': [None, 'True', 'False'], 'archetype-legendre-prior': [None, 0, -1, 0.5], 'archetypes-no-legendre': [None, True]}
    for j, x in enumerate(itertools.product(*A.values())):
        o = {k: y for k, y in zip(A, x) if y is not None}
        if o.get('archetypes-no-legendre') and len(o) > 2:
            continue
        if not T and len(o) > 1 and j % 4:
            continue
        for b in ('rb', 'b', 'brz'):
            if (b == 'b' and o.get('archetype-legendre-percamera') == 'True') or (not T and b == 'brz' and j % 3 and len(o) > 1):
                continue
            oo = dict(o, **({'nminima': 2} if j % 3 and len(o) > 1 else {}))
            add(files=[dict(rows=rows(ids=(0, 4), modes=('ok', 'ok')), bands=b)], coadded=True, o=oo, arch=('GQS', 'G', 'GS')[j % 3], tmpl=('GS', 'G', 'QS')[(j // 3) % 3] if j % 3 else 'GS', restart=j % 5 == 0)
    # archetype options without archetypes mean nothing
    for o in ({'archetype-legendre-degree': 3, 'archetype-nnearest': 2}, {'archetype-legendre-percamera': 'True', 'archetype-legendre-prior': 0.5}, {'archetypes-no-legendre': True}):
        add(files=[dict(rows=rows(), bands='br')], coadded=True, o=o, tmpl='GS')
    # scan ranges of old templates
    Z = dict(G=['-0.005,0.3,4e-3', '0.1,0.25,2e-3'], Q=['0.05,0.4,3e-3', '0.2,0.3,1e-3'], S=['-0.002,0.00201,4e-4', '-0.001,0.001,2.5e-4'])
    for j, z in enumerate(itertools.product(*Z.values())):
        for tm in (('GQS',) if not T else ('GQS', 'QG', 'S')):
            add(files=[dict(rows=rows(), bands='br')], coadded=True, o=[{}, {'nminima': 2}][j % 2], tmpl=tm, old=True, zscan=dict(zip('GQS', z)))
    # priors
    for fn, z, s in (('gaussian', 0.1, 0.05), ('tophat', 0.1, 0.1), ('lorentzien', 0.3, 0.02)):
        for who in ([I[0]], [I[2], I[0]]):
            for o in ({}, {'nminima': 1}):
                add(files=[dict(rows=rows(), bands='br')], coadded=True, o=o, prior=[who, fn, z, s], arch=[None, 'G'][len(o)])
    # rrboss
    F = [1, 7, 640]
    bt = lambda f: c15.tid(dict(plate=266, mjd=51602), f)
    for j, o in enumerate([{}, {'nminima': 1}, {'nminima': 5}, {'use-andmask': True}, {'allspec': True}, {'use-frames': True}, {'use-frames': True, 'allspec': True}, {'use-frames': True, 'use-andmask': True, 'nminima': 2}]):
        for arch in (None, 'GS'):
            add('boss', plate=266, mjd=51602, fibers=F, frames=dict(b1=2, r1=2, b2=1, r2=1) if 'use-frames' in o else None, o=o, arch=arch, tmpl='GS', wave=(2000., 8400.), restart=j % 3 == 0)
    for fn, z, s in (('gaussian', 0.1, 0.05), ('tophat', 0.1, 0.1)):
        add('boss', plate=266, mjd=51602, fibers=F, o={}, prior=[[bt(7)], fn, z, s], tmpl='GQ', wave=(2000., 8400.))
    for it in items:
        if it.get('o') is not None and it['k'] == 'desi' and it.get('prior'):
            it['restart'] = False
    core.pmap(items, dispatch, ck, timeout=800)
    if not ck.viol:
        missing = (set(vals) | set(A) | {'no-skymask', 'use-andmask', 'use-frames', 'priors'}) - {k[7:] for k in ck.n if k.startswith('effect_')}
        if missing:
            ck.violation('no-effect', f'options that change no fit in any of the cases: {sorted(missing)}', {})


def replay(rec, case):
    dispatch(rec, case)
