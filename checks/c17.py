"""C17: templates are found, loaded and recorded under their own identity."""
import itertools, os, pathlib, tempfile
import numpy as np
from mc import core, fix, fakempi, files
from checks import c14

SEP = ':::'


# ---------------------------------------------------------------- names
def run_names(rec, c):
    from redrock.templates import make_fulltype, parse_fulltype
    seen = {}
    for s in c['types']:
        for u in c['subs']:
            ft = make_fulltype(s, u)
            key = (s.strip(), (u or '').strip())
            rec.ev()
            if parse_fulltype(ft) != key:
                raise core.Violation('roundtrip', f'{(s, u)} -> {ft!r} -> {parse_fulltype(ft)}')
            if seen.setdefault(ft, key) != key:
                raise core.Violation('unique', f'{key} and {seen[ft]} are {ft!r}')
            if parse_fulltype(f' {ft} ') != key:
                raise core.Violation('strip', f'{ft!r}')
            rec.nontrivial(key)


# ---------------------------------------------------------------- template files
# name -> (file name, header)
FILES = dict(
    A=('rrtemplate-GALAXY-None-v2.6.fits', dict(RRTYPE='GALAXY', RRSUBTYP='', VERSION='2.6', RRIGM='Calura12')),
    B=('rrtemplate-STAR-A-v0.1.fits', dict(RRTYPE='STAR', RRSUBTYP='A', VERSION='0.1', RRIGM='None')),
    C=('rrtemplate-STAR-CV-v0.1.fits', dict(RRTYPE='STAR', RRSUBTYP='CV', RRIGM='None')),                         # no version
    D=('rrtemplate-QSO-HIZ-v1.1.fits', dict(RRTYPE='QSO', RRSUBTYP='HIZ', VERSION='1.1', RRIGM='Kamble20')),
    E=('rrtemplate-QSO-LOZ-v1.1.fits', dict(RRTYPE='QSO', RRSUBTYP='LOZ', VERSION='1.1', RRIGM='Kamble20')),
    X=('my-galaxies.fits', dict(RRTYPE='GALAXY', RRSUBTYP='', VERSION='7', RRIGM='Inoue14', RRMETHOD='NMF')),      # same type as A
    Y=('rrtemplate-STAR-A-v0.2.fits', dict(RRTYPE='STAR', RRSUBTYP='A', VERSION='0.2', RRIGM='None')),             # same type as B
    N=('rrtemplate-' + 'long-' * 20 + "it's.fits", dict(RRTYPE='GALAXY', RRSUBTYP='LONG', VERSION='3.0-rc1', RRIGM='None')),
)
# a large set: as many templates as the header can number
MANY = [f'S{i:02d}' for i in range(100)]
for _i, _k in enumerate(MANY):
    FILES[_k] = (f'rrtemplate-STAR-T{_i}-v0.{_i}.fits', dict(RRTYPE='STAR', RRSUBTYP=f'T{_i}', VERSION=f'0.{_i}', RRIGM='None'))
STD = list('ABCDEY') + MANY
IDENT = {k: (h['RRTYPE'], h['RRSUBTYP']) for k, (f, h) in FILES.items()}


def flux_of(k, shape=(2, 40)):
    return 1 + np.abs(fix.noise(shape[0] * shape[1], ('c17', k))).reshape(shape)


def write_file(path, k, hdr=None, dtype='>f8', z=True, wave=(3000., 60., 0), znum=5, shape=(2, 40)):
    from astropy.io import fits
    h = fits.Header()
    h['CRVAL1'], h['CDELT1'] = wave[0], wave[1]
    if wave[2] is not None:
        h['LOGLAM'] = wave[2]
    for x, v in (FILES[k][1] if hdr is None else hdr).items():
        h[x] = v
    hx = [fits.PrimaryHDU(), fits.ImageHDU(flux_of(k, shape).astype(dtype), header=h, name='BASIS_VECTORS')]
    if z:
        hx.append(fits.ImageHDU(np.linspace(0.01, 0.2, znum), name='REDSHIFTS'))
    fits.HDUList(hx).writeto(path, overwrite=True)


def decoys(d):
    for n in ('rrtemplate-OLD.fits.tmp', 'rrarchetype-galaxy.fits', 'notes.txt', 'other-template.fits', 'xrrtemplate-STAR.fits'):
        open(os.path.join(d, n), 'w').write('x')
    os.mkdir(d + '/sub')


def check_loaded(ts, want, what):
    got = [(t.template_type, t.sub_type) for t in ts]
    if got != [IDENT[k] for k in want]:
        raise core.Violation('loaded', f'{what}: loaded {got}, requested {[IDENT[k] for k in want]}')
    for t, k in zip(ts, want):
        if not np.array_equal(t.flux, flux_of(k)):
            raise core.Violation('content', f'{what}: template {k} does not have the flux of its file')
        if os.path.basename(str(t.filename)) != FILES[k][0]:
            raise core.Violation('filename', f'{what}: template {k} is named {t.filename}')


def form(c, d):
    """(argument, keys expected in order or None if it must be an error, unordered)"""
    f, keys = c['form'], c['keys']
    p = {k: os.path.join(d, FILES[k][0]) for k in FILES}
    out = c.get('out')
    order = keys
    if f in ('dir', 'dirslash', 'reldir', 'path', 'env', 'envrel'):
        order = sorted([k for k in keys if FILES[k][0].startswith('rrtemplate-')], key=lambda k: FILES[k][0])
        arg = dict(dir=d, dirslash=d + '/', reldir='.', path=pathlib.Path(d), env=None, envrel=None)[f]
    elif f in ('list', 'tuple', 'array', 'set', 'listpath', 'listrel', 'generator'):
        q = [p[k] for k in keys]
        if f == 'listpath':
            q = [pathlib.Path(x) for x in q]
        if f == 'listrel':
            q = [os.path.basename(x) for x in q]
        arg = dict(tuple=tuple, array=np.array, set=set).get(f, list)(q)
    elif f in ('file', 'pathfile', 'relfile', 'inenv', 'gz'):
        order = keys[:1]
        x = p[keys[0]]
        if f == 'gz':
            import gzip
            open(x + '.gz', 'wb').write(gzip.compress(open(x, 'rb').read()))
            x += '.gz'
        arg = dict(file=x, pathfile=pathlib.Path(x), relfile='./' + os.path.basename(x), gz=x)[f]
    else:
        raise core.MCError(f)
    return arg, order


STYLE = dict(plain='{}\n', comment='{} # a comment\n', spaces='  {}  \n', abs='{}\n', sub='{}\n', far='{}\n', crlf='{}\r\n', words='{} an old version\n', tab='\t{}\twith a tab\n')
WHERE = dict(sub='sub', far='../far')


def run_find(rec, c):
    from redrock.templates import find_templates, load_templates, load_dist_templates
    env = dict(os.environ)
    cwd = os.getcwd()
    with tempfile.TemporaryDirectory(prefix='c17') as d0:
        d = d0 + '/t'
        os.mkdir(d)
        os.mkdir(d0 + '/far')
        try:
            have = c['have']
            decoys(d)
            for k in have:
                write_file(os.path.join(d, WHERE.get(c.get('style'), ''), FILES[k][0]), k)
            f = c['form']
            os.environ['RR_TEMPLATE_DIR'] = d + '/nonexistent'
            keys = c['keys']
            bad = any(k not in have for k in keys)
            if f in ('default', 'defaultpath', 'txt', 'txtpath', 'txtrel', 'txtenv', 'defaultenv'):
                n = 'templates-default.txt' if f.startswith('default') else 'alternate.txt'
                if c.get('both') and f.startswith('txt'):       # the other list must not be used
                    open(d + '/templates-default.txt', 'w').write(FILES[have[0]][0] + '\n')
                pre = dict(abs=d + '/', sub='sub/', far=d0 + '/far/').get(c['style'], '')
                with open(d + '/' + n, 'w', newline='') as F:
                    F.write('# templates\n\n')
                    for k in keys:
                        F.write(STYLE[c['style']].format(pre + FILES[k][0]) + '#' + FILES['E'][0] + '\n\n')
                arg = dict(default=d, defaultpath=pathlib.Path(d), txt=d + '/' + n, txtpath=pathlib.Path(d + '/' + n), txtrel=n, txtenv=None, defaultenv=None)[f]
                if f.endswith('env'):
                    os.environ['RR_TEMPLATE_DIR'] = d if f == 'defaultenv' else d + '/' + n
                if f == 'txtrel':
                    os.chdir(d)
                elif c.get('both'):     # other files of the same names in the current directory
                    os.mkdir(d + '/cw')
                    os.mkdir(d + '/cw/sub')
                    for k in have:
                        for x in ('', 'sub/'):
                            write_file(d + '/cw/' + x + FILES[k][0], 'Z', FILES[k][1])
                    os.chdir(d + '/cw')
                order = keys
            elif f == 'missing':
                arg = dict(dir=d + '/none', file=d + '/rrtemplate-none.fits', txt=d + '/none.txt', env=None, other=d + '/notes.dat', path=pathlib.Path(d + '/none'), pathfile=pathlib.Path(d + '/none.fits'))[c['what']]
                open(d + '/notes.dat', 'w').write('x')
                order, bad = [], True
            else:
                arg, order = form(c, d)
                if f in ('env', 'envrel'):
                    os.environ['RR_TEMPLATE_DIR'] = d
                if f in ('reldir', 'listrel', 'relfile'):
                    os.chdir(d)
                if f in ('dir', 'dirslash', 'reldir', 'path', 'env', 'envrel'):
                    bad = not order
            if not bad and len(order) == 0:
                bad = True
            what = f'{f} {c.get("style", "")} {keys}'
            dup = len({IDENT[k] for k in order}) < len(order)
            where = WHERE.get(c.get('style'), '')
            want = [os.path.realpath(os.path.join(d, where, FILES[k][0])) for k in order]
            try:
                with core.quiet():
                    got = list(find_templates(arg))
            except Exception:
                if not bad:
                    raise
                got = None
            rec.ev()
            if got is not None and not bad:
                g = [os.path.realpath(str(x)) for x in got]
                g = [x[:-3] if f == 'gz' else x for x in g]
                if f == 'set':
                    g, w = sorted(g), sorted(want)
                else:
                    w = want
                if g != w:
                    raise core.Violation('find', f'{what}: found {[os.path.basename(x) for x in g]}, expected {[os.path.basename(x) for x in w]}')
            # loading
            for asdict in (False, True):
                try:
                    with core.quiet():
                        ts = load_templates(arg, asdict=asdict)
                except Exception:
                    if not bad and not (dup and asdict):
                        raise
                    rec.ev()
                    rec.outcome('error')
                    continue
                rec.ev()
                if bad:
                    raise core.Violation('missing', f'{what}: not an error, loaded {list(ts)}')
                if asdict and dup:
                    raise core.Violation('silent', f'{what}: two templates of one type, loaded {[(k, os.path.basename(str(t.filename))) for k, t in ts.items()]}')
                if asdict:
                    for (st, su), t in ts.items():
                        if (t.template_type, t.sub_type) != (st, su):
                            raise core.Violation('key', f'{what}: {(st, su)} is {t}')
                    ts = list(ts.values())
                if f == 'set':
                    ts = sorted(ts, key=lambda t: os.path.basename(str(t.filename)))
                    o = sorted(order, key=lambda k: FILES[k][0])
                else:
                    o = order
                if f == 'gz':
                    for t in ts:
                        t._filename = t._filename[:-3]
                check_loaded(ts, o, what)
                rec.nontrivial(f, c.get('style'), tuple(keys), asdict)
            # as a run does
            if c.get('dist') is not None:
                w = {1: np.linspace(3800., 4400., 6)}

                def go(comm=None):
                    with core.quiet():
                        return [(t.template.template_type, t.template.sub_type, t.template.filename) for t in load_dist_templates(w, templates=arg, comm=comm, mp_procs=1)]
                try:
                    if c['dist']:
                        res, sched = fakempi.run_ranks(c['dist'], go, allow_exc=True, timeout=60)
                        if sched.aborted is not None or any(r[0] != 'ok' for r in res):
                            if bad or dup:
                                rec.ev()
                                return
                            raise core.Violation('dist', f'{what}: {[r for r in res if r[0] != "ok"][:1]}')
                        got = [r[1] for r in res]
                    else:
                        got = [go()]
                except core.MCError:
                    raise
                except Exception as e:
                    if isinstance(e, core.Violation) and not e.key.startswith('rank-') or not (bad or dup):
                        raise
                    rec.ev()
                    return
                rec.ev()
                if bad or dup:
                    raise core.Violation('silent', f'{what}: load_dist_templates loaded {got[0]}')
                for g in got:
                    g, o = [x[:2] for x in g], [IDENT[k] for k in order]
                    if (sorted(g) != sorted(o)) if f == 'set' else g != o:
                        raise core.Violation('dist', f'{what}: {g}')
        finally:
            os.chdir(cwd)
            os.environ.clear()
            os.environ.update(env)


# ---------------------------------------------------------------- loading
def run_load(rec, c):
    from redrock.templates import Template, load_templates
    hdr = dict(RRTYPE=c['type'])
    if c.get('sub') is not None:
        hdr['RRSUBTYP'] = c['sub']
    if c.get('method') is not None:
        hdr['RRMETHOD'] = c['method']
    if c.get('igm') is not None:
        hdr['RRIGM'] = c['igm']
    if c.get('version') is not None:
        hdr['VERSION'] = c['version']
    st = c['type'].strip().upper()
    igm = c.get('igm')
    if igm is None:
        v = c.get('version')
        igm = 'None' if st == 'STAR' else 'Calura12' if (st, v) in (('GALAXY', '2.6'), ('QSO', '0.1'), ('QSO', '1.0')) else 'Kamble20' if (st, v) == ('QSO', '1.1') else None
    method = (c.get('method') or 'PCA').upper()
    bad = igm is None or method not in ('PCA', 'NMF') or (not c['z'] and st not in ('GALAXY', 'QSO', 'STAR'))
    with tempfile.TemporaryDirectory(prefix='c17') as d:
        p = d + '/x.fits'
        write_file(p, 'A', hdr, c['dtype'], c['z'], c['wave'], c.get('znum', 5), tuple(c.get('shape', (2, 40))))
        kw = {f'zscan_{k}': v for k, v in c.get('zscan', {}).items()}
        ts = []
        for how in (lambda: Template(p, **kw), lambda: load_templates(p, **kw)[0], lambda: load_templates([p], asdict=True, **kw)):
            try:
                with core.quiet():
                    t = how()
            except Exception:
                rec.ev()
                if not bad:
                    raise
                rec.outcome('error')
                continue
            rec.ev()
            if bad:
                raise core.Violation('accepted', f'loaded {t}')
            if isinstance(t, dict):
                if list(t) != [(st, (c.get('sub') or '').strip().upper())]:
                    raise core.Violation('key', f'loaded as {list(t)}')
                t = list(t.values())[0]
            ts.append(t)
        if ts:
            # the same template made in memory
            t = ts[0]
            with core.quiet():
                ts.append(Template(spectype=st, subtype=(c.get('sub') or '').strip().upper(), redshifts=np.array(t.redshifts), wave=np.array(t.wave), flux=np.array(t.flux), method=method, igm_model=igm, version=c.get('version') or 'unknown'))
        for t in ts:
            loaded(rec, c, t, st, method, igm)


def loaded(rec, c, t, st, method, igm):
    shape = tuple(c.get('shape', (2, 40)))
    w = c['wave'][0] + c['wave'][1] * np.arange(shape[1])
    if c['wave'][2]:
        w = 10 ** w
    want = dict(template_type=st, sub_type=(c.get('sub') or '').strip().upper(), method=method, igm_model=igm, version=c.get('version') or 'unknown', nbasis=shape[0], nwave=shape[1])
    for k, v in want.items():
        if getattr(t, k) != v:
            raise core.Violation(k, f'{k}={getattr(t, k)!r}, the file has {v!r}')
    if t.solve_matrices_algorithm != method:
        raise core.Violation('method', t.solve_matrices_algorithm)
    if not np.allclose(t.wave, w, rtol=1e-12) or t.minwave != t.wave[0] or t.maxwave != t.wave[-1]:
        raise core.Violation('wave', f'{t.wave[:3]}..{t.wave[-1]}, the file has {w[:3]}..{w[-1]}')
    fl = flux_of('A', shape).astype(c['dtype']).astype(float)
    if t.flux.dtype != np.float64 or not t.flux.dtype.isnative or not np.array_equal(t.flux, fl):
        raise core.Violation('flux', 'flux is not that of the file')
    if c['z']:
        z = np.linspace(0.01, 0.2, c.get('znum', 5))
    else:
        o = c.get('zscan', {}).get(st.lower())
        if o:
            a, b, dz = (float(x) for x in o.split(','))
            z = np.arange(a, b, dz) if st == 'STAR' else 10 ** np.arange(np.log10(1 + a), np.log10(1 + b), dz) - 1
        else:
            z = dict(GALAXY=10 ** np.arange(np.log10(1 - 0.005), np.log10(1 + 1.7), 3e-4) - 1, STAR=np.arange(-0.002, 0.00201, 4e-5), QSO=10 ** np.arange(np.log10(1.05), np.log10(7.0), 5e-4) - 1)[st]
    if len(t.redshifts) != len(z) or not np.allclose(t.redshifts, z, atol=1e-12) or not np.asarray(t.redshifts).dtype.isnative:
        raise core.Violation('redshifts', f'{len(t.redshifts)} redshifts {t.redshifts[0]}-{t.redshifts[-1]}, expected {len(z)} {z[0]}-{z[-1]}')
    rec.nontrivial(st, method, igm, c['z'], c['dtype'], tuple(c['wave']), str(c.get('zscan')))


# ---------------------------------------------------------------- archetypes
def run_arch(rec, c):
    from redrock.archetypes import find_archetypes, All_archetypes
    env = dict(os.environ)
    cwd = os.getcwd()
    with tempfile.TemporaryDirectory(prefix='c17') as d:
        try:
            os.environ.pop('RR_ARCHETYPE_DIR', None)
            decoys(d)
            os.remove(d + '/rrarchetype-galaxy.fits')
            names = dict(G='rrarchetype-galaxy.fits', Q='rrarchetype-qso.fits', S='rrarchetype-star.fits', H='rrarchetype-galaxy-v2.fits')
            typ = dict(G='GALAXY', Q='QSO', S='STAR', H='GALAXY')
            for k in c['have']:
                fix.mk_archetypes(d + '/' + names[k], typ[k], n=2, key='c17' + k, wmin=3000., nw=60)
            order = sorted(c['have'], key=lambda k: names[k])
            f = c['form']
            os.environ['C17DIR'] = d
            bad = False
            if f == 'env':
                os.environ['RR_ARCHETYPE_DIR'] = d
                arg = None
            elif f in ('file', 'filevar', 'filepath'):
                order = order[:1]
                arg = (d if f != 'filevar' else '$C17DIR') + '/' + names[order[0]]
            elif f == 'missing':
                arg, bad = d + '/none' + c['what'], True
            elif f == 'none':
                arg, bad = None, True
            else:
                arg = dict(dir=d, slash=d + '/', var='$C17DIR', rel='.')[f]
                if f == 'rel':
                    os.chdir(d)
            dup = len({typ[k] for k in order}) < len(order)
            try:
                with core.quiet():
                    got = find_archetypes(arg)
                    al = All_archetypes(archetypes_dir=arg).archetypes
            except Exception:
                rec.ev()
                if not bad and not dup:
                    raise
                rec.outcome('error')
                return
            rec.ev()
            if bad or dup:
                raise core.Violation('missing' if bad else 'silent', f'{c}: found {got}, loaded {[(k, os.path.basename(v.filename)) for k, v in al.items()]}')
            g = [os.path.realpath(os.path.expandvars(x)) for x in got]
            if g != [os.path.realpath(d + '/' + names[k]) for k in order]:
                raise core.Violation('find', f'{c}: found {got}')
            if [(k, os.path.basename(a.filename)) for k, a in al.items()] != [(typ[k], names[k]) for k in order]:
                raise core.Violation('loaded', f'{c}: {[(k, os.path.basename(a.filename)) for k, a in al.items()]}')
            rec.nontrivial(f, tuple(order))
        finally:
            os.chdir(cwd)
            os.environ.clear()
            os.environ.update(env)


# ---------------------------------------------------------------- headers
def headers(path):
    from astropy.io import fits
    with fits.open(path) as h:
        return [h[0].header.copy(), h[1].header.copy()]


def run_header(rec, c):
    from astropy.table import Table
    from astropy.io import fits
    from redrock.templates import load_templates, load_templates_from_header, header2templatefiles
    from redrock.archetypes import All_archetypes
    import redrock.external.desi as D
    import redrock.external.boss as B
    env = dict(os.environ)
    with tempfile.TemporaryDirectory(prefix='c17') as d:
        try:
            for k in c['have']:
                write_file(d + '/' + FILES[k][0], k)
            keys = c['keys']
            with core.quiet():
                ts = load_templates([d + '/' + FILES[k][0] for k in keys], asdict=bool(c.get('asdict')))
            ar = None
            names = dict(G='rrarchetype-galaxy.fits', Q='rrarchetype-qso.fits')
            if c.get('arch') is not None:
                os.mkdir(d + '/a')
                for k in c['arch']:
                    fix.mk_archetypes(d + '/a/' + names[k], dict(G='GALAXY', Q='QSO')[k], n=2, key='c17' + k, wmin=3000., nw=60)
                with core.quiet():
                    ar = All_archetypes([d + '/a/' + names[k] for k in c['arch']]).archetypes
            z = Table(dict(TARGETID=np.array([5, 7]), Z=np.zeros(2)))
            fm = Table(dict(TARGETID=np.array([5, 7])))
            p = d + '/o.fits'
            ver = {k: FILES[k][1].get('VERSION', 'unknown') for k in keys}
            full = {k: (IDENT[k][0] + SEP + IDENT[k][1]) if IDENT[k][1] else IDENT[k][0] for k in keys}
            with core.quiet():
                if c['writer'] == 'zbest':
                    D.write_zbest(p, z, fm, fm.copy(), fm.copy(), ts, archetypes=ar, spec_header=dict(SPGRP='healpix', HPXPIXEL=9, OTHER=3))
                elif c['writer'] == 'model':
                    D.write_bestmodel(p, z, dict(b=np.zeros((2, 3))), dict(b=np.arange(3.)), ts, archetypes=ar, spec_header=dict(SPGRP='healpix', HPXPIXEL=9))
                else:
                    tt = ts.values() if isinstance(ts, dict) else ts
                    B.write_zbest(p, z, {t.full_type: t.version for t in tt}, None if ar is None else {k: a.version for k, a in ar.items()})
            hs = headers(p)
            if c['writer'] != 'zbest':
                hs = hs[:1]
            tdir = None if c.get('env') else d
            os.environ['RR_TEMPLATE_DIR'] = d if c.get('env') else d + '/none'
            for h in hs:
                rec.ev()
                got = [(h[f'TEMNAM{i:02d}'], h[f'TEMVER{i:02d}']) for i in range(100) if f'TEMNAM{i:02d}' in h]
                if got != [(full[k], ver[k]) for k in keys]:
                    raise core.Violation('templates', f'header has {got}, used {[(full[k], ver[k]) for k in keys]}')
                if c['writer'] != 'boss':
                    gf = [h[f'TEMFIL{i:02d}'] for i in range(100) if f'TEMFIL{i:02d}' in h]
                    if gf != [FILES[k][0] for k in keys]:
                        raise core.Violation('files', f'header has {gf}, used {[FILES[k][0] for k in keys]}')
                    if h.get('SPGRP') != 'healpix' or h.get('HPXPIXEL') != 9:
                        raise core.Violation('spec', 'keywords of the spectra are not in the header')
                ga = [(h[f'ARCNAM{i:02d}'], h[f'ARCVER{i:02d}']) for i in range(100) if f'ARCNAM{i:02d}' in h]
                wa = [(a.template_type, a.version) for a in ar.values()] if ar else []
                if ga != wa:
                    raise core.Violation('archetypes', f'header has {ga}, used {wa}')
                if ar and c['writer'] != 'boss':
                    gf = [h[f'ARCFIL{i:02d}'] for i in range(100) if f'ARCFIL{i:02d}' in h]
                    if gf != [names[k] for k in c['arch']]:
                        raise core.Violation('archfiles', f'{gf}')
                # reading back
                for drop in ((), ) if c['writer'] == 'boss' else ((), range(len(keys)), range(0, len(keys), 2), range(1, len(keys), 2)):
                    h2 = h.copy()
                    for i in drop:
                        del h2[f'TEMFIL{i:02d}']
                    byname = [i for i in range(len(keys)) if f'TEMFIL{i:02d}' not in h2]
                    # names without the file keyword follow the standard rule
                    std = all(keys[i] in STD for i in byname)
                    if not std:
                        continue
                    for hh in (h2, dict(h2)):
                        try:
                            got = header2templatefiles(hh, template_dir=tdir)
                        except Exception:
                            raise
                        rec.ev()
                        if [os.path.realpath(x) for x in got] != [os.path.realpath(d + '/' + FILES[k][0]) for k in keys]:
                            raise core.Violation('readback', f'{[os.path.basename(x) for x in got]}, used {[FILES[k][0] for k in keys]} (without TEMFIL of {list(drop)})')
                        with core.quiet():
                            t2 = load_templates_from_header(hh, template_dir=tdir)
                            t3 = load_templates_from_header(hh, template_dir=tdir, asdict=True)
                        check_loaded(t2, keys, 'header')
                        check_loaded(list(t3.values()), keys, 'header')
                        rec.nontrivial(c['writer'], tuple(keys), tuple(drop), c.get('arch'))
                # renumbered: the numbers need not be contiguous
                h3 = {k.replace(f'{i:02d}', f'{2 * i + 1:02d}') if k[:3] == 'TEM' else k: v for i in range(len(keys)) for k, v in dict(h).items() if k[:3] == 'TEM' and k.endswith(f'{i:02d}')}
                if c['writer'] != 'boss' and len(keys) <= 50:
                    got = header2templatefiles(h3, template_dir=tdir)
                    rec.ev()
                    if [os.path.basename(x) for x in got] != [FILES[k][0] for k in keys]:
                        raise core.Violation('gaps', f'{got}')
                # a file that is gone is an error
                os.rename(d + '/' + FILES[keys[-1]][0], d + '/gone')
                try:
                    with core.quiet():
                        t2 = load_templates_from_header(h, template_dir=tdir)
                except Exception:
                    t2 = None
                os.rename(d + '/gone', d + '/' + FILES[keys[-1]][0])
                rec.ev()
                if t2 is not None and (c['writer'] != 'boss' or keys[-1] in STD):
                    raise core.Violation('missing', 'a missing template is not an error')
        finally:
            os.environ.clear()
            os.environ.update(env)


# ---------------------------------------------------------------- the commands
def run_cmd(rec, c):
    """rrdesi and rrboss record what they used, and a run with what they recorded is the same."""
    from astropy.io import fits
    from astropy.table import Table
    from redrock.templates import header2templatefiles
    from checks import c15
    env = dict(os.environ)
    with tempfile.TemporaryDirectory(prefix='c17') as d:
        try:
            os.environ['RR_TEMPLATE_DIR'] = d + '/none'
            b = dict(tmpl=c['tmpl'], arch=c.get('arch'), archdir=c.get('archdir', True))
            b = c14.prepare(b, d) if c['cmd'] == 'desi' else b
            if c['cmd'] == 'desi':
                paths = c14.write_inputs([dict(rows=[dict(t=11, e=0), dict(t=12, e=0)])], True, d + '/i')
            else:
                c15.prepare(c, d)
                with core.quiet():
                    paths, _ = c15.write(dict(plate=3586, mjd=56000, fibers=[1, 2]), d)
            allf = sorted(os.listdir(d + '/t'))
            want = allf
            f = c['form']
            if f == 'dir':
                t = ['-t', d + '/t']
            elif f == 'file':
                want = [allf[-1]]
                t = ['-t', d + '/t/' + allf[-1]]
            elif f == 'txt':
                want = allf[::-1][:2]
                open(d + '/my.txt', 'w').write('# mine\n' + ''.join(f't/{x} # {x}\n' for x in want))
                t = ['-t', d + '/my.txt']
            elif f == 'default':
                want = allf[::-1]
                open(d + '/t/templates-default.txt', 'w').write('\n'.join(want))
                t = ['-t', d + '/t']
            elif f in ('env', 'envcmd'):
                os.environ['RR_TEMPLATE_DIR'] = d + '/t'
                t = []
            elif f in ('gz', 'gzlist'):        # compressed templates
                want = [allf[-1] + '.gz'] if f == 'gz' else [x + '.gz' for x in allf[::-1]]
                for x in want:
                    import gzip
                    open(d + '/t/' + x, 'wb').write(gzip.compress(open(d + '/t/' + x[:-3], 'rb').read()))
                    os.remove(d + '/t/' + x[:-3])
                t = ['-t'] + [d + '/t/' + x for x in want]
            elif f == 'list':
                want = allf[::-1]
                t = ['-t'] + [d + '/t/' + x for x in want]
            else:       # refused
                want = None
                if f == 'dup':
                    import shutil
                    shutil.copy(d + '/t/' + allf[0], d + '/t/rrtemplate-zz-other.fits')
                if f == 'emptydir':
                    os.mkdir(d + '/e')
                t = ['-t', dict(nodir=d + '/nodir', nofile=d + '/rrtemplate-no.fits', notxt=d + '/no.txt', dup=d + '/t', emptydir=d + '/e')[f]]

            def args(out, t):
                if c['cmd'] == 'desi':
                    o = ['-i'] + paths + t + ['--outfile', out + '/z.fits', '--model', out + '/m.fits', '--details', out + '/d.h5']
                    if b.get('archpath'):
                        o += ['--archetypes', b['archpath']]
                else:
                    o = ['--spplate'] + paths + t + ['--zbest', out + '/z.fits', '-o', out + '/d.h5']
                    if c.get('arch'):
                        o += ['--archetypes', d + '/a']
                return o
            call = c14.call if c['cmd'] == 'desi' else c15.call
            v = dict(ranks=c['ranks']) if c.get('ranks') else dict(mp=1)
            try:
                call(args(d + '/o1', t), dict(v, refuse=want is None))
            except c14.Refused:
                rec.ev()
                if want is not None:
                    raise core.Violation('refused', f'{c}')
                if os.path.exists(d + '/o1') and os.listdir(d + '/o1'):
                    raise core.Violation('refused-files', f'{os.listdir(d + "/o1")}')
                rec.outcome('refused')
                return
            rec.ev()
            if want is None:
                raise core.Violation('accepted', f'{c}: wrote {os.listdir(d + "/o1")}')
            keyof = lambda n: n.split('-')[-1].split('.')[0]
            wantn = []
            for n in want:
                st, sub = c14.TM[keyof(n)][:2]
                wantn.append((st + SEP + sub if sub else st, '1.0'))
            tabs = {}
            for n in ('z.fits', 'm.fits') if c['cmd'] == 'desi' else ('z.fits',):
                with fits.open(f'{d}/o1/{n}') as h:
                    hs = [h[0].header.copy()] + ([h[1].header.copy()] if n == 'z.fits' and c['cmd'] == 'desi' else [])
                    tabs[n] = Table(np.array(h[1].data))
                for h in hs:
                    rec.ev()
                    got = [(h[f'TEMNAM{i:02d}'], h[f'TEMVER{i:02d}']) for i in range(100) if f'TEMNAM{i:02d}' in h]
                    if got != wantn:
                        raise core.Violation('cmd-templates', f'{n}: header has {got}, used {wantn}')
                    if c['cmd'] == 'desi':
                        if [os.path.basename(x) for x in header2templatefiles(h, d + '/t')] != want:
                            raise core.Violation('cmd-files', f'{n}: {header2templatefiles(h)}, used {want}')
                    ga = [h[f'ARCNAM{i:02d}'] for i in range(100) if f'ARCNAM{i:02d}' in h]
                    wa = sorted(c14.TM[k][0] for k in c['arch']) if c.get('arch') else []
                    if c.get('arch') and not c.get('archdir', True):
                        wa = [c14.TM[c['arch'][0]][0]]
                    if ga != wa:
                        raise core.Violation('cmd-archetypes', f'{n}: {ga}, used {wa}')
            if c['cmd'] == 'desi':
                files2 = header2templatefiles(hs[0], d + '/t')
                call(args(d + '/o2', ['-t'] + files2), dict(mp=1))
                with fits.open(f'{d}/o2/z.fits') as h:
                    t2 = Table(np.array(h[1].data))
                rec.ev()
                for x in t2.colnames:
                    if not c14.eq(t2[x], tabs['z.fits'][x], 1e-6):
                        raise core.Violation('reproduce', f'{x}: {list(t2[x])} with the recorded templates, {list(tabs["z.fits"][x])} before')
            rec.nontrivial(c['cmd'], f, c['tmpl'], c.get('arch'), c.get('ranks'))
        finally:
            os.environ.clear()
            os.environ.update(env)


def dispatch(rec, c):
    f = dict(names=run_names, find=run_find, load=run_load, arch=run_arch, header=run_header, cmd=run_cmd)[c['kind']]
    with rec.case(c):
        f(rec, c)


def make():
    return core.Check('C17', 'exploration',
        rule='every ordered subset of the template files up to the listed size in every way of naming them; the full lattice of template header keywords; every header written for those subsets and read back with and without file keywords; both commands in every naming form',
        assumptions=['synthetic template and archetype files', 'MPI simulated (see C02)', 'at most 100 templates (two digits in the header keywords)'],
        explanation='bounded-exhaustive enumeration of file sets, naming forms and headers through the real functions and commands')


def run(ck):
    T = ck.thorough
    items = []
    al = ['', 'A', 'b:c', 'DA WD', ' x', 'x ', 'Z9-_/', ';', '_0']
    subs = al + [None]
    items.append(dict(kind='names', types=[a for a in al if a.strip()], subs=subs))
    import string
    one = [a + b for a in 'Aa0 :' for b in 'Bb1_;']
    items.append(dict(kind='names', types=one, subs=[a + b for a in 'Ca0; ' for b in 'Dd1 ']))
    # finding
    keysets = []
    for n in (1, 2, 3):
        for s in itertools.permutations('ABCDX' if n < 3 else 'ABCX', n):
            keysets.append(list(s))
    keysets += [['A', 'X'], ['B', 'Y'], ['Y', 'B', 'A'], ['A', 'B', 'A'], ['N', 'A']]
    q = 0
    for f in ('dir', 'dirslash', 'reldir', 'path', 'env'):
        for n in (0, 1, 2, 3, 4):
            for s in itertools.combinations('ABCDX', n):
                items.append(dict(kind='find', form=f, have=list(s), keys=list(s), dist=(0, 2, None)[q % 3]))
                q += 1
        items.append(dict(kind='find', form=f, have=['A', 'B', 'Y'], keys=['A', 'B', 'Y'], dist=q % 3))
    for f in ('list', 'tuple', 'array', 'set', 'listpath', 'listrel', 'file', 'pathfile', 'relfile', 'gz'):
        for s in keysets:
            q += 1
            if 'file' in f or f == 'gz':
                if len(s) > 1 and s != ['N', 'A']:
                    continue
            elif not T and len(s) == 3 and q % 4:
                continue
            if f == 'set' and len(set(s)) < len(s):
                continue
            items.append(dict(kind='find', form=f, have=sorted(set(s) | {'D'}), keys=s, dist=(0, None, 3)[q % 3] if f not in ('gz',) and not (f == 'array' and q % 3 == 2) else None))
            if len(s) > 1 and f not in ('gz',) and 'file' not in f:
                items.append(dict(kind='find', form=f, have=sorted(set(s) - {s[-1]}), keys=s))
    for f in ('default', 'defaultpath', 'txt', 'txtpath', 'txtrel', 'txtenv', 'defaultenv'):
        for st in STYLE:
            for s in keysets:
                q += 1
                if not T and len(s) > 1 and q % 5:
                    continue
                items.append(dict(kind='find', form=f, style=st, have=sorted(set(s) | {'D', 'E'}), keys=s, both=bool(q % 2), dist=(0, None, 2)[q % 3]))
                if len(s) > 1:
                    items.append(dict(kind='find', form=f, style=st, have=sorted(set(s) - {s[q % len(s)]}), keys=s))
    for w in ('dir', 'file', 'txt', 'env', 'other', 'path', 'pathfile'):
        items.append(dict(kind='find', form='missing', what=w, have=['A'], keys=[], dist=0))
        items.append(dict(kind='find', form='missing', what=w, have=['A'], keys=[], dist=2))
    # loading
    lat = itertools.product(('GALAXY', 'qso ', 'STAR', 'Other'), (None, '', 'hiz', ' CV-and-longer '), (None, 'pca', 'NMF', 'nmf', 'ICA'), (None, 'None', 'Inoue14'), (None, '0.1', '1.0', '1.1', '2.6'), (True, False))
    for j, (t, su, m, ig, v, z) in enumerate(lat):
        if not T and j % 5 and not (su == '' and m is None):
            continue
        dt = ('>f8', '>f4')[j % 2]
        wv = ((3000., 60., 0), (3000., 60., None), (3.5, 1e-3, 1))[j % 3]
        items.append(dict(kind='load', type=t, sub=su, method=m, igm=ig, version=v, z=z, dtype=dt, wave=list(wv), znum=(1, 5)[j % 2], shape=[(1, 3)[j % 2], 40]))
    for t in ('GALAXY', 'QSO', 'STAR'):
        for z in (True, False):
            for own in ('0.1,0.4,1e-3', '-0.001,0.0011,1e-4', '0.0,6.0,5e-3'):
                for others in ({}, dict(galaxy='1,2,0.1', qso='1,2,0.1', star='1,2,0.1')):
                    for igm in ('None', 'Inoue14'):
                        items.append(dict(kind='load', type=t, sub='', igm=igm, z=z, dtype='>f8', wave=[3000., 60., 0], zscan=dict(others, **{t.lower(): own})))
                        if others:
                            o = dict(others)
                            del o[t.lower()]
                            items.append(dict(kind='load', type=t, sub='', igm=igm, z=z, dtype='>f8', wave=[3000., 60., 0], zscan=o))
    # archetypes
    for n in (1, 2, 3, 4):
        for s in itertools.combinations('GQSH', n):
            for f in ('dir', 'slash', 'var', 'rel', 'env', 'file', 'filevar'):
                items.append(dict(kind='arch', form=f, have=list(s)))
    for w in ('', '.fits', '/x.fits'):
        items.append(dict(kind='arch', form='missing', what=w, have=['G']))
    items.append(dict(kind='arch', form='none', have=['G']))
    # headers
    for writer in ('zbest', 'model', 'boss'):
        for n in (1, 2, 3, 4, 5):
            for s in itertools.permutations('ABCDEN' if writer != 'boss' else 'ABCDE', n):
                q += 1
                if n > 2 and not T and q % (7, 31, 131)[n - 3]:
                    continue
                items.append(dict(kind='header', writer=writer, have=sorted(set(s) | {'Y', 'X'}), keys=list(s), asdict=bool(q % 2), arch=(None, '', 'G', 'GQ', 'QG')[q % 5], env=bool(q // 2 % 2)))
        for s in ('XB', 'YX', 'BX', 'X', 'Y', 'DYE'):
            if writer == 'boss' and 'X' in s:
                continue
            items.append(dict(kind='header', writer=writer, have=list('ABCDEXY'), keys=list(s), asdict=True, arch=None))
    for n in (6, 9, 10, 11, 16, 20, 21, 26, 33, 64, 99, 100) if not T else range(6, 101):
        for writer in ('zbest', 'model', 'boss'):
            ks = MANY[:n] if n % 2 else MANY[:n][::-1]
            items.append(dict(kind='header', writer=writer, have=ks, keys=ks, asdict=n % 3 == 0, arch=None, env=n % 2 == 0))
    # commands
    for k, (tm, f) in enumerate(itertools.product(('GQS', 'GST', 'QL'), ('dir', 'file', 'txt', 'default', 'env', 'list', 'gz', 'gzlist', 'nodir', 'nofile', 'notxt', 'dup', 'emptydir'))):
        for r in (None, 2):
            for cmd in ('desi', 'boss'):
                if not T and (k + (r or 0) // 2 + (cmd == 'boss')) % 2 and f not in ('dup', 'emptydir'):
                    continue
                if cmd == 'boss' and f in ('list', 'gzlist'):
                    continue
                items.append(dict(kind='cmd', cmd=cmd, tmpl=tm, form=f, ranks=r, arch=(None, 'G', 'GQ')[k % 3] if tm == 'GQS' else None, archdir=k % 2 == 0 or cmd == 'boss'))
    core.pmap(items[::-1], dispatch, ck, timeout=600)


def replay(rec, case):
    dispatch(rec, case)
