"""Synthetic DESI and BOSS input files whose whole content is a pure function of (target, exposure, band)."""
import os
import numpy as np
from . import fix

LBANDS = 'brz'
OBJ = {'TGT': 0, 'SKY': 1, 'BAD': 2}


def desi_spec(tid, e, b, mode='ok', z=0.12, offset=0.):
    """(wave, flux, ivar, mask, resolution data) of one row."""
    w = fix.band_wave(b) + offset
    line = 3800. * (1 + z)
    f = 2 + 5 * np.exp(-(w - line) ** 2 / (2 * 45. ** 2)) + 0.4 * np.sin(w / 150. + (tid % 7)) + 0.5 * fix.noise(len(w), (tid, b, e))
    iv = 2.0 + 0.5 * fix.noise(len(w), (tid, b, e, 'iv'))
    m = np.zeros(len(w), dtype=np.uint32)
    k = (np.arange(len(w)) + tid + e) % 9
    m[k == 0] = 1 << (tid % 5)
    m[k == 4] = 1 << 31 if e % 2 else 2
    if mode == 'nan':
        f[k == 2], f[k == 3], f[k == 5] = np.nan, np.inf, -np.inf
        iv[k == 6], iv[k == 7] = np.nan, np.inf
    elif mode == 'neg':
        f[k == 2] = -40.
        f[k == 3] = -3.
        iv[k == 3] = 2.
        f[k == 5] = -4e4
    elif mode == 'dead':
        iv[:] = 0
    elif mode == 'masked':
        m[:] = 4
    elif mode == 'flat':
        f[:] = 0.
    R = fix.mk_R(len(w), 2, sigma=0.6 + 0.1 * ((tid + 2 * e + ord(b)) % 5)).data
    return w, f.astype(np.float32), iv.astype(np.float32), m, R.astype(np.float32)


def write_desi(path, rows, coadded, bands=LBANDS, masks=True, tile=None, exprows=None, offset=0., order=None):
    """rows: list of dict(t=targetid, e=exposure, mode=, obj=, status=, tile=)."""
    from astropy.io import fits
    from astropy.table import Table
    n = len(rows)
    fm = Table()
    fm['TARGETID'] = np.array([r['t'] for r in rows], dtype=np.int64)
    fm['TARGET_RA'] = np.array([10. + (r['t'] % 1000) * 0.01 for r in rows])
    fm['OBJTYPE'] = np.array([r.get('obj', 'TGT') for r in rows], dtype='U3')
    fm['FLUX_R'] = np.array([(r['t'] % 977) * 1.5 for r in rows], dtype=np.float32)
    fm['DESI_TARGET'] = np.array([r['t'] % 8191 for r in rows], dtype=np.int64)

    def perexp(tab, rr):
        tab['TILEID'] = np.array([r.get('tile', 100) for r in rr], dtype=np.int32)
        tab['NIGHT'] = np.array([20210000 + r['e'] for r in rr], dtype=np.int32)
        tab['EXPID'] = np.array([5000 + r['e'] for r in rr], dtype=np.int32)
        tab['MJD'] = np.array([55000.5 + r['e'] for r in rr])
        tab['EXPTIME'] = np.array([900. + r['e'] for r in rr], dtype=np.float32)
        tab['FIBER'] = np.array([r['t'] % 500 for r in rr], dtype=np.int32)
        tab['FIBERSTATUS'] = np.array([r.get('status', 0) for r in rr], dtype=np.int32)
    sc = Table()
    sc['TARGETID'] = fm['TARGETID']
    sc['TSNR2_ELG_B'] = np.array([(r['t'] % 101) * 2. + (0 if coadded else r['e']) for r in rows], dtype=np.float32)
    sc['OTHER'] = np.arange(n)
    hx = fits.HDUList([fits.PrimaryHDU()])
    hx[0].header['SPGRP'] = 'test'
    hx[0].header['SURVEY'] = 'main'
    hx[0].header['PROGRAM'] = 'dark'
    hx[0].header['HPXPIXEL'] = 77
    hx[0].header['PETAL'] = 0
    hx[0].header['HPXNEST'] = False
    if coadded:
        fm['COADD_FIBERSTATUS'] = np.array([r.get('status', 0) for r in rows], dtype=np.int32)
        fm['COADD_NUMEXP'] = np.ones(n, dtype=np.int16)
        ex = Table()
        exprows = exprows if exprows is not None else [dict(r, e=e) for r in rows for e in range(2)]
        ex['TARGETID'] = np.array([r['t'] for r in exprows], dtype=np.int64)
        perexp(ex, exprows)
    else:
        perexp(fm, rows)
    tabs = [('FIBERMAP', fm), ('SCORES', sc)] + ([('EXP_FIBERMAP', ex)] if coadded else [])
    for name, t in tabs:
        t.meta['EXTNAME'] = name
        t.meta['MCTABLE'] = 'input ' + name
        hx.append(fits.table_to_hdu(t))
    for b in (order or bands):
        d = [desi_spec(r['t'], r['e'], b, r.get('mode', 'ok'), r.get('z', 0.12), offset) for r in rows]
        B = b.upper()
        hx.append(fits.ImageHDU(d[0][0], name=B + '_WAVELENGTH'))
        hx.append(fits.ImageHDU(np.array([x[1] for x in d]), name=B + '_FLUX'))
        hx.append(fits.ImageHDU(np.array([x[2] for x in d]), name=B + '_IVAR'))
        if masks is True or (masks and b in masks):
            hx.append(fits.ImageHDU(np.array([x[3] for x in d]), name=B + '_MASK'))
        hx.append(fits.ImageHDU(np.array([x[4] for x in d]), name=B + '_RESOLUTION'))
    hx.writeto(path, overwrite=True, checksum=True)


def desi_expected(files, tid, negflux=5.):
    """[(band, wave, flux, ivar, dense R)] of one target in reading order (file, band, row)."""
    out = []
    for f in files:
        for b in f.get('order') or f.get('bands', LBANDS):
            for r in f['rows']:
                if r['t'] != tid:
                    continue
                w, fl, iv, m, R = desi_spec(r['t'], r['e'], b, r.get('mode', 'ok'), r.get('z', 0.12), f.get('offset', 0.))
                fl, iv = fl.astype(np.float64), iv.astype(np.float64)
                bad = ~np.isfinite(fl)
                fl[bad] = 0
                iv[bad | ~np.isfinite(iv)] = 0
                masks = f.get('masks', True)
                if masks is True or (masks and b in masks):
                    iv[m != 0] = 0
                with np.errstate(invalid='ignore'):
                    iv[fl * np.sqrt(iv) < -abs(negflux)] = 0
                off = R.shape[0] // 2 - np.arange(R.shape[0])
                n = len(w)
                D = np.zeros((n, n))
                for k, o in enumerate(off):
                    for j in range(n):
                        if 0 <= j - o < n:
                            D[j - o, j] = R[k, j]
                out.append((b, w, fl, iv, D))
    return out


def write_boss(path, plate, mjd, fibers, npix=60, c0=3.56, c1=3e-3, andmask=True, kind='plate', camera='b1', nexp=None, key=0, perm=None, wdzero=True):
    """spPlate (kind='plate') or spCFrame (kind='frame') file; fibers: FIBERID of each row."""
    import fitsio
    n = len(fibers)
    if os.path.exists(path):
        os.remove(path)
    d = [boss_spec(plate, mjd, f, npix, c0, c1, kind, camera, key) for f in fibers]
    h = [dict(name='PLATEID', value=plate), dict(name='MJD', value=mjd)]
    if kind == 'plate':
        h += [dict(name='COEFF0', value=c0), dict(name='COEFF1', value=c1)]
        if nexp:
            ids = []
            for c in ('b1', 'r1', 'b2', 'r2'):
                if c in nexp:
                    h.append(dict(name='NEXP_' + c.upper(), value=len(nexp[c])))
                    ids += nexp[c]
            for k, i in enumerate(ids):
                h.append(dict(name=f'EXPID{k + 1:02d}', value=i))
    else:
        h.append(dict(name='CAMERAS', value=camera))
    with fitsio.FITS(path, 'rw') as F:
        F.write(np.array([x['flux'] for x in d], dtype='f4'), header=h)
        F.write(np.array([x['ivar'] for x in d], dtype='f4'))
        F.write(np.array([x['mask'] for x in d], dtype='i4'))
        if kind == 'plate':
            F.write(np.array([x['mask'] * 0 for x in d], dtype='i4'))
        else:
            F.write(np.array([x['loglam'] for x in d], dtype='f4' if False else 'f8'))
        F.write(np.array([x['wdisp'] for x in d], dtype='f4'))
        t = np.zeros(n, dtype=[('OBJID', 'i4', 5), ('FIBERID', 'i4')])
        t['FIBERID'] = fibers
        F.write(t)


def boss_spec(plate, mjd, fiber, npix=60, c0=3.56, c1=3e-3, kind='plate', camera='b1', key=0):
    k = ('boss', plate, mjd, fiber, kind, camera, key)
    if kind == 'plate':
        ll = c0 + c1 * np.arange(npix)
    else:
        ll = (3.555 if camera[0] == 'b' else 3.735) + c1 * np.arange(npix) + 1e-6 * (fiber % 500)
    w = 10 ** ll
    f = 2 + 5 * np.exp(-(w - 4300.) ** 2 / (2 * 60. ** 2)) + 0.4 * np.sin(w / 150. + fiber) + 0.3 * fix.noise(len(w), k)
    iv = 2 + 0.5 * fix.noise(len(w), k + ('iv',))
    q = (np.arange(npix) + fiber) % 7
    iv[q == 1] = 0
    m = np.zeros(npix, dtype=int)
    m[q == 3] = 1 << 16
    m[(q == 3) & (np.arange(npix) % 2 == 1)] = -2**31       # the sign bit of the int32 mask
    m[q == 5] = 1
    wd = 0.8 + 0.06 * np.sin(np.arange(npix) / 9. + fiber)
    wd[(np.arange(npix) + fiber) % 31 == 6] = 0
    return dict(wave=w, loglam=ll, flux=f.astype('f4'), ivar=iv.astype('f4'), mask=m, wdisp=wd.astype('f4'))
