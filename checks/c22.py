"""C22: spectra survive any history of sharing and use."""
import copy
import itertools
import os
import pickle
import numpy as np
import scipy.sparse
from mc import core, fix

OPS = dict(P='pack', U='unpack', C='resolution', L='legendre', F='fork', Y='pickle', D='deepcopy', S='spectral data', W='wavegrids', M='model')


def make_target(c):
    from redrock.targets import Spectrum, Target
    sp, ref = [], []
    for b in range(c['nspec']):
        n = 6 + b
        dt = np.dtype(c['dtype'])
        wave = (4000. + 500 * b + 7 * np.arange(n))
        flux = (1 + np.arange(n) * (b + 1) * 0.7 - 2 * (np.arange(n) % 3)).astype(dt)
        ivar = (np.arange(n) % 4).astype(dt)
        kind = c['R']
        if kind == 'diag':
            R = scipy.sparse.dia_matrix((np.ones((1, n)), [0]), shape=(n, n))
        elif kind == 'narrow':                 # shorter data array: the last column is empty
            A = np.eye(n)
            A[n - 1, n - 1] = 0
            A[n - 1, n - 2] = 1
            R = scipy.sparse.dia_matrix((np.array([[1.] * (n - 1), [0.] * (n - 2) + [1.]]), [0, -1]), shape=(n, n))
            assert np.array_equal(R.toarray(), A)
        else:
            R = fix.mk_R(n, int(kind))
        if c['Rdtype'] != 'f8':
            R = scipy.sparse.dia_matrix((R.data.astype(c['Rdtype']), R.offsets), shape=R.shape)
        if c.get('fortran'):
            R = scipy.sparse.dia_matrix((np.asfortranarray(R.data), R.offsets), shape=R.shape)
        if c['strided']:
            wave, flux, ivar = [np.repeat(x, 2)[::2] for x in (wave, flux, ivar)]
        s = Spectrum(wave, flux, ivar, R, R.tocsr() if c['csr'] else None, band='br'[b] if c['band'] else None)
        sp.append(s)
        ref.append((np.array(s.wave), np.array(s.flux), np.array(s.ivar), R.toarray().copy(), s.wavehash, s.band))
    return Target(c['id'], sp, meta=dict(a=1)), ref


def same(a, b):
    return a.shape == b.shape and np.array_equal(a, b) and a.dtype == b.dtype


def compare(t, ref, hist, where='parent', touch=False):
    """Everything readable equals the original; `touch` also reads the resolution (which unpacks)."""
    if len(t.spectra) != len(ref):
        raise core.Violation('count', f'{hist}: {len(t.spectra)} spectra')
    for s, (w, f, v, R, h, b) in zip(t.spectra, ref):
        for name, x, y in (('wave', s.wave, w), ('flux', s.flux, f), ('ivar', s.ivar, v)):
            if not same(np.asarray(x), y):
                raise core.Violation(name, f'{hist} ({where}): {name} {x} ({np.asarray(x).dtype}), originally {y} ({y.dtype})')
        if s.wavehash != h or s.band != b or s.nwave != len(w):
            raise core.Violation('identity', f'{hist}: wavehash {s.wavehash} band {s.band}')
        if hasattr(s, 'R'):
            if not np.array_equal(s.R.toarray(), R):
                raise core.Violation('R', f'{hist} ({where}): resolution changed')
        if touch:
            got = s.Rcsr
            if got.shape != R.shape or not np.array_equal(got.toarray(), R):
                raise core.Violation('Rcsr', f'{hist} ({where}): sparse resolution {got.shape} differs from the original {R.shape}')
            if not np.array_equal(s.R.toarray(), R):
                raise core.Violation('R', f'{hist} ({where}): resolution changed')
            for name, x, y in (('wave', s.wave, w), ('flux', s.flux, f), ('ivar', s.ivar, v)):
                if not same(np.asarray(x), y):
                    raise core.Violation(name, f'{hist} ({where}, unpacked): {name} {x}')


def child(t, ref, hist):
    """Read everything in a forked process, use it and spoil the private copies."""
    pid = os.fork()
    if pid == 0:
        rc = 1
        try:
            compare(t, ref, hist, 'child')
            t.sharedmem_unpack()
            compare(t, ref, hist, 'child', touch=True)
            for s in t.spectra:
                s.flux[:] = -1
                s.ivar[:] = 0
                s.R.data[:] = 7
            rc = 0
        except core.Violation:
            rc = 3
        finally:
            os._exit(rc)
    _, st = os.waitpid(pid, 0)
    rc = os.waitstatus_to_exitcode(st)
    if rc == 3:
        raise core.Violation('child', f'{hist}: a forked process sees other values')
    if rc:
        raise core.Violation('child-error', f'{hist}: reading in a forked process failed (status {rc})')


def apply(op, t, ref, hist):
    if op == 'P':
        t.sharedmem_pack()
    elif op == 'U':
        t.sharedmem_unpack()
    elif op == 'C':
        for s, r in zip(t.spectra, ref):
            if not np.array_equal(s.Rcsr.toarray(), r[3]):
                raise core.Violation('Rcsr', f'{hist}: sparse resolution differs from the original')
    elif op == 'c':                         # only one of the spectra
        t.spectra[0].Rcsr
    elif op == 'p':
        t.spectra[-1].sharedmem_pack()
    elif op == 'L':
        for n in (2, 3):
            leg = t.legendre(n)
            for s, r in zip(t.spectra, ref):
                x = 2 * (r[0] - r[0][0]) / (r[0][-1] - r[0][0]) - 1
                e = np.array([np.polynomial.legendre.legval(x, [0] * k + [1]) for k in range(n)])
                if not np.allclose(leg[s.wavehash], e, atol=1e-9):
                    raise core.Violation('legendre', f'{hist}: Legendre basis {leg[s.wavehash]}, expected {e}')
    elif op == 'F':
        child(t, ref, hist)
    elif op == 'Y':
        return pickle.loads(pickle.dumps(t))
    elif op == 'D':
        return copy.deepcopy(t)
    elif op == 'S':
        from redrock.zscan import spectral_data
        w, f, wf = spectral_data(t.spectra)
        if not np.array_equal(w, np.concatenate([r[2] for r in ref])) or not np.array_equal(f, np.concatenate([r[1] for r in ref])):
            raise core.Violation('spectral-data', f'{hist}: weights or flux differ')
    elif op == 'W':
        from redrock.targets import DistTargetsCopy
        g = DistTargetsCopy([t]).wavegrids()
        for r in ref:
            if not np.array_equal(g[r[4]], r[0]):
                raise core.Violation('wavegrids', f'{hist}: wavelength grids differ')
    elif op == 'M':
        from redrock.templates import Template
        if 'tpl' not in _T:
            _T['tpl'] = Template(spectype='QSO', subtype='', redshifts=np.array([0., .1, .2]), wave=np.arange(2000., 6000., 11.), flux=np.ones((1, 364)), method='PCA', igm_model='None')
        m = t.eval_model(dict(SPECTYPE='QSO', SUBTYPE='', COEFF=np.array([2.]), Z=0.1, FITMETHOD='PCA'), {('QSO', ''): _T['tpl']})
        for r in ref:
            if not np.allclose(m[r[4]], 2 * r[3].sum(axis=1), atol=1e-6):
                raise core.Violation('model', f'{hist}: model {m[r[4]]}')
    return t


_T = {}


def run_hist(rec, c):
    for tail in itertools.product(c['ops'], repeat=c['depth'] - len(c['head'])):
        seq = c['head'] + ''.join(tail)
        with rec.case(dict(c, seq=seq)):
            one(rec, c, seq)
        if rec.viol:
            return


def one(rec, c, seq):
    t, ref = make_target(c)
    held = t.spectra
    for k, op in enumerate(seq):
        hist = seq[:k + 1]
        t = apply(op, t, ref, hist)
        rec.trans()
        compare(t, ref, hist)
        rec.state(tuple((getattr(s, '_mpshared', None), getattr(s, '_Rcsr', None) is not None, hasattr(s, 'R')) for s in t.spectra))
    if t.id != c['id'] or t.meta != dict(a=1):
        raise core.Violation('target', f'{seq}: id or metadata changed')
    compare(t, ref, seq, touch=True)
    compare(t, ref, seq, touch=True)
    rec.ev()
    if 'P' in seq or 'p' in seq:
        rec.nontrivial(seq, tuple(sorted((k, v) for k, v in c.items() if k not in ('head', 'ops'))))


def dispatch(rec, c):
    with rec.case(c):
        run_hist(rec, c)


def make():
    return core.Check('C22', 'exploration',
        rule='every sequence of operations (pack, unpack, resolution, Legendre, fork and read, pickle, copy, scan arrays, grids, model) up to a depth for each kind of spectrum; non-trivial: histories with packing',
        assumptions=['spectra have a banded resolution matrix', 'packed spectra are not coadded'],
        explanation='stateless exploration of all operation histories on the real objects with forked readers, comparing all attributes after every step')


def run(ck):
    T = ck.thorough
    items = []
    base = dict(nspec=2, dtype='f8', R='1', Rdtype='f8', csr=False, band=True, strided=False, id=5)

    def add(ops, depth, **kw):
        c = dict(base, **kw)
        for h in itertools.product(ops, repeat=min(2, depth)):
            items.append(dict(c, k='hist', ops=ops, depth=depth, head=''.join(h)))
    for csr in (False, True):
        add('PUCLFpc', 4 if not T else 5, csr=csr)
        add('PUC', 6 if not T else 9, csr=csr)
        add('PUCYDSWM', 4 if not T else 5, csr=csr)
        add('PF', 5 if not T else 7, csr=csr, R='2')
        for R in ('diag', '3', 'narrow'):
            add('PUCFM', 4, R=R, csr=csr, band=False)
        for dt in ('f4', 'i4', 'i8'):
            add('PUCF', 4, dtype=dt, csr=csr, Rdtype='f4' if dt == 'f4' else 'f8')
        add('PUCFM', 4, R='2', csr=csr, fortran=True)
        add('PUCLS', 4, strided=True, csr=csr, nspec=1, id='name')
        add('PUCF', 3, nspec=0, csr=csr)
    core.pmap(items, dispatch, ck, timeout=800)


def replay(rec, case):
    with rec.case(case):
        one(rec, case, case['seq'])
