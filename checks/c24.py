"""C24: the plot viewer always shows the selected target and fit."""
import contextlib, io, itertools, os, runpy, sys, tempfile
import numpy as np
from mc import core, fix, files, oracle

EVENTS = ('right', 'left', 'down', 'up', 'd', 'x', 'zoom')
KEYS = ('right', 'left', 'down', 'up', 'd')
TM = dict(G=('GALAXY', '', 3, 'PCA', 'None'), Q=('QSO', '', 2, 'PCA', 'Inoue14'), H=('QSO', 'HIZ', 2, 'NMF', 'Calura12'), S=('STAR', 'A', 2, 'PCA', 'None'), B=('STAR', 'B', 1, 'PCA', 'None'))
FLAGS = ['SKY', 'LITTLE_COVERAGE', 'SMALL_DELTA_CHI2', 'NEGATIVE_MODEL', 'MANY_OUTLIERS', 'Z_FITLIMIT', 'NEGATIVE_EMISSION', 'UNPLUGGED', 'BAD_TARGET', 'NODATA', 'BAD_MINFIT', 'POORDATA']


def template(k):
    st, sub, nb, method, igm = TM[k]
    zs = np.linspace(0.05, 0.25, 9) if st != 'STAR' else np.linspace(-0.002, 0.002, 5)
    return fix.mk_template(st, sub, redshifts=zs, nbasis=nb, method=method, igm=igm, wmin=2700., wmax=5600., key='c24')


def full(st, sub):
    return st if sub == '' else st + ':::' + sub


# ---------------------------------------------------------------- synthetic fits
def scene(c):
    """Targets, templates, scans, fits and truth of a configuration."""
    from astropy.table import Table
    tm = {full(*TM[k][:2]): template(k) for k in c['tmpl']}
    tg, rows, scan = [], [], {}
    for q, (tid, nfit, mask) in enumerate(c['targets']):
        tg.append(fix.mk_target(tid, bands=c.get('bands', 'br')[:1 + (q + 1) % 2] if c.get('vary') else c.get('bands', 'br'), nspec=c.get('nspec', 1), mask=mask, key='c24', csr=bool(q % 2), width=1 + q % 2))
        if nfit is None:
            continue
        scan[tid] = {}
        for k in c['tmpl']:
            z = np.array(tm[full(*TM[k][:2])].redshifts)
            x = 100. + 10 * q + 7 * np.sin(40 * z + q) + len(k)
            scan[tid][full(*TM[k][:2])] = dict(redshifts=z, zchi2=x, penalty=np.where(np.arange(len(z)) % 3 == q % 3, 3., 0.), zcoeff=np.zeros((len(z), 3)))
        for n in range(nfit):
            k = c['tmpl'][(q + n) % len(c['tmpl'])]
            nb = TM[k][2]
            z = 0.06 + 0.031 * n + 0.007 * q if TM[k][0] != 'STAR' else 0.0007 * (n - 1) + 0.0001 * q
            rows.append((tid, n, z, 1e-4, (q * 5 + n * 3) % 7 and 1 << ((q * 5 + n * 3) % 12) | (1 << ((q + 2 * n) % 12)), TM[k][0], TM[k][1], 90. + 3 * n + q, 3., nb, [1.0 + 0.3 * n, -0.4 + q, 0.2 * (n + 1)][:nb] + [0.] * (3 - nb)))
    o = c.get('roworder')
    if o:
        ids = [t[0] for t in c['targets'] if t[1] is not None]
        rows = [r for i in o for r in rows if r[0] == ids[i]]
    zfit = Table(rows=rows, names=['targetid', 'znum', 'z', 'zerr', 'zwarn', 'spectype', 'subtype', 'chi2', 'deltachi2', 'ncoeff', 'coeff'])
    truth = None
    if c.get('truth'):
        truth = Table(dict(targetid=[t[0] for t in c['targets']][::-1][:c['truth']], ztrue=[0.111 + 0.01 * k for k in range(c['truth'])]))
    return tg, tm, scan, zfit, truth


def near(a, b, tol=1e-7):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    n = np.isnan(a)
    return np.array_equal(n, np.isnan(b)) and bool(np.all(np.abs(a[~n] - b[~n]) <= tol * (1 + np.abs(b[~n]).max() if b[~n].size else 1)))


class View:
    """What the figure has to show, from the inputs alone."""

    def __init__(self, tg, tm, scan, zfit, truth, model=None):
        ids = [int(x) for x in zfit['targetid']]
        self.tg = [t for t in tg if int(t.id) in ids]
        self.tm, self.scan, self.truth = tm, {int(k): v for k, v in scan.items()}, truth
        self.fits = {i: [zfit[j] for j in range(len(zfit)) if ids[j] == i] for i in set(ids)}
        self.model = model or self.template_model

    def nfit(self, it):
        return len(self.fits[int(self.tg[it].id)])

    def fit(self, it, zn):
        return [r for r in self.fits[int(self.tg[it].id)] if int(r['znum']) == zn][0]

    def template_model(self, t, row):
        tp = self.tm[full(str(row['spectype']), str(row['subtype']))]
        co = np.atleast_1d(row['coeff'])[:len(tp.flux)]
        return [oracle.basis_on(tp, s.wave, float(row['z'])) @ co for s in t.spectra]

    def check(self, p, it, zn, what):
        """The two panels of the viewer against the state (it, zn)."""
        t = self.tg[it]
        tid = int(t.id)
        row = self.fit(it, zn)
        fits = self.fits[tid]

        def bad(key, desc):
            raise core.Violation(key, f'{what}: target {tid}, fit {zn}: {desc}')
        ax1, ax2 = p._fig.axes
        # scan panel
        lines = [(np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float), l) for l in ax1.lines]
        want = []
        for st in ('STAR', 'GALAXY', 'QSO'):
            if st in self.scan[tid]:
                s = self.scan[tid][st]
                want += [('scan of ' + st, s['redshifts'], s['zchi2']), ('penalised scan of ' + st, s['redshifts'], s['zchi2'] + s['penalty'])]
        want.append(('fits', [r['z'] for r in fits], [r['chi2'] for r in fits]))
        want += [('redshift marker', [row['z']] * 2, None), ('chi2 marker', None, [row['chi2']] * 2)]
        if self.truth is not None:
            k = [j for j in range(len(self.truth)) if int(self.truth['targetid'][j]) == tid]
            if k:
                want.append(('true redshift', [self.truth['ztrue'][k[0]]] * 2, None))
        left = list(lines)
        for name, x, y in want:
            for j, l in enumerate(left):
                if (x is None or near(l[0], x)) and (y is None or near(l[1], y)) and (x is not None or len(l[0]) == 2) and (y is not None or len(l[1]) == 2):
                    del left[j]
                    break
            else:
                bad('scan-panel', f'{name} is not drawn')
        if left:
            bad('scan-panel', f'{len(left)} lines drawn that do not belong to it')
        texts = sorted((str(x.get_text()), round(float(x.get_position()[0]), 9), round(float(x.get_position()[1]), 6)) for x in ax1.texts)
        if texts != sorted((str(int(r['znum'])), round(float(r['z']), 9), round(float(r['chi2']), 6)) for r in fits):
            bad('fit-labels', f'labels {texts}')
        title = ax1.get_title()
        if str(tid) not in title.split() or f'{row["z"]:.3f}' not in title or str(row['spectype']) not in title.split():
            bad('title', f'titled {title!r}')
        # spectrum panel
        models = self.model(t, row)
        left = [(np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)) for l in ax2.lines]
        for k, (s, m) in enumerate(zip(t.spectra, models)):
            ok = np.asarray(s.ivar) > 0
            for name, y in (('data', np.where(ok, s.flux, np.nan)), ('model', np.where(ok, oracle.Rmat(s) @ m, np.nan)), ('unconvolved model', m)):
                for j, l in enumerate(left):
                    if near(l[0], s.wave) and near(l[1], y, 1e-6):
                        del left[j]
                        break
                else:
                    bad('spectrum-panel', f'{name} of spectrum {k} is not drawn')
        if any(len(l[0]) > 2 or np.any(l[1] != 0) for l in left):
            bad('spectrum-panel', f'{len(left)} lines drawn that do not belong to it')
        words = [str(x.get_text()) for x in ax2.texts]
        ft = full(str(row['spectype']), str(row['subtype']))
        if not any(x.split()[:2] == ['znum', str(zn)] and ft in x and f'z={row["z"]:.3f}' in x for x in words):
            bad('label', f'labelled {words}')
        zw = int(row['zwarn'])
        names = [f for b, f in enumerate(FLAGS) if zw >> b & 1] if zw else ['ZWARN=0']
        if sorted(' '.join(words).replace('\n', ' ').split()) != sorted([w for x in words if x.startswith('znum') for w in x.split()] + names):
            bad('warnings', f'warnings {names} shown as {words}')
        if len(words) != 2:
            bad('label', f'texts {words}')


@contextlib.contextmanager
def viewer():
    import matplotlib
    matplotlib.use('template')
    import matplotlib.pyplot as plt
    from matplotlib.backends import backend_template
    backend_template.FigureCanvas.draw = lambda self: None
    with core.quiet():
        try:
            yield plt
        finally:
            plt.close('all')
            matplotlib.rcdefaults()


def press(p, key):
    from matplotlib.backend_bases import KeyEvent
    p._fig.canvas.callbacks.process('key_press_event', KeyEvent('key_press_event', p._fig.canvas, key))


def step(v, state, e):
    """Model of one event."""
    it, zn = state
    if e == 'right':
        return it, (zn + 1) % v.nfit(it)
    if e == 'left':
        return it, (zn - 1) % v.nfit(it)
    if e == 'down' and it + 1 < len(v.tg):
        return it + 1, 0
    if e == 'up' and it > 0:
        return it - 1, 0
    return state


def limits(p):
    return [tuple(round(float(x), 9) for x in f()) for a in p._fig.axes for f in (a.get_xlim, a.get_ylim)]


def apply(p, v, state, e, k, what):
    """One event on the viewer and on the model, with the limits of the view."""
    old = limits(p)
    if e == 'zoom':
        a, b = p._fig.axes
        a.set_xlim(0.01 * k, 0.2 + 0.01 * k); a.set_ylim(50. - k, 200. + k)
        b.set_xlim(4000. + k, 4500. + k); b.set_ylim(-1. - k, 5. + k)
        return state
    new = step(v, state, e)
    press(p, e)
    now = limits(p)
    if e in ('right', 'left') and now != old:
        raise core.Violation('zoom', f'{what}: view changed from {old} to {now} by switching the fit')
    if new[0] == state[0] and now != old:
        raise core.Violation('zoom', f'{what}: view changed from {old} to {now} without another target')
    if new[0] != state[0]:
        ch = [r['chi2'] for r in v.fits[int(v.tg[new[0]].id)]]
        z = [r['z'] for r in v.fits[int(v.tg[new[0]].id)]]
        (x0, x1), (y0, y1) = now[0], now[1]
        if not (x0 <= min(z) and max(z) <= x1 and y0 <= min(ch) and max(ch) <= y1):
            raise core.Violation('view', f'{what}: fits of the new target are outside the view {now}')
        x0, x1 = now[2]
        if not all(x0 <= s.wave[0] and s.wave[-1] <= x1 for s in v.tg[new[0]].spectra):
            raise core.Violation('view', f'{what}: spectra of the new target are outside the view {now}')
    return new


def debruijn(k, n):
    """Cyclic sequence over range(k) holding every word of length n once."""
    a, out = [0] * k * n, []

    def db(t, p):
        if t > n:
            if n % p == 0:
                out.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)
    db(1, 1)
    return out


def histories(c):
    if 'hist' in c:
        return [tuple(c['hist'])]
    if 'words' in c:
        # one long history through a part of all words of a length
        w = [EVENTS[i] for i in debruijn(len(EVENTS), c['words'])]
        w += w[:c['words'] - 1]
        lo, hi = c['part'] * len(w) // c['parts'], (c['part'] + 1) * len(w) // c['parts']
        return [tuple(w[max(0, lo - c['words'] + 1):hi])]
    return [tuple(c['prefix']) + h for h in itertools.product(EVENTS, repeat=c['depth'] - len(c['prefix']))]


def run_hist(rec, c):
    """Key histories on one viewer each."""
    from redrock.plotspec import PlotSpec
    with core.quiet():
        tg, tm, scan, zfit, truth = scene(c)
    v = View(tg, tm, scan, zfit, truth)
    keep = [(s.flux.copy(), s.ivar.copy(), s.wave.copy()) for t in tg for s in t.spectra]
    before = zfit.copy()
    every = 'depth' not in c
    for hist in histories(c):
        rec.trace()
        done = []
        try:
            with viewer() as plt:
                p = PlotSpec(tg, tm, scan, zfit, truth=truth)
                for k in plt.rcParams:
                    if k.startswith('keymap.') and set(KEYS) & set(plt.rcParams[k]):
                        raise core.Violation('keymap', f'{k} is bound to {plt.rcParams[k]}')
                state = (0, 0)
                if all(e == EVENTS[0] for e in hist) or every:
                    v.check(p, 0, 0, 'at start')
                for n, e in enumerate(hist):
                    done.append(e)
                    what = 'after ' + ' '.join(hist[max(0, n - 7):n + 1])
                    state = apply(p, v, state, e, n % 50, what)
                    rec.trans(1)
                    # each prefix is checked once, in the first history that has it
                    if every or all(x == EVENTS[0] for x in hist[n + 1:]):
                        v.check(p, *state, what)
                        rec.ev()
                        rec.state(state)
                        rec.nontrivial(str(c['targets']), c['tmpl'], hist[max(0, n - 4):n + 1], state)
                if not all(near(a, b) for t, s in zip(keep, [s for t in tg for s in t.spectra]) for a, b in zip(t, (s.flux, s.ivar, s.wave))):
                    raise core.Violation('data', f'{what}: the spectra were changed')
                if not all(np.array_equal(before[n], zfit[n]) for n in before.colnames):
                    raise core.Violation('fits', f'{what}: the table of fits was changed')
                buf = io.StringIO()
                with contextlib.redirect_stdout(buf):
                    press(p, 'd')
                said = buf.getvalue().split()
                nums = [float(x) for x in said if x.replace('.', '').replace('-', '').replace('e', '').isdigit()]
                for r in v.fits[int(v.tg[state[0]].id)]:
                    if str(r['spectype']) not in said or str(int(r['targetid'])) not in said or not any(abs(x - r['z']) < 1e-5 for x in nums):
                        raise core.Violation('details', f'{what}: details {buf.getvalue()}')
        except Exception as e:
            # attribute what failed to this history
            with rec.case({**{k: x for k, x in c.items() if k not in ('prefix', 'depth', 'words', 'part', 'parts')}, 'hist': done}):
                raise
        if rec.viol:
            return


# ---------------------------------------------------------------- the command
def command(args):
    old = sys.argv
    sys.argv = ['rrplot'] + [str(a) for a in args]
    try:
        return runpy.run_path(core.REPO + '/bin/rrplot', run_name='__main__')['p']
    finally:
        sys.argv = old


def walk(rec, p, v, tag, only=None):
    """Show every fit of every target, forwards and back."""
    order = [int(t.id) for t in p.targets]
    if only is not None and sorted(order) != sorted(only):
        raise core.Violation('targets', f'{tag}: shows targets {order}, expected {sorted(only)}')
    v.tg = sorted(v.tg, key=lambda t: order.index(int(t.id)))
    state = (0, 0)
    v.check(p, 0, 0, tag + ' at start')
    keys = []
    for it in range(len(v.tg)):
        keys += ['right'] * v.nfit(it) + ['left'] + ['down']
    keys += ['up'] * len(v.tg)
    for k, e in enumerate(keys):
        state = apply(p, v, state, e, k, tag)
        v.check(p, *state, f'{tag} after {" ".join(keys[:k + 1])}')
        rec.ev(); rec.trans(1)
        rec.nontrivial(tag, k)


def run_cmd(rec, c):
    from astropy.table import Table
    from checks import c14, c15
    from redrock.results import read_zscan
    with tempfile.TemporaryDirectory(prefix='c24') as d:
        os.mkdir(d + '/t')
        from checks.c02 import write_template
        for k in c['tmpl']:
            write_template(f'{d}/t/rrtemplate-{TM[k][0].lower()}-{k}.fits', template(k))
        opt = ['--rrfile', d + '/details.h5', '-t', d + '/t']
        if c.get('arch'):
            os.mkdir(d + '/a')
            for k in c['arch']:
                fix.mk_archetypes(f'{d}/a/rrarchetype-{TM[k][0].lower()}.fits', TM[k][0], n=3, key=k, wmin=2500., nw=240)
        boss = c.get('boss')
        if boss:
            if c.get('plates'):
                with core.quiet():
                    names, e = c15.write(dict(c, plate=0, mjd=0), d)
                ids = list(e)
            else:
                names = [d + '/spPlate-1234-55555.fits']
                files.write_boss(names[0], 1234, 55555, boss)
                ids = [1234 * 10 ** 9 + 55555 * 10 ** 4 + f for f in boss]
            c = dict(c, names=names)
            fit = ['--spplate'] + names + ['-t', d + '/t', '--output', d + '/details.h5', '--mp', '1', '--nminima', '2']
            opt += ['--datatype', 'boss', '--specfile'] + names
            from redrock.external.boss import rrboss as run, read_spectra
        else:
            paths = c14.write_inputs(c['files'], c['coadded'], d + '/in')
            ids = list(dict.fromkeys(r['t'] for f in c['files'] for r in f['rows']))
            fit = ['-i'] + paths + ['-t', d + '/t', '--details', d + '/details.h5', '--mp', '1', '--nminima', '2']
            opt += ['--specfile'] + paths
            from redrock.external.desi import rrdesi as run
        if c.get('arch'):
            fit += ['--archetypes', d + '/a'] + c.get('fitopts', [])
            opt += ['--use-archetype', '--archetypes', d + '/a']
        if c.get('fitids'):
            fit += ['--targetids', ','.join(map(str, c['fitids']))]
        if c.get('fitall'):
            fit += ['--allspec']
        with core.quiet():
            run(options=fit)
            scan, zfit = read_zscan(d + '/details.h5')
        for sel, allspec in c['ways']:
            rec.trace()
            want = [i for i in (ids if sel is None else sel) if not c.get('fitids') or i in c['fitids']]
            o = opt + (['--targetids', ','.join(map(str, sel))] if sel else []) + (['--allspec'] if allspec else [])
            tag = f'rrplot{" --targetids " + str(sel) if sel else ""}{" --allspec" if allspec else ""}'
            tg = targets(c, ids, allspec, d, boss)
            with core.quiet():
                v = View([t for t in tg if int(t.id) in want], {full(*TM[k][:2]): template(k) for k in c['tmpl']}, scan, zfit, None)
                if c.get('arch'):
                    from redrock.archetypes import All_archetypes
                    v.model = archetype_model(v, All_archetypes(archetypes_dir=d + '/a').archetypes)
            with viewer():
                p = command(o)
                walk(rec, p, v, tag, want)


def targets(c, ids, allspec, d, boss):
    """The targets the input files describe."""
    from redrock.targets import Spectrum, Target
    import scipy.sparse
    if boss:
        from redrock.external.boss import read_spectra
        with core.quiet():
            return read_spectra(c['names'], coadd=not allspec)[0]
    out = []
    for i in ids:
        sp = []
        for b, w, f, iv, R in files.desi_expected(c['files'], i):
            n = len(w)
            k = 2
            D = np.zeros((2 * k + 1, n))
            for r, off in enumerate(range(k, -k - 1, -1)):
                g = np.diagonal(R, off)
                D[r, max(off, 0):max(off, 0) + len(g)] = g
            sp.append(Spectrum(w, f, iv, scipy.sparse.dia_matrix((D, np.arange(k, -k - 1, -1)), shape=(n, n)), None, band=b))
        out.append(Target(i, sp, coadd=not allspec and not c['coadded']))
    return out


def archetype_model(v, arch):
    """Models before the resolution, with archetypes and Legendre terms for the types that have archetypes."""
    from checks import c18

    def model(t, row):
        st = str(row['spectype'])
        if st not in arch:
            return v.template_model(t, row)
        ax, z = arch[st], float(row['z'])
        idx, names = c18.camera_of(t.spectra)
        order = sorted(range(len(names)), key=lambda i: names[i]) if all(n is not None for n in names) else list(range(len(names)))
        out = []
        for s, ic in zip(t.spectra, idx):
            w = np.asarray(s.wave, float)
            m = np.zeros(len(w))
            for sub, co in zip(str(row['subtype']).split(';'), np.atleast_1d(row['coeff'])):
                m += co * oracle.rebin(np.asarray(ax.wave) * (1 + z), ax.flux[[list(ax._subtype).index(sub)]], w)[:, 0] * np.exp(-oracle.tau('Inoue14', z, w))
            if 'legcoeff' in row.colnames:
                leg = np.asarray(row['legcoeff'], float)
                if leg.ndim == 2:
                    leg = leg[order.index(ic)]
                m += c18.legendre(w, len(leg)) @ leg
            out.append(m)
        return out
    return model


def dispatch(rec, c):
    if c['kind'] == 'hist':
        run_hist(rec, c)
    else:
        with rec.case(c):
            run_cmd(rec, c)


def make():
    return core.Check('C24', 'model_checking',
        rule='every sequence of viewer events up to a depth over several tables of targets and fits; every selection of the plot command; non-trivial: every state reached by a distinct history',
        assumptions=['matplotlib with a backend that does not render; events enter through the key press callback of the canvas'],
        explanation='stateless enumeration of all key histories of the real viewer against a two-variable state machine; the contents of the figure are compared with the inputs after every history')


SCENES = [
    dict(tmpl='GQS', targets=[(11, 2, 'some'), (7, 3, 'none'), (39627000000000006, 1, 'few')]),
    dict(tmpl='GHB', targets=[(5, 1, 'none'), (9, None, 'none'), (2, 4, 'band0'), (3, 2, 'all')], roworder=[2, 0, 1], truth=3, vary=True),
    dict(tmpl='S', targets=[(8, 1, 'none')], nspec=2),
    dict(tmpl='QG', targets=[(4, None, 'some'), (6, 2, 'some'), (1, 3, 'none')], roworder=[1, 0], truth=1, bands='zb', nspec=[2, 1]),
]


I = [39627000000000006, 11, 2305843009213693964, 7]


def commands():
    R = lambda ids, n=1, **k: [dict(t=I[i], e=e, z=0.1 + 0.02 * i, **(k if i == 1 else {})) for e in range(n) for i in ids]
    one = [(None, False), ([I[2]], False), ([I[3], I[0]], False)]
    both = [(s, a) for s in (None, [I[2], I[1]]) for a in (False, True)]
    out = [dict(tmpl='GQS', coadded=True, files=[dict(rows=R((0, 1, 2, 3)))], ways=one),
           dict(tmpl='GHB', coadded=True, files=[dict(rows=R((2, 0, 3, 1), mode='dead'), bands='br')], ways=[(None, False), ([I[1], I[3]], False)]),
           dict(tmpl='GS', coadded=False, files=[dict(rows=R((0, 2, 1), 2))], ways=both),
           dict(tmpl='GQ', coadded=False, files=[dict(rows=R((1, 2, 0), 3), bands='bz')], ways=both, fitall=True),
           dict(tmpl='GQ', coadded=True, files=[dict(rows=R((0, 1, 2, 3)))], fitids=[I[3], I[1]], ways=[(None, False), ([I[1]], False), ([I[0], I[3]], False)]),
           dict(tmpl='GQ', arch='G', coadded=True, files=[dict(rows=R((0, 1, 2)))], ways=[(None, False), ([I[2]], False)]),
           dict(tmpl='GS', arch='GS', coadded=True, files=[dict(rows=R((0, 1)), order='zrb')], fitopts=['--archetypes-no-legendre'], ways=[(None, False)]),
           dict(tmpl='GS', coadded=False, files=[dict(rows=R((0, 2))), dict(rows=R((2, 3)))], ways=both[:2] + [([I[3]], False), ([I[3], I[0]], True)]),
           dict(tmpl='GQ', coadded=True, files=[dict(rows=R((3, 1))), dict(rows=R((0, 2)))], ways=one),
           dict(tmpl='GQS', boss=[5, 3, 8], ways=[(None, False), ([1234 * 10 ** 9 + 55555 * 10 ** 4 + 8], False), (None, True)]),
           dict(tmpl='GS', boss=True, plates=[dict(plate=4001, mjd=56001, fibers=[5, 2], thing={'5': 900, '2': 901}), dict(plate=4002, mjd=56002, fibers=[2, 7], thing={'2': 900, '7': 31})], ways=[(None, False), (None, True), ([31], True), ([900], False)]),
           dict(tmpl='GH', boss=[5, 6], arch='G', ways=[(None, False)])]
    return [dict(c, kind='cmd') for c in out]


def run(ck):
    items = []
    T = ck.thorough
    for s in SCENES:
        for a in EVENTS:
            items.append(dict(s, kind='hist', prefix=[a], depth=3 if not T else 4))
        n = 12 if not T else 48
        for k in range(n):
            items.append(dict(s, kind='hist', words=4 if not T else 5, part=k, parts=n))
    items = commands() + items
    core.pmap(items, dispatch, ck, timeout=800)


def replay(rec, case):
    dispatch(rec, case)
