"""C02: MPI decomposition never changes the answer and never deadlocks."""
import os, tempfile, shutil, types, sys
import numpy as np
from mc import core, fix, fakempi
from checks import c01
from checks.c01 import S1, S2, S3, SB, SM, SX, SP


def write_template(path, tx):
    from astropy.io import fits
    hdr = fits.Header()
    hdr['CRVAL1'] = tx.wave[0]; hdr['CDELT1'] = tx.wave[1] - tx.wave[0]; hdr['LOGLAM'] = 0
    hdr['RRTYPE'] = tx.template_type; hdr['RRSUBTYP'] = tx.sub_type; hdr['RRIGM'] = tx.igm_model
    hdr['RRMETHOD'] = tx.method; hdr['VERSION'] = '1.0'
    h0 = fits.PrimaryHDU()
    h1 = fits.ImageHDU(np.array(tx.flux), header=hdr, name='BASIS_VECTORS')
    h2 = fits.ImageHDU(np.array(tx.redshifts), name='REDSHIFTS')
    fits.HDUList([h0, h1, h2]).writeto(path, overwrite=True)


def mk_targets(case):
    ids = c01.ids_of(case['ids'], len(case['targets']))
    return [fix.mk_target(t, bands=b, nspec=s, mask=m, coadd=case.get('coadd', False), key='c01', z=0.05 + 0.04 * i,
                          meta=dict(FOO=i, FOO_datatype='i4', BAR=0.5 * i))
            for i, (t, (s, b, m)) in enumerate(zip(ids, case['targets']))]


def tempkw(case):
    out = []
    for kw in c01.TEMPLATES[case['templates']]:
        kw = dict(kw)
        if 'nz' in case:
            kw['nz'] = case['nz']
        out.append(kw)
    return out


def rank_main(comm, case, tdir=None, scan=None):
    from redrock.targets import DistTargetsCopy
    from redrock.templates import DistTemplate, load_dist_templates
    from redrock.zfind import zfind
    from redrock.zscan import calc_zchi2_targets
    has = comm is None or comm.rank == case.get('root', 0) or not case.get('rootonly')
    ts = mk_targets(case) if has else None
    kw = dict(root=case['root']) if case.get('root') and comm is not None else {}
    dt = DistTargetsCopy(ts, comm=comm, **kw)
    w = dt.wavegrids()
    if tdir:
        tm = load_dist_templates(w, templates=tdir, comm=comm)
    else:
        tm = [DistTemplate(fix.mk_template(**k), w, comm=comm) for k in tempkw(case)]
    loc = None
    if not scan and case.get('scanfirst'):
        loc = calc_zchi2_targets(dt, tm)
    a, t = zfind(dt, tm, chi2_scan=scan, **c01.options(case))
    return (list(dt.local_target_ids()), [x.id for x in dt.local()], list(dt.all_target_ids), sorted(w), loc, a, t)


def run_case(rec, case):
    case = c01.norm_case(dict(case))
    tmp = tempfile.mkdtemp(prefix='c02')
    try:
        tdir = scan = None
        with core.quiet():
            if case.get('files'):
                tdir = os.path.join(tmp, 't'); os.mkdir(tdir)
                for i, kw in enumerate(tempkw(case)):
                    write_template(os.path.join(tdir, f'rrtemplate-{i}.fits'), fix.mk_template(**kw))
            ref = rank_main(None, dict(case, scanfirst=False), tdir)
            if case.get('chi2scan'):
                from redrock.results import write_zscan
                scan = os.path.join(tmp, 'scan.h5')
                write_zscan(scan, ref[5], ref[6])
                ref = rank_main(None, dict(case, scanfirst=False), tdir, scan)
        if not case.get('chi2scan') and 'nz' not in case and not case.get('files'):
            with core.quiet():
                sref, _ = c01.single(case)
            fix.compare_scan(ref[5], sref, 'serial-vs-single')
        n = case['ranks']

        def one(ch):
            with core.quiet():
                return fakempi.run_ranks(n, lambda c: rank_main(c, case, tdir, scan), ch, case['mode'], case['order'])
        root = case.get('choices')
        it = [(lambda c: (c, one(c)))(core.Chooser(root))] if root is not None else \
            core.explore_choices(one, bound=1 if case['order'] == 'explore' else 0, max_exec=case.get('max', 400))
        for ch, res in it:
            if ch is None:
                rec.note(f'schedule cap {case.get("max", 400)} reached for {n} ranks'); rec.count('capped')
                break
            results, s = res
            rec.ev(); rec.trace(); rec.trans(s.ops)
            rec.state(n, case['mode'], case['order'], case['targets'], case['templates'], ch.choices)
            alltid = []
            for r, (st, v) in enumerate(results):
                lids, dids, aids, wk, loc, a, t = v
                if lids != dids:
                    raise core.Violation('local-order', f'rank {r}: local ids {lids} but data {dids}')
                if aids != ref[2] or wk != ref[3]:
                    raise core.Violation('global-view', f'rank {r}: all ids {aids} / grids {wk} vs serial {ref[2]} / {ref[3]}')
                alltid += lids
                if loc is not None:
                    fix.compare_scan(loc, {k: ref[5][k] for k in lids}, 'rank-scan')
                if r != 0 and (a is not None or t is not None):
                    raise core.Violation('nonroot-result', f'rank {r} returned a result')
            if sorted(map(str, alltid)) != sorted(map(str, ref[2])):
                raise core.Violation('partition', f'ranks hold {alltid} for targets {ref[2]}')
            a, t = results[0][1][5:]
            fix.compare_scan(a, ref[5], 'mpi')
            fix.compare_tables(t, ref[6], 'mpi')
        rec.count('configurations')
        if case['order'] == 'explore':
            rec.sample(dict(case=case, ops=s.ops), 4)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


# ------------------------------------------------- batched gather with a scaled batch size
def scale_batch(new, mod):
    """Return a context: zfind with its 5000-target batch size scaled to `new`."""
    f = mod.zfind
    code = f.__code__
    def sub(code):
        consts, hit = [], False
        for c in code.co_consts:
            if isinstance(c, types.CodeType):
                c2, h2 = sub(c)
                hit = hit or h2
                consts.append(c2)
            elif type(c) is int and c == 5000:
                consts.append(new); hit = True
            else:
                consts.append(c)
        return code.replace(co_consts=tuple(consts)), hit
    hit = False
    for name in dir(mod):
        o = getattr(mod, name)
        if type(o) is int and o == 5000:
            setattr(mod, name, new); hit = True
        elif isinstance(o, types.FunctionType) and o.__module__ == mod.__name__:
            c2, h2 = sub(o.__code__)
            if h2:
                o.__code__ = c2
                hit = True
    return hit


class Lopsided(object):
    pass


def batch_main(comm, counts, scale):
    import redrock.zfind as mod
    from redrock.targets import DistTargets
    from redrock.templates import DistTemplate
    if scale:
        if not scale_batch(scale, mod):
            return 'noscale'

    class DT(DistTargets):
        def __init__(self):
            ids = [1000 + i for i in range(sum(counts))]
            super().__init__(ids, comm=comm)
            r = 0 if comm is None else comm.rank
            lo = sum(counts[:r])
            mine = ids if comm is None else ids[lo:lo + counts[r]]
            # few distinct targets, relabelled: cheap
            self._d = []
            protos = [fix.mk_target(0, bands='b', key=('batch', k), z=0.05 + 0.03 * k) for k in range(3)]
            from redrock.targets import Target
            for i in mine:
                self._d.append(Target(i, protos[i % 3].spectra))
        def _local_target_ids(self): return [t.id for t in self._d]
        def _local_data(self): return self._d
    dt = DT()
    w = {'b': fix.band_wave('b')}
    tm = [DistTemplate(fix.mk_template('GALAXY', nz=4, nbasis=1), w, comm=comm)]
    a, t = mod.zfind(dt, tm, nminima=1)
    return (sorted(a), a, t) if a is not None else None


def run_batch(rec, case):
    counts = case['counts']
    with core.quiet():
        import os as _os
        # serial reference in a child process state: no scaling needed for comm=None
        ref = batch_main(None, counts, None)
    for mode in ('eager', 'sync'):
        with core.quiet():
            res, s = fakempi.run_ranks(len(counts), lambda c: batch_main(c, counts, case['scale']), core.Chooser(), mode, 'asc', timeout=600)
        if res[0][1] == 'noscale':
            raise core.Skip('batch size constant not found')
        k, a, t = res[0][1]
        if k != ref[0]:
            raise core.Violation('batch-targets', f'{counts} targets per rank (batch {case["scale"] or 5000}): rank 0 has results for {len(k)} of {len(ref[0])}')
        fix.compare_scan(a, ref[1], 'batch')
        fix.compare_tables(t, ref[2], 'batch')
        rec.ev(); rec.trace(); rec.trans(s.ops)
        rec.state('batch', counts, case['scale'], mode)
    rec.count('batch_configurations')


def dispatch(rec, case):
    if 'counts' in case:
        run_batch(rec, case)
    else:
        run_case(rec, case)


def cases(th):
    out = []
    sets = [[S1], [S1, S2], [S2, S1, S3], [SM, S2, S1], [SB, S1], [SX, S1, SM]]
    for i, ts in enumerate(sets):
        for n in (1, 2, 3, 4) if not th else (1, 2, 3, 4, 5, 6):
            for mode in ('eager', 'sync'):
                for order in ('asc', 'desc', 'rr') if (th or i < 3) else ('asc', 'rr'):
                    out.append(dict(targets=ts, ranks=n, templates='G', ids='int' if i % 2 else 'desc', mode=mode, order=order, nz=6 if i != 1 else 3,
                                    rootonly=bool(i % 2), scanfirst=(order == 'asc')))
    for tn in ('GS', 'N', 'Q'):
        for n in (2, 3):
            out.append(dict(targets=[S2, S1, SM], ranks=n, templates=tn, ids='desc', mode='sync', order='rr', scanfirst=True))
    for n in (2, 3):
        out.append(dict(targets=[S1, S2, S1], ranks=n, templates='GS', ids='str', mode='sync', order='desc'))
        out.append(dict(targets=[S1, S2, S1], ranks=n, templates='GS', ids='desc', mode='eager', order='asc', files=True))
        out.append(dict(targets=[S1, S2, S1], ranks=n, templates='GS', ids='desc', mode='sync', order='rr', files=True))
        out.append(dict(targets=[S1, S2, S1], ranks=n, templates='GS', ids='desc', mode='sync', order='asc', chi2scan=True, files=True))
        out.append(dict(targets=[S1, S2, S1], ranks=n, templates='G', ids='desc', mode='sync', order='asc', rootonly=True, root=1))
    for k, o in enumerate(c01.OPTS):
        for j, ts in enumerate(([S1, S2], [S2, S1, SP], [SM, S2, S1], [S1])):
            for n in (2, 3, 4):
                if th or (j + n + k) % 4 == 0:
                    out.append(dict(targets=ts, ranks=n, templates=('GS', 'SG', 'G')[(k + j) % 3], ids='desc', mode=('eager', 'sync')[k % 2], order=('asc', 'desc', 'rr')[k % 3], opts=o, nminima=1 + k % 3, rootonly=bool(j % 2)))
    # two-digit numbers of ranks (and of targets and redshifts per rank)
    out.append(dict(targets=[S1] * 13, ranks=12, templates='G', ids='int', mode='eager', order='asc', nz=14, rootonly=True, scanfirst=True))
    out.append(dict(targets=[S1, S2], ranks=12, templates='G', ids='desc', mode='sync', order='desc', nz=14))
    for nz in (1, 2, 3, 4, 5) if not th else range(1, 10):
        for n in (2, 3, 5):
            out.append(dict(targets=[S1, S2], ranks=n, templates='G', ids='int', mode='sync', order='asc', nz=nz + 2, scanfirst=True))
    for mode in ('eager', 'sync'):
        out.append(dict(targets=[S1, S2], ranks=2, templates='G', ids='desc', mode=mode, order='explore', nz=4, rootonly=True, max=100 if not th else 5000))
        if th:
            out.append(dict(targets=[S1, S2], ranks=3, templates='G', ids='desc', mode=mode, order='explore', nz=4, max=5000))
    # batches: every pair/triple of per-rank counts with the batch size scaled to 3
    for a in (0, 1) if not th else (0, 1, 4):
        for b in range(0, 8):
            if a + b:
                out.append(dict(counts=[a, b], scale=3))
    for b in (0, 2, 3, 4, 6, 7):
        out.append(dict(counts=[3, b, 7 - b], scale=3))
    for b in (5000, 5001):
        out.append(dict(counts=[1, b], scale=None))
    if th:
        for b in (4999, 10000, 10001):
            out.append(dict(counts=[1, b], scale=None))
        out.append(dict(counts=[5001, 1, 5000], scale=None))
    return out


def make():
    return core.Check('C02', 'model_checking',
        rule='configurations (targets x ranks x redshifts x templates) x {buffered, synchronous sends} x rank schedules; explore = every schedule with one '
             'deviation from the default rank order; transitions are communication operations',
        assumptions=['no wildcard receives or probes other than those intercepted; deterministic message matching makes the outcome independent of the rank '
                     'schedule (validated by running several orders and all 1-deviation schedules on small cases)',
                     'batch boundaries are enumerated with the 5000-target batch size scaled to 3; the real size is run for 5000 and 5001 results (thorough: also 4999, 10000, 10001)'],
        explanation='the real zfind/DistTargetsCopy/DistTemplate code on every rank, each rank a forked process, all MPI calls routed through one scheduler')


def run(ck):
    c01.warm()
    cs = cases(ck.thorough)
    cs.sort(key=lambda c: -(5 if c.get('order') == 'explore' else 0) - (10 if 'counts' in c and sum(c['counts']) > 100 else 0))
    core.pmap(cs, dispatch, ck, timeout=900 if ck.thorough else 200)


def replay(rec, case):
    dispatch(rec, case)
