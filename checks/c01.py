"""C01: multiprocessing never changes the answer, for every delivery schedule."""
import itertools
import numpy as np
from mc import core, fix, fakemp

# target spec: (nspec per band, bands, mask)
S1 = (1, 'br', 'none'); S2 = (2, 'br', 'none'); S3 = (3, 'br', 'none')
SB = (1, 'b', 'none'); SM = (1, 'br', 'all'); SP = (2, 'br', 'some'); SX = ((1, 2), 'br', 'none')
SW = (2, 'rb', 'none')

TEMPLATES = {
    'G': [dict(spectype='GALAXY', nz=6)],
    'GS': [dict(spectype='GALAXY', nz=6), dict(spectype='STAR', subtype='A', nz=5, zmin=-0.01, zmax=0.01)],
    'SG': [dict(spectype='STAR', subtype='A', nz=5, zmin=-0.01, zmax=0.01), dict(spectype='STAR', subtype='B', nz=5, zmin=-0.01, zmax=0.01),
           dict(spectype='GALAXY', nz=6)],
    'N': [dict(spectype='GALAXY', nz=6, method='NMF')],
    'Q': [dict(spectype='QSO', nz=6, zmin=1.6, zmax=2.1, wmin=1000., wmax=2600., igm='Calura12', nbasis=3)],
}


def ids_of(kind, n):
    if kind == 'int':
        return [39627 + 7 * i for i in range(n)]
    if kind == 'desc':
        return [900 - 13 * i for i in range(n)]
    if kind == 'big':
        return [39627652591521180 + (2, 0, 1, 4, 3)[i] for i in range(n)]
    return [f'obj-{"zyxwvutsrqponmlkjihg"[i]}' for i in range(n)]


def plain(ts):
    """All targets on this process in the given order (any other subclass of DistTargets)."""
    from redrock.targets import DistTargets

    class Plain(DistTargets):
        def _local_target_ids(self):
            return [t.id for t in ts]

        def _local_data(self):
            return ts
    return Plain([t.id for t in ts])


def build(case, mp):
    from redrock.targets import DistTargetsCopy
    from redrock.templates import DistTemplate
    ids = ids_of(case['ids'], len(case['targets']))
    ts = [fix.mk_target(t, bands=b, nspec=s, mask=m, csr=case.get('csr', False), coadd=case.get('coadd', False), key='c01', z=0.05 + 0.04 * i)
          for i, (t, (s, b, m)) in enumerate(zip(ids, case['targets']))]
    dt = plain(ts) if case.get('plain') else DistTargetsCopy(ts)
    w = dt.wavegrids()
    tm = [DistTemplate(fix.mk_template(**kw), w, mp_procs=mp) for kw in TEMPLATES[case['templates']]]
    return dt, tm


def options(case):
    """Fit options other than the processes."""
    kw = dict(case.get('opts', {}))
    if kw.get('archetypes'):
        from checks import c18
        kw['archetypes'] = c18.archetypes(kw['archetypes'], False)
        kw.setdefault('ncamera', 2)
    return dict(kw, nminima=case.get('nminima', 3))


def fit(dt, tm, mp, case):
    from redrock.zfind import zfind
    return zfind(dt, tm, mp_procs=mp, **options(case))


OPTS = [
    dict(archetypes='G', per_camera=False, deg_legendre=2), dict(archetypes='GS', per_camera=True, deg_legendre=1, prior_sigma=0.1),
    dict(archetypes='G', per_camera=True, deg_legendre=2, n_nearest=2, prior_sigma=0.2), dict(archetypes='S', per_camera=False, deg_legendre=1, n_nearest=3),
    dict(archetypes='GS', per_camera=True, deg_legendre=3, prior_sigma=0.01, zminfit_npoints=9), dict(archetypes='G', per_camera=False, deg_legendre=0),
    dict(zminfit_npoints=5), dict(zminfit_npoints=40)]


def single(case):
    """Reference: each target fitted alone by the single-process code."""
    import astropy.table
    out = {}
    tabs = []
    ids = ids_of(case['ids'], len(case['targets']))
    for i, t in enumerate(ids):
        from redrock.targets import DistTargetsCopy
        from redrock.templates import DistTemplate
        s, b, m = case['targets'][i]
        tg = fix.mk_target(t, bands=b, nspec=s, mask=m, csr=case.get('csr', False), coadd=case.get('coadd', False), key='c01', z=0.05 + 0.04 * i)
        dt = DistTargetsCopy([tg])
        w = dt.wavegrids()
        tm = [DistTemplate(fix.mk_template(**kw), w) for kw in TEMPLATES[case['templates']]]
        a, tab = fit(dt, tm, 1, case)
        out.update(a)
        tabs.append(tab)
    return out, astropy.table.vstack(tabs)


def norm_case(case):
    case['targets'] = [(tuple(s) if isinstance(s, list) else s, b, m) for s, b, m in case['targets']]
    return case


def run_case(rec, case):
    case = norm_case(dict(case))
    with core.quiet():
        ref, reftab = single(case)
        dt, tm = build(case, 1)
        sa, st = fit(dt, tm, 1, case)
    fix.compare_scan(sa, ref, 'serial-vs-single')
    if case.get('opts', {}).get('archetypes'):
        reftab = st     # the columns of archetype fits depend on all targets
    fix.compare_tables(st, reftab, 'serial-vs-single')
    mp = case['mp']
    bound = case.get('bound', 0)
    root = case.get('choices')
    if case.get('real'):
        with core.quiet():
            dt, tm = build(case, mp)
            a, t = fit(dt, tm, mp, case)
        fix.compare_scan(a, ref, 'real')
        fix.compare_tables(t, reftab, 'real')
        rec.trace(); rec.ev()
        return

    def one(ch):
        w = fakemp.World(ch)
        try:
            with w.active(), core.quiet():
                dt, tm = build(case, mp)
                a, t = fit(dt, tm, mp, case)
                if case.get('again'):
                    a2, t2 = fit(dt, tm, case['again'], case)
                    fix.compare_scan(a2, ref, 'second-run')
                    fix.compare_tables(t2, reftab, 'second-run')
            fix.compare_scan(a, ref, 'mp')
            fix.compare_tables(t, reftab, 'mp')
            return w.delivered, None
        except (core.MCError, core.NeedStateless):
            raise
        except core.Violation as e:
            return w.delivered, (e.key, e.desc)
        except Exception as e:
            return w.delivered, core.describe_exc(e)
    if root is not None:
        out, capped = [(root, one(core.Chooser(root)))], False
    else:
        out, capped = core.explore_fork(one, bound=bound, max_exec=case.get('max', 4000))
    if capped:
        rec.note('schedule cap reached in ' + repr(case)); rec.count('capped')
    for n, (choices, (delivered, err)) in enumerate(out):
        rec.ev(); rec.trace()
        rec.trans(len(delivered))
        log = ()
        ck = (case['mp'], case['templates'], case['ids'], tuple(case['targets']))
        for d in delivered:
            log += (d,)
            rec.state(ck, log)
        rec.outcome(ck, log)
        if n == 3:
            rec.sample(dict(case=case, delivery_order=delivered))
        if err:
            rec.violation(err[0], f'{err[1]}\nschedule {choices} deliveries {delivered}', dict(case, choices=choices))
            break
    rec.count('configurations')


def cases(thorough):
    out = []
    tsets = [
        [S1], [SM], [S1, S1], [S1, S2], [S2, S1], [S1, S2, S1], [S2, S3, S1], [S1, SB], [SX, S1, S2], [SM, S2], [S1, SM, S2], [SP, S1], [SW, S1],
        [S1, S1, S1], [S3, S1, S2, S1],
    ]
    for ts in tsets:
        for mp in range(2, len(ts) + 3):
            if len(ts) == 4 and mp > 3 and not thorough:
                continue
            out.append(dict(targets=ts, mp=mp, templates='G', ids='int'))
    for ts in ([S1, S2], [S2, S1, S1], [S1, S3, S2]):
        for ids in ('desc', 'str', 'big'):
            for mp in (2, 3):
                out.append(dict(targets=ts, mp=mp, templates='G', ids=ids))
    for tn in ('GS', 'N', 'Q', 'SG'):
        for ts in ([S1, S2], [SM, S2, S1] if tn != 'SG' else [S2, S1]):
            for mp in (2, 3):
                out.append(dict(targets=ts, mp=mp, templates=tn, ids='int'))
    for ts in ([S1, S2], [S1, S3, S2], [S2, S1, S3], [SX, S3, S1]):
        for mp in (2, 3):
            for tn in ('G', 'GS'):
                out.append(dict(targets=ts, mp=mp, templates=tn, ids='int' if mp == 2 else 'desc', plain=True))
    for k, o in enumerate(OPTS):
        for j, ts in enumerate(([S1, S2], [S2, S1, SP], [SM, S2, SX])):
            for mp in (2, 3):
                if thorough or (j + mp + k) % 3 == 0:
                    out.append(dict(targets=ts, mp=mp, templates=('GS', 'SG', 'G')[(k + j) % 3], ids='desc', opts=o, nminima=1 + k % 3))
                    if not thorough:
                        out[-1]['choices'] = []     # one delivery order
        out.append(dict(targets=[S1, S2], mp=2, templates='G', ids='desc', opts=o, nminima=1 + k % 3))
        out.append(dict(targets=[S1, S2], mp=2, templates='GS', ids='int', opts=o, real=True, nminima=2))
    for ts in ([S1, S2], [S2, S1, S1]):
        for again in (1, 2, 3):
            out.append(dict(targets=ts, mp=2, templates='G', ids='int', again=again))
        out.append(dict(targets=ts, mp=2, templates='G', ids='int', csr=True))
        out.append(dict(targets=ts, mp=2, templates='G', ids='int', coadd=True))
        out.append(dict(targets=ts, mp=2, templates='G', ids='desc', bound=1))
        out.append(dict(targets=ts, mp=3, templates='G', ids='int', bound=1))
        out.append(dict(targets=ts, mp=2, templates='GS', ids='desc', real=True))
        out.append(dict(targets=ts, mp=3, templates='G', ids='str', real=True))
    # a timeout just before the last messages arrive and their workers exit
    out.append(dict(targets=[S1, S2], mp=2, templates='G', ids='int', bound=2))
    # two-digit numbers of processes and targets; one delivery order each
    out.append(dict(targets=[S1] * 12 + [S2], mp=12, templates='G', ids='int', choices=[]))
    out.append(dict(targets=[S2] + [S1] * 11, mp=11, templates='G', ids='str', real=True))
    if thorough:
        for ts in itertools.product([S1, S2, SX, SM, SB], repeat=3):
            for mp in (2, 3, 4):
                out.append(dict(targets=list(ts), mp=mp, templates='G', ids='desc'))
        for ts in ([S1, S1, S1, S1], [S1, S2, S3, S2], [S2, SM, S1, SB, S3]):
            for mp in range(2, 7):
                out.append(dict(targets=ts, mp=mp, templates='G', ids='big', max=60000))
        for ts in ([S1, S2, S1], [S3, S1, S2]):
            for b in (1, 2):
                out.append(dict(targets=ts, mp=3, templates='GS', ids='int', bound=b, max=60000))
    # biggest first for load balance
    out.sort(key=lambda c: -(len(c['targets']) * min(c['mp'], len(c['targets'])) * len(c['templates']) + 6 * c.get('bound', 0)))
    return out


def make():
    return core.Check('C01', 'model_checking',
        rule='configurations (targets x processes x templates) x every order in which worker messages reach the parent; a state is a configuration plus the '
             'deliveries so far; bound>0 adds that many early timeouts/late exits',
        assumptions=['worker processes share nothing with the parent after fork except queues and read-only shared memory (so only delivery order matters)',
                     'float results compared to 1e-7 relative'],
        explanation='stateless exploration of the real zfind/calc_zchi2_targets with really forked workers under a controlled queue; oracle: each target '
                    'fitted alone in a single process')


def warm():
    with core.quiet():
        c = dict(targets=[S1], mp=1, templates='Q', ids='int')
        dt, tm = build(c, 1)
        fit(dt, tm, 1, c)


def run(ck):
    warm()
    cs = cases(ck.thorough)
    core.pmap(cs, run_case, ck, timeout=600 if ck.thorough else 200)


def replay(rec, case):
    run_case(rec, case)
