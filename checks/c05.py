"""C05: work is split into complete, disjoint, capacity-aware shares."""
import itertools, json, os, subprocess, sys
from fractions import Fraction as Fr
import copy
from mc import core, fix

NAMES = dict(int=lambda i: 100 + i, desc=lambda i: 100 - i, str=lambda i: 'xbzay'[i % 5] + str(i), big=lambda i: 39627652591521181 + (7 * i) % 5)


def oracle(dist, nproc, ids, w, caps, what=''):
    if len(dist) != nproc:
        raise core.Violation('nshares', f'{len(dist)} shares for {nproc} processes')
    flat = [x for d in dist for x in d]
    if sorted(map(str, flat)) != sorted(map(str, ids)) or len(set(flat)) != len(flat):
        raise core.Violation('partition', f'ids {ids} split into {dist}')
    w = {i: 1 for i in ids} if w is None else w
    caps = [1] * nproc if caps is None else caps
    load = [sum(Fr(w[x]) for x in d) for d in dist]
    for p, d in enumerate(dist):
        if [w[x] for x in d] != sorted([w[x] for x in d], reverse=True):
            raise core.Violation('order', f'share {d} is not in order of decreasing weight {w}')
        if not d:
            continue
        lw = Fr(w[d[-1]])
        for q in range(nproc):
            if q != p and load[p] / Fr(caps[p]) > (load[q] + lw) / Fr(caps[q]):
                raise core.Violation('balance', f'weights {w} capacities {caps}: {dist}: process {p} would be relieved by moving {d[-1]} to {q}')
    if len(set(caps)) == 1 and ids:
        if max(load) > sum(load) / nproc + max(w.values()):
            raise core.Violation('overload', f'loads {load}')


def run_block(rec, blk):
    from redrock.utils import distribute_work
    nproc, n, kind, capset, wset = blk
    ids = [NAMES[kind](i) for i in range(n)]
    caplist = [None] + list(itertools.product(capset, repeat=nproc))
    wlist = [None] + list(itertools.product(wset, repeat=n))
    for caps in caplist:
        for ws in wlist:
            w = None if ws is None else dict(zip(ids, ws))
            case = dict(nproc=nproc, ids=ids, weights=ws, caps=caps)
            with rec.case(dict(case)):
                a = distribute_work(nproc, list(ids), weights=copy.copy(w), capacities=None if caps is None else list(caps))
                oracle(a, nproc, ids, w, caps)
                if w is not None and (caps is None or caps == caplist[-1]):
                    b = distribute_work(nproc, list(ids), weights=dict(reversed(list(w.items()))), capacities=None if caps is None else list(caps))
                    if a != b:
                        raise core.Violation('impure', f'{a} vs {b}')
            rec.ev()
            if n > 1 and nproc > 1:
                rec.nontrivial(nproc, tuple(map(str, ids)), ws, caps)
            if rec.viol:
                return
    rec.sample(dict(nproc=nproc, ids=ids, weights=ws, caps=caps, split=a), 1)


def run_targets(rec, blk):
    from redrock.targets import distribute_targets, DistTargetsCopy, Target, Spectrum
    _, n, maxspec = blk
    sp = fix.mk_target(1, bands='b', nspec=maxspec).spectra
    for ks in list(itertools.product(range(1, maxspec + 1), repeat=n)) + list(itertools.product((1, 4, 10, 23), repeat=n)):
        ts = [Target(500 - 3 * i, (sp * k)[:k]) for i, k in enumerate(ks)]
        w = {t.id: len(t.spectra) for t in ts}
        for nproc in range(1, n + 3):
            with rec.case(dict(targets=ks, nproc=nproc)):
                oracle(distribute_targets(ts, nproc), nproc, [t.id for t in ts], w, None)
                d = DistTargetsCopy(ts)
                if [t.id for t in d.local()] != list(d.local_target_ids()) or sorted(d.local_target_ids()) != sorted(w):
                    raise core.Violation('copy', 'DistTargetsCopy ids/data mismatch')
            rec.ev(); rec.nontrivial('t', ks, nproc)


def run_hash(rec, blk):
    """The ranks of a job each compute the split: it cannot depend on the interpreter's hash seed."""
    src = """if 1:
    import itertools, json
    from redrock.utils import distribute_work
    out = []
    for n in range(1, 9):
        for kind in range(3):
            ids = [('t%03d' % (7 * i % 11), (i % 3, 't%d' % i), 39627652591521181 + 5 * i % 11)[kind] for i in range(n)]
            for w in (None, [1] * n, [1 + i % 2 for i in range(n)], list(range(n))):
                for nproc in (1, 2, 3, 5):
                    for caps in (None, [1 + i % 2 for i in range(nproc)]):
                        d = distribute_work(nproc, list(ids), weights=None if w is None else dict(zip(ids, w)), capacities=caps)
                        out.append(([n, kind, w, nproc, caps], [[str(x) for x in s] for s in d]))
    print('RESULT' + json.dumps(out))
    """
    res = []
    for seed in blk[1]:
        env = dict(os.environ, PYTHONHASHSEED=str(seed), PYTHONPATH=os.path.join(core.REPO, 'py'))
        r = subprocess.run([sys.executable, '-c', src], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300)
        line = [x for x in r.stdout.splitlines() if x.startswith('RESULT')]
        if not line:
            raise core.Violation('hash-run', r.stderr[-500:])
        res.append(json.loads(line[0][6:]))
    for rows in zip(*res):
        rec.ev(len(rows))
        with rec.case(dict(hashseeds=list(blk[1]), args=rows[0][0])):
            for s, x in zip(blk[1], rows):
                if x[1] != rows[0][1]:
                    raise core.Violation('impure', f'{rows[0][0]}: {rows[0][1]} with hash seed {blk[1][0]}, {x[1]} with {s}')
        if rec.viol:
            return
    rec.nontrivial('hash', tuple(blk[1]), len(res[0]))


def dispatch(rec, blk):
    dict(targets=run_targets, hash=run_hash).get(blk[0], run_block)(rec, blk)


def make():
    return core.Check('C05', 'exploration',
        rule='every (processes, ids, weights, capacities) up to the bound; non-trivial: more than one id and more than one process',
        assumptions=['capacities are positive'],
        explanation='bounded-exhaustive enumeration against exact rational arithmetic')


def run(ck):
    blks = []
    mp, mn = (4, 5) if not ck.thorough else (5, 6)
    for nproc in range(1, mp + 1):
        for n in range(0, mn + 1):
            big = nproc * n >= 16
            cs = (1, 3) if big else (1, 2, 5)
            ws = (1, 2, 5) if n >= 5 else (0, 1, 2, 7)
            blks.append((nproc, n, ['int', 'desc', 'str', 'big'][(n + nproc) % 4], cs, ws))
    for n in range(1, 5):
        blks.append(('targets', n, 3))
    blks.append((2, 4, 'int', (1, 4), (0.5, 1.5, 3)))
    blks.append(('hash', tuple(range(6 if not ck.thorough else 24))))
    blks.sort(key=lambda b: -(b[0] * b[1] if isinstance(b[0], int) else 20))
    core.pmap(blks, dispatch, ck, timeout=600)


def replay(rec, case):
    from redrock.utils import distribute_work
    if 'hashseeds' in case:
        run_hash(rec, ('hash', case['hashseeds']))
    elif 'ids' in case:
        w = None if case['weights'] is None else dict(zip(case['ids'], case['weights']))
        oracle(distribute_work(case['nproc'], case['ids'], weights=w, capacities=case['caps']), case['nproc'], case['ids'], w, case['caps'])
