"""C19: batch runs cover every input once and only redo what is missing (bin/wrap-redrock)."""
import argparse, contextlib, importlib.machinery, importlib.util, io, itertools, os, re, shutil, stat, subprocess, sys, tempfile, time
import numpy as np
from mc import core, fakempi

FAKE = r'''#!/bin/sh
args="$*"
while [ $# -gt 0 ]; do
  case "$1" in
    -i|--infiles|--spplate) in="$2";;
    -o|--outfile|--zbest) if [ "$1" = -o ] && [ "$NAME" = rrboss ]; then d="$2"; else o="$2"; fi;;
    -d|--details|--output) d="$2";;
  esac
  shift
done
b="${in##*/}"
dd="${in%/*}"
b="${dd##*/}_$b"
n=0
[ -e "$C19/$b.n" ] && read n < "$C19/$b.n"
n=$((n+1))
echo $n > "$C19/$b.n"
echo "$n|$args" >> "$C19/$b.calls"
echo "token $b $n"
act=ok
k=0
if [ -e "$C19/$b.plan" ]; then
  while read a; do k=$((k+1)); act=$a; [ $k = $n ] && break; done < "$C19/$b.plan"
fi
case $act in
  ok) echo "content $n" > "$o"; echo "content $n" > "$d"; exit 0;;
  none) exit 0;;
  fail) exit 1;;
  rr) echo "content $n" > "$o"; exit 2;;
  det) echo "content $n" > "$d"; exit 3;;
  both) echo "content $n" > "$o"; echo "content $n" > "$d"; exit 4;;
  kill) echo "content $n" > "$o"; kill -9 $$;;
esac
'''


def module():
    p = os.path.join(core.REPO, 'bin', 'wrap-redrock')
    ld = importlib.machinery.SourceFileLoader('wrap_redrock', p)
    spec = importlib.util.spec_from_loader('wrap_redrock', ld)
    m = importlib.util.module_from_spec(spec)
    with core.quiet():
        ld.exec_module(m)
    return m


_mod = []


def mod():
    if not _mod:
        _mod.append(module())
    return _mod[0]


def fake(d):
    """Commands which follow a plan; returns the directory for PATH."""
    os.makedirs(d + '/fakebin', exist_ok=True)
    os.makedirs(d + '/state', exist_ok=True)
    for n in ('rrdesi', 'rrboss', 'rrdesi_mpi', 'rrboss_mpi'):
        p = f'{d}/fakebin/{n}'
        open(p, 'w').write(FAKE.replace('$NAME', n.split('_')[0]))
        os.chmod(p, 0o755)
    os.environ['C19'] = d + '/state'
    os.environ['PATH'] = d + '/fakebin:' + os.environ['PATH']


def spectra(path, n):
    import fitsio
    t = np.zeros(n + 1, dtype=[('TARGETID', 'i8')])
    # the first target has two rows, which are not next to each other
    t['TARGETID'] = 39627000000000000 + np.r_[1, np.arange(n, 1, -1), 1]
    if os.path.exists(path):
        os.remove(path)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with fitsio.FITS(path, 'rw') as F:
        F.write(np.zeros(2))
        F.write(t, extname='FIBERMAP')


@contextlib.contextmanager
def scratch():
    env, cwd, slp = dict(os.environ), os.getcwd(), time.sleep
    with tempfile.TemporaryDirectory(prefix='c19') as d:
        d = os.path.realpath(d)
        try:
            time.sleep = lambda s: None
            yield d
        finally:
            time.sleep = slp
            os.chdir(cwd)
            os.environ.clear()
            os.environ.update(env)


# ---------------------------------------------------------------- partition
def opt(w, n):
    """Smallest possible largest load."""
    w = sorted(w, reverse=True)
    best = [sum(w)]
    load = [0.] * n

    def go(i):
        if max(load) >= best[0]:
            return
        if i == len(w):
            best[0] = max(load)
            return
        seen = set()
        for j in range(n):
            if load[j] in seen:
                continue
            seen.add(load[j])
            load[j] += w[i]
            go(i + 1)
            load[j] -= w[i]
    go(0)
    return best[0]


def run_part(rec, c):
    f = mod().weighted_partition
    for rest in itertools.product(c['alphabet'], repeat=c['len'] - len(c['first'])):
        w = list(c['first']) + list(rest)
        for n in c['n']:
            for arg in (w, np.array(w), tuple(float(x) for x in w)):
                groups, sums = f(arg, n)
                rec.ev()
                if len(groups) != n or len(sums) != n or sorted(int(i) for g in groups for i in g) != list(range(len(w))):
                    raise core.Violation('cover', f'{w} in {n}: groups {groups}')
                s = [sum(w[i] for i in g) for g in groups]
                if not np.allclose(sums, s):
                    raise core.Violation('load', f'{w} in {n}: groups {groups} have {s}, reported {list(sums)}')
            o = opt(w, n)
            if max(s) > o * (4 / 3) + 1e-9:
                raise core.Violation('balance', f'{w} in {n}: largest load {max(s)}, possible {o}')
            rec.nontrivial(n, tuple(sorted(w)))
    for n in c['n']:
        rec.state(n, c['len'])


# ---------------------------------------------------------------- discovery
def run_find(rec, c):
    with scratch() as d:
        red = d + '/redux'
        files = {}
        os.makedirs(red)
        pre = c['prefix']
        for sub, base in c['tree']:
            p = os.path.join(red, sub, base)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, 'w').write('x')
            files[os.path.join(sub, base)] = p
        for sub, base in c.get('decoys', ()):
            os.makedirs(os.path.join(red, sub), exist_ok=True)
            open(os.path.join(red, sub, base), 'w').write('x')
        for src, dst in c.get('links', ()):
            os.symlink(os.path.join(red, src), os.path.join(red, dst))
        out = d + '/out' if c['outdir'] else None
        if out:
            os.makedirs(out)
        os.chdir(d)
        arg = dict(abs=red, rel='redux', slash=red + '/', dot='./redux/../redux')[c['how']]
        if c['how'] == 'rel' and out:
            out = 'out'
        avoid = c.get('avoid')
        avoidarg = os.path.join(dict(abs=red, rel='redux')[c.get('avoidhow', 'abs')], avoid) if avoid else None
        want = [k for k in files if not avoid or not (k + '/').startswith(avoid + '/')]

        def outs(k):
            dn, b = os.path.split(files[k])
            s = b[len(pre):]
            o = os.path.join(d, out) if out else dn
            return os.path.join(o, 'redrock' + s), os.path.join(o, 'rrdetails' + s[:-5] + '.h5')
        for state in itertools.product(range(4), repeat=len(want)):
            if c.get('states') and sum(1 for s in state if s) > c['states']:
                continue
            names = [outs(k) for k in want]
            clash = len({n[0] for n in names}) < len(names)
            for (a, b), s in zip(names, state):
                for x, y in ((a, s & 1), (b, s & 2)):
                    if y:
                        open(x, 'w').write('old')
                    elif os.path.exists(x):
                        os.remove(x)
            if clash:
                # the same name twice: states of the files are those of the last
                state = [(1 if os.path.exists(a) else 0) | (2 if os.path.exists(b) else 0) for a, b in names]
            todo = sorted(os.path.realpath(files[k]) for k, s in zip(want, state) if s != 3)
            try:
                with core.quiet():
                    got = mod().find_specfiles(arg, outdir=out, prefix=pre, avoiddir=avoidarg)
                    g = [os.path.realpath(x) for x in got]
                    rr = list(mod().spectra2outfiles(got, pre, 'redrock', outdir=out))
                    de = list(mod().spectra2outfiles(got, pre, 'rrdetails', outdir=out, ext='h5'))
            except Exception as e:
                rec.ev()
                if not clash and want:
                    raise
                rec.outcome('error')
                continue
            rec.ev()
            if clash and len(set(rr)) < len(rr):
                raise core.Violation('clash', f'inputs {g} have the same output {rr}')
            if clash:
                continue
            if len(set(g)) < len(g):
                raise core.Violation('twice', f'inputs more than once: {[os.path.relpath(x, red) for x in sorted(g)]}')
            if sorted(g) != todo:
                raise core.Violation('todo', f'to do {[os.path.relpath(x, red) for x in sorted(g)]}, without outputs are {[os.path.relpath(x, red) for x in todo]}')
            exp = {os.path.realpath(files[k]): n for k, n in zip(want, names)}
            for x, a, b in zip(g, rr, de):
                if (os.path.realpath(a), os.path.realpath(b)) != tuple(os.path.realpath(y) for y in exp[x]):
                    raise core.Violation('names', f'{x} -> {a}, {b}, expected {exp[x]}')
            if len(set(rr) | set(de)) < 2 * len(g):
                raise core.Violation('names', f'{rr} {de}')
            rec.nontrivial(len(want), tuple(state), c['outdir'], c['how'], bool(avoid), len(c.get('links', ())))


# ---------------------------------------------------------------- logs
def run_logs(rec, c):
    alphabet = ['0', '1', '2', '3', '10', 'abc', '00']
    for bits in range(1 << len(alphabet)):
        with scratch() as d:
            log = f'{d}/{c["name"]}'
            for k, s in enumerate(alphabet):
                if bits >> k & 1:
                    open(f'{log}.{s}', 'w').write('old ' + s)
            if c.get('other'):
                open(log + 'x.0', 'w').write('x')
            expect = {f'{log}.{s}': 'old ' + s for k, s in enumerate(alphabet) if bits >> k & 1}
            for q in range(c['n']):
                open(log, 'w').write(f'new {q}')
                r = mod().backup_logs(log)
                rec.ev()
                rec.trans()
                if os.path.exists(log):
                    raise core.Violation('move', f'{log} is still there')
                if r in expect or not os.path.exists(r) or open(r).read() != f'new {q}' or os.path.dirname(r) != d:
                    raise core.Violation('overwrite', f'backup to {r}, there were {sorted(os.path.basename(x) for x in expect)}')
                expect[r] = f'new {q}'
                for x, y in expect.items():
                    if open(x).read() != y:
                        raise core.Violation('overwrite', f'{os.path.basename(x)} was overwritten')
            rec.nontrivial(bits, c['name'])


# ---------------------------------------------------------------- groups
def run_group(rec, c):
    with scratch() as d:
        paths = []
        for k, n in enumerate(c['sizes']):
            paths.append(f'{d}/{k}/spectra-{k}.fits')
            spectra(paths[-1], n)
        for ranks in c['ranks']:
            for mx in c['maxnodes']:
                def go(comm=None):
                    with core.quiet():
                        g, n, t = mod().group_specfiles(np.array(paths), maxnodes=mx, comm=comm)
                    return [[int(i) for i in x] for x in g], [int(x) for x in n], [float(x) for x in t]
                if ranks:
                    res, sched = fakempi.run_ranks(ranks, go, timeout=60)
                    res = [r[1] for r in res]
                else:
                    res = [go()]
                rec.ev()
                if any(r != res[0] for r in res):
                    raise core.Violation('ranks', f'ranks do not agree: {res}')
                g, n, t = res[0]
                if sorted(i for x in g for i in x) != list(range(len(paths))):
                    raise core.Violation('cover', f'groups {g}')
                if ranks and len(g) != ranks or not ranks and len(g) > mx:
                    raise core.Violation('count', f'{len(g)} groups for {ranks} ranks, {mx} nodes')
                if n != [sum(c['sizes'][i] for i in x) for x in g]:
                    raise core.Violation('targets', f'groups {g} of {c["sizes"]} have {n} targets')
                if not np.allclose(t, [sum(30 + 0.4 * c['sizes'][i] for i in x) for x in g]):
                    raise core.Violation('times', f'groups {g} of {c["sizes"]} have {t}')
                o = opt([30 + 0.4 * s for s in c['sizes']], len(g))
                if max(t) > o * 4 / 3 + 1e-6:
                    raise core.Violation('balance', f'groups {g} of {c["sizes"]}: {max(t)}, possible {o}')
                rec.nontrivial(tuple(c['sizes']), ranks, mx)


# ---------------------------------------------------------------- histories
SEQ = [['ok'], ['none']] + [[a, b] for a in ('fail', 'rr', 'det', 'kill', 'both') for b in ('ok', 'fail', 'rr', 'det', 'none')]


def arguments(d, c, **kw):
    a = dict(reduxdir=d + '/redux', outdir=d + '/out' if c.get('outdir') else None, archetypes=None, mp=None, nompi=True, dryrun=False, maxnodes=256, nminima=3, plan=False, datatype=c.get('type', 'desi'), prefix=None)
    a['prefix'] = 'spectra' if a['datatype'] == 'desi' else 'spPlate'
    a.update(kw)
    return argparse.Namespace(**a)


def key(p):
    return os.path.basename(os.path.dirname(p)) + '_' + os.path.basename(p)


def calls(d, p):
    f = f'{d}/state/{key(p)}.calls'
    return open(f).read().splitlines() if os.path.exists(f) else []


def outputs(d, c, p):
    o = d + '/out' if c.get('outdir') else os.path.dirname(p)
    s = os.path.basename(p)[len('spectra' if c.get('type', 'desi') == 'desi' else 'spPlate'):]
    return os.path.join(o, 'redrock' + s), os.path.join(o, 'rrdetails' + s[:-5] + '.h5')


def launch(d, c, **kw):
    m = mod()
    if c.get('outdir'):
        os.makedirs(d + '/out', exist_ok=True)
    if c.get('ranks'):
        def go(comm):
            with core.quiet():
                m.run_redrock(arguments(d, c, **kw), comm=comm)
        fakempi.run_ranks(c['ranks'], go, timeout=100)
    else:
        with core.quiet():
            m.run_redrock(arguments(d, c, **kw))


def logs_ok(d, paths, c):
    """Every call of every input has its output in exactly one log."""
    text = {}
    for base, _, names in os.walk(d):
        if '/state' in base or '/fakebin' in base:
            continue
        for n in names:
            if '.log' in n:
                t = open(os.path.join(base, n)).read()
                for tok in re.findall(r'token (\S+) (\d+)', t):
                    text.setdefault(tok, []).append(n)
    for p in paths:
        for k in range(1, len(calls(d, p)) + 1):
            got = text.get((key(p), str(k)), [])
            if len(got) != 1:
                raise core.Violation('log', f'output of call {k} for {key(p)} is in {got}')


def setup(d, c):
    paths = []
    sizes = c['sizes']
    for k, n in enumerate(sizes):
        sub = c.get('subs', ['10', '11', '12', '13', '14', '15'])[k]
        if c.get('type') == 'boss':
            p = f'{d}/redux/{sub}/spPlate-{k}.fits'
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, 'w').write('x')
        else:
            p = f'{d}/redux/{sub}/spectra-{k}.fits'
            spectra(p, n)
        paths.append(p)
    fake(d)
    return paths


def run_hist(rec, c):
    """Each run of the batch: the outcome of every call is chosen by the history."""
    with scratch() as d:
        paths = setup(d, c)
        for k, p in enumerate(paths):
            for x, y in zip(outputs(d, c, p), (c['have'][k] & 1, c['have'][k] & 2)):
                if y:
                    os.makedirs(os.path.dirname(x), exist_ok=True)
                    open(x, 'w').write('content 0\n')
            if c.get('oldlog'):
                for n in c['oldlog']:
                    x = outputs(d, c, p)[0][:-5] + '.log' + n
                    os.makedirs(os.path.dirname(x), exist_ok=True)
                    open(x, 'w').write(f'old log {k} {n}\n')

        def state():
            return [[open(x).read() if os.path.exists(x) else None for x in outputs(d, c, p)] for p in paths]
        for r, plan in enumerate(list(c['runs']) + [['ok'] * len(paths), ['ok'] * len(paths)]):
            before = state()
            nb = [len(calls(d, p)) for p in paths]
            for p, s, n in zip(paths, plan, nb):
                s = [s] if isinstance(s, str) else list(s)
                open(f'{d}/state/{key(p)}.plan', 'w').write('\n'.join(['x'] * n + s) + '\n')
            launch(d, c)
            rec.ev()
            rec.trans()
            after = state()
            for p, b, a, n, s in zip(paths, before, after, nb, plan):
                m = len(calls(d, p)) - n
                if None not in b:
                    if m or a != b:
                        raise core.Violation('redone', f'run {r}: {key(p)} was complete and was run {m} times')
                    continue
                if m < 1:
                    raise core.Violation('skipped', f'run {r}: {key(p)} had outputs {b} and was not run')
                if s in ('ok', ['ok'], ['none']) and m > 1:
                    raise core.Violation('twice', f'run {r}: {key(p)} was run {m} times')
                if s in ('ok', ['ok']) and None in a:
                    raise core.Violation('lost', f'run {r}: {key(p)} has outputs {a} after it finished')
            logs_ok(d, paths, c)
            for k, p in enumerate(paths):
                if c.get('oldlog'):
                    lg = outputs(d, c, p)[0][:-5] + '.log'
                    txt = []
                    for n in os.listdir(os.path.dirname(lg)):
                        if n.startswith(os.path.basename(lg)):
                            txt.append(open(os.path.join(os.path.dirname(lg), n)).read())
                    for n in c['oldlog']:
                        if sum(f'old log {k} {n}\n' == t for t in txt) != 1:
                            raise core.Violation('oldlog', f'log{n} of {key(p)} was overwritten')
            rec.state(str(after))
        if any(None in a for a in state()):
            raise core.Violation('incomplete', f'{state()}')
        rec.trace()
        rec.nontrivial(str(c['runs']), str(c['have']), c.get('ranks'), bool(c.get('outdir')), c.get('type'))


def run_hists(rec, c):
    for a in itertools.product(SEQ if c.get('full') else SEQ[:2] + SEQ[2::c.get('step', 4)], repeat=c['free']):
        runs = [[c['first']] + list(a)]
        if c.get('second'):
            runs.append([c['second']] * len(runs[0]))
        q = {k: v for k, v in c.items() if k not in ('first', 'free', 'full', 'step', 'second')}
        q.update(kind='hist', runs=runs)
        with rec.case(q):
            run_hist(rec, q)


# ---------------------------------------------------------------- plan
def run_plan(rec, c):
    with scratch() as d:
        m = mod()
        paths = setup(d, c)
        for k in c.get('done', ()):
            for x in outputs(d, c, paths[k]):
                os.makedirs(os.path.dirname(x), exist_ok=True)
                open(x, 'w').write('content 0\n')
        todo = [k for k in range(len(paths)) if k not in c.get('done', ())]
        os.environ.pop('NERSC_HOST', None)
        os.mkdir(d + '/arch')
        if c.get('host'):
            os.environ['NERSC_HOST'] = c['host']
        a = ['--reduxdir', 'redux' if c.get('rel') else d + '/redux'] + list(c['opts'])
        if c.get('type') == 'boss':
            a += ['--datatype', 'boss']
        if c.get('outdir'):
            a += ['--outdir', 'out' if c.get('rel') else d + '/out']

        def main(argv, cwd=d):
            old = sys.argv
            buf = io.StringIO()
            try:
                sys.argv = ['wrap-redrock'] + argv
                os.chdir(cwd)
                with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(io.StringIO()):
                    try:
                        m.main()
                    except SystemExit as e:
                        if e.code not in (0, None):
                            raise core.Violation('exit', f'{argv}: exit status {e.code}')
            finally:
                sys.argv = old
            return buf.getvalue()
        text = main(a + ['--plan', '--nompi'])
        rec.ev()
        if any(calls(d, p) for p in paths) or any(os.path.exists(x) for k, p in enumerate(paths) if k in todo for x in outputs(d, c, p)):
            raise core.Violation('plan-runs', 'commands were run by --plan')
        if not todo:
            if 'srun' in text:
                raise core.Violation('plan', 'a job for no inputs')
            main(a + ['--nompi'])
            rec.ev()
            if any(calls(d, p) for p in paths):
                raise core.Violation('redone', 'complete inputs were run')
            return
        f = [x for x in text.splitlines() if x.strip().startswith('srun')]
        nn = re.findall(r'#SBATCH -N (\d+)', text)
        tot = re.findall(r'# (\d+) pixels with (\d+) targets', text)
        if len(f) != 1 or len(nn) != 1 or len(tot) != 1:
            raise core.Violation('plan', text)
        sizes = [c['sizes'][k] if c.get('type') != 'boss' else 1000 for k in todo]
        if (int(tot[0][0]), int(tot[0][1])) != (len(todo), sum(sizes)):
            raise core.Violation('plan-total', f'{tot} for {sizes}')
        mx = int(c['opts'][c['opts'].index('--maxnodes') + 1]) if '--maxnodes' in c['opts'] else 256
        if int(nn[0]) > mx:
            raise core.Violation('plan-nodes', f'{nn} nodes of at most {mx}')
        # time requested is enough for the largest group
        h, mi, s = (int(x) for x in re.findall(r'#SBATCH -t (\d+):(\d+):(\d+)', text)[0])
        cost = [30 + (0.4 * x if c.get('type') != 'boss' else 250) for x in sizes]
        if c.get('type') == 'boss':
            cost = [x - 30 for x in cost]
        need = opt(cost, int(nn[0])) + (30 if c.get('type') == 'boss' else 0)
        if h * 3600 + mi * 60 + s < need:
            raise core.Violation('plan-time', f'{h}:{mi}:{s} for groups of at least {need:.0f} s')
        lo, md, hi = (float(x) for x in re.findall(r'\(([\d.]+), ([\d.]+), ([\d.]+)\)', text)[0])
        if hi * 60 < need - 4 or lo > hi or md > hi:
            raise core.Violation('plan-load', f'reported {lo, md, hi} minutes, groups of at least {need:.0f} s')
        cmd = f[0].split()
        k = [i for i, x in enumerate(cmd) if x.endswith('wrap-redrock')][0]
        planned = cmd[k + 1:]
        mp = planned[planned.index('--mp') + 1]
        # what the job runs and what the original options run
        rr = []
        for argv, cwd in ((planned + ['--nompi'], '/'), (a + ['--nompi'] + ([] if '--mp' in a else ['--mp', mp]), d)):
            shutil.rmtree(d + '/state')
            os.mkdir(d + '/state')
            for k in todo:
                for x in outputs(d, c, paths[k]):
                    if os.path.exists(x):
                        os.remove(x)
            main(argv, cwd)
            rec.ev()
            got = {}
            for k, p in enumerate(paths):
                cs = calls(d, p)
                if len(cs) != (k in todo):
                    raise core.Violation('calls', f'{argv}: {key(p)} was run {len(cs)} times')
                if cs:
                    w = cs[0].split('|')[1].split()
                    got[k] = [os.path.join(cwd, x) if os.path.exists(os.path.join(cwd, x)) else x for x in w]
                    got[k] = [os.path.realpath(x) if x.startswith('/') else x for x in got[k]]
                    if not all(os.path.exists(x) for x in outputs(d, c, p)):
                        raise core.Violation('lost', f'{key(p)} has no outputs')
            rr.append(got)
        if rr[0] != rr[1]:
            raise core.Violation('plan-command', f'the planned job runs {rr[0]}, these options run {rr[1]}')
        for w in rr[0].values():
            for o in ('--nminima', '--archetypes'):
                if o in c['opts'] and (o not in w or os.path.basename(w[w.index(o) + 1]) != os.path.basename(c['opts'][c['opts'].index(o) + 1])):
                    raise core.Violation('option', f'{o} is not in {w}')
        # nothing to do afterwards
        text = main(a + ['--nompi'])
        if any(len(calls(d, p)) > (k in todo) for k, p in enumerate(paths)):
            raise core.Violation('redone', 'complete inputs were run')
        # dry runs do nothing
        for k in todo:
            os.remove(outputs(d, c, paths[k])[0])
        n = [len(calls(d, p)) for p in paths]
        main(a + ['--nompi', '--dryrun'])
        rec.ev()
        if [len(calls(d, p)) for p in paths] != n:
            raise core.Violation('dryrun', 'a dry run ran commands')
        rec.nontrivial(str(c['opts']), tuple(c['sizes']), tuple(todo), c.get('type'), bool(c.get('outdir')), bool(c.get('rel')))


# ---------------------------------------------------------------- real commands
def run_real(rec, c):
    """The commands that are run are accepted by the real programs and write the outputs."""
    from checks import c14, c15
    from astropy.io import fits
    with scratch() as d:
        os.makedirs(d + '/redux')
        want = {}
        if c['type'] == 'desi':
            b = c14.prepare(dict(tmpl='GS', arch=c.get('arch'), archdir=True), d)
            for k in range(2):
                sub = f'{d}/redux/{k + 5}'
                ids = [11 + k, 20 + k]
                c14.write_inputs([dict(rows=[dict(t=i, e=0) for i in ids])], False, sub)
                os.rename(sub + '/spectra-0.fits', f'{sub}/spectra-{k + 5}.fits')
                want[f'{sub}/spectra-{k + 5}.fits'] = ids
            ext = 'REDSHIFTS'
        else:
            cc = dict(plate=3586, mjd=56000, fibers=[1, 2], tmpl='GS', arch=c.get('arch'))
            c15.prepare(cc, d)
            for k in range(2):
                sub = f'{d}/redux/{3586 + k}'
                os.makedirs(sub)
                with core.quiet():
                    names, exp = c15.write(dict(cc, plate=3586 + k), sub)
                want[names[0]] = sorted(exp)
            ext = 'ZBEST'
        os.environ['RR_TEMPLATE_DIR'] = d + '/t'
        os.environ['PATH'] = core.REPO + '/bin:' + os.environ['PATH']
        os.environ['PYTHONPATH'] = core.REPO + '/py:' + os.environ.get('PYTHONPATH', '')
        a = [sys.executable, core.REPO + '/bin/wrap-redrock', '--nompi', '--reduxdir', d + '/redux', '--datatype', c['type'], '--mp', '1']
        if c.get('outdir'):
            a += ['--outdir', d + '/out']
        if c.get('arch'):
            a += ['--archetypes', d + '/a']
        stat = None
        for q in range(2):
            r = subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
            rec.ev()
            if r.returncode:
                raise core.Violation('exit', r.stdout.decode()[-1500:])
            now = {}
            for p, ids in want.items():
                o = outputs(d, c, p)
                lg = o[0][:-5] + '.log'
                for x in o:
                    if not os.path.exists(x):
                        raise core.Violation('real', f'{x} is missing: {r.stdout.decode()[-800:]} {open(lg).read()[-1500:] if os.path.exists(lg) else "no log"}')
                    now[x] = os.stat(x).st_mtime_ns
                with fits.open(o[0]) as h:
                    got = sorted(int(x) for x in h[ext].data['TARGETID'])
                    arc = 'ARCNAM00' in h[0].header
                if got != sorted(ids) or arc != bool(c.get('arch')):
                    raise core.Violation('real-content', f'{o[0]}: targets {got}, input has {ids}')
            if stat is not None and now != stat:
                raise core.Violation('redone', 'complete inputs were run again')
            stat = now
        rec.nontrivial('real', str(c))


def dispatch(rec, c):
    f = dict(part=run_part, find=run_find, logs=run_logs, group=run_group, hist=run_hist, hists=run_hists, plan=run_plan, real=run_real)[c['kind']]
    if c['kind'] == 'hists':
        return f(rec, c)
    with rec.case(c):
        f(rec, c)


def make():
    return core.Check('C19', 'model_checking',
        rule='all weight vectors over small alphabets; all input trees with all states of their outputs; all sets of existing logs; all outcome sequences of the commands of a run followed by further runs; option combinations of plan',
        assumptions=['the commands are replaced by a program which follows the chosen outcomes (the real programs are run in the "real" cases)', 'MPI simulated (see C02)', 'balanced: largest load at most 4/3 of the smallest possible'],
        explanation='exhaustive exploration of run/fail/retry histories of the real batch program, and enumeration of its planning functions against exact partitions')


def run(ck):
    T = ck.thorough
    items = []
    for L in range(0, 7 if not T else 8):
        al = (0, 1, 2, 3, 5, 8) if L <= 5 else (1, 2, 3, 7) if L == 6 else (1, 2, 3)
        for first in itertools.product(al, repeat=min(L, 1 if L < 5 else 2)):
            items.append(dict(kind='part', alphabet=list(al), len=L, first=list(first), n=[1, 2, 3, 4]))
    trees = [
        [('a', 'spectra-1.fits')], [('', 'spectra-0.fits'), ('a', 'spectra-1.fits')],
        [('a', 'spectra-1.fits'), ('b', 'spectra-2.fits')], [('a/b', 'spectra-a.fits'), ('a/b', 'spectra-b.fits'), ('c', 'spectra-c.fits')],
        [('a', 'spectra-1.fits'), ('b', 'spectra-1.fits')], [('a', 'spectra-spectra-1.fits'), ('a', 'spectra-redrock-1.fits')],
        [('a.fits', 'spectra-1.fits'), ('a.fits', 'spectra-1.fits.fits')], [('x/spectra', 'spectra-1.fits'), ('spectra', 'spectra-2.fits')],
        [('10', 'spectra-10.fits'), ('100', 'spectra-100.fits'), ('1', 'spectra-1.fits')], [('a', 'spectra-x.fits.y.fits'), ('a', 'spectra-x.fits')]]
    dec = [('a', 'xspectra-1.fits'), ('a', 'spectra-1.fits.gz'), ('b', 'spectra-9.h5'), ('c', 'redrock-77.fits'), ('c', 'rrdetails-77.h5'), ('c', 'spectra.txt')]
    for tr in trees:
        for out in (False, True):
            for how in ('abs', 'rel', 'slash', 'dot'):
                items.append(dict(kind='find', prefix='spectra', tree=tr, outdir=out, how=how, decoys=dec))
        sub = sorted({s for s, b in tr if s})
        if sub:
            items.append(dict(kind='find', prefix='spectra', tree=tr, outdir=False, how='abs', links=[(sub[0], 'zlink')]))
            items.append(dict(kind='find', prefix='spectra', tree=tr, outdir=True, how='rel', links=[(sub[0], '0link'), ('', sub[0] + '/loop')]))
            for ah in ('abs', 'rel'):
                for how in ('abs', 'rel', 'slash'):
                    items.append(dict(kind='find', prefix='spectra', tree=tr + [(sub[0] + '/deep', 'spectra-deep.fits'), ('keep', 'spectra-keep.fits')], outdir=False, how=how, avoid=sub[0], avoidhow=ah, states=2))
    items.append(dict(kind='find', prefix='spectra', tree=[], outdir=False, how='abs', decoys=dec))
    for pre in ('spPlate', 'coadd'):
        items.append(dict(kind='find', prefix=pre, tree=[('3586', pre + '-3586-55182.fits'), ('3587', pre + '-3587-55183.fits'), ('3587', pre + '-3587-55184.fits')], outdir=False, how='abs', decoys=dec))
    for n in ('redrock-1.log', 'redrock-[1].log', 'redrock-*.log', 'a b.log'):
        items.append(dict(kind='logs', name=n, n=3, other=n == 'redrock-1.log'))
    S = [[5], [5, 5], [1, 2, 3], [4000, 1, 1], [4000, 3000, 10, 2500], [1, 9, 1, 9, 1], [3700, 3700, 3600], [100] * 6]
    for s in S:
        items.append(dict(kind='group', sizes=s, ranks=[0, 1, 2, 3, 5], maxnodes=[1, 2, 3, 256]))
    # histories
    for n in (1, 2, 3):
        for ranks in (None, 1, 2, 3):
            for have in itertools.product(range(4), repeat=n):
                if n > 1 and not T and sum(1 for x in have if x in (1, 2)) > (1 if n == 2 else 0):
                    continue
                for k, first in enumerate(SEQ):
                    if n > 1 and not T and (k + sum(have) + (ranks or 0)) % (3 if n == 2 else 9):
                        continue
                    if n == 3 and have.count(0) < 2 and not T:
                        continue
                    if ranks and n > 1 and not T and (k + have.count(0)) % 3:
                        continue
                    items.append(dict(kind='hists', sizes=[5, 9, 2][:n], have=list(have), ranks=ranks, outdir=(k + (ranks or 0)) % 2 == 0, first=first, free=n - 1 if n < 3 or T else 1,
                                      full=n == 1 or n == 2 and T, step=(5 if not T else 3) if n > 1 else 1, second=(None, ['fail', 'rr'], ['det', 'none'], ['kill', 'fail'])[k % 4]))
                    if n == 3 and not T:
                        items[-1]['sizes'] = [5, 9]
                        items[-1]['have'] = list(have)[:2]
                        items[-1]['subs'] = ['abc', 'x.fits']
    for n, first in itertools.product((1, 2), SEQ[::4]):
        for old in ([''], ['', '.0'], ['', '.1'], ['', '.0', '.2'], ['', '.abc'], ['.0'], ['', '.1', '.abc']):
            items.append(dict(kind='hists', sizes=[5, 9][:n], have=[0, 1][:n], ranks=None if n == 1 else 2, oldlog=old, outdir=n == 1, first=first, free=n - 1, step=9, subs=['x.fits', 'y']))
    for have in itertools.product((0, 3), repeat=2):
        for k, first in enumerate(SEQ[::3]):
            items.append(dict(kind='hists', type='boss', sizes=[5, 9], have=list(have), ranks=(None, 1, 2)[k % 3], first=first, free=1, step=6, outdir=bool(k % 2)))
    # plan
    q = 0
    for s in ([5], [5, 9, 2], [4000, 3000, 10, 2500], [3700, 3700, 3600, 1]):
        for done in ([], [0], list(range(len(s)))):
            for ty in ('desi', 'boss'):
                for o in ([], ['--nminima', '5'], ['--archetypes', '/x/arch'], ['--archetypes', 'arch', '--mp', '2'], ['--maxnodes', '2'], ['--mp', '1', '--nminima', '1'], ['--maxnodes', '1', '--mp', '7'], ['--prefix', 'spectra' if ty == 'desi' else 'spPlate']):
                    q += 1
                    items.append(dict(kind='plan', sizes=s, done=done, type=ty, opts=o, outdir=bool(q % 2), rel=bool(q // 2 % 2), host=(None, 'cori', 'edison')[q % 3]))
    for ty in ('desi', 'boss'):
        for ar in (None, 'G'):
            for out in (False, True):
                items.append(dict(kind='real', type=ty, arch=ar, outdir=out))
    items.sort(key=lambda c: c['kind'] != 'real')
    core.pmap(items, dispatch, ck, timeout=600)


def replay(rec, case):
    dispatch(rec, case)
