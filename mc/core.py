"""Core of the model-checking framework: choice-point explorer, parallel
exhaustive enumeration, evidence and violation reporting.

Everything here is deterministic: VERIF_SEED only selects which cases are
written out as samples, never what is explored.
"""
import os, sys, json, time, traceback, pickle, select, signal, hashlib, struct, contextlib, io

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MC_REPO', '/repo')
NCPU = int(os.environ.get('MC_NCPU', '8'))
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)


class MCError(Exception):
    """An error of the machinery itself."""


class Violation(Exception):
    """Raised by an oracle: (key, description)."""
    def __init__(self, key, desc):
        super().__init__(f'{key}: {desc}')
        self.key = key
        self.desc = desc


class Skip(Exception):
    """A sub-exploration does not apply to this tree (an internal seam moved)."""


class Horizon(Exception):
    """An execution passed its step horizon (livelock)."""


# ---------------------------------------------------------------- choices
class Chooser(object):
    """Replays `prefix`, then takes alternative 0; records every choice point.

    choose(n, cost) returns an index < n.  cost[i] is the number of deviations
    alternative i costs; alternatives whose total cost would pass `bound` are
    not scheduled by the explorer.
    """
    def __init__(self, prefix=(), bound=None, horizon=5000):
        self.prefix = list(prefix)
        self.points = []         # (n, chosen, costs, label)
        self.bound = bound
        self.horizon = horizon
        self.spent = 0

    def choose(self, n, label='', costs=None):
        if n <= 0:
            raise MCError('choice among nothing')
        i = len(self.points)
        if i >= self.horizon:
            raise Horizon(f'more than {self.horizon} choice points')
        if costs is None:
            costs = (0,) * n
        if n == 1:
            return 0
        c = 0
        if i < len(self.prefix):
            c = self.prefix[i]
            if c >= n:
                raise MCError(f'replay divergence at point {i}: {c} of {n} ({label})')
        self.points.append((n, c, tuple(costs), label))
        self.spent += costs[c]
        return c

    @property
    def choices(self):
        return [p[1] for p in self.points]


def explore_choices(run, bound=None, max_exec=None, root=()):
    """Depth-first exploration of every choice sequence of run(chooser).

    Yields (chooser, result).  With `bound`, only executions whose deviation
    cost is <= bound.  If max_exec is reached, the generator's
    `capped` attribute cannot be set, so a final (None, None) is yielded.
    """
    stack = [list(root)]
    n = 0
    while stack:
        prefix = stack.pop()
        if max_exec is not None and n >= max_exec:
            yield None, None
            return
        ch = Chooser(prefix, bound)
        res = run(ch)
        n += 1
        if len(ch.points) < len(prefix):
            raise MCError('replay divergence: execution shorter than its prefix')
        yield ch, res
        for i in range(len(ch.points) - 1, len(prefix) - 1, -1):
            npt, c, costs, _ = ch.points[i]
            before = sum(p[2][p[1]] for p in ch.points[:i])
            for alt in range(npt - 1, 0, -1):
                if bound is not None and before + costs[alt] > bound:
                    continue
                stack.append([p[1] for p in ch.points[:i]] + [alt])


# ---------------------------------------------------------------- recording
def jsonable(x):
    import numpy as np
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist())
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, (np.bool_,)):
        return bool(x)
    if isinstance(x, bytes):
        return x.decode('latin1')
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


def h(*a):
    return hashlib.blake2b(repr(a).encode(), digest_size=8).hexdigest()


class Rec(object):
    """What an exploration (or part of it) covered and found."""
    MAXV = 12

    def __init__(self):
        self.n = dict()            # counters
        self.sets = dict()         # name -> set of hashes
        self.viol = []             # (key, desc, case)
        self.vkeys = set()
        self.samples = []
        self.notes = []

    def count(self, name, k=1):
        self.n[name] = self.n.get(name, 0) + k

    def ev(self, k=1):
        self.count('evaluations', k)

    def nontrivial(self, *key):
        self.sets.setdefault('distinct_nontrivial', set()).add(h(*key))

    def state(self, *key):
        self.sets.setdefault('states', set()).add(h(*key))

    def outcome(self, *key):
        self.sets.setdefault('distinct_outcomes', set()).add(h(*key))

    def trans(self, k=1):
        self.count('transitions', k)

    def trace(self, k=1):
        self.count('traces_validated_against_impl', k)

    def sample(self, s, limit=6):
        if len(self.samples) < limit:
            self.samples.append(jsonable(s))

    def note(self, s):
        if s not in self.notes:
            self.notes.append(s)

    def violation(self, key, desc, case):
        if key in self.vkeys or len(self.viol) >= self.MAXV:
            self.vkeys.add(key)
            return
        self.vkeys.add(key)
        desc = str(desc)
        if len(desc) > 2500:
            desc = desc[:1200] + ' ... ' + desc[-1200:]
        self.viol.append((str(key), desc, jsonable(case)))

    @contextlib.contextmanager
    def case(self, case):
        """Turn any exception inside into a violation for `case`."""
        try:
            yield
        except Violation as e:
            self.violation(e.key, e.desc, case)
        except (Skip, MCError, KeyboardInterrupt):
            raise
        except Exception as e:
            k, d = describe_exc(e)
            self.violation(k, d, case)

    def merge(self, o):
        for k, v in o.n.items():
            self.count(k, v)
        for k, v in o.sets.items():
            self.sets.setdefault(k, set()).update(v)
        for v in o.viol:
            self.violation(*v)
        for s in o.samples:
            self.sample(s, 12)
        for s in o.notes:
            self.note(s)


def describe_exc(e):
    tb = traceback.extract_tb(e.__traceback__)
    where = ''
    for fr in reversed(tb):
        if fr.filename.startswith(REPO):
            where = f'{os.path.relpath(fr.filename, REPO)}:{fr.name}'
            break
    txt = ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-1800:]
    return f'exception:{type(e).__name__}:{where}', f'unexpected {type(e).__name__}: {e} at {where}\n{txt}'


# ---------------------------------------------------------------- pools
@contextlib.contextmanager
def quiet():
    """Silence stdout at file-descriptor level (forked children included)."""
    sys.stdout.flush()
    saved = os.dup(1)
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    os.close(dn)
    try:
        yield
    finally:
        sys.stdout.flush()
        os.dup2(saved, 1)
        os.close(saved)


def _wr(fd, obj):
    b = pickle.dumps(obj, protocol=4)
    b = struct.pack('<Q', len(b)) + b
    mv = memoryview(b)
    while mv:
        k = os.write(fd, mv)
        mv = mv[k:]


def _rd(fd):
    def need(k):
        out = b''
        while len(out) < k:
            c = os.read(fd, min(k - len(out), 1 << 20))
            if not c:
                raise EOFError
            out += c
        return out
    n, = struct.unpack('<Q', need(8))
    return pickle.loads(need(n))


def pmap(items, fn, rec, ncpu=None, timeout=120, chunk=1, init=None, maxviol=Rec.MAXV, label=''):
    """Run fn(rec, item) for every item in forked workers; merge the records.

    An item that takes longer than `timeout` seconds is a violation (the code
    under test does not terminate); a worker that dies likewise.
    """
    items = list(items)
    ncpu = min(ncpu or NCPU, max(1, (len(items) + chunk - 1) // chunk))
    nxt = 0
    workers = {}
    sys.stdout.flush(); sys.stderr.flush()
    stop = False

    def spawn():
        r1, w1 = os.pipe(); r2, w2 = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.setpgid(0, 0)
                os.close(w1); os.close(r2)
                for w in workers.values():
                    for fd in (w['w'], w['r']):
                        try: os.close(fd)
                        except OSError: pass
                dn = os.open(os.devnull, os.O_WRONLY)
                os.dup2(dn, 1)
                if not os.environ.get('MC_DEBUG'):
                    os.dup2(dn, 2)
                if init: init()
                while True:
                    try:
                        idx = _rd(r1)
                    except EOFError:
                        break
                    if idx is None:
                        break
                    rr = Rec()
                    err = None
                    for i in idx:
                        try:
                            with rr.case(items[i]):
                                fn(rr, items[i])
                        except Skip as e:
                            rr.note(f'skipped: {e}')
                        except BaseException as e:
                            err = ''.join(traceback.format_exception(type(e), e, e.__traceback__))
                            break
                    _wr(w2, (rr, err))
            except BaseException:
                traceback.print_exc()
                code = 3
            finally:
                os._exit(code)
        os.close(r1); os.close(w2)
        try: os.setpgid(pid, pid)
        except OSError: pass
        workers[pid] = dict(w=w1, r=r2, idx=None, t=0)
        return pid

    def give(pid):
        nonlocal nxt
        w = workers[pid]
        if nxt < len(items) and not stop:
            idx = list(range(nxt, min(nxt + chunk, len(items))))
            nxt += len(idx)
            w['idx'] = idx
            w['t'] = time.time()
            _wr(w['w'], idx)
            return True
        w['idx'] = None
        try:
            _wr(w['w'], None)
        except OSError:
            pass
        return False

    def drop(pid, kill=False):
        w = workers.pop(pid)
        os.close(w['w']); os.close(w['r'])
        if kill:
            try: os.killpg(pid, signal.SIGKILL)
            except OSError:
                try: os.kill(pid, signal.SIGKILL)
                except OSError: pass
        os.waitpid(pid, 0)

    for _ in range(ncpu):
        give(spawn())
    fatal = None
    while any(w['idx'] is not None for w in workers.values()):
        fds = {w['r']: p for p, w in workers.items() if w['idx'] is not None}
        rl, _, _ = select.select(list(fds), [], [], 1.0)
        for fd in rl:
            p = fds[fd]
            w = workers[p]
            try:
                rr, err = _rd(fd)
            except EOFError:
                rec.violation(f'worker-died:{label}', f'the process running this case died', items[w['idx'][0]])
                drop(p, kill=True)
                if nxt < len(items):
                    give(spawn())
                continue
            rec.merge(rr)
            if err is not None:
                fatal = err
                stop = True
            if len(rec.viol) >= maxviol:
                stop = True
            give(p)
        now = time.time()
        for p in list(workers):
            w = workers[p]
            if w['idx'] is not None and now - w['t'] > timeout * max(1, len(w['idx']) ** 0.5):
                rec.violation(f'no-termination:{label}', f'case did not finish within {timeout} s', items[w['idx'][0]])
                drop(p, kill=True)
                if nxt < len(items) and len(rec.viol) < maxviol:
                    give(spawn())
    for p in list(workers):
        drop(p)
    if fatal:
        raise MCError('harness error in worker:\n' + fatal)


# ---------------------------------------------------------------- check
class Check(Rec):
    def __init__(self, pid, level, rule='', assumptions=(), explanation=''):
        super().__init__()
        self.pid = pid
        self.level = level
        self.rule = rule
        self.assumptions = list(assumptions)
        self.tier = TIER
        self.seed = SEED
        self.t0 = time.time()
        self.cover = {}
        self.exhaustive = True
        self.explanation = explanation

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def known(self):
        out = []
        p = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
        if os.path.exists(p):
            for line in open(p):
                line = line.strip()
                if line.startswith('known:'):
                    d = dict(f.split('=', 1) for f in line[6:].split() if '=' in f and f.split('=')[0] in ('property', 'key'))
                    if d.get('property') == self.pid:
                        out.append((d['key'], line.split('what=', 1)[-1]))
        return out

    def finish(self):
        known = self.known()
        kk = {k for k, _ in known}
        real = [v for v in self.viol if v[0] not in kk]
        found = {v[0] for v in self.viol if v[0] in kk}
        cov = {}
        for k, v in self.n.items():
            cov[k] = v
        for k, v in self.sets.items():
            cov[k] = len(v)
        cov.update(self.cover)
        need = dict(exploration=('evaluations', 'distinct_nontrivial'),
                    fault_enumeration=('evaluations', 'distinct_nontrivial'),
                    model_checking=('states', 'transitions', 'traces_validated_against_impl'))
        for k in need.get(self.level, ()):
            cov.setdefault(k, 0)
        if self.rule:
            cov['rule'] = self.rule
        if self.explanation:
            cov['explanation'] = self.explanation
        cov['samples'] = self.samples or [{'note': 'none'}]
        cov['exhaustive'] = bool(self.exhaustive)
        if self.notes:
            cov['notes'] = self.notes
        if found:
            cov['known_findings_seen'] = sorted(found)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level,
                  coverage=jsonable(cov), assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 2), violations=len(real))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        tmp = os.path.join(VERIF, 'evidence', f'.{self.pid}.json.tmp')
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True)
            f.write('\n')
        os.replace(tmp, os.path.join(VERIF, 'evidence', f'{self.pid}.json'))
        brief = {k: v for k, v in cov.items() if isinstance(v, (int, bool))}
        print(f'{self.pid} {self.tier}: {brief} wall={ev["wall_s"]}s')
        for n in self.notes:
            print('NOTE', n)
        for k, what in known:
            if k in found:
                print(f'KNOWN-FINDING: property={self.pid} {what}')
        if real:
            rdir = os.path.join(VERIF, 'replays')
            os.makedirs(rdir, exist_ok=True)
            for i, (key, desc, case) in enumerate(real):
                path = os.path.join(rdir, f'{self.pid}-{i}.json')
                with open(path, 'w') as f:
                    json.dump(dict(property=self.pid, key=key, desc=desc, case=case), f, indent=1)
                print(f'--- {key}\n{desc}\n    case={json.dumps(case)[:1500]}')
                print(f'VIOLATION property={self.pid} replay={path}')
            return 1
        return 0


def close(a, b, rtol=1e-9, atol=1e-12):
    import numpy as np
    a = np.asarray(a); b = np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind in 'fc' or b.dtype.kind in 'fc':
        return bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))
    return bool(np.all(a == b))


# ---------------------------------------------------------------- fork-at-choice exploration
class NeedStateless(Exception):
    pass


class ForkChooser(Chooser):
    """At a choice point forks one copy of the process per alternative, so that
    the common prefix of two executions is executed only once."""
    def __init__(self, bound, max_exec, counter, horizon=5000):
        super().__init__((), bound, horizon)
        self.max_exec, self.counter = max_exec, counter
        self.is_child = False
        self.can_fork = True

    def choose(self, n, label='', costs=None):
        if n <= 0:
            raise MCError('choice among nothing')
        if len(self.points) >= self.horizon:
            raise Horizon(f'more than {self.horizon} choice points')
        if n == 1:
            return 0
        if not self.can_fork:
            raise NeedStateless
        costs = tuple(costs) if costs is not None else (0,) * n
        for alt in range(1, n):
            if self.bound is not None and self.spent + costs[alt] > self.bound:
                continue
            if self.max_exec is not None and struct.unpack('<q', self.counter[:8])[0] >= self.max_exec:
                self.counter[8:9] = b'\1'
                break
            sys.stdout.flush(); sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                self.is_child = True
                self.points.append((n, alt, costs, label))
                self.spent += costs[alt]
                return alt
            _, st = os.waitpid(pid, 0)
            if st != 0:
                raise MCError(f'explorer child died with status {st}')
        self.points.append((n, 0, costs, label))
        self.spent += costs[0]
        return 0


def explore_fork(run, bound=None, max_exec=None):
    """All executions of run(chooser); returns (list of (choices, result), capped).
    run must return a picklable result and must not leave threads or children."""
    import tempfile, mmap
    counter = mmap.mmap(-1, 16)
    fd, path = tempfile.mkstemp(prefix='mcfork')
    os.close(fd)
    ch = ForkChooser(bound, max_exec, counter)
    try:
        need = False
        try:
            res = run(ch)
        except NeedStateless:
            res, need = None, True
        try:
            b = pickle.dumps((ch.choices, need, res), 4)
            fd = os.open(path, os.O_WRONLY | os.O_APPEND)
            data = struct.pack('<Q', len(b)) + b
            while data:
                k = os.write(fd, data)
                data = data[k:]
            os.close(fd)
            counter[:8] = struct.pack('<q', struct.unpack('<q', counter[:8])[0] + 1)
        except BaseException:
            if ch.is_child:
                traceback.print_exc()
                os._exit(7)
            raise
        if ch.is_child:
            os._exit(0)
    except BaseException:
        if ch.is_child:
            traceback.print_exc()
            os._exit(8)
        os.unlink(path)
        raise
    out, need = [], False
    with open(path, 'rb') as f:
        while True:
            hd = f.read(8)
            if not hd:
                break
            c, nd, r = pickle.loads(f.read(struct.unpack('<Q', hd)[0]))
            need = need or nd
            out.append((c, r))
    os.unlink(path)
    capped = counter[8:9] == b'\1'
    if need:
        out, capped = [], False
        for ch, res in explore_choices(run, bound=bound, max_exec=max_exec):
            if ch is None:
                capped = True
                break
            out.append((ch.choices, res))
    return out, capped
