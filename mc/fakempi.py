"""Simulated MPI: every rank is a forked process, all communication goes
through a scheduler that owns message order, completion semantics and rank
interleaving.

run_ranks(n, fn, chooser, mode) -> list of per-rank results.
mode: 'eager'  sends complete at once (buffered);
      'sync'   sends complete only when the matching receive is posted
               (the MPI standard allows both).
Collectives complete when every rank of the communicator has entered; in eager
mode the root of bcast/scatter and the non-roots of gather/reduce continue at
once.  Which runnable rank moves next is a choice point (costs a deviation
unless it is the default order), and so is the message taken by a wildcard
receive.
"""
import os, sys, pickle, socket, traceback, signal, time
from . import core
from .fakemp import _send, _recv

ANY = -1
# mpi4py constants
ANY_SOURCE, ANY_TAG, PROC_NULL, UNDEFINED = -2, -1, -3, -32766


class RankError(core.Violation):
    pass


class MPIAbort(SystemExit):
    pass


class Request(object):
    def __init__(self, comm, rid, kind):
        self.comm, self.rid, self.kind = comm, rid, kind
        self.doneval = None
        self.completed = False

    def wait(self, status=None):
        if not self.completed:
            self.doneval = self.comm._rpc('wait', self.rid)
            self.completed = True
        return pickle.loads(self.doneval) if self.doneval is not None else None
    Wait = wait

    def test(self, status=None):
        if self.completed:
            return True, (pickle.loads(self.doneval) if self.doneval is not None else None)
        ok, val = self.comm._rpc('test', self.rid)
        if ok:
            self.completed, self.doneval = True, val
            return True, (pickle.loads(val) if val is not None else None)
        return False, None

    @staticmethod
    def waitall(reqs):
        return [r.wait() for r in reqs]


class FakeComm(object):
    """The mpi4py surface the code could reasonably use."""
    def __init__(self, sock, cid, rank, size):
        self._sock, self._cid = sock, cid
        self.rank, self.size = rank, size

    def Get_rank(self): return self.rank
    def Get_size(self): return self.size

    def _rpc(self, op, *a):
        _send(self._sock, (op, self._cid) + a)
        m = _recv(self._sock)
        if m[0] == 'err':
            raise RuntimeError(m[1])
        return m[1]

    # point to point
    def send(self, obj, dest, tag=0):
        self._rpc('send', dest, tag, pickle.dumps(obj, 4))
    def ssend(self, obj, dest, tag=0):
        self._rpc('ssend', dest, tag, pickle.dumps(obj, 4))
    bsend = send
    def isend(self, obj, dest, tag=0):
        return Request(self, self._rpc('isend', dest, tag, pickle.dumps(obj, 4)), 'send')
    def recv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        return pickle.loads(self._rpc('recv', source, tag))
    def irecv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG):
        return Request(self, self._rpc('irecv', source, tag), 'recv')
    def sendrecv(self, sendobj, dest, sendtag=0, recvbuf=None, source=ANY_SOURCE, recvtag=ANY_TAG, status=None):
        r = self.isend(sendobj, dest, sendtag)
        v = self.recv(source=source, tag=recvtag)
        r.wait()
        return v
    # collectives
    def barrier(self):
        self._rpc('coll', 'barrier', 0, None)
    Barrier = barrier
    def bcast(self, obj=None, root=0):
        v = self._rpc('coll', 'bcast', root, pickle.dumps(obj, 4) if self.rank == root else None)
        return obj if self.rank == root else pickle.loads(v)
    def scatter(self, sendobj=None, root=0):
        data = None
        if self.rank == root:
            sendobj = list(sendobj)
            if len(sendobj) != self.size:
                raise ValueError(f'expecting {self.size} items, got {len(sendobj)}')
            data = [pickle.dumps(x, 4) for x in sendobj]
        return pickle.loads(self._rpc('coll', 'scatter', root, data))
    def gather(self, sendobj, root=0):
        v = self._rpc('coll', 'gather', root, pickle.dumps(sendobj, 4))
        return [pickle.loads(x) for x in v] if self.rank == root else None
    def allgather(self, sendobj):
        return [pickle.loads(x) for x in self._rpc('coll', 'allgather', 0, pickle.dumps(sendobj, 4))]
    def alltoall(self, sendobj):
        return [pickle.loads(x) for x in self._rpc('coll', 'alltoall', 0, [pickle.dumps(x, 4) for x in sendobj])]
    def allreduce(self, sendobj, op=None):
        vals = self.allgather(sendobj)
        return _reduce(vals, op)
    def reduce(self, sendobj, op=None, root=0):
        vals = self.gather(sendobj, root)
        return _reduce(vals, op) if self.rank == root else None
    def Bcast(self, buf, root=0):
        import numpy as np
        v = self.bcast(np.array(buf) if self.rank == root else None, root)
        if self.rank != root:
            buf[...] = v
    def Split(self, color=0, key=0):
        cid, rank, size = self._rpc('coll', 'split', 0, pickle.dumps((color, key), 4))
        if cid is None:
            return None
        return FakeComm(self._sock, cid, rank, size)
    def Dup(self):
        return self.Split(0, self.rank)
    dup = Dup
    def Free(self): pass
    def Abort(self, errorcode=0):
        try:
            _send(self._sock, ('abort', self._cid, errorcode))
        finally:
            os._exit(0)


def _reduce(vals, op):
    name = getattr(op, 'name', op)
    if name in (None, 'SUM', 'sum'):
        out = vals[0]
        for v in vals[1:]:
            out = out + v
        return out
    if callable(op):
        out = vals[0]
        for v in vals[1:]:
            out = op(out, v)
        return out
    f = dict(MAX=max, MIN=min)[str(name).upper()]
    return f(vals)


class Sched(object):
    def __init__(self, n, chooser, mode='eager', order='asc', timeout=120, batch=False):
        self.n, self.ch, self.mode, self.order, self.timeout = n, chooser, mode, order, timeout
        self.state = ['run'] * n          # run | blocked | done | aborted
        self.op = [None] * n
        self.socks = [None] * n
        self.pids = [None] * n
        self.result = [None] * n
        self.comms = {0: list(range(n))}
        self.coll = {}                    # (cid, seq) -> dict
        self.seq = [dict() for _ in range(n)]
        self.msgs = []                    # posted sends: dict(cid, src, dst, tag, data, done)
        self.reqs = {}
        self.nreq = 0
        self.pending_reply = [None] * n   # reply ready, rank may move on
        self.trace = []
        self.rr = 0
        self.aborted = None
        self.ops = 0

    # -- lifecycle
    def launch(self, fn):
        for r in range(self.n):
            a, b = socket.socketpair()
            sys.stdout.flush(); sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                try:
                    a.close()
                    for s in self.socks:
                        if s is not None:
                            s.close()
                    dn = os.open(os.devnull, os.O_WRONLY)
                    os.dup2(dn, 1)
                    if not os.environ.get('MC_DEBUG'):
                        os.dup2(dn, 2)
                    _recv(b)              # go
                    try:
                        v = ('ok', fn(FakeComm(b, 0, r, self.n)))
                    except SystemExit as e:
                        v = ('exit', e.code if e.code is not None else 0)
                    except core.Violation as e:
                        v = ('violation', (e.key, e.desc))
                    except BaseException as e:
                        v = ('exc', core.describe_exc(e))
                    try:
                        _send(b, ('done', 0, v))
                    except Exception:
                        _send(b, ('done', 0, ('exc', ('unpicklable', repr(v)[:300]))))
                finally:
                    os._exit(0)
            b.close()
            self.socks[r], self.pids[r] = a, pid
            self.pending_reply[r] = ('ok', None)

    def kill(self):
        for r in range(self.n):
            if self.pids[r]:
                try: os.kill(self.pids[r], signal.SIGKILL)
                except OSError: pass
                try: os.waitpid(self.pids[r], 0)
                except ChildProcessError: pass
                self.pids[r] = None
            if self.socks[r] is not None:
                self.socks[r].close()
                self.socks[r] = None

    def loop(self):
        while True:
            if self.aborted is not None:
                return
            runnable = [r for r in range(self.n) if self.pending_reply[r] is not None]
            if not runnable:
                if all(s in ('done', 'aborted') for s in self.state):
                    return
                if self.match():
                    continue
                bad = [(r, self.result[r]) for r in range(self.n)
                       if self.result[r] is not None and self.result[r][0] in ('exc', 'violation')]
                stuck = {r: self.describe(r) for r in range(self.n) if self.state[r] == 'blocked'}
                if bad:
                    raise RankError(f'rank-exception:{bad[0][1][1][0]}', f'rank {bad[0][0]} failed while ranks {stuck} wait:\n{bad[0][1][1][1]}')
                raise core.Violation('mpi-deadlock', f'no rank can proceed ({self.mode} sends): {stuck}; finished: '
                                     f'{[r for r in range(self.n) if self.state[r] == "done"]}')
            if self.order == 'desc':
                runnable = runnable[::-1]
            elif self.order == 'rr':
                runnable = sorted(runnable, key=lambda r: (r - self.rr) % self.n)
            k = self.ch.choose(len(runnable), 'sched', costs=(0,) + (1,) * (len(runnable) - 1)) if self.order == 'explore' else 0
            r = runnable[k]
            self.rr = (r + 1) % self.n
            self.step(r)

    def step(self, r):
        rep = self.pending_reply[r]
        self.pending_reply[r] = None
        self.state[r] = 'run'
        _send(self.socks[r], rep)
        try:
            m = _recv(self.socks[r], self.timeout)
        except TimeoutError:
            raise core.Violation('mpi-rank-hang', f'rank {r} computes for more than {self.timeout} s')
        except EOFError:
            raise core.Violation('mpi-rank-died', f'rank {r} died')
        self.ops += 1
        op = m[0]
        if op == 'done':
            self.state[r] = 'done'
            self.result[r] = m[2]
            return
        if op == 'abort':
            self.aborted = (r, m[2])
            self.state[r] = 'aborted'
            return
        self.state[r] = 'blocked'
        self.op[r] = m
        self.handle(r)

    def reply(self, r, v):
        self.op[r] = None
        self.state[r] = 'run'
        self.pending_reply[r] = ('ok', v)

    def describe(self, r):
        m = self.op[r]
        if m is None:
            return '?'
        if m[0] == 'coll':
            return f'{m[2]}(root={m[3]})'
        if m[0] in ('send', 'ssend', 'isend'):
            return f'{m[0]}(dest={m[2]})'
        if m[0] == 'recv':
            return f'recv(source={m[2]})'
        return m[0]

    # -- operations
    def handle(self, r):
        m = self.op[r]
        op, cid = m[0], m[1]
        members = self.comms[cid]
        me = members.index(r)
        if op in ('send', 'ssend', 'isend'):
            dst = m[2]
            if not (0 <= dst < len(members)):
                self.pending_reply[r] = ('err', f'invalid rank {dst}')
                return
            msg = dict(cid=cid, src=me, dst=dst, tag=m[3], data=m[4], owner=r, taken=False, req=None)
            self.msgs.append(msg)
            if op == 'isend':
                self.nreq += 1
                msg['req'] = self.nreq
                self.reqs[self.nreq] = dict(kind='send', msg=msg)
                self.reply(r, self.nreq)
            elif op == 'send' and self.mode == 'eager':
                self.reply(r, None)
        elif op == 'irecv':
            self.nreq += 1
            self.reqs[self.nreq] = dict(kind='recv', src=m[2], tag=m[3], me=me, cid=cid, msg=None)
            self.reply(r, self.nreq)
        elif op == 'test':
            q = self.reqs[m[2]]
            self.progress_req(q)
            if self.req_done(q):
                self.reply(r, (True, q['msg']['data'] if q['kind'] == 'recv' else None))
            else:
                self.reply(r, (False, None))
        elif op == 'coll':
            k = self.seq[r].get(cid, 0)
            self.seq[r][cid] = k + 1
            c = self.coll.setdefault((cid, k), dict(kind=m[2], root=m[3], data={}, waiting={}))
            if c['kind'] != m[2] or c['root'] != m[3]:
                raise core.Violation('mpi-collective-mismatch',
                    f'rank {r} calls {m[2]}(root={m[3]}) where another rank calls {c["kind"]}(root={c["root"]}) as collective number {k}')
            c['data'][me] = m[4]
            c['waiting'][me] = r
            self.coll_progress(cid, k)
        self.match_once(r)

    def coll_progress(self, cid, k):
        c = self.coll[(cid, k)]
        members = self.comms[cid]
        n = len(members)
        kind, root = c['kind'], c['root']
        full = len(c['data']) == n
        eager = self.mode == 'eager'
        if kind in ('bcast', 'scatter'):
            if eager and root in c['data']:
                for me in list(c['waiting']):
                    v = None if me == root and kind == 'bcast' else (c['data'][root] if kind == 'bcast' else c['data'][root][me])
                    self.reply(c['waiting'].pop(me), v)
            elif not eager and full:
                for me in list(c['waiting']):
                    v = None if me == root and kind == 'bcast' else (c['data'][root] if kind == 'bcast' else c['data'][root][me])
                    self.reply(c['waiting'].pop(me), v)
        elif kind == 'gather':
            if eager:
                for me in list(c['waiting']):
                    if me != root:
                        self.reply(c['waiting'].pop(me), None)
            if full:
                for me in list(c['waiting']):
                    self.reply(c['waiting'].pop(me), [c['data'][i] for i in range(n)] if me == root else None)
        elif full:
            if kind == 'split':
                vals = {me: pickle.loads(d) for me, d in c['data'].items()}
                colors = sorted({v[0] for v in vals.values() if v[0] is not None and v[0] != UNDEFINED})
                out = {me: (None, None, None) for me in vals}
                for col in colors:
                    ms = sorted([me for me in vals if vals[me][0] == col], key=lambda me: (vals[me][1], me))
                    ncid = max(self.comms) + 1
                    self.comms[ncid] = [members[me] for me in ms]
                    for i, me in enumerate(ms):
                        out[me] = (ncid, i, len(ms))
            for me in list(c['waiting']):
                if kind == 'barrier': v = None
                elif kind == 'allgather': v = [c['data'][i] for i in range(n)]
                elif kind == 'alltoall': v = [c['data'][i][me] for i in range(n)]
                elif kind == 'split': v = out[me]
                self.reply(c['waiting'].pop(me), v)

    def matching(self, cid, me, src, tag):
        """First untaken message per source (non-overtaking)."""
        seen, out = set(), []
        for msg in self.msgs:
            if msg['taken'] or msg['cid'] != cid or msg['dst'] != me:
                continue
            if src not in (ANY_SOURCE, None) and src >= 0 and msg['src'] != src:
                continue
            if tag not in (ANY_TAG, None) and tag >= 0 and msg['tag'] != tag:
                continue
            if msg['src'] in seen:
                continue
            seen.add(msg['src'])
            out.append(msg)
        return out

    def take(self, msg):
        msg['taken'] = True
        self.msgs.remove(msg)
        r = msg['owner']
        o = self.op[r]
        if msg['req'] is None and self.state[r] == 'blocked' and o is not None and o[0] in ('send', 'ssend') and self.pending_reply[r] is None \
           and o[4] is msg['data']:
            self.reply(r, None)
        return msg['data']

    def progress_req(self, q):
        if q['kind'] == 'recv' and q['msg'] is None:
            c = self.matching(q['cid'], q['me'], q['src'], q['tag'])
            if c:
                q['msg'] = c[self.ch.choose(len(c), 'wildcard')]
                self.take(q['msg'])

    def req_done(self, q):
        if q['kind'] == 'recv':
            return q['msg'] is not None
        return q['msg']['taken'] or self.mode == 'eager'

    def match_once(self, _):
        for r in range(self.n):
            m = self.op[r]
            if self.state[r] != 'blocked' or m is None or self.pending_reply[r] is not None:
                continue
            if m[0] == 'wait':
                q = self.reqs[m[2]]
                self.progress_req(q)
                if self.req_done(q):
                    self.reply(r, q['msg']['data'] if q['kind'] == 'recv' else None)
            elif m[0] == 'recv':
                src = m[2]
                members = self.comms[m[1]]
                c = self.matching(m[1], members.index(r), src, m[3])
                if c and (src is not None and src >= 0):
                    self.reply(r, self.take(c[0]))

    def match(self):
        """Nothing runnable: complete wildcard receives (all candidates posted)."""
        any_ = False
        self.match_once(None)
        if any(p is not None for p in self.pending_reply):
            return True
        for r in range(self.n):
            m = self.op[r]
            if self.state[r] == 'blocked' and m is not None and m[0] == 'recv':
                members = self.comms[m[1]]
                c = self.matching(m[1], members.index(r), m[2], m[3])
                if c:
                    self.reply(r, self.take(c[self.ch.choose(len(c), 'wildcard')]))
                    return True
        return any_


def run_ranks(n, fn, chooser=None, mode='eager', order='asc', timeout=120, allow_exc=False):
    """Returns (results, sched).  results[r] = ('ok', value) | ('exit', code) | ('exc', (key, text))."""
    ch = chooser or core.Chooser()
    s = Sched(n, ch, mode, order, timeout)
    try:
        s.launch(fn)
        s.loop()
    finally:
        s.kill()
    if s.aborted is None and not allow_exc:
        for r, v in enumerate(s.result):
            if v[0] == 'exc':
                raise RankError(f'rank-exception:{v[1][0]}', f'rank {r} of {n}: {v[1][1]}')
            if v[0] == 'violation':
                raise core.Violation(*v[1])
        left = [m for m in s.msgs if not m['taken']]
        if left:
            raise core.Violation('mpi-unreceived', f'{len(left)} messages were never received: '
                                 f'{[(m["src"], m["dst"]) for m in left][:5]}')
    return s.result, s
