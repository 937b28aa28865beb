"""Controlled multiprocessing: real forked workers, controlled message delivery.

`World(chooser, plan)` replaces multiprocessing.Process / Queue / SimpleQueue
while active.  Process.start() really forks; the child runs the real target
to completion (or until it blocks reading a queue), each put being recorded in
order.  The parent's blocking reads are the choice points: which worker's
oldest undelivered message for that queue arrives next, and (when the read has
a timeout) whether it times out first.  Workers share nothing with the parent
after the fork except the queues, so running them eagerly and choosing only
the delivery order covers every real schedule.

Faults: plan maps worker start index -> dict(at=k, how='raise'|'quit'|'die'|'lose'|'late'|'call').
  raise: the k-th put (0-based, counted over all queues) raises in the worker
         (an error in the computation before that message);
  die:   the worker is killed just before its k-th put;
  lose:  the worker is killed just after its k-th put, whose message is lost;
  late:  the worker dies (exit status -9) after its k-th put was delivered.
  call:  the k-th call of a function of the code under test made directly by
         the worker's target function raises the exception `exc`.
"""
import os, sys, pickle, struct, socket, select, traceback, time, signal, contextlib
import multiprocessing as _mp
import queue as _queue
from . import core


class Deadlock(core.Violation):
    def __init__(self, desc):
        super().__init__('deadlock', desc)


class WorkerCrash(BaseException):
    pass


class InjectedFault(RuntimeError):
    pass


def _send(sock, obj):
    b = pickle.dumps(obj, protocol=4)
    sock.sendall(struct.pack('<Q', len(b)) + b)


def _recv(sock, timeout=None):
    def need(k):
        out = bytearray()
        while len(out) < k:
            if timeout is not None:
                r, _, _ = select.select([sock], [], [], timeout)
                if not r:
                    raise TimeoutError
            c = sock.recv(min(k - len(out), 1 << 20))
            if not c:
                raise EOFError
            out += c
        return bytes(out)
    n, = struct.unpack('<Q', need(8))
    return pickle.loads(need(n))


CURRENT = None      # the World in force in this process


class FakeQueue(object):
    def __init__(self, world, maxsize=0):
        self.world = world
        self.qid = world.new_queue(self)
        self.parent_items = []       # put by the parent, for children or itself

    def __getstate__(self):
        return {'qid': self.qid}

    def __setstate__(self, s):
        self.__dict__.update(s)
        self.world = CURRENT

    def put(self, obj, block=True, timeout=None):
        w = CURRENT
        data = pickle.dumps(obj, protocol=4)
        if w.child is not None:
            w.child_put(self.qid, data)
        else:
            self.parent_items.append(data)
            w.pump_blocked()
    put_nowait = put

    def get(self, block=True, timeout=None):
        w = CURRENT
        if w.child is not None:
            return pickle.loads(w.child_get(self.qid, block, timeout))
        return pickle.loads(w.parent_get(self, block, timeout))

    def get_nowait(self):
        return self.get(block=False)

    def empty(self):
        w = CURRENT
        if w.child is not None:
            return True
        return not (self.parent_items or any(p.pending.get(self.qid) for p in w.procs))

    def qsize(self):
        w = CURRENT
        return len(self.parent_items) + sum(len(p.pending.get(self.qid, ())) for p in w.procs)

    def close(self): pass
    def join_thread(self): pass
    def cancel_join_thread(self): pass
    def task_done(self): pass


class FakeProcess(object):
    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        self._target, self._args, self._kwargs = target, args, dict(kwargs or {})
        self.name = name or 'Worker'
        self.daemon = daemon
        self.world = CURRENT
        self.pending = {}        # qid -> list of bytes
        self.started = False
        self.done = False
        self.code = None
        self.seen_exit = False
        self.sock = None
        self.pid = None
        self.blocked = None

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def start(self):
        w = CURRENT
        self.started = True
        self.index = len(w.procs)
        a, b = socket.socketpair()
        sys.stdout.flush(); sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            a.close()
            for p in w.procs:
                if p.sock is not None:
                    p.sock.close()
            w.child = self
            w.child_sock = b
            w.child_puts = 0
            w.fault = w.plan.get(self.index)
            code = 0
            try:
                try:
                    if w.fault and w.fault['how'] == 'call':
                        w.arm_call(sys._getframe())
                    elif w.fault and w.fault.get('at') == -1:
                        w.child_fault(None, None)
                    self.run()
                    sys.setprofile(None)
                    # death after all messages
                    if w.fault and w.fault['how'] == 'late':
                        code = -9
                except SystemExit as e:
                    code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)   # as multiprocessing
                except BaseException:
                    if os.environ.get('MC_DEBUG'):
                        traceback.print_exc()
                    code = 1
                _send(b, ('exit', code))
            finally:
                os._exit(0)
        b.close()
        self.pid = pid
        self.sock = a
        w.procs.append(self)
        w.pump(self)

    # -- liveness as seen by the parent
    def _undelivered(self):
        return any(self.pending.values())

    def _observe_exit(self, forced=False):
        """May the parent see this worker as finished now?  Choice: yes/no."""
        if not self.started:
            return False
        if not self.done:
            return False
        if self.seen_exit:
            return True
        if self._undelivered() and not forced:
            # its messages may or may not have reached the pipe yet
            # (bounded: the parent cannot poll for ever before it finishes)
            CURRENT.ch.can_fork = all(p.done for p in CURRENT.procs)
            if CURRENT.ch.choose(2, f'exit{self.index}', costs=(0, 1)) == 0:
                return False
        self.seen_exit = True
        return True

    def is_alive(self):
        if not self.started:
            return False
        CURRENT.tick()
        return not self._observe_exit()

    @property
    def exitcode(self):
        if not self.started:
            return None
        CURRENT.tick()
        return self.code if self._observe_exit() else None

    @property
    def ident(self):
        return self.pid

    @property
    def sentinel(self):
        return self.sock.fileno()

    def join(self, timeout=None):
        w = CURRENT
        w.tick()
        if not self.started:
            raise AssertionError('can only join a started process')
        if self.done and self._undelivered() and not self.seen_exit:
            if timeout is None:
                raise Deadlock(f'parent joins worker {self.index} while {sum(map(len, self.pending.values()))} of its '
                               f'messages are unread: with messages larger than the pipe this never returns')
            return
        if not self.done:
            if timeout is None:
                raise Deadlock(f'parent joins worker {self.index}, which waits for queue {self.blocked}')
            return
        self.seen_exit = True

    def terminate(self):
        self._kill(-15)

    def kill(self):
        self._kill(-9)

    def _kill(self, code):
        if self.started and not self.seen_exit:
            if not self.done:
                try: os.kill(self.pid, signal.SIGKILL)
                except OSError: pass
                self._reap()
                self.code = code
            self.done = True
            self.seen_exit = True
            self.pending = {}

    def close(self): pass

    def _reap(self):
        if self.pid is not None:
            try: os.waitpid(self.pid, 0)
            except ChildProcessError: pass
            self.pid = None
        if self.sock is not None:
            self.sock.close()
            self.sock = None


class World(object):
    def __init__(self, chooser, plan=None, child_timeout=60, horizon=3000):
        self.ch = chooser
        self.plan = dict(plan or {})
        self.child = None
        self.procs = []
        self.queues = []
        self.child_timeout = child_timeout
        self.ticks = 0
        self.horizon = horizon
        self.delivered = []          # log of (worker, qid)
        self.symmetry = True

    # ---- parent side
    def tick(self):
        self.ticks += 1
        if self.ticks > self.horizon:
            raise Deadlock(f'parent polls for ever ({self.horizon} polls; all workers finished: '
                           f'{all(p.done for p in self.procs)})')

    def new_queue(self, q):
        self.queues.append(q)
        return len(self.queues) - 1

    def pump(self, p):
        """Let worker p run until it exits or blocks."""
        while True:
            try:
                m = _recv(p.sock, self.child_timeout)
            except TimeoutError:
                os.kill(p.pid, signal.SIGKILL)
                p._reap()
                raise core.Violation('worker-hang', f'worker {p.index} neither finished nor sent anything for {self.child_timeout} s')
            except EOFError:
                p._reap()
                p.done = True
                if p.code is None:
                    p.code = -9
                return
            if m[0] == 'put':
                p.pending.setdefault(m[1], []).append(m[2])
            elif m[0] == 'lost':
                pass
            elif m[0] == 'exit':
                p.code = m[1]
                p.done = True
                p._reap()
                return
            elif m[0] == 'get':
                q = self.queues[m[1]]
                if q.parent_items:
                    _send(p.sock, ('item', q.parent_items.pop(0)))
                elif not m[2] or m[3] is not None:
                    _send(p.sock, ('empty', None))
                else:
                    p.blocked = m[1]
                    return

    def pump_blocked(self):
        progress = True
        while progress:
            progress = False
            for qi, q in enumerate(self.queues):
                waiting = [p for p in self.procs if not p.done and p.blocked == qi]
                if q.parent_items and waiting:
                    self.ch.can_fork = False
                    p = waiting[self.ch.choose(len(waiting), f'take{qi}')]
                    p.blocked = None
                    _send(p.sock, ('item', q.parent_items.pop(0)))
                    self.pump(p)
                    progress = True

    def parent_get(self, q, block, timeout):
        self.tick()
        self.ch.can_fork = all(p.done for p in self.procs)
        cand = [p for p in self.procs if p.pending.get(q.qid)]
        must = [p for p in cand if p.seen_exit]      # already flushed to the pipe
        # symmetry: workers whose whole pending lists for this queue are byte-identical
        # (and equally visible as finished) are interchangeable; keep one representative
        seen, reps = set(), []
        for p in cand:
            k = (tuple(p.pending[q.qid]), p.seen_exit, p.done) if self.symmetry else p.index
            if k not in seen:
                seen.add(k)
                reps.append(p)
        cand = reps
        opts = [('from', p) for p in cand]
        costs = [0] * len(opts)
        if q.parent_items:
            opts.append(('own', None)); costs.append(0)
        if (not block or timeout is not None) and not must and not q.parent_items:
            if opts:
                opts.append(('empty', None)); costs.append(1)
            else:
                raise _queue.Empty
        if not opts:
            alive = [p.index for p in self.procs if not p.done]
            raise Deadlock(f'parent waits for ever on queue {q.qid}: no message is pending, '
                           f'workers still blocked: {alive}, exit codes: {[p.code for p in self.procs]}')
        kind, p = opts[self.ch.choose(len(opts), f'get{q.qid}', costs)]
        if kind == 'empty':
            raise _queue.Empty
        if kind == 'own':
            return q.parent_items.pop(0)
        self.delivered.append((p.index, q.qid))
        return p.pending[q.qid].pop(0)

    # ---- child side
    def arm_call(self, base):
        import builtins
        import numpy as np
        f, self.fault = self.fault, None
        exc = np.linalg.LinAlgError if f['exc'] == 'LinAlgError' else getattr(builtins, f['exc'])
        root = os.path.join(core.REPO, 'py', 'redrock') + os.sep
        seen = [0]

        def prof(frame, event, arg):
            if event != 'call' or not frame.f_code.co_filename.startswith(root):
                return
            depth, g = 0, frame
            while g is not None and g is not base:
                depth += g.f_code.co_filename.startswith(root)
                g = g.f_back
            if g is None or depth != 2:
                return
            k, seen[0] = seen[0], seen[0] + 1
            if k == f['at']:
                sys.setprofile(None)
                raise exc('injected error in worker')
        sys.setprofile(prof)

    def child_fault(self, qid, data):
        f = self.fault
        if f['how'] == 'raise':
            self.fault = None
            raise InjectedFault('injected error in worker')
        if f['how'] == 'quit':      # e.g. sys.exit() in a library: status 0, nothing returned
            self.fault = None
            raise SystemExit(0)
        if f['how'] == 'die':
            os._exit(0)
        if f['how'] == 'lose':
            os._exit(0)
        if f['how'] == 'late':
            if data is not None:
                _send(self.child_sock, ('put', qid, data))
            os._exit(0)

    def child_put(self, qid, data):
        k = self.child_puts
        self.child_puts += 1
        f = self.fault
        if f and f['how'] != 'call' and f['at'] == k:
            self.child_fault(qid, data)
        _send(self.child_sock, ('put', qid, data))

    def child_get(self, qid, block, timeout):
        _send(self.child_sock, ('get', qid, block, timeout))
        m = _recv(self.child_sock)
        if m[0] == 'empty':
            raise _queue.Empty
        return m[1]

    # ---- installation
    @contextlib.contextmanager
    def active(self):
        global CURRENT
        saved = {k: getattr(_mp, k) for k in ('Process', 'Queue', 'SimpleQueue', 'JoinableQueue', 'get_context')}
        prev = CURRENT
        CURRENT = self
        mk = lambda *a, **k: FakeQueue(CURRENT)
        _mp.Process = FakeProcess
        _mp.Queue = _mp.SimpleQueue = _mp.JoinableQueue = mk
        orig_ctx = saved['get_context']

        class Ctx(object):
            Process = FakeProcess
            Queue = SimpleQueue = JoinableQueue = staticmethod(mk)
            def __init__(self, m): self._real = orig_ctx(m)
            def __getattr__(self, k): return getattr(self._real, k)
        _mp.get_context = lambda method=None: Ctx(method)
        try:
            yield self
        finally:
            for k, v in saved.items():
                setattr(_mp, k, v)
            CURRENT = prev
            for p in self.procs:
                if p.pid is not None:
                    try: os.kill(p.pid, signal.SIGKILL)
                    except OSError: pass
                    p._reap()
