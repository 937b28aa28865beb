"""C03: a failing worker never causes a hang or a silently wrong result."""
import numpy as np
from mc import core, fix, fakemp
from checks import c01


def run_case(rec, case):
    case = c01.norm_case(dict(case))
    with core.quiet():
        ref, reftab = c01.single(case)
    mp = case['mp']

    def one(ch):
        w = fakemp.World(ch, plan={case['proc']: dict(at=case['at'], how=case['how'], exc=case.get('exc'))})
        try:
            with w.active(), core.quiet():
                dt, tm = c01.build(case, mp)
                try:
                    a, t = c01.fit(dt, tm, mp, case)
                except (core.Violation, core.MCError, core.NeedStateless):
                    raise
                except Exception as e:
                    # reported.  The interpreter joins its workers at exit: none may be left stuck
                    stuck = [p.index for p in w.procs if not p.daemon and not p.seen_exit and (not p.done or p._undelivered())]
                    if stuck:
                        return w.delivered, ('exit-hang', f'error {e!r} reported, but workers {stuck} still have unread messages and were '
                                             'not terminated: the parent hangs when it exits'), 'error'
                    return w.delivered, None, 'error:' + type(e).__name__
            fix.compare_scan(a, ref, 'mp')
            fix.compare_tables(t, reftab, 'mp')
            return w.delivered, None, 'complete'
        except (core.MCError, core.NeedStateless):
            raise
        except core.Violation as e:
            return w.delivered, (e.key, e.desc), 'violation'
        except core.Horizon as e:
            return w.delivered, ('livelock', str(e)), 'violation'
        except Exception as e:
            return w.delivered, core.describe_exc(e), 'violation'
    if case.get('choices') is not None:
        out, capped = [(case['choices'], one(core.Chooser(case['choices'])))], False
    else:
        out, capped = core.explore_fork(one, bound=case.get('bound', 1), max_exec=case.get('max', 3000))
    if capped:
        rec.note('cap reached in ' + repr(case))
    for choices, (delivered, err, kind) in out:
        rec.ev()
        key = (case['mp'], case['templates'], tuple(case['targets']), case['proc'], case['at'], case['how'], case.get('exc'), tuple(choices))
        rec.nontrivial(*key)
        rec.count('runs_ending_' + kind.split(':')[0])
        if err:
            rec.violation(err[0], f'{err[1]}\nworker {case["proc"]} fails ({case["how"]} {case.get("exc", "")}) at message or call {case["at"]}; schedule {choices}',
                          dict(case, choices=choices))
            return
    rec.sample(dict(case=case, schedules=len(out), endings=sorted({o[1][2] for o in out})), 4)


def count_workers(case):
    """Fault-free run: how many workers start, and how many messages each puts."""
    w = fakemp.World(core.Chooser())
    with w.active(), core.quiet():
        dt, tm = c01.build(case, case['mp'])
        c01.fit(dt, tm, case['mp'], case)
    n = {}
    for p, q in w.delivered:
        n[p] = n.get(p, 0) + 1
    return [n.get(i, 0) for i in range(len(w.procs))]


EXC = ['ValueError', 'RuntimeError', 'LinAlgError', 'KeyError', 'MemoryError', 'NotImplementedError', 'AssertionError', 'FloatingPointError', 'IndexError', 'OSError',
       'KeyboardInterrupt', 'SystemExit', 'GeneratorExit', 'StopIteration', 'EOFError', 'ArithmeticError']


def cases(ck):
    S1, S2, S3, SM = c01.S1, c01.S2, c01.S3, c01.SM
    base = [([S1], 2, 'G'), ([S1, S2], 2, 'G'), ([S2, S1, S1], 2, 'G'), ([S1, S1], 2, 'GS')]
    if ck.thorough:
        base += [([S1, S2, S1], 3, 'G'), ([S1, SM], 3, 'G'), ([S2, S1, S1, S3], 3, 'G'), ([S2, S1, S1], 3, 'GS')]
    out = []
    exc = EXC if ck.thorough else EXC[:5]
    for ts, mp, tn in base:
        c = dict(targets=ts, mp=mp, templates=tn, ids='int')
        for i, n in enumerate(count_workers(c)):
            # (exit with status 0 without results: only noticed when every worker has finished)
            for how in ('raise', 'die', 'lose', 'late') + (('quit',) if len(ts) == 1 else ()):
                for at in range(-1 if how in ('raise', 'quit', 'die') else 0, n):
                    out.append(dict(c, proc=i, at=at, how=how, bound=1 if (len(ts) < 3 and tn == 'G') or ck.thorough else 0))
            # an error in any call made by the worker itself
            for at in range(4 if not ck.thorough else 8):
                for e in exc:
                    out.append(dict(c, proc=i, at=at, how='call', exc=e, bound=0))
    return out


def make():
    return core.Check('C03', 'fault_enumeration',
        rule='every worker of every phase x failure before/at/after each of its messages x (exception, exit with status 0, kill, kill losing the message, death after delivery), and each of '
             'its calls x type of exception, x all message delivery orders with at most one early timeout',
        assumptions=['a worker killed in the middle of writing one message to its pipe is not modelled'],
        explanation='real code, really forked workers, controlled queues; a run must end by raising or by returning the complete reference result')


def run(ck):
    c01.warm()
    core.pmap(cases(ck), run_case, ck, timeout=120, chunk=1)


def replay(rec, case):
    run_case(rec, case)
