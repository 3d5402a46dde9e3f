"""Spec ParExec.tla: a monitor of who is inside which callback and what became of each job, and the locking algorithm as a
model: TLC explores every interleaving (all job and thread counts up to the bound), shows that the monitor accepts every
behaviour, that provider, worker provider and collector are never shared, that nothing deadlocks and that it terminates with
every job collected. The real parallel_execute runs under a scheduler (interposed pthread_mutex_lock/unlock, create, join)
that decides at every lock, unlock and callback entry/exit which thread goes on; schedules: generated from the model by TLC,
every schedule with at most k preemptions on small configurations, and random ones (up to 6 threads, 7 jobs, thread counts
<= 1 included). Every recorded execution must be accepted by the monitor; a deadlock, crash or hang is a violation.
Threads that enter LOCK blocks and leave them at the end, by continue or by an exception run under the same scheduler:
blocks never overlap, each runs once, and the mutex is free afterwards. range_job_provider must cut the range into the defined pieces and add_result_collector sum up all results."""
TECH = 'TLA+ spec ParExec.tla (all interleavings, safety and termination, by TLC); executions of the real code under TLC-generated, preemption-bounded and random schedules validated against its monitor'
NOTE = 'Scheduling points are the pthread mutex operations, thread creation/join and the callbacks: a data race inside straight-line code between them is not explored.'
from vf import CheckError
import json
K = 'CONSTANTS\nMaxJ = 0\nMaxT = 0\n'
def split(evs):
    hs = []
    for e in evs:
        if e['op'] in ('start', 'lstart'):
            hs.append([])
        hs[-1].append(e)
    return hs
def run(c):
    ex = c.pool.submit(c.build, 'parexec', libs=['-ldl'])
    M = 'SPECIFICATION Spec\nINVARIANT Accepted\nINVARIANT Exclusive\nINVARIANT Once\nINVARIANT NeverStuck\nCHECK_DEADLOCK FALSE\nCONSTANTS\nMaxJ = %d\nMaxT = %d\n'
    mc = [c.model_async('ParExec', 'PROPERTY Terminates\n' + M % (3, 2), workers='2')]
    mc.append(c.model_async('ParExec', M % c.budget((2, 3), (4, 3)), workers='2', name='ParExecMC3'))
    s = c.seed * 100
    hs = []
    for (j, t) in c.budget([(2, 2), (4, 3)], [(2, 2), (4, 3), (6, 4), (8, 5)]):
        g = c.generate('ParExec', 'CONSTANTS\nMaxJ = %d\nMaxT = %d\n' % (j, t), c.budget(60, 1500), c.budget(60, 110), next='GenNext', nproc=1)
        hs += [dict(n=h[0]['n'], th=h[0]['th'], sched=[e['t'] for e in h[1:] if e['op'] != 'idle' and e['t'] > 0]) for h in map(dedup, g) if h]
    exe = ex.result()
    dfs = [(1, 2, 3), (2, 2, 2), (2, 3, 1), (3, 2, 1), (0, 3, 2), (1, 1, 1)]
    if c.thorough:
        dfs += [(2, 2, 3), (2, 3, 2), (3, 3, 2), (4, 2, 2), (3, 4, 1)]
    runs = [(['rand', s + i, c.budget(150, 4000)], None) for i in range(3)]
    runs += [(['dfs', s, c.budget(1500, 40000), j, t, k], None) for (j, t, k) in dfs]
    runs += [(['lock', s + 9, c.budget(150, 3000)], None)]
    runs += [(['guided', s, 0], ''.join(json.dumps(h) + '\n' for h in hs))]
    f = [(a, c.pool.submit(c.run_driver, exe, a, stdin=i, timeout=c.budget(120, 800))) for a, i in runs]
    logs = []
    for a, r in f:
        rc, evs, err = r.result()
        if rc != 0:
            hist = split(evs)[-1] if evs else []
            c.violation(dict(kind='the implementation crashed, deadlocked or hung', spec='ParExec', exit=str(rc), args=list(map(str, a)), stderr=err[-2500:], history=hist))
        logs += split(evs)
    seen, uniq = set(), []
    for h in logs:
        k = json.dumps(h)
        if k not in seen:
            seen.add(k)
            uniq.append(h)
    c.extra['distinct_executions'] = len(uniq)
    if not uniq:
        raise CheckError('no executions recorded')
    c.validate('ParExec', uniq, K, what='executions')
    rc, evs, err = c.run_driver(exe, ['range', s, c.budget(300, 5000)])
    if rc != 0:
        c.violation(dict(kind='the implementation crashed or hung', spec='ParExec', exit=str(rc), stderr=err[-2500:], history=evs[-1:]))
    c.validate('ParExec', [[e] for e in evs], K, what='ranges')
    for m in mc:
        m.result()
def dedup(h):
    # quiet steps of the model repeat the last event
    r = []
    for e in h:
        if not r or e != r[-1]:
            r.append(e)
    return r
