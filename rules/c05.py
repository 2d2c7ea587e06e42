"""Lock discipline of shared data.  For every member listed in rules/locktab.py with its mutex (derived from the code: members that belong to
a class with a mutex and are used by more than one thread), every access - or, where readers tolerate a stale value, every modification - is
an obligation: the mutex must be in the lock set of that point, over all call paths.  In addition every wait on a condition variable must be
made with the mutex held that is handed to the wait."""
from common import *
from locktab import *

LEVEL = 'other'
TECHNIQUE = 'interprocedural lock-set dataflow over scoped guards'
NOTE = ('Objects of one class share the name of their mutex (an access to object A under the mutex of object B of the same class is not noticed); '
        'construction, destruction and the start-up functions listed in rules/locktab.py are exempt.')
ASSUMPTIONS = ['threads start in overrides of Thread::Run; nothing runs concurrently with the start-up functions listed in rules/locktab.py']


# timed waits long enough for a missed wake-up to matter (the other timed waits poll)
LONG = {'ServiceCoordinator'}


def run(ctx):
    P = ctx.P; L = model(ctx)
    k, seen = check_fields(ctx, FIELDS, 'unlocked')
    ctx.floor('accesses to protected data', k, 100)
    ctx.count('protected members', len(seen))
    n = 0
    start = startup_entries(ctx)
    for f in P.daemon_fns():
        if not f.B or start.get(f.u) is None: continue
        for i in f.calls():
            c = f.N[i]
            if c['k'] == 'call' and c.get('cl') == 'ConditionVar' and lastname(c).startswith('Wait') and c['a']:
                l = L.mutex(f, c['a'][0])
                if not l: continue
                n += 1
                if l not in start[f.u] | L.snap[f.u].get(i, (frozenset(), frozenset()))[0]:
                    ctx.violation('wait', f.loc(i), '%s waits on a condition with %s::%s, which is not locked there' % ((f.n,) + l), '%s %s' % (f.n, l[1]))
    ctx.floor('waits on condition variables', n, 4)
    wakeups(ctx, start)


def wakeups(ctx, start):
    """a thread that waits for a predicate sees every change: what the predicate reads changes, and waiters are woken, with the mutex held"""
    P = ctx.P; L = model(ctx); conds = {}; preds = {}
    for f in P.daemon_fns():
        if not f.B or start.get(f.u) is None: continue
        for i in f.calls():
            c = f.N[i]
            if c['k'] != 'call' or c.get('cl') != 'ConditionVar' or not lastname(c).startswith('Wait'): continue
            if lastname(c) != 'Wait' and f.cl not in LONG: continue
            l = L.mutex(f, c['a'][0]); o = f.N[c['o']] if c.get('o', -1) >= 0 else {}
            lam = next((P.lam_of(f, x) for a in c['a'][1:] for x in f.subtree(a) if P.lam_of(f, x)), None)
            if not l or o.get('k') != 'mem' or not lam: continue
            conds.setdefault((o['cl'], o['m']), set()).add(l)
            for j in lam.reach_nodes():
                m = lam.N[j]
                if m['k'] == 'mem' and m['cl'] in P.records: preds.setdefault((m['cl'], m['m']), (l, 'w', f))
    n = 0
    for f in P.daemon_fns():
        if not f.B or start.get(f.u) is None: continue
        for i in f.calls():
            c = f.N[i]
            if c['k'] != 'call' or c.get('cl') != 'ConditionVar' or not lastname(c).startswith('Notify') or c.get('o', -1) < 0: continue
            o = f.N[c['o']]
            ls = conds.get((o.get('cl'), o.get('m')))
            if not ls: continue
            n += 1
            h = start[f.u] | L.snap[f.u].get(i, (frozenset(), frozenset()))[0]
            # or taken earlier in the function on the way to the notification
            dom = {x for (l, j) in taken(L, f) if dominates(f, j, i) for x in [l]}
            for l in ls - h - dom:
                ctx.violation('notify', f.loc(i), '%s wakes the threads that wait on %s::%s without having locked %s::%s; a thread about to wait misses the change' % ((f.n, o['cl'], o['m']) + l), '%s %s' % (f.n, o['m']))
    ctx.floor('notifications', n, 5)
    # what the waiting function itself changes before it waits cannot be missed by it
    fields = {k: v[:2] for k, v in preds.items() if k not in FIELDS and k[0] != 'Thread'}
    waiters = {v[2].u for v in preds.values()}
    k, seen = check_fields(ctx, fields, 'predicate', waiters)
    ctx.count('changes of what waiting threads test', k)


def taken(L, f):
    return [(a[1], a[0]) for a in L.acq.get(f.u) or ()]


def dominates(f, j, i):
    """node j is evaluated before node i on every path"""
    bn = f.blocknode(); bj, bi = bn.get(j), bn.get(i)
    if bj is None or bi is None: return False
    if bj[0] == bi[0]: return bj[1] < bi[1]
    bj = bj[0]; bi = bi[0]
    seen = set(); st = [f.entry]
    while st:
        b = st.pop()
        if b == bj or b in seen: continue
        if b == bi: return False
        seen.add(b); st += [x for x in f.B[b]['s'] if x >= 0]
    return True
