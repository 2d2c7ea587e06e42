"""Queue lock.  Lock sets (which mutexes are certainly held at a program point, over all call paths from main and every thread) are computed
by a dataflow over scoped guards and a fixpoint over the call graph.  Every operation on the download queue, every access to the lists of
queued and finished items and to the lists of running downloads and jobs, and every modification of the accounting of queued items is an
obligation: DownloadQueue::m_lockMutex must be in the lock set."""
from common import *
from locktab import *

LEVEL = 'other'
TECHNIQUE = 'interprocedural lock-set dataflow over scoped guards'
NOTE = ('Sound for guards in scopes, members and return values; objects of one class share one lock name (there is one queue); '
        'reads of attributes of queued items outside of the lock are not covered, modifications of their accounting are.')
ASSUMPTIONS = ['threads start in overrides of Thread::Run; nothing runs concurrently with the start-up functions listed in rules/locktab.py']
OPS = {'GetQueue', 'GetHistory', 'EditEntry', 'EditList', 'Save', 'SaveChanged', 'HistoryChanged', 'FindNzbInfo', 'FindFileInfo', 'CalcRemainingSize'}


def run(ctx):
    P = ctx.P; L = model(ctx); start = startup_entries(ctx)
    n = 0; parts = 0
    for f in P.daemon_fns():
        if not f.B: continue
        m = start.get(f.u)
        if m is None: continue
        for i in f.calls():
            c = f.N[i]; fn = c.get('fn') or ''
            if c['k'] != 'call' or not fn: continue
            cl, _, name = fn.rpartition('::')
            op = name in OPS and cl and 'DownloadQueue' in P.bases(cl)
            if fn == 'Subject::Notify' and c.get('o', -1) >= 0:
                t = bare(f.typ(c['o']))
                if f.N[c['o']]['k'] == 'this': t = f.cl
                if t.startswith('GuardedPtr<'): t = t[11:-1]
                op = t in P.records and 'DownloadQueue' in P.bases(t)
            if not op and shared_part(P, f, i, name):
                op = True; parts += 1
            if not op: continue
            n += 1
            h = m | L.snap[f.u].get(i, (frozenset(), frozenset()))[0]
            if DQ in h: continue
            why = L.why(f, DQ)
            ctx.violation('unlocked', f.loc(i), '%s is called by %s without the queue lock%s' % (fn, f.n, ', reached through ' + ' <- '.join(why[:6]) if why else ''),
                          '%s in %s' % (fn, f.n))
    ctx.floor('operations on the queue', n, 100)
    ctx.count('parts of post-processed items', parts)
    k, seen = check_fields(ctx, QFIELDS, 'unlocked-data')
    ctx.floor('accesses to data of the queue', k, 60)
    ctx.count('attributes', len(seen))
    guards(ctx)
    ctx.count('functions with lock sets', len(L.snap))


# lists and texts of an item which requests of users change while it is being post-processed
PARTS = ('GetCompletedFiles', 'GetParameters', 'GetScriptStatuses', 'GetFileList', 'GetFinalDir', 'SetFinalDir', 'SetDestDir', 'SetName', 'SetCategory', 'SetDupeKey')


def shared_part(P, f, i, name):
    c = f.N[i]
    if name not in PARTS or c.get('o', -1) < 0: return False
    st = [c['o']]
    while st:
        x = st.pop()
        if f.N[x].get('fn') == 'PostInfo::GetNzbInfo': return True
        st += f.kids(x)
    return False


def guards(ctx):
    """the guard classes lock when they are built and unlock when they go"""
    P = ctx.P; n = 0
    for f in P.fns.values():
        if not f.cl or not (f.cl == 'Guard' or f.cl.startswith('GuardedPtr<')) or not f.B: continue
        hasm = any('Mutex' in f.ptype(k) for k in range(len(f.p)))
        if f.kind == 'ctor' and hasm:
            n += 1
            if not reaches(P, f, 'Mutex::Lock'): ctx.violation('guard', f.loc(), '%s does not lock its mutex' % f.n, f.cl.split('<')[0] + ' ctor')
        if f.kind == 'dtor':
            n += 1
            if not reaches(P, f, 'Mutex::Unlock'): ctx.violation('guard', f.loc(), '%s does not unlock its mutex' % f.n, f.cl.split('<')[0] + ' dtor')
        if len(f.p) == 1 and f.ptype(0).endswith('&&'):
            n += 1
            w = False
            for i in f.reach_nodes():
                m = f.N[i]
                if m['k'] == 'bin' and m['op'] == '=' and f.N[m['x']]['k'] == 'mem' and f.N[m['x']]['o'] >= 0 and f.N[f.N[m['x']]['o']].get('dk') == 'par': w = True
                if m['k'] == 'call' and lastname(m) in ('exchange', 'swap'): w = True
            if not w and not any(f.N[i].get('fn', '').startswith('std::unique_lock') for i in f.calls()):
                ctx.violation('guard', f.loc(), '%s leaves the lock with the object moved from, which will unlock it' % f.n, f.cl.split('<')[0] + ' move')
    ctx.floor('members of guard classes', n, 6)


def reaches(P, f, name, d=0):
    for i, t, how in P.callees(f):
        if t.n == name or t.n.endswith('::' + name) or d < 4 and reaches(P, t, name, d + 1): return True
    return any(f.N[i].get('fn', '') in (name, 'std::mutex::' + name.split('::')[1].lower()) for i in f.calls())
