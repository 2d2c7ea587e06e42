"""Nothing slow under the queue lock.  From the lock sets, every call made while the queue lock is possibly held is followed through the call
graph (virtual calls by receiver class, observers by subject, thread starts cut); reaching a primitive that waits for the network, a process,
a timer or another thread is a violation."""
import re
from common import *
from locktab import *

LEVEL = 'other'
TECHNIQUE = 'effect analysis over the call graph under lock sets'
NOTE = ('File operations count as fast; the wait for the article cache to finish writing a file that is being removed (a loop on ArticleCache::FileBusy) '
        'is allowed, because the writer does not need the queue lock.')
ASSUMPTIONS = ['observers are attached by Subject::Attach only']
SLOW = re.compile(r'^(::)?(connect|recv|send|recvfrom|sendto|accept|select|poll|waitpid|wait|wait4|usleep|sleep|nanosleep|getaddrinfo|gethostbyname\w*|gnutls_handshake|'
                  r'gnutls_record_(recv|send)|gnutls_bye|pthread_join|std::this_thread::\w+(<.*)?|std::thread::join|std::condition_variable::wait.*|popen|system)$')


def busyloop(ctx, f, i):
    """sleeping in a loop until the article cache is done with a file"""
    b = f.blocknode().get(i)
    if not b: return False
    # a loop condition that asks FileBusy dominates the sleep directly
    for p in f.preds().get(b[0], []):
        for e in f.B[p]['e']:
            if isinstance(e, int) and f.N[e]['k'] == 'call' and lastname(f.N[e]) == 'FileBusy': return True
    return False


def run(ctx):
    P = ctx.P; L = model(ctx)
    start = startup_entries(ctx)
    def prim(f):
        out = set()
        if f.cl == 'ConditionVar': return out
        for i in f.calls():
            n = f.N[i]; fn = n.get('fn') or ''
            if fn == 'Util::Sleep' and not busyloop(ctx, f, i): out.add('Util::Sleep')
            elif fn.startswith('ConditionVar::Wait'): out.add('ConditionVar::Wait')
            elif SLOW.match(fn) and f.n != 'Util::Sleep': out.add(fn)
        return out
    # a sleep is judged where Util::Sleep is called, so that the call itself does not carry it further
    L2 = L.transitive(prim)
    sites = 0; nprim = sum(1 for f in L.fns.values() if prim(f))
    ctx.floor('functions that wait', nprim, 15)
    for x in sorted(L.edges, key=str):
        f = L.fns[x[0]]
        if start.get(f.u) is None or f.n in STARTUP: continue
        sn = L.snap[x[0]]
        own = prim(f)
        if own:
            for i in f.calls():
                n = f.N[i]; fn = n.get('fn') or ''
                if DQ in sn.get(i, ((), ()))[1] and (fn in own or fn.startswith('ConditionVar::Wait')) and not (fn == 'Util::Sleep' and busyloop(ctx, f, i)):
                    ctx.violation('slow', f.loc(i), '%s calls %s while it holds the queue lock' % (f.n, fn), '%s %s' % (f.n, fn))
        for i, t in L.edges[x]:
            if i is None or DQ not in sn.get(i, ((), ()))[1]: continue
            sites += 1
            for b in sorted(L2[t]):
                p = L.path(t, lambda y: b in prim(L.fns[y[0]]))
                names = [L.fns[y[0]].n for y in p]
                ctx.violation('slow', f.loc(i), '%s may be waited for with the queue locked: %s -> %s' % (b, f.n, ' -> '.join(names)), '%s via %s' % (b, names[-1]))
    ctx.floor('calls made under the queue lock', sites, 300)
