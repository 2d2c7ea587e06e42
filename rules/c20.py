"""Totals.  A download's counters are sums over its files.  Every write of a counter is followed path-sensitively as a linear form over the values before it:
* a total is only changed relative to its own previous value (or recomputed completely);
* a change of a counter of a file is accompanied by the same change of the total of its download, before the function (or all of its callers) ends;
* a file moved to another download is subtracted from the one and added to the other;
* merging adds each total to the same total, and all of them;
* removed, completed and added files change all the totals they contribute to."""
from common import *
import sim as simmod

LEVEL = 'other'
TECHNIQUE = 'path-sensitive symbolic difference of counters (linear forms) against a contribution table'
NOTE = ('The contribution of a file to each total is a table. Statistics per news server are not covered, nor are races on counters (C01), nor the values read from disk (C04-C07).')
ASSUMPTIONS = ['a helper that changes counters is judged together with its callers if it is not balanced on its own']

F, N = 'FileInfo', 'NzbInfo'
FF = {'m_size', 'm_remainingSize', 'm_successSize', 'm_failedSize', 'm_missedSize', 'm_totalArticles', 'm_missedArticles', 'm_failedArticles', 'm_successArticles', 'm_paused', 'm_parFile', 'm_extraPriority', 'm_activeDownloads'}
# total -> (condition on the file, fields of the file)
LIVE = {
    'm_size': (None, ('m_size',)), 'm_remainingSize': (None, ('m_remainingSize',)), 'm_pausedSize': ('m_paused', ('m_remainingSize',)), 'm_pausedFileCount': ('m_paused', (1,)),
    'm_remainingParCount': ('m_parFile', (1,)), 'm_parSize': ('m_parFile', ('m_size',)), 'm_currentSuccessSize': (None, ('m_successSize',)),
    'm_currentFailedSize': (None, ('m_failedSize', 'm_missedSize')), 'm_parCurrentSuccessSize': ('m_parFile', ('m_successSize',)),
    'm_parCurrentFailedSize': ('m_parFile', ('m_failedSize', 'm_missedSize')), 'm_totalArticles': (None, ('m_totalArticles',)),
    'm_currentSuccessArticles': (None, ('m_successArticles',)), 'm_currentFailedArticles': (None, ('m_failedArticles', 'm_missedArticles')),
    'm_failedSize': (None, ('m_missedSize',)), 'm_failedArticles': (None, ('m_missedArticles',)), 'm_parFailedSize': ('m_parFile', ('m_missedSize',)),
    'm_fileCount': (None, (1,)), 'm_extraPriority': ('m_extraPriority', (1,)), 'm_activeDownloads': (None, ('m_activeDownloads',)),
}
# what stays of a completed file
DONE = {'m_successSize': (1, None, ('m_successSize',)), 'm_failedSize': (1, None, ('m_failedSize',)), 'm_successArticles': (1, None, ('m_successArticles',)), 'm_failedArticles': (1, None, ('m_failedArticles',)),
        'm_parSuccessSize': (1, 'm_parFile', ('m_successSize',)), 'm_parFailedSize': (1, 'm_parFile', ('m_failedSize',)),
        'm_remainingParCount': (-1, 'm_parFile', (1,)), 'm_pausedFileCount': (-1, 'm_paused', (1,)), 'm_extraPriority': (-1, 'm_extraPriority', (1,))}
# what NzbInfo::UpdateCurrentStats counts: total -> (initial value, condition, fields)
RECOUNT = {'m_pausedFileCount': (0, 'm_paused', (1,)), 'm_remainingParCount': (0, 'm_parFile', (1,)), 'm_remainingSize': (0, None, ('m_remainingSize',)), 'm_pausedSize': (0, 'm_paused', ('m_remainingSize',)),
           'm_currentSuccessArticles': ('m_successArticles', None, ('m_successArticles',)), 'm_currentFailedArticles': ('m_failedArticles', None, ('m_failedArticles',)),
           'm_currentSuccessSize': ('m_successSize', None, ('m_successSize',)), 'm_currentFailedSize': ('m_failedSize', None, ('m_failedSize',)),
           'm_parCurrentSuccessSize': ('m_parSuccessSize', 'm_parFile', ('m_successSize',)), 'm_parCurrentFailedSize': ('m_parFailedSize', 'm_parFile', ('m_failedSize',)),
           'm_extraPriority': (0, 'm_extraPriority', (1,))}
TOTALS = set(LIVE) | set(DONE) | {'m_downloadedSize', 'm_downloadSec'}
# nothing of a new file is paused, downloaded or important yet
NEWZERO = {'m_pausedSize', 'm_pausedFileCount', 'm_extraPriority', 'm_activeDownloads', 'm_currentSuccessSize', 'm_currentSuccessArticles', 'm_parCurrentSuccessSize'}
# a moved file is not being downloaded (checked by SplitQueueEntries itself)
NEWFILE = {m: ('c', 0) for m in ('m_failedSize', 'm_failedArticles', 'm_successSize', 'm_successArticles')}
MOVEZERO = {'m_activeDownloads'}
LOADERS = {'DiskState', 'RemoteClient'}      # build queue items from stored data


def add(a, b, k=1):
    r = dict(a)
    for t, c in b.items():
        r[t] = r.get(t, 0) + k * c
        if not r[t]: del r[t]
    return r


def strip(t):
    while t[0] == 'old': t = t[1]
    return t


def setterlike(f): return f.cl == N and len(f.p) == 1 and bare(f.ptype(0)) in ('int', 'int64', 'long', 'int64_t', 'long long')


def freeze(d): return tuple(sorted(d.items(), key=repr))


class Tot(simmod.Client):
    want_nodes = True
    def __init__(s, P, root, inl, mode):
        s.P = P; s.root = root; s.inl = inl; s.mode = mode; s.bad = {}; s.ev = 0; s.moves = 0; s.added = False; s.detail = {}; s.xfer = {}; s.sites = set(); s.mixed = set()

    def should_inline(s, sim, g): return g.u in s.inl

    # linear forms: {symbol: coefficient}, constants under 1, ('if', condition, symbol) conditional parts
    def lin(s, sim, st, t, depth=0):
        k = t[0]
        if k == 'c': return {1: t[1]} if t[1] else {}
        if depth < 12:
            if k == 'op' and t[1] in '+-': return add(s.lin(sim, st, t[2], depth + 1), s.lin(sim, st, t[3], depth + 1), 1 if t[1] == '+' else -1)
            if k == 'op1' and t[1] == '-': return add({}, s.lin(sim, st, t[2], depth + 1), -1)
            if k == 'op' and t[1] == '*':
                a, b = s.lin(sim, st, t[2], depth + 1), s.lin(sim, st, t[3], depth + 1)
                for x, y in ((a, b), (b, a)):
                    if not set(x) - {1}: return add({}, y, x.get(1, 0))
            if k == 'cond':
                v = s.known(sim, st, t[1])
                if v is not None: return s.lin(sim, st, t[2 if v else 3], depth + 1)
                a, b = s.lin(sim, st, t[2], depth + 1), s.lin(sim, st, t[3], depth + 1)
                return add(b, s.when(sim, st, t[1], add(a, b, -1)))
        if k in ('eq', 'lt', 'not', 'and', 'or'):
            v = s.known(sim, st, t)
            if v is not None: return {1: 1} if v else {}
        lo, hi, ne = sim.interval(st, t)
        if lo == hi and k != 's': return {1: lo} if lo else {}
        if k == 'f' and t[1][0] == 'old': t = ('f', strip(t[1])) + t[2:]
        return {t: 1}

    def known(s, sim, st, g):
        v = sim.truth(st, g)
        if v is None and 1 in sim.interval(st, g)[2] and g[0] == 'f' and g[3] in ('m_paused', 'm_parFile', 'm_extraPriority'): return False
        if v is None:
            for (a, x), b in [((q[1], q[2]), w) for q, w in st.atoms.items() if q[0] == 'eq']:
                for p, o in ((a, x), (x, a)):
                    if p == g and o[0] != 'c':
                        w = sim.truth(st, o)
                        if w is not None: return w == b
        return v

    def when(s, sim, st, g, d):
        neg = False
        while g[0] == 'not': g = g[1]; neg = not neg
        v = s.known(sim, st, g)
        if v is not None: return d if v != neg else {}
        for q, w in st.atoms.items():
            if w and q[0] == 'eq' and g in q[1:]: g = min(q[1], q[2], key=repr)
        r = {('if', g, t): c for t, c in d.items() if not (isinstance(t, tuple) and t[0] == 'if')}
        return add(d, r, -1) if neg else r

    def resolve(s, sim, st, d):
        """conditional parts whose condition is known by now"""
        out = {}
        for t, c in d.items():
            if isinstance(t, tuple) and t[0] == 'if': out = add(out, s.when(sim, st, t[1], {t[2]: 1}), c)
            else: out = add(out, {t: c})
        out = {t: c for t, c in out.items() if not s.iszero(sim, st, t)}
        for t in list(out):
            # the sizes of a file add up
            if isinstance(t, tuple) and t[0] == 'f' and t[2:] == (F, 'm_size'):
                o = add(add(out, {t: 1}, -out[t]), {('f', t[1], F, m): 1 for m in ('m_remainingSize', 'm_successSize', 'm_failedSize', 'm_missedSize')}, out[t])
                if not o: return o
        return out

    def iszero(s, sim, st, t): return isinstance(t, tuple) and t[0] != 'if' and sim.interval(st, t)[:2] == (0, 0)

    def contrib(s, sim, st, f, K, new=None):
        """contribution of file f to total K; new: values of fields that replace the current ones"""
        c, fields = LIVE[K] if isinstance(K, str) else K
        val = lambda m: (new or {}).get(m) or sim.lookup(st, ('f', f, F, m))
        d = {}
        for m in fields: d = add(d, {1: 1} if m == 1 else s.lin(sim, st, val(m)))
        if c: d = s.when(sim, st, val(c), d)
        return d

    # client state: (pending differences {(N, K): linear form}, totals written, totals with absolute values, files moved [(f, to)], transfers)
    def get(s, st):
        p, w, ab, mv = st.client
        return {k: dict(v) for k, v in p}, set(w), set(ab), list(mv)

    def put(s, st, p, w, ab, mv):
        p = {k: v for k, v in p.items() if v}
        if s.mode == 'balance' and not p and not mv: w = {x for x in w if isinstance(x, str) or x[0] == 'unbalanced'}
        st.client = (tuple(sorted(((k, freeze(v)) for k, v in p.items()), key=repr)), frozenset(w), frozenset(ab), tuple(mv))

    def on_node(s, sim, st, fr, i, n):
        f = fr.fn
        if any(isinstance(t, tuple) and t[0] == 'if' for k, d in st.client[0] for t, c in d):
            p, w, ab, mv = s.get(st)
            q = {k: s.resolve(sim, st, d) for k, d in p.items()}
            if q != p: s.put(st, q, w, ab, mv)
        if n['k'] == 'un' and n['op'] in ('++', '--') or n['k'] == 'bin' and n['op'] in ('=', '+=', '-='):
            x = n['x']
            while f.N[x]['k'] == 'cast': x = f.N[x]['x']
            m = f.N[x]
            if m['k'] == 'mem' and (m['cl'] == N and m['m'] in TOTALS or m['cl'] == F and (m['m'] in FF or m['m'] == 'm_nzbInfo')):
                lv = sim.eval(st, fr, x, True)
                if n['k'] == 'un': val = ('op', '+', sim.lookup(st, lv), ('c', 1 if n['op'] == '++' else -1))
                else:
                    val = sim.eval(st, fr, n['y'])
                    if n['op'] != '=': val = ('op', n['op'][0], sim.lookup(st, lv), val)
                if lv[0] == 'f' and s.mode == 'recount' and n['k'] == 'bin' and n['op'] == '=' and m['cl'] == N and not [t for t in s.lin(sim, st, val) if isinstance(t, tuple) and t[0] == 'f' and t[2:] == (F, m['m'])] and s.lin(sim, st, val) == s.base(sim, st, lv[1], m['m']):
                    w = st.client[1] | {'base ' + m['m']}; st.client = st.client[:1] + (w,) + st.client[2:]
                elif lv[0] == 'f': s.write(sim, st, fr, i, lv[1], m['cl'], m['m'], sim.lookup(st, lv), val)
            elif m['k'] == 'ref' and m.get('dk') == 'loc' and n['k'] == 'un' and 'iterator' in f.typ(x) + f.typ(i): s.edge(sim, st, fr)
        return None

    def on_call(s, sim, st, fr, i, n, obj, args):
        if n['k'] == 'call' and lastname(n) == 'operator++' and fr.parent is None: s.edge(sim, st, fr)
        if n['k'] == 'call' and n.get('fn') == 'NzbInfo::UpdateCurrentStats' and s.root.n != 'NzbInfo::UpdateCurrentStats':
            p, w, ab, mv = s.get(st); s.put(st, {}, set(), set(), [])      # everything is counted again
            st.client = st.client[:1] + (frozenset(['recount']),) + st.client[2:]
            s.late = {}
            return [(st, None)]
        return None

    def base(s, sim, st, obj, K):
        b = RECOUNT.get(K, (None,))[0]
        return None if b is None else {} if b == 0 else s.lin(sim, st, sim.lookup(st, ('f', obj, N, b)))

    def at(s, fr, i):
        while fr.parent is not None and (len(fr.fn.N) <= 8 or setterlike(fr.fn)): i = fr.site; fr = fr.parent
        return fr.fn, i

    def write(s, sim, st, fr, i, obj, cl, m, old, val):
        obj = strip(obj)
        s.ev += 1; s.sites.add((fr.fn.u, i))
        p, w, ab, mv = s.get(st)
        if cl == F and m == 'm_nzbInfo':
            if val != old: mv.append((obj, val)); s.moves += 1
        elif cl == F:
            nz = sim.lookup(st, ('f', obj, F, 'm_nzbInfo'))
            if sim.truth(st, nz) is False: return      # not part of a download yet
            nz = strip(nz)
            nz = dict((a, b) for a, b in mv).get(obj, nz)
            w.add(('fobj', obj))
            for K in LIVE if s.mode == 'balance' else ():
                c, fields = LIVE[K]
                if m == c or m in fields:
                    d = add(s.contrib(sim, st, obj, K, {m: val}), s.contrib(sim, st, obj, K), -1)
                    p[(nz, K)] = add(p.get((nz, K), {}), d, -1)
            w.add(('file', nz))
        else:
            a = s.lin(sim, st, val); o = s.lin(sim, st, old)
            d = add(a, o, -1)
            other = [t for t in a if isinstance(t, tuple) and t[0] == 'f' and t[2] == N and t[3] in TOTALS and strip(t[1]) != obj]
            same = lambda x, y: x == y or x.lower().replace('current', '') == y.lower().replace('current', '')      # a new download: current totals are the totals
            if other and a != {other[0]: 1}:
                # more than a copy: own value plus the same total of the other download
                if len(other) != 1 or other[0][3] != m or add(d, {other[0]: 1}, -1): s.mixed.add(s.at(fr, i) + (m, '%s of the other download' % other[0][3]))
            if other:
                s.xfer.setdefault((s.at(fr, i)[0].u, obj, other[0][1]), {}).setdefault(m, 1)
                if not same(other[0][3], m): s.mixed.add(s.at(fr, i) + (m, '%s of the other download' % other[0][3]))
                w.add('transfer')
                ab.add((obj, m)); s.put(st, p, w, ab, mv); return
            if sum(1 for t in o if o.get(t) == a.get(t)) < len([t for t in o if t != 1]) or (not o and not isinstance(old, tuple)): ab.add((obj, m))
            p[(obj, m)] = add(p.get((obj, m), {}), d)
            w.add(('total', obj))
        s.put(st, p, w, ab, mv)

    def edge(s, sim, st, fr):
        """end of a loop's pass: what is not balanced is remembered, so that a later recount can still repair it"""
        s.check(sim, st, fr)
        if 'recount' in st.client[1]: return
        st.client = ((), frozenset(x for x in st.client[1] if isinstance(x, str) or x[0] == 'unbalanced'), frozenset(), ())

    def check(s, sim, st, fr):
        p, w, ab, mv = s.get(st)
        if 'recount' in w or 'transfer' in w: return
        tot = {}
        out = {}
        nzs = {x[1] for x in w if not isinstance(x, str) and x[0] == 'total'}
        if s.mode == 'balance':
            files = {x[1] for x in w if not isinstance(x, str) and x[0] == 'file'}
            if len(nzs) == 1 and len(files) == 1 and not mv and nzs != files:      # the download of the file under another name
                a, b = next(iter(nzs)), next(iter(files))
                for nz, K in list(p):
                    if nz == b: p[(a, K)] = add(p.get((a, K), {}), p.pop((b, K)))
                files = nzs
            if mv and len(nzs) > 1:
                for f, to in mv:
                    for K in LIVE:
                        if K in MOVEZERO: continue
                        d = s.resolve(sim, st, add(p.get((to, K), {}), s.contrib(sim, st, f, K), -1))
                        if d: out[K] = ('of the download the file is moved to', d)
                        for nz in nzs: tot[K] = add(tot.get(K, {}), s.resolve(sim, st, p.get((nz, K), {})))
                        if s.resolve(sim, st, tot.get(K, {})): out.setdefault(K, ('of the downloads the file is moved between (sum)', s.resolve(sim, st, tot[K])))
            elif not mv:
                for (nz, K), d in p.items():
                    if (nz not in files if files else K == 'm_activeDownloads') or K not in LIVE or (nz, K) in ab: continue
                    d = s.resolve(sim, st, d)
                    if d: out[K] = ('of the download', d)
        elif s.mode == 'recount':
            objs = {t[1] for d in p.values() for c in d for t in ([c] if isinstance(c, tuple) and c[0] != 'if' else list(c[1:]) if isinstance(c, tuple) else []) if isinstance(t, tuple) and t[0] == 'f' and t[2] == F}
            for q in st.atoms:
                for t in subterms(q):
                    if isinstance(t, tuple) and t[0] == 'f' and t[2] == F and t[3] in FF: objs.add(t[1])
            if len(objs) == 1:
                f = next(iter(objs)); s.added = True
                for K in TOTALS:
                    e = s.contrib(sim, st, f, RECOUNT[K][1:]) if K in RECOUNT else {}
                    d = s.resolve(sim, st, add(p.get((('this',), K), {}), e, -1))
                    if d: out[K] = ('of the download', d)
            elif p:
                for (nz, K), d in p.items(): out[K] = ('of the download', d)
        elif nzs or s.mode != 'add':
            f = s.f
            if s.mode == 'add':
                fs = [x[1] for x in w if not isinstance(x, str) and x[0] == 'fobj']
                f = fs[0] if len(fs) == 1 else None
                s.nz = next(iter(nzs)) if len(nzs) == 1 else None
                if f is not None: s.added = True
                if s.nz is None: f = None
            if f is not None:
                for K in TOTALS:
                    if K in ('m_downloadedSize', 'm_downloadSec'): continue
                    nz = s.nz
                    if (nz, K) in ab: continue
                    if s.mode == 'add': e = {} if K in NEWZERO or K not in LIVE else s.contrib(sim, st, f, K, NEWFILE)
                    elif s.mode == 'delete': e = add({}, s.contrib(sim, st, f, K), -1) if K in LIVE and K != 'm_activeDownloads' else {}
                    else: e = add({}, s.contrib(sim, st, f, DONE[K][1:]), DONE[K][0]) if K in DONE else {}
                    d = s.resolve(sim, st, add(p.get((nz, K), {}), e, -1))
                    if s.mode == 'add': d = {t: c for t, c in d.items()}
                    if d: out[K] = ('of the download', d)
        for K, (what, d) in out.items():
            s.detail.setdefault(K, (what, show(d)))
            st.client = st.client[:1] + (st.client[1] | {('unbalanced', K)},) + st.client[2:]

def show(d):
    def sym(t):
        if t == 1: return ''
        if t[0] == 'if': return '[if %s] %s' % (sym(t[1]), sym(t[2]) or '1')
        if t[0] == 'f': return t[3]
        return t[0]
    return ' '.join('%+d %s' % (c, sym(t)) for t, c in sorted(d.items(), key=repr))[:120]


def run(ctx):
    P = ctx.P
    for cl, ms in ((F, FF), (N, TOTALS)):
        have = {x['m'] for x in P.records.get(cl, {}).get('fields', ())}
        ctx.need('counters of %s' % cl, ms <= have)
    direct = {}
    for f in P.daemon_fns():
        for i in f.reach_nodes():
            n = f.N[i]
            if n['k'] == 'un' and n['op'] in ('++', '--') or n['k'] == 'bin' and n['op'] in ('=', '+=', '-='):
                x = n['x']
                while f.N[x]['k'] == 'cast': x = f.N[x]['x']
                m = f.N[x]
                if m['k'] == 'mem' and (m['cl'] == N and m['m'] in TOTALS or m['cl'] == F and m['m'] in FF): direct.setdefault(f.u, f)
    setters = {u for u, f in direct.items() if len(f.N) <= 8}
    # functions that change counters, through setters
    users = {}
    for u in direct:
        if u not in setters: users[u] = direct[u]; continue
        for h, i, how in P.callers().get(u, ()): users[h.u] = h
    # SetPaused-like members that keep the balance by themselves are roots too
    inlbase = set(direct) | set(users); balanced = set()
    for u in [u for u in users if users[u].cl in LOADERS or users[u].n.split('::')[0] in LOADERS]: users.pop(u)
    checked = 0; ev = 0; sites = set(); moves = 0; transfers = {}
    def judge(f, mode='balance', extra=(), level=0):
        inl = (inlbase - balanced - {u for u, g in users.items() if g.n in SPECIAL}) | set(extra)
        c = Tot(P, f, inl, mode)
        this = ('this',)
        st = simmod.State(client=((), frozenset(), frozenset(), ()))
        c.f = None; c.nz = this
        if mode in ('delete', 'done'):
            k = next((k for k, p in enumerate(f.p) if bare(f.ptype(k)) == F), None)
            c.f = ('v', f.tu, f.p[k]['vi'])
        return c
    def recounted(h, lvl):
        """after every call of lvl, h counts everything again before it ends"""
        sites = [(h.blocknode().get(i)) for i, g, how in P.callees(h) if g.u in lvl]
        stop = {}
        for i, g, how in P.callees(h):
            bn = h.blocknode().get(i)
            if g.n == 'NzbInfo::UpdateCurrentStats' and bn: stop.setdefault(bn[0], []).append(bn[1])
        if not stop or None in sites: return False
        for b, k in sites:
            if any(x > k for x in stop.get(b, ())): continue
            seen = set(); todo = [x for x in h.B[b]['s'] if x >= 0]
            while todo:
                x = todo.pop()
                if x in seen or x in stop: continue
                seen.add(x)
                if not h.B[x]['s']: return False
                todo += [y for y in h.B[x]['s'] if y >= 0]
        return True
    def runit(f, mode='balance', extra=(), budget=60000):
        c = judge(f, mode, extra); out = []
        for K in (8, 60, 250):      # joined states lose facts: what is found is looked at again with fewer joins
            c = judge(f, mode, extra); t0 = time.time()
            m = simmod.Sim(P, ctx.eff, c, K=K, budget=budget)
            res = m.run_fn(simmod.Frame(f, ('this',)), [simmod.State(client=((), frozenset(), frozenset(), ()))])
            out = []
            for st, v in res:
                if mode not in ('add', 'recount'): c.check(m, st, None)
                if 'recount' in st.client[1]: continue
                if mode == 'recount':
                    for K in RECOUNT:
                        if 'base ' + K not in st.client[1]: out.append((K, 'of the download', 'its initial value', st.path()))
                for x in st.client[1]:
                    if not isinstance(x, str) and x[0] == 'unbalanced' and not (mode == 'balance' and 'transfer' in st.client[1]): out.append((x[1],) + c.detail[x[1]] + (st.path(),))
            if DEBUG: print(f.n, mode, K, m.steps, round(time.time() - t0, 1), [(x[0], x[2]) for x in out][:6], flush=True)
            if not out: break
        if m.truncated: ctx.notes.append('not all paths of %s were followed' % f.n)
        return c, out, m.truncated
    SPECIAL = {'NzbInfo::UpdateDeletedStats': 'delete', 'NzbInfo::UpdateCompletedStats': 'done', 'NzbFile::ProcessFiles': 'add', 'NzbInfo::UpdateCurrentStats': 'recount'}
    found = {}; memo = {}
    for name, mode in SPECIAL.items():
        f = P.fn(name)
        ctx.need(name, f is not None)
        if f is None: continue
        c, out, trunc = runit(f, mode); sites |= c.sites; ev += c.ev; ctx.src(f.file); checked += 1
        if mode in ('add', 'recount'): ctx.need('files counted by %s' % name, c.added)
        for K, what, d, path in out: found.setdefault((f.n, K), (f, K, what, d, path))
    # callees first: what is balanced on its own does not matter to the callers
    order = []; seen = set()
    def visit(f, depth=0):
        if f.u in seen: return
        seen.add(f.u)
        for i, h, how in P.callees(f):
            if h.u in users: visit(h, depth + 1)
        order.append(f)
    for u, f in sorted(users.items(), key=lambda x: x[1].n): visit(f)
    for f in order:
        u = f.u
        if f.n in SPECIAL or f.kind in ('ctor', 'dtor') or f.n == 'NzbInfo::UpdateCurrentStats' or u in setters or setterlike(f): continue
        c, out, trunc = runit(f); sites |= c.sites; ev += c.ev; checked += 1; moves += c.moves; ctx.src(f.file)
        for g, i, m, o in sorted(c.mixed, key=lambda x: (x[0].n, x[1], x[2])): ctx.violation('own', g.loc(i), '%s sets %s from %s, not relative to its own previous value or not from the same total' % (g.n, m, o), '%s %s' % (g.n, m))
        for (fu, a, b), ms in c.xfer.items():
            if fu == u and len(ms) >= 8: transfers.setdefault(u, (f, {}))[1].update(ms)
        if not out and not trunc and not setterlike(f): balanced.add(u)
        if not out: continue
        # not balanced on its own: with its callers?
        level = [f]; ok = False; res = out; rounds = 0; chainfns = [f.u]
        while rounds < 2:
            hs = {h.u: h for g in level for h, i, how in P.callers().get(g.u, ()) if h.kind != 'lambda' and h.n.split('::')[0] not in LOADERS}
            if not hs: break
            bad = []
            for h in hs.values():
                if recounted(h, set(chainfns)): continue
                key = (h.u,) + tuple(sorted(chainfns))
                if key not in memo: memo[key] = runit(h, 'balance', key[1:], 20000)
                c2, o2, t2 = memo[key]
                if [x for x in o2 if x[0] in {y[0] for y in out}] or t2: bad.append(h)
            if not bad: ok = True; break
            level = bad; rounds += 1; chainfns += [h.u for h in bad]
        if not ok:
            for K, what, d, path in res: found.setdefault((f.n, K), (f, K, what, d, path))
    for (n, K), (f, K, what, d, path) in sorted(found.items()):
        ctx.violation('balance', f.loc(0) if f.N else f.file, '%s: total %s %s differs from its files by %s (path %s)' % (f.n, K, what, d, path), '%s %s' % (f.n, K))
    for u, (f, ms) in transfers.items():
        for K in sorted(TOTALS - set(ms) - COPYFREE.get(f.n, set())):
            ctx.violation('transfer', f.loc(0), '%s takes over the totals of another download, but not %s' % (f.n, K), '%s %s' % (f.n, K))
    ctx.count('writes of counters', len(sites)); ctx.count('functions', checked); ctx.count('writes on paths', ev); ctx.count('functions that take over totals', len(transfers))
    ctx.floor('writes of counters', len(sites), 30); ctx.floor('functions', checked, 6)


# the source has just been read from an nzb-file
COPYFREE = {'NzbInfo::MoveFileList': {'m_activeDownloads', 'm_downloadSec', 'm_downloadedSize', 'm_extraPriority'}}
import os, time; DEBUG = os.environ.get('C20T')
