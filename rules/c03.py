"""Changes of the queue and of the history are saved.  Typestate of the stored state: adding to, removing from and reordering the list of downloads makes the queue
unsaved, doing so with the history list makes the history unsaved; DownloadQueue::HistoryChanged announces a change of the history;
DownloadQueue::Save stores the queue, and the history if a change was announced.  A summary (state before -> states after, per truth of the result)
is computed for every function from which such events can be reached, path-sensitively and bottom-up over the call graph; where nothing of the
daemon calls a function (threads, API entry points), everything must be saved at its end."""
from common import *
import sim as simmod
from typestate import Typestate
import os

LEVEL = 'other'
TECHNIQUE = 'interprocedural typestate analysis (queue/history saved or not) with path-sensitive function summaries'
NOTE = ('Additions, removals, replacements and reordering in the lists of downloads and of history items are followed through all callers and notifications up to the threads; changes inside of an item (file lists, counters, parameters) are saved '
        'by SaveChanged or periodically by design and are not covered. Whether all fields are stored is C02, how files are replaced is C01.')
ASSUMPTIONS = ['remote clients and the frontend hold a copy of the queue, not the queue itself']
DEBUG = os.environ.get('C03T')
QUEUE, HIST, ANN = 1, 2, 4           # queue unsaved, history unsaved, change of history announced
MUT = {'Add', 'Remove', 'Replace', 'Insert', 'erase', 'insert', 'clear', 'push_back', 'push_front', 'pop_back', 'pop_front', 'emplace_back', 'emplace_front', 'emplace', 'swap', 'resize', 'assign'}
COPIES = ('daemon/frontend/', 'daemon/remote/RemoteClient')


class Ana(Typestate):
    def __init__(s, ctx, K=6):
        Typestate.__init__(s, ctx, K); P = ctx.P; s.lists = {}
        q = P.records.get('DownloadQueue', {}).get('fields', ())
        for x in q:
            b = bare(x['ts'])
            if 'NzbInfo' in x['ts'] or b == 'NzbList': s.lists['NzbList'] = QUEUE
            if 'HistoryInfo' in x['ts'] or b == 'HistoryList': s.lists['HistoryList'] = HIST
        s.dq = P.subclasses('DownloadQueue')

    def skip(s, f): return f.file.startswith(COPIES) or Typestate.skip(s, f)
    def open(s, x): return x & (QUEUE | HIST)

    def step(s, k, x, st, f, i, args):
        if k == 'save': return (x & ~(QUEUE | ANN)) & ~(HIST if x & ANN else 0)
        return x | (ANN if k == 'announce' else k)

    def event1(s, f, i, n):
        if n['k'] != 'call': return None
        fn = n.get('fn') or ''; cl, _, last = fn.rpartition('::')
        if cl in s.dq:
            if last == 'Save': return 'save'
            if last == 'HistoryChanged': return 'announce'
        if n.get('op') == '=' and n.get('o', -1) >= 0 and f.N[n['o']]['k'] == 'call' and f.N[n['o']].get('op') in ('[]', '*') and f.cl != 'DiskState':     # an element of the list is replaced
            t = f.typ(n['o'])
            if 'unique_ptr<HistoryInfo' in t: return HIST
            if 'unique_ptr<NzbInfo' in t: return QUEUE
        if last in MUT and n.get('o', -1) >= 0 and f.cl not in s.dq and f.cl != 'DiskState':        # DiskState restores the lists, they are stored already
            t = f.typ(n['o'])
            if 'UniqueDeque<' in t or 'NzbList' in t or 'HistoryList' in t or 'deque<' in t:
                if 'HistoryInfo' in t or 'HistoryList' in t: return HIST
                if 'NzbInfo' in t and 'NzbInfo *' not in t or 'NzbList' in t and 'Raw' not in t: return QUEUE
        return None


class Deferred(simmod.Client):
    """paths of Save, and of the functions that defer it"""
    def __init__(s, R, f): s.R = R; s.f = f; s.bad = []; s.n = 0
    def should_inline(s, sim, g): return False
    def on_call(s, sim, st, fr, i, n, obj, args):
        last = (n.get('fn') or '').rpartition('::')[2]; x = dict(st.client)
        if (n.get('fn') or '') == 'DiskState::SaveDownloadQueue' and len(args) > 1:
            x['saved'] = True; h = [m for m in s.R.H if x.get(m)]
            t = args[-1]
            if not (s.R.mentions(t, s.R.H) or t == ('c', 1)): s.bad.append((st, i, 'stores the history regardless of the announced changes'))
            if h: s.bad.append((st, i, 'forgets the announced change of the history before storing'))
        elif last == 'Save' and s.R.own(fr.fn, n): x['off'] = x.get('off') and 'saved'
        elif last == 'GetServerMode' and 'Options' in (n.get('fn') or ''):
            return [(st.with_client(tuple(sorted(dict(x, server=v).items(), key=repr))), ('c', int(v))) for v in (False, True)]
        else: return None
        st.client = tuple(sorted(x.items(), key=repr)); return None
    def on_assign(s, sim, st, fr, i, lv, val):
        if not isinstance(lv, tuple) or lv[0] != 'f': return None
        x = dict(st.client); m = lv[3]
        if m in s.R.G: x['off'] = val == ('c', 0); x['on'] = x.get('on') or val == ('c', 1)
        if m in s.R.H and val == ('c', 0): x[m] = True
        if m in s.R.W: x['want'] = val == ('c', 1)
        st.client = tuple(sorted(x.items(), key=repr)); return None


class Defer:
    def __init__(s, ctx, A):
        s.ctx = ctx; P = s.P = ctx.P; s.cls = set(A.dq)
        saves = [f for f in P.daemon_fns() if f.n.split('::')[-1] == 'Save' and f.cl in A.dq and any((f.N[i].get('fn') or '') == 'DiskState::SaveDownloadQueue' for i in f.calls())]
        ctx.need('implementation of DownloadQueue::Save', saves)
        if not saves: return
        hc = [f for f in P.daemon_fns() if f.n.split('::')[-1] == 'HistoryChanged' and f.cl in A.dq]
        s.H = {m for f in hc for m in s.sets(f, 1)}; s.W = {m for f in saves for m in s.sets(f, 1)} - s.H
        bools = {x['m'] for c in A.dq for x in P.records.get(c, {}).get('fields', ()) if x['ts'] == 'bool'}
        read = {f.N[i]['m'] for f in saves for i in f.reach_nodes() if f.N[i]['k'] == 'mem' and f.N[i].get('cl') in A.dq and f.N[i]['m'] in bools}
        s.G = {m for f in P.daemon_fns() if f.cl in A.dq and f not in saves for m in s.sets(f, 1) if m in read} - s.H - s.W
        n = 0
        for f in saves:
            ctx.src(f.file); c, outs = s.sim(f, ())
            for st, i, what in c.bad: ctx.violation('save', f.loc(i), '%s %s' % (f.n, what), '%s %s' % (f.n, what))
            for st, m in outs:
                n += 1; x = dict(st.client)
                if x.get('saved'): continue
                if x.get('server') is False: continue
                if not x.get('want'): ctx.violation('save', f.loc(), '%s may neither store the queue nor note that this has to be done (path %s)' % (f.n, st.path()), f.n + ' no save')
                for h in sorted(s.H):
                    if x.get(h): ctx.violation('save', f.loc(), '%s defers the storing but forgets the announced change of the history (path %s)' % (f.n, st.path()), f.n + ' history lost')
        for f in sorted(P.daemon_fns(), key=lambda f: f.u):
            if f.cl not in A.dq or f in saves or not (set(s.sets(f, 1)) & s.G): continue
            ctx.src(f.file); outs = s.sim(f, ())[1]
            for st, m in outs:
                n += 1; x = dict(st.client)
                if not x.get('on'): continue
                if not x.get('off'): ctx.violation('deferred', f.loc(), '%s may leave the queue in the state in which nothing is stored (path %s)' % (f.n, st.path()), f.n + ' left on'); continue
                if x['off'] == 'saved': continue
                if any(m.truth(st, m.lookup(st, ('f', ('this',), c, w))) is False for w in s.W for c in sorted(s.cls)): continue
                ctx.violation('deferred', f.loc(), '%s may end without storing what was to be stored meanwhile (path %s)' % (f.n, st.path()), f.n + ' not stored')
        ctx.count('paths of Save and of its deferring', n)

    def sim(s, f, c0):
        c = Deferred(s, f); m = simmod.Sim(s.P, s.ctx.eff, c, K=40, budget=40000)
        return c, [(st, m) for st, v in m.run_fn(simmod.Frame(f, ('this',)), [simmod.State(client=c0)])]

    def own(s, f, n): return n.get('cl') in s.cls or (n.get('fn') or '').rpartition('::')[0] in s.cls
    def mentions(s, t, names): return any(isinstance(y, tuple) and len(y) > 3 and y[0] == 'f' and y[3] in names for y in subterms(t))

    def sets(s, f, v):
        for i in f.reach_nodes():
            n = f.N[i]
            if n['k'] == 'bin' and n['op'] == '=' and f.N[n['x']]['k'] == 'mem' and f.N[n['x']].get('cl') in s.cls:
                y = n['y']
                while f.N[y]['k'] == 'cast' and 'cv' not in f.N[y]: y = f.N[y]['x']
                if f.N[y].get('cv', f.N[y].get('v') if f.N[y]['k'] == 'int' else None) == v: yield f.N[n['x']]['m']


def unsaved(P, A, rel):
    for (u, x, sp), outs in sorted(A.sum.items(), key=lambda k: (P.fns[k[0][0]].n, k[0][1:])):
        f = P.fns[u]
        if DEBUG: print(f.n, x, sp, {k for k in outs}); [print('    ', k, v) for k, v in outs.items() if k[0] and not x]
        if x or sp or not A.outer(u, rel): continue
        if any(o & (QUEUE | HIST) for o, t in outs): yield f, outs


def run(ctx):
    P = ctx.P; A = Ana(ctx)
    Defer(ctx, A)
    ctx.need('lists of downloads and of the history in DownloadQueue', len(A.lists) == 2)
    rel = A.run()
    if any(True for _ in unsaved(P, A, rel)):            # facts lost where paths join?  once again with more paths kept apart
        A = Ana(ctx, 40); rel = A.run()
    for f, outs in unsaved(P, A, rel):
        ctx.src(f.file)
        for (o, t), path in sorted(outs.items(), key=repr):
            for bit, what in ((QUEUE, 'the queue'), (HIST, 'the history')):
                if o & bit: ctx.violation('unsaved', f.loc(), '%s may end without saving a change of %s (path %s)' % (f.n, what, path), '%s %s' % (f.n, what))
    roots = sum(1 for (u, x, sp) in A.sum if not x and not sp and A.outer(u, rel))
    for u in A.direct: ctx.src(P.fns[u].file)
    ctx.count('functions', len({k[0] for k in A.sum})); ctx.count('summaries', len(A.sum)); ctx.count('events on paths', A.ev); ctx.count('outermost functions', roots)
    ctx.count('functions with changes or saves', len(A.direct))
    ctx.floor('functions with changes or saves', len(A.direct), 10)
    for n in sorted(A.trunc): ctx.notes.append('not all paths of %s were followed' % n)

