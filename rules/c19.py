"""Start of downloads.  (1) All paths of the functions that choose the next article, file or URL: an element of a queue list is chosen only
after it was found to be eligible (file neither paused nor deleted; article and URL not started yet; downloading neither paused nor stopped
by the quota, or the item has force priority).  (2) All paths to the functions that start a download: only after such a choice, made under
the same lock, and only if downloading is not paused temporarily (or for URLs: paused) unless the item or an option exempts it.
(3) The threads of the downloads look at pause and quota again after having waited for a connection or before another attempt."""
from common import *
import sim as simmod

LEVEL = 'other'
TECHNIQUE = 'path-sensitive must-have-been-checked analysis of the choice and the start of downloads'
NOTE = ('The first articles that direct renaming needs are fetched from paused files too, which is intended. URLs are subject to the pause and the option UrlForce, not to the quota or the priority.')
ASSUMPTIONS = ['the state of the queue does not change while it is locked (C05)']
QC, UC = 'QueueCoordinator', 'UrlCoordinator'


def put(st, **k):
    d = dict(st.client); d.update(k)
    return st.with_client(tuple(sorted(d.items(), key=lambda x: x[0])))


def init(**k): return simmod.State(client=tuple(sorted(k.items(), key=lambda x: x[0])))


def getter(P, cls, name):
    """field that a getter returns"""
    g = P.fn(cls + '::' + name)
    if not g or not g.B: return None
    fs = [n for n in g.N if n['k'] == 'mem' and n['cl'] == cls]
    return fs[0]['m'] if len(fs) == 1 else None


def gates(st, n, d, f):
    """reads of the state of the program: (flag, pairs of state and value)"""
    fn = n.get('fn') or ''
    for name, key in (('WorkState::GetPauseDownload', 'pause'), ('WorkState::GetQuotaReached', 'quota'), ('WorkState::GetTempPauseDownload', 'temp'), ('Options::GetUrlForce', 'urlforce')):
        if fn == name and key in d: return [(put(st, **{key: True}), ('c', 1)), (put(st, **{key: False}), ('c', 0))]
    return None


def listvars(f):
    """variables that hold an element of a list: of a range-based loop, or initialised from an iterator or an index"""
    out = set()
    for n in f.N:
        if n['k'] != 'decl': continue
        for v in n['vars']:
            i = v.get('i')
            if i is None or i < 0: continue
            if any(f.N[j]['k'] in ('call', 'un', 'idx') and (f.N[j].get('op') in ('*', '[]', '->') or f.N[j]['k'] == 'idx' or lastname(f.N[j]) in ('at', 'get', 'front', 'back')) for j in f.subtree(i)): out.add(v['vi'])
    return out


class Pick(simmod.Client):
    inline_depth = 3
    def __init__(s, ctx, kind, inl): s.ctx = ctx; s.kind = kind; s.n = 0; s.inl = inl; s.lv = {}
    def should_inline(s, sim, g): return g.cl in ('FileInfo', 'NzbInfo', 'ArticleInfo') and len(g.N) < 12 and bool(g.B) or g.u in s.inl

    def on_call(s, sim, st, fr, i, n, obj, args):
        if n['k'] != 'call': return None
        d = dict(st.client); fn = n.get('fn') or ''
        r = gates(st, n, d, fr.fn)
        if r: return r
        if fn == 'NzbInfo::GetFileList': return [(put(st, list=obj), None)]
        if fn == 'NzbInfo::GetForcePriority': return [(put(st, force=obj), ('c', 1)), (put(st, force=None), ('c', 0))]
        return None

    def elem(s, f, i):
        if f.u not in s.lv: s.lv[f.u] = listvars(f)
        while f.N[i]['k'] == 'cast': i = f.N[i]['x']
        n = f.N[i]
        return n['k'] == 'ref' and n.get('vi') in s.lv[f.u] and n.get('dk') == 'loc'

    def chosen(s, sim, st, fr, i, val):
        s.n += 1
        f = fr.fn; d = dict(st.client)
        def may(cls, get, want):
            m = getter(sim.P, cls, get)
            if m is None: return False
            return bool(sim.assume(st, sim.cmp('==', sim.lookup(st, ('f', val, cls, m)), ('c', want)), False))
        def bad(what, key): s.ctx.violation('choice', f.loc(i), '%s chooses %s (path %s)' % (f.n, what, st.path()), 'choice %s %s' % (f.n, key))
        E = s.ctx.enums
        if s.kind == 'FileInfo':
            if may('FileInfo', 'GetDeleted', 0): bad('a file for download that may be deleted', 'deleted')
            m = getter(sim.P, 'FileInfo', 'GetFilenameConfirmed')
            first = m and not sim.assume(st, sim.cmp('==', sim.lookup(st, ('f', val, 'FileInfo', m)), ('c', 0)), False)
            if first: return
            if may('FileInfo', 'GetPaused', 0): bad('a file for download that may be paused', 'paused')
            if not (d['pause'] is False and d['quota'] is False) and not (d['force'] is not None and d['force'] == d['list']):
                bad('a file for download although downloading may be paused or the quota may be reached and the item may have no force priority', 'gate')
        elif s.kind == 'ArticleInfo':
            if may('ArticleInfo', 'GetStatus', E['aiUndefined']): bad('an article for download that may have been started already', 'article')
        else:
            if may('NzbInfo', 'GetKind', E['nkUrl']): bad('an item that may not be a URL', 'kind')
            if may('NzbInfo', 'GetUrlStatus', E['lsNone']): bad('a URL that may have been started already', 'status')
            if may('NzbInfo', 'GetDeleteStatus', E['dsNone']): bad('a URL that may be deleted', 'deleted')

    def on_assign(s, sim, st, fr, i, lv, val):
        f = fr.fn; n = f.N[i]
        if n['k'] == 'bin' and n['op'] == '=' and bare(f.typ(n['x'])) == s.kind and s.elem(f, n['y']): s.chosen(sim, st, fr, i, val)
        return None

    def on_return(s, sim, st, fr, i, val):
        f = fr.fn; n = f.N[i]
        if n['k'] == 'ret' and n.get('x') is not None and bare(f.rt) == s.kind and s.elem(f, n['x']): s.chosen(sim, st, fr, i, val)
        return None


def pickers(P, roots, kind):
    """functions called from the roots that hand out an object of the kind through a reference parameter or as result"""
    out = {}; todo = list(roots)
    while todo:
        f = todo.pop()
        for i in f.calls():
            for g in P.targets(f, i):
                if not g.B or g.u in out or g.cl != f.cl: continue
                hands = bare(g.rt) == kind and g.rt.rstrip().endswith('*') or any(bare(g.ptype(k)) == kind and g.ptype(k).replace(' ', '').endswith('*&') for k in range(len(g.p)))
                if hands: out[g.u] = g; todo.append(g)
    return list(out.values())


def choices(ctx):
    P = ctx.P
    run = P.fn(QC + '::Run'); url = P.fn(UC + '::Run'); ctx.need('QueueCoordinator::Run and UrlCoordinator::Run', run and url)
    def helpers(f): return {g.u for i in f.calls() for g in P.targets(f, i) if g.B and g.file == f.file and g.rt == 'bool' and len(g.N) < 120 and not pick(g)}
    def pick(g): return any(g.ptype(k).replace(' ', '').endswith('*&') for k in range(len(g.p)))
    for kind, root in (('FileInfo', run), ('ArticleInfo', run), ('NzbInfo', url)):
        fs = pickers(P, [root], kind); n = 0
        for f in fs:
            c = Pick(ctx, kind, helpers(f)); s = simmod.Sim(P, ctx.eff, c, K=8, budget=400000)
            s.run_fn(simmod.Frame(f, ('this',)), [init(pause=None, quota=None, force=None, list=None)])
            if s.truncated: ctx.notes.append('not all paths of %s were followed' % f.n)
            n += c.n; ctx.src(f.file)
        ctx.floor('choices of ' + kind, n, 1)


class Go(simmod.Client):
    """paths to the start of a download"""
    inline_depth = 3
    def __init__(s, ctx, kind, pick, start, inl): s.ctx = ctx; s.kind = kind; s.pick = pick; s.start = start; s.inl = inl; s.n = 0
    def should_inline(s, sim, g): return g.u in s.inl

    def on_call(s, sim, st, fr, i, n, obj, args):
        if n['k'] != 'call': return None
        d = dict(st.client); f = fr.fn; fn = n.get('fn') or ''
        r = gates(st, n, d, f)
        if r: return r
        ts = {g.u for g in sim.P.targets(f, i)}
        if ts & s.pick:
            r = sim.fresh(st, (f.u, i)); st = put(st, next=None, temp=None, extra=None, pause=None, urlforce=None)
            if s.kind == 'FileInfo': return [(put(st, next=True), ('c', 1)), (put(st, next=False), ('c', 0))]
            return [(put(y, next=r), r) for y in sim.assume(st, r, True)] + [(put(st, next=False), ('c', 0))]
        if fn == 'FileInfo::GetExtraPriority': return [(put(st, extra=True), ('c', 1)), (put(st, extra=False), ('c', 0))]
        if ts & s.start:
            s.n += 1
            def bad(what, key): s.ctx.violation('start', f.loc(i), '%s starts a download %s (path %s)' % (f.n, what, st.path()), 'start %s %s' % (f.n, key))
            if not d['next']: bad('without having chosen one since the queue was locked', 'next')
            elif s.kind == 'FileInfo':
                if d['temp'] is not False and d['extra'] is not True: bad('although downloading may be paused temporarily and the file may have no extra priority', 'temp')
            elif d['pause'] is not False and d['urlforce'] is not True: bad('although downloading may be paused and the option UrlForce may be off', 'pause')
            return [(put(st, next=False), None)]
        return None

    def on_dtor(s, sim, st, fr, e):
        if 'GuardedDownloadQueue' in str(e.get('t')) or isinstance(e.get('t'), int) and 'GuardedDownloadQueue' in fr.fn.T[e['t']]:
            return [put(st, next=None)]
        return None


def starts(ctx):
    P = ctx.P
    for kind, root, threads in (('FileInfo', QC, 'ArticleDownloader'), ('NzbInfo', UC, 'UrlDownloader')):
        run = P.fn(root + '::Run')
        pick = {g.u for g in pickers(P, [run], kind)}
        start = {f.u for f in P.daemon_fns() if f.B and f.cl != threads and f.cl not in ('FeedCoordinator',) and any(n['k'] in ('new', 'ctor') and bare(f.typ(i)) == threads for i, n in enumerate(f.N))}
        n = 0
        todo = {}
        for u in start:
            if u == run.u: ctx.notes.append('%s starts downloads itself' % run.n)
            for h, i, how in P.callers().get(u, ()): todo[h.u] = h
        # helpers are followed from the thread function
        reach = {u for u in P.closure(lambda f: f.u in start) if P.fns[u].cl == root}
        if run.u in reach: todo = {u: h for u, h in todo.items() if not (h.cl == root and h.u != run.u and P.callers().get(h.u) and all(x.cl == root for x, _, _ in P.callers()[h.u]))}; todo[run.u] = run
        for h in todo.values():
            c = Go(ctx, kind, pick, start, reach - {run.u} - start - pick); s = simmod.Sim(P, ctx.eff, c, K=8, budget=400000)
            s.run_fn(simmod.Frame(h, ('this',)), [init(next=None, temp=None, extra=None, pause=None, urlforce=None)])
            if s.truncated: ctx.notes.append('not all paths of %s were followed' % h.n)
            n += c.n; ctx.src(h.file)
        ctx.floor('starts of downloads by ' + root, n, 1)


class Again(simmod.Client):
    """the thread of a download: pause and quota are looked at after the wait for a connection"""
    inline_depth = 2
    def __init__(s, ctx, inl): s.ctx = ctx; s.inl = inl; s.n = 0
    def should_inline(s, sim, g): return g.u in s.inl

    def on_call(s, sim, st, fr, i, n, obj, args):
        if n['k'] != 'call': return None
        d = dict(st.client); f = fr.fn; fn = n.get('fn') or ''
        r = gates(st, n, d, f)
        if r: return r
        if fn == 'NzbInfo::GetForcePriority':
            if d['force'] is not None: return [(st, ('c', int(d['force'])))]
            return [(put(st, force=True), ('c', 1)), (put(st, force=False), ('c', 0))]
        if fn == 'FileInfo::GetExtraPriority': return [(put(st, extra=True), ('c', 1)), (put(st, extra=False), ('c', 0))]
        if fn == 'Util::Sleep': return [(put(st, pause=None, quota=None, temp=None, extra=None), None)]
        if fn.endswith('Connection::Connect'):
            s.n += 1
            def bad(what, key): s.ctx.violation('again', f.loc(i), '%s proceeds with the download after a wait %s (path %s)' % (f.n, what, st.path()), 'again ' + key)
            if not (d['pause'] is False and d['quota'] is False) and d['force'] is not True: bad('although downloading may have been paused or the quota may have been reached in the meantime', 'pause')
            elif d['temp'] is not False and d['extra'] is not True: bad('although downloading may have been paused temporarily in the meantime', 'temp')
        return None


def again(ctx):
    P = ctx.P
    f = P.fn('ArticleDownloader::Run'); ctx.need('ArticleDownloader::Run', f)
    def looks(g): return any((g.N[i].get('fn') or '') in ('WorkState::GetPauseDownload', 'WorkState::GetQuotaReached', 'WorkState::GetTempPauseDownload') or (g.N[i].get('fn') or '').endswith('Connection::Connect') for i in g.calls())
    inl = {g.u for i in f.calls() for g in P.targets(f, i) if g.cl == f.cl and g.B and looks(g)}
    c = Again(ctx, inl); s = simmod.Sim(P, ctx.eff, c, K=4, budget=600000)
    # the value of the priority, read before the loop, is kept in a variable
    s.run_fn(simmod.Frame(f, ('this',)), [init(pause=None, quota=None, temp=None, extra=None, force=None)])
    if s.truncated: ctx.notes.append('not all paths of %s were followed' % f.n)
    ctx.floor('attempts to connect', c.n, 1)
    ctx.src(f.file)


def run(ctx):
    P = ctx.P; E = {}
    for nm in ('ArticleInfo::EStatus', 'NzbInfo::EKind', 'NzbInfo::EUrlStatus', 'NzbInfo::EDeleteStatus'):
        for k, v in P.enums.get(nm, {'v': []})['v']: E[k.split('::')[-1]] = v
    ctx.need('states of articles and URLs', all(k in E for k in ('aiUndefined', 'nkUrl', 'lsNone', 'dsNone')))
    ctx.enums = E
    choices(ctx)
    starts(ctx)
    again(ctx)
