"""Kinds of history records.  All paths of all functions that ask a history record for the data of one kind: the record must be known to be
of that kind on the path (comparisons of its kind, switch cases).  Where the record is a parameter, what the function needs to know is required of its
callers, transitively.  Variables that keep a record across iterations of a loop remember what was known when they were set."""
from common import *
import sim as simmod

LEVEL = 'other'
TECHNIQUE = 'path-sensitive analysis of the kind of each record (tagged union), requirements on parameters passed up to the callers'
NOTE = 'The two kinds that stand for an NzbInfo (download and URL) share their data and are not told apart.'
ASSUMPTIONS = ['the kind of a record does not change after its construction (checked: only the constructors write it)']
HI = 'HistoryInfo'
NEED = {}


class Kind(simmod.Client):
    def __init__(s, ctx, f, keep, req):
        s.ctx = ctx; s.f = f; s.keep = keep; s.req = req; s.n = 0; s.out = []; s.calls = 0
        # what is known about the records at hand and about flags computed from their kind keeps states apart
        s.recs = []; s.flags = []
        for i, n in enumerate(f.N):
            if n['k'] == 'decl':
                for v in n['vars']:
                    if not v.get('i'): continue
                    if bare(f.T[v['t']]) == HI and '*' in f.T[v['t']]: s.recs.append(v['vi'])
                    elif bare(f.T[v['t']]) == 'bool' and any(f.N[j].get('fn') == HI + '::GetKind' for j in f.subtree(v['i'])): s.flags.append(v['vi'])
    def part(s, sim, st):
        if not s.flags: return st.client
        out = [st.client]
        for vi in s.flags:
            v = st.env.get((s.f.tu, vi)); out.append(v if v is not None and v[0] == 'c' else None)
        for vi in s.recs:
            v = st.env.get((s.f.tu, vi))
            if v is not None: out.append((vi, frozenset(k for k in s.ctx.kinds if sim.assume(st, sim.cmp('==', sim.lookup(st, ('f', v, HI, s.ctx.field)), ('c', k)), True))))
        return tuple(out)
    def should_inline(s, sim, g): return g.cl == HI and len(g.N) < 10 and bool(g.B) or g.kind == 'lambda' and g.encl == s.f.u

    def kinds(s, sim, st, f, i, obj):
        """kinds that the record may have"""
        while f.N[i]['k'] == 'cast': i = f.N[i]['x']
        n = f.N[i]
        out = frozenset(k for k in s.ctx.kinds if sim.assume(st, sim.cmp('==', sim.lookup(st, ('f', obj, HI, s.ctx.field)), ('c', k)), True))
        if n['k'] == 'ref' and n.get('vi') is not None:
            d = dict(st.client)
            if n['vi'] in d: out &= d[n['vi']]
        return out

    def on_assign(s, sim, st, fr, i, lv, val):
        f = fr.fn
        if lv[0] != 'v' or lv[2] not in s.keep or lv[1] != f.tu: return None
        n = f.N[i]
        if val == ('c', 0): k = frozenset()
        else: k = s.kinds(sim, st, f, n['y'] if n['k'] == 'bin' else i, val)
        d = dict(st.client); d[lv[2]] = k
        st.client = tuple(sorted(d.items(), key=str))
        return None

    def on_call(s, sim, st, fr, i, n, obj, args):
        if n['k'] != 'call': return None
        f = fr.fn
        want = s.ctx.want.get(n.get('fn'))
        if want and obj is not None:
            s.n += 1
            s.check(sim, st, fr, i, n['o'], obj, want, 'reads the data of a %s from a history record' % ('remembered duplicate' if s.ctx.dup in want else 'download'))
            if want: return None
        for g in sim.P.targets(f, i):
            for k, w in s.req.get(g.u, {}).items():
                if k < len(args):
                    s.calls += 1; s.check(sim, st, fr, i, n['a'][k], args[k], w, 'passes a history record to %s' % g.n)
        return None

    def check(s, sim, st, fr, i, on, obj, want, what):
        f = fr.fn
        left = s.kinds(sim, st, f, on, obj) - want
        if not left: return
        # a parameter: required of the callers
        while f.N[on]['k'] == 'cast': on = f.N[on]['x']
        n = f.N[on]
        if n['k'] == 'ref' and n.get('dk') == 'par' and fr.parent is None and f.kind != 'lambda':
            for k, p in enumerate(f.p):
                if p['vi'] == n['vi']:
                    s.out.append((f.u, k, want)); return
        s.ctx.violation('kind', f.loc(i), '%s %s although the record may be of another kind (path %s)' % (f.n, what, st.path()), 'kind %s %s' % (f.n, what))


def run(ctx):
    P = ctx.P
    if HI not in P.records: ctx.need('class HistoryInfo', None); return
    E = dict((k.split('::')[-1], v) for k, v in P.enums.get(HI + '::EKind', {'v': []})['v'])
    ctx.need('kinds of history records', {'hkNzb', 'hkUrl', 'hkDup'} <= set(E))
    g = P.fn(HI + '::GetKind'); ctx.need('HistoryInfo::GetKind', g)
    ctx.field = next(n['m'] for n in g.N if n['k'] == 'mem')
    ctx.kinds = [E[k] for k in ('hkNzb', 'hkUrl', 'hkDup')]; ctx.dup = E['hkDup']
    nzb = frozenset((E['hkNzb'], E['hkUrl'])); dup = frozenset((E['hkDup'],))
    ctx.want = {}
    for f in P.fns.values():
        if f.cl == HI and f.kind not in ('ctor', 'dtor') and f.B:
            if bare(f.rt) == 'DupInfo': ctx.want[f.n] = dup
            elif bare(f.rt) == 'NzbInfo': ctx.want[f.n] = nzb
    ctx.need('functions that give access to the data', len(ctx.want) >= 2)
    # the kind is set by the constructors only
    for f in P.daemon_fns():
        for i, n in enumerate(f.N):
            if n['k'] == 'bin' and n['op'] == '=' and f.N[n['x']].get('m') == ctx.field and f.N[n['x']].get('cl') == HI and f.kind != 'ctor':
                ctx.violation('kind', f.loc(i), '%s changes the kind of a history record' % f.n, 'changes ' + f.n)
    req = {}
    users = {f.u: f for f in P.daemon_fns() if f.B and f.kind not in ('ctor',) and f.n not in ctx.want and any(f.N[i].get('fn') in ctx.want for i in f.calls())}
    todo = dict(users); done = {}; total = 0
    while todo:
        u, f = todo.popitem()
        keep = set()
        for n in f.N:
            if n['k'] == 'bin' and n['op'] == '=':
                x = n['x']
                while f.N[x]['k'] == 'cast': x = f.N[x]['x']
                if f.N[x]['k'] == 'ref' and f.N[x].get('vi') is not None and bare(f.typ(x)) == HI and f.typ(x).rstrip().endswith('*'): keep.add(f.N[x]['vi'])
        c = Kind(ctx, f, keep, req); s = simmod.Sim(P, ctx.eff, c, K=6, budget=300000)
        st = simmod.State(client=())
        s.run_fn(simmod.Frame(f, ('this',)), [st])
        if s.truncated: ctx.notes.append('not all paths of %s were followed' % f.n)
        done[u] = (c.n, c.calls); ctx.src(f.file)
        for fu, k, w in c.out:
            old = req.setdefault(fu, {}).get(k)
            new = w if old is None else old & w
            if new != old:
                req[fu][k] = new
                callers = P.callers().get(fu, ())
                if not callers: ctx.notes.append('%s has no callers that could be checked' % P.fns[fu].n)
                for h, i, how in callers: todo[h.u] = h
    ctx.count('accesses to the data of history records', sum(a for a, b in done.values()))
    ctx.count('functions', len(done)); ctx.count('parameters whose kind the callers must know', sum(len(x) for x in req.values()))
    ctx.floor('functions', len(done), 5)
    ctx.samples['requirements'] = {P.fns[u].n: {str(k): sorted(w) for k, w in x.items()} for u, x in req.items()}
