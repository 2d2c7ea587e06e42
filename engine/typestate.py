"""Interprocedural typestate: summaries (function, state before, known constants) -> states after, per truth of the result, computed path-sensitively with sim.Sim
and combined over the call graph to a fixpoint.  Calls of Subject::Notify lead to the Update functions of the observers that are attached to that class."""
import itertools
import sim as simmod
from ir import bare


def consts(t):
    """values of a term that is one of some constants"""
    if t[0] == 'c': return {t[1]}
    if t[0] == 'cond':
        a, b = consts(t[2]), consts(t[3])
        return a | b if a and b else None
    return None


class Client(simmod.Client):
    want_nodes = False
    def __init__(s, A, f): s.A = A; s.f = f; s.outs = set(); s.ev = 0; s.sites = {}; s.specs = {}
    def should_inline(s, sim, g): return False

    def on_call(s, sim, st, fr, i, n, obj, args):
        k = s.A.event(fr.fn, i, n)
        if k is None:
            ts = [g for g in s.A.targets(fr.fn, i) if g.u in s.A.rel]
            if ts: s.specs[(fr.fn.u, i)] = {g.u: s.A.spec(st, fr.fn, i, g, args) for g in ts}
            return None
        s.ev += 1; s.A.sim = sim; x = s.A.step(k, st.client, st, fr.fn, i, args)
        if x is None or isinstance(x, list): return x
        st.client = x
        return None

    def after_call(s, sim, st, fr, i, n, obj, args, ret):
        if s.A.event(fr.fn, i, n) is not None: return None
        outs = s.A.after(fr.fn, i, st.client, s.specs.pop((fr.fn.u, i), {}))
        if outs is None: return None
        res = []
        for o, t in sorted(outs, key=repr):
            y = st.with_client(o)
            if t is not None and ret is not None and isinstance(ret, tuple):
                res += sim.assume(y, ret, t)
            else: res.append(y)
        return res


class Typestate:
    def __init__(s, ctx, K=6):
        s.K = K
        s.ctx = ctx; s.P = P = ctx.P
        s.sum = {}; s.lists = {}; s.evc = {}

    def observers(s):
        """Update functions of the observers attached to subjects of a class; callers by way of Subject::Notify"""
        P = s.P; s.att = []; s.ntf = {}; s.up = {}
        for f in P.daemon_fns():
            for i in f.calls():
                n = f.N[i]
                if n.get('fn') == 'Subject::Attach' and n.get('a'):
                    a = n['a'][0]
                    while f.N[a]['k'] in ('cast', 'un'): a = f.N[a]['x']
                    s.att.append((s.recv(f, i), bare(f.typ(a)) if f.N[a]['k'] != 'this' else f.cl))
        for f in P.daemon_fns():
            for i in f.calls():
                if f.N[i].get('fn') != 'Subject::Notify': continue
                c = s.recv(f, i); t = set()
                for sub, ob in s.att:
                    if sub in P.subclasses(c) or c in P.subclasses(sub): t |= {P.fns[u] for u in P.overriders(P.fn('Observer::Update').u) if u in P.fns and (P.fns[u].cl in P.subclasses(ob) or P.fns[u].cl in P.bases(ob))} if P.fn('Observer::Update') else {g for g in P.daemon_fns() if g.n.split('::')[-1] == 'Update' and (g.cl == ob)}
                s.ntf[(f.u, i)] = sorted(t, key=lambda g: g.u)
                for g in t: s.up.setdefault(g.u, []).append((f, i, 'call'))

    def recv(s, f, i):
        o = f.N[i].get('o', -1)
        if o < 0 or f.N[o]['k'] == 'this': return f.cl
        while f.N[o]['k'] == 'cast' and 'Subject' in f.typ(o): o = f.N[o]['x']
        if f.N[o]['k'] == 'this': return f.cl
        t = bare(f.typ(o))
        if f.N[o]['k'] == 'call' and t in ('Subject', '') or 'Guarded' in t or 'DownloadQueue' in f.typ(o): t = 'DownloadQueue' if 'DownloadQueue' in f.typ(o) else t
        return t

    def targets(s, f, i):
        if (f.u, i) in s.ntf: return s.ntf[(f.u, i)]
        return s.P.targets(f, i)

    def callers(s, u):
        out = [x for x in s.P.callers().get(u, ()) if x[0].n != 'Subject::Notify']
        return out + s.up.get(u, [])

    def step(s, k, x, st, f, i, args): raise NotImplementedError
    def event1(s, f, i, n): return None
    def possible(s, m, st, f):
        """members of enumeration type have one of the values of the enumeration"""
        for x in s.P.records.get(f.cl or '', {}).get('fields', ()):
            e = s.P.enums.get(bare(x['ts']))
            if e and len(e['v']) < 20:
                t = m.lookup(st, ('f', ('this',), f.cl, x['m']))
                if all(m.truth(st, ('eq', t, ('c', v))) is False for n, v in e['v']): return False
        return True

    def open(s, x): return bool(x)
    def skip(s, f): return (f.cl or '').startswith('UniqueDeque')

    def outer(s, u, rel): return u in s.runs or not any(g.u in rel for g, i, how in s.callers(u))

    def event(s, f, i, n):
        k = (f.u, i)
        if k not in s.evc: s.evc[k] = s.event1(f, i, n)
        return s.evc[k]

    def spec(s, st, f, i, g, args):
        """constant arguments of enumeration and bool type; the same for members of structures passed by pointer"""
        out = []; alt = []; P = s.P; a = f.N[i].get('a', ())
        if (f.u, i) in s.ntf: args = [None] + list(args); a = [-1] + list(a)
        for k in range(len(g.p)):
            if k >= len(args) or not args[k]: continue
            t = bare(g.ptype(k)); x = args[k]
            if '*' not in g.ptype(k):
                if x[0] != 'c' and k < len(a) and a[k] >= 0: x = s.element(st, f, a[k]) or x
                if x[0] == 'c' and isinstance(x[1], int) and (t == 'bool' or t in P.enums): out.append((k, x[1]))
                continue
            if x[0] == 'addr' and x[1][0] == 'v' and x[1][1] == f.tu:
                v = st.env.get(x[1][1:])
                cl = bare(s.vartype(f, x[1][2]))
                r = P.records.get(cl)
                if v and v[0] == 'ilist' and r:
                    for m, y in zip(r['fields'], v[1:]):
                        if bare(m['ts']) not in P.enums: continue
                        c = consts(y) or s.leaves(f, x[1][2], r['fields'].index(m))
                        if c: alt.append([(k, cl, m['m'], z) for z in c])
            elif x[0] == 'v':
                for h, y in st.heap.items():
                    if h[0] == 'f' and h[1] == x and y[0] == 'c' and isinstance(y[1], int): out.append((k, h[2], h[3], y[1]))
        return [tuple(sorted(out + list(z), key=repr)) for z in itertools.product(*alt)]

    def leaves(s, f, vi, k):
        """constants an element of the initialiser of a local structure can have, if it is never assigned"""
        for n in f.N:
            if n['k'] != 'decl': continue
            for d in n['vars']:
                if d['vi'] != vi or d.get('i', -1) < 0: continue
                i = d['i']
                while f.N[i]['k'] == 'cast': i = f.N[i]['x']
                if f.N[i]['k'] != 'ilist' or k >= len(f.N[i]['a']): return None
                todo = [f.N[i]['a'][k]]; res = set()
                while todo:
                    j = todo.pop(); m = f.N[j]
                    if m['k'] == 'cond' and 'cv' not in m: todo += [m['y'], m['z']]
                    elif 'cv' in m: res.add(m['cv'])
                    elif m['k'] == 'cast': todo.append(m['x'])
                    else: return None
                return res
        return None

    def vartype(s, f, vi):
        for n in f.N:
            if n['k'] == 'decl':
                for d in n['vars']:
                    if d['vi'] == vi: return f.T[d['t']]
        return ''

    def element(s, st, f, a):
        """element of a local table with a constant index"""
        while f.N[a]['k'] == 'cast': a = f.N[a]['x']
        n = f.N[a]
        if n['k'] != 'idx': return None
        x = n['x']
        while f.N[x]['k'] == 'cast': x = f.N[x]['x']
        if f.N[x]['k'] != 'ref': return None
        vi = f.N[x].get('vi'); t = st.env.get((f.tu, vi)); y = n['y']
        while f.N[y]['k'] == 'cast': y = f.N[y]['x']
        k = st.env.get((f.tu, f.N[y].get('vi'))) if f.N[y]['k'] == 'ref' else ('c', f.N[y]['cv']) if 'cv' in f.N[y] else None
        if t and t[0] == 'ilist' and k and k[0] == 'c' and isinstance(k[1], int) and 0 <= k[1] < len(t) - 1:
            if any(m['k'] == 'bin' and m['op'] == '=' and f.N[m['x']]['k'] == 'idx' and f.N[f.N[m['x']]['x']].get('vi') == vi for m in f.N): return None
            return t[1 + k[1]]
        return None

    def after(s, f, i, x, specs):
        """states after the call, per truth of the result; None if the call does not matter"""
        res = set(); found = False
        for g in s.targets(f, i):
            if g.u not in s.rel or g.u in s.runs: res.add((x, None)); continue
            found = True
            for sp in specs.get(g.u, [()]):
                key = (g.u, x, sp)
                s.users.setdefault(key, set()).add(s.now)
                if key not in s.sum: s.sum[key] = {}; s.todo.append(key)
                res |= set(s.sum[key])
        return res if found else None

    def compute(s, u, x, sp):
        s.now = (u, x, sp); f = s.P.fns[u]
        c = Client(s, f)
        m = simmod.Sim(s.P, s.ctx.eff, c, K=s.K, budget=40000 if s.K < 10 else 200000)
        st0 = simmod.State(client=x)
        for e in sp:
            if len(e) == 2: st0.env[(f.tu, f.p[e[0]]['vi'])] = ('c', e[1])
            else: st0.heap[('f', ('v', f.tu, f.p[e[0]]['vi']), e[1], e[2])] = ('c', e[3])
        for st, v in m.run_fn(simmod.Frame(f, ('this',)), [st0]):
            if not s.possible(m, st, f): continue
            c.outs.add((st.client, m.truth(st, v) if v is not None and f.rt == 'bool' else None, st.path()))
        s.ev += c.ev; s.paths[u] = s.paths.get(u, 0) + len(c.outs)
        if m.truncated: s.trunc.add(f.n)
        for k, v in c.sites.items(): s.site.setdefault((u, k), v)
        out = s.sum.setdefault(s.now, {}); new = False
        for o, t, p in c.outs:
            if (o, t) not in out: out[(o, t)] = p; new = True
        return new

    def run(s, roots=None):
        """roots: (function, state) to start with; without it, the functions with events and upwards from there"""
        P = s.P; s.users = {}; s.todo = []; s.paths = {}; s.trunc = set(); s.site = {}; s.ev = 0
        s.observers(); s.runs = {h.u for h in P.daemon_fns() if h.cl and 'Thread' in P.bases(h.cl) and h.n.split('::')[-1] == 'Run'}
        direct = set()
        for f in P.daemon_fns():
            if s.skip(f): continue
            if any(s.event(f, i, f.N[i]) is not None for i in f.calls()): direct.add(f.u)
        s.direct = direct
        rel = set(direct); todo = list(rel)        # functions from which an event can be reached
        while todo:
            u = todo.pop()
            if u in s.runs: continue
            for g, i, how in s.callers(u):
                if g.u in rel or s.skip(g): continue
                rel.add(g.u); todo.append(g.u)
        s.rel = rel
        for u, x in (sorted((u, 0) for u in direct) if roots is None else roots): s.sum[(u, x, ())] = {}; s.todo.append((u, x, ()))
        n = 0
        while s.todo:
            key = s.todo.pop(0); u, x, sp = key; n += 1
            if n > 5000: s.ctx.need('fixpoint of the summaries', False); break
            if s.compute(u, x, sp):
                for y in s.users.get(key, ()):
                    if y not in s.todo: s.todo.append(y)
                if roots is None and x == 0 and not sp and u not in s.runs and any(s.open(o) for o, t in s.sum[key]):
                    for g, i, how in s.callers(u):
                        if g.u in rel and (g.u, 0, ()) not in s.sum: s.sum[(g.u, 0, ())] = {}; s.todo.append((g.u, 0, ()))
        return rel
