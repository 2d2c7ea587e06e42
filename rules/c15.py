"""Names and handlers of enumeration values.
 (1) every table indexed by an enumeration has an entry for each value the index can have (interval of the index where it is not the whole enumeration);
 (2) tables of names indexed by the same enumeration agree with each other and with the names of the values: an entry that names another value of
     the enumeration, or is used for another value in a sibling table, is a swap;
 (3) texts mapped to values (option tables, command tables, comparisons of a text followed by the choice of a value) never map the name of one value to another;
 (4) every queue command clients can name is executed: run abstractly with that command fixed, the editing functions call something they do not call for an unknown command;
     every scheduler command that can be configured has its case."""
from common import *
import sim as simmod

LEVEL = 'other'
TECHNIQUE = 'table extraction and agreement of sibling tables; abstract interpretation of the command dispatch per command value'
NOTE = 'Decides completeness and agreement of name tables and dispatches. A handler that does something else than its name says is not recognised.'


def norm(t): return re.sub(r'[^A-Z0-9]', '', t.upper())


def ename(e): return norm(re.sub(r'^[a-z]+', '', e.split('::')[-1]) or e)


def root(f, i):
    while f.N[i]['k'] == 'cast': i = f.N[i]['x']
    return i


class Tables:
    def __init__(s, ctx):
        s.ctx = ctx; s.P = ctx.P; s.idx = {}; s.checked = 0; s.pairs = 0

    def enum_of(s, t):
        t = bare(t).strip()
        if t in s.P.enums: return t
        c = [e for e in s.P.enums if e.split('::')[-1] == t.split('::')[-1]]
        return c[0] if len(c) == 1 else None

    def initlist(s, f, x):
        """(list of element nodes, node table) of an array"""
        n = f.N[x]
        if n['k'] != 'ref': return None
        if n['dk'] == 'loc':
            for j in f.reach_nodes():
                if f.N[j]['k'] == 'decl':
                    for d in f.N[j]['vars']:
                        if d['vi'] == n['vi'] and d.get('i', -1) >= 0 and f.N[d['i']]['k'] == 'ilist': return [root(f, a) for a in f.N[d['i']]['a']], f.N
        elif n['dk'] == 'glob':
            g = s.P.globals.get(n.get('d'))
            if g and g.get('i', -1) >= 0 and g['N'][g['i']]['k'] == 'ilist':
                def r(i):
                    while g['N'][i]['k'] == 'cast': i = g['N'][i]['x']
                    return i
                return [r(a) for a in g['N'][g['i']]['a']], g['N']
        return None

    def run(s):
        P, ctx = s.P, s.ctx
        E = {}
        for f in sorted(P.daemon_fns(), key=lambda f: (f.file, f.l, f.u)):
            for i in sorted(f.reach_nodes()):
                n = f.N[i]
                if n['k'] != 'idx': continue
                y = root(f, n['y']); e = s.enum_of(f.typ(y))
                if not e: continue
                x = root(f, n['x']); m = re.search(r'\[(\d+)\]', f.typ(x))
                if not m: continue
                ln = int(m.group(1)); s.checked += 1
                vals = [v for _, v in P.enums[e]['v']]
                if max(vals) >= ln: s.bounded(f, i, ln, e)
                il = s.initlist(f, x)
                if il: E.setdefault(e, {})[(f.u, f.N[x].get('d', f.N[x].get('vi')))] = (f, i, il)
        for e, d in E.items(): s.siblings(e, d)
        ctx.floor('accesses to tables indexed by enumerations', s.checked, 25)

    def bounded(s, f, i, ln, e):
        """the index is limited by the program"""
        ctx = s.ctx; bad = []
        class K(simmod.Client):
            want_nodes = True
            def should_inline(k, sim, g): return False
            def on_node(k, sim, st, fr, j, n):
                if j == i and fr.fn is f:
                    t = sim.eval(st, fr, root(f, f.N[i]['y']))
                    lo, hi, ne = sim.interval(st, t)
                    if hi >= ln: bad.append(st.path())
        entries = [f]
        # the values come from the callers
        vi = f.N[root(f, f.N[i]['y'])].get('vi')
        par = [k for k, p in enumerate(f.p) if p['vi'] == vi]
        if not par:
            simmod.Sim(s.P, ctx.eff, K(), K=2, budget=20000).run(f)
        else:
            # each caller with the values it can pass on
            for g, c, how in s.P.callers().get(f.u, ()):
                if c is None: continue
                k = par[0]; a = g.N[c].get('a', ())
                if k >= len(a): continue
                class C(simmod.Client):
                    want_nodes = True
                    def should_inline(k2, sim, h): return False
                    def on_call(k2, sim, st, fr, j, n, obj, args):
                        if j == c and fr.fn is g:
                            lo, hi, ne = sim.interval(st, args[k])
                            if hi >= ln: bad.append(g.loc(c))
                        return None
                simmod.Sim(s.P, ctx.eff, C(), K=4, budget=40000).run(g)
        if bad: ctx.violation('table', f.loc(i), '%s: a table of %i entries is indexed by %s, which can be larger: %s' % (f.n, ln, e, bad[0]), '%s: %s' % (f.n, e))

    def siblings(s, e, d):
        ctx = s.ctx; vals = {}
        for nm, v in s.P.enums[e]['v']: vals.setdefault(v, nm)
        tabs = []
        for (f, i, (els, N)) in d.values():
            tx = [N[x].get('v') if N[x]['k'] == 'str' else None for x in els]
            if sum(t is not None for t in tx) * 2 > len(tx): tabs.append((f, i, [t.strip() if t is not None else None for t in tx]))
            # tables that map an enumeration to itself
            en = [N[x] for x in els]
            if any(z['k'] == 'ref' and z.get('dk') == 'enum' and s.enum_of(z.get('en', '')) == e for z in en):
                own = {nm.split('::')[-1]: v for nm, v in s.P.enums[e]['v']}
                for p, z in enumerate(en):
                    if z['k'] != 'ref' or z.get('dk') != 'enum' or p not in vals: continue
                    s.pairs += 1
                    me = vals[p].split('::')[-1]; it = z['d'].split('::')[-1]
                    if 'File' in it and 'Group' in me:
                        want = me.replace('Group', 'File')
                        if want in own and it != want: ctx.violation('table', f.loc(i), '%s: the table maps %s to %s instead of %s' % (f.n, me, it, want), '%s: %s' % (f.n, me))
        for f, i, t in tabs:
            # entries against the names of the values
            nm = {v: ename(x) for v, x in vals.items()}
            for p, x in enumerate(t):
                if x is None or p not in nm: continue
                s.pairs += 1
                for q in nm:
                    if q != p and nm[q] == norm(x) and nm[p] != norm(x) and q < len(t) and t[q] is not None and norm(t[q]) != nm[q]:
                        ctx.violation('name', f.loc(i), '%s: the table of names shows "%s" for %s and "%s" for %s' % (f.n, x, vals[p], t[q], vals[q]), '%s: %s' % (f.n, vals[p]))
        for a in range(len(tabs)):
            for b in range(a + 1, len(tabs)):
                A, B = tabs[a][2], tabs[b][2]
                same = sum(x is not None and y is not None and norm(x) == norm(y) for x, y in zip(A, B))
                if same * 2 < min(len(A), len(B)): continue
                for p, (x, y) in enumerate(zip(A, B)):
                    s.pairs += 1
                    if x is None or y is None or norm(x) == norm(y): continue
                    if norm(x) in [norm(z) for z in B if z] or norm(y) in [norm(z) for z in A if z]:
                        ctx.violation('name', tabs[b][0].loc(tabs[b][1]), 'the value %s of %s is shown as "%s" by %s and as "%s" by %s' % (vals.get(p, p), e, x, tabs[a][0].n, y, tabs[b][0].n), '%s: %s' % (e, vals.get(p, p)))

    # -- texts to values
    def mapped(s, where, who, text, en, val):
        """a text chooses an enumerator"""
        e = s.enum_of(en)
        if not e: return
        s.pairs += 1
        own = ename(val)
        if own == norm(text): return
        for nm, v in s.P.enums[e]['v']:
            if nm.split('::')[-1] != val.split('::')[-1] and ename(nm) == norm(text):
                s.ctx.violation('name', where, '%s: the text "%s" stands for %s and not for %s' % (who, text, val, nm), '%s: %s' % (who, text))

    def texts(s):
        P, ctx = s.P, s.ctx
        n0 = s.pairs; opts = 0; cmds = {}
        # global tables of (value, text)
        for d, g in sorted(P.globals.items()):
            if g.get('i', -1) < 0 or not g.get('N') or g['N'][g['i']]['k'] != 'ilist': continue
            def r(i):
                while g['N'][i]['k'] == 'cast': i = g['N'][i]['x']
                return i
            seen = {}
            for a in g['N'][g['i']]['a']:
                el = g['N'][a]
                if el['k'] != 'ilist': continue
                ch = [g['N'][r(x)] for x in el['a']]
                en = [c for c in ch if c['k'] == 'ref' and c.get('dk') == 'enum']; tx = [c for c in ch if c['k'] == 'str']
                if len(en) == 1 and len(tx) == 1:
                    s.mapped('%s' % (g.get('n') or d), g.get('n') or d, tx[0]['v'], en[0].get('en', ''), en[0]['d'])
                    if norm(tx[0]['v']) in seen: ctx.violation('name', g.get('n') or d, 'the text "%s" is mapped twice in %s' % (tx[0]['v'], g.get('n') or d), '%s: %s' % (g.get('n'), tx[0]['v']))
                    seen[norm(tx[0]['v'])] = 1
                    cmds.setdefault(s.enum_of(en[0].get('en', '')), {})[en[0]['v']] = (en[0]['d'], tx[0]['v'], g.get('n') or d)
        for f in sorted(P.daemon_fns(), key=lambda f: (f.file, f.l, f.u)):
            # pairs of tables (texts, values) given to one function
            for i in f.calls():
                a = [root(f, x) for x in f.N[i].get('a', ())]
                tt = [x for x in a if re.match(r'^const char ?\* ?\[\d+\]$', f.typ(x))]
                vv = [x for x in a if re.match(r'^(const )?int ?\[\d+\]$', f.typ(x))]
                if len(tt) != 1 or len(vv) != 1: continue
                T = s.initlist(f, tt[0]); V = s.initlist(f, vv[0])
                if not T or not V: continue
                opts += 1
                cnt = [f.N[x].get('cv', f.N[x].get('v')) for x in a if f.N[x]['k'] in ('int', 'ref') and isinstance(f.N[x].get('cv', f.N[x].get('v')), int) and bare(f.typ(x)) in ('int', 'const int')]
                if len(T[0]) != len(V[0]) or cnt and cnt[0] != len(T[0]):
                    ctx.violation('table', f.loc(i), '%s: %i texts and %i values%s' % (f.n, len(T[0]), len(V[0]), ', %s of them used' % cnt[0] if cnt else ''), '%s: %s' % (f.n, T[1][T[0][0]].get('v') if T[0] else ''))
                for x, y in zip(T[0], V[0]):
                    if T[1][x]['k'] == 'str' and V[1][y].get('dk') == 'enum': s.mapped(f.loc(i), f.n, T[1][x]['v'], V[1][y].get('en', ''), V[1][y]['d'])
                    if T[1][x]['k'] == 'str' and V[1][y].get('dk') == 'enum': cmds.setdefault(s.enum_of(V[1][y].get('en', '')), {}).setdefault(V[1][y]['v'], (V[1][y]['d'], T[1][x]['v'], f.n))
            s.compared(f)
        ctx.floor('tables of option values', opts, 5)
        ctx.floor('names compared with their values', s.pairs, 150)
        return cmds

    def compared(s, f):
        """text comparisons followed by the choice of an enumerator"""
        for b, B in f.B.items():
            c = B.get('tc')
            if c is None or not isinstance(c, int) or c < 0: continue
            neg = False; j = root(f, c)
            while f.N[j]['k'] == 'un' and f.N[j]['op'] == '!': neg = not neg; j = root(f, f.N[j]['x'])
            n = f.N[j]
            if n['k'] == 'bin' and n['op'] in ('==', '!=') and f.N[root(f, n['y'])].get('cv', f.N[root(f, n['y'])].get('v')) == 0:
                if n['op'] == '==': neg = not neg
                j = root(f, n['x']); n = f.N[j]
            if n['k'] != 'call' or (n.get('fn') or '') not in ('strcmp', 'strcasecmp') : continue
            tx = [f.N[root(f, a)]['v'] for a in n['a'] if f.N[root(f, a)]['k'] == 'str']
            if len(tx) != 1 or len(B['s']) != 2: continue
            t = B['s'][0 if neg else 1]
            if t is None or t < 0: continue
            en = {}
            for el in f.B[t]['e']:
                if isinstance(el, int) and f.N[el]['k'] == 'ref' and f.N[el].get('dk') == 'enum': en.setdefault(f.N[el].get('en'), set()).add(f.N[el]['d'])
                elif isinstance(el, int):
                    for x in f.subtree(el):
                        if f.N[x]['k'] == 'ref' and f.N[x].get('dk') == 'enum': en.setdefault(f.N[x].get('en'), set()).add(f.N[x]['d'])
            for e, v in en.items():
                if len(v) == 1: s.mapped(f.loc(j), f.n, tx[0], e or '', next(iter(v)))


# ---- handlers
class Calls(simmod.Client):
    inline_depth = 6
    def __init__(s, kind): s.kind = kind; s.called = set()
    def disp(s, g): return any(bare(g.ptype(k)).split('::')[-1] == s.kind for k in range(len(g.p)))
    def should_inline(s, sim, g): return s.disp(g) and bool(g.B)
    def on_call(s, sim, st, fr, i, n, obj, args):
        ts = [g for g in sim.P.targets(fr.fn, i)]
        for g in ts:
            if g.file.startswith('daemon/'): s.called.add(g.u)
        return None


def runwith(ctx, f, kind, v):
    k = Calls(kind); s = simmod.Sim(ctx.P, ctx.eff, k, K=2, budget=30000)
    env = {}
    st = simmod.State(); st.client = ()
    fr = simmod.Frame(f, ('this',))
    for q, p in enumerate(f.p):
        if bare(f.ptype(q)).split('::')[-1] == kind: st.env[(f.tu, p['vi'])] = ('c', v)
    s.run_fn(fr, [st])
    return k.called


def handlers(ctx, cmds):
    P = ctx.P
    e = 'DownloadQueue::EEditAction'
    if e not in P.enums: return ctx.need(e, None)
    own = cmds.get(e) or {}
    ctx.floor('queue commands known by name', len(own), 30)
    disp = [f for f in P.daemon_fns() if f.B and f.n.split('::')[-1] in ('EditList', 'EditEntry') and f.cl in ('QueueEditor', 'HistoryCoordinator', 'PrePostProcessor') and any(bare(f.ptype(k)).split('::')[-1] == 'EEditAction' for k in range(len(f.p)))]
    ctx.floor('functions that execute queue commands', len(disp), 3)
    unknown = max(v for _, v in P.enums[e]['v']) + 1000
    roots = [f for f in disp if f.cl == 'QueueEditor' and f.n.endswith('EditList')] or disp
    base = {f.u for f in disp}; res = {}
    for f in disp: base |= runwith(ctx, f, 'EEditAction', unknown)
    for v in sorted(own):
        got = set()
        for f in roots: got |= runwith(ctx, f, 'EEditAction', v)
        res[v] = got - base
    often = {u for u in set().union(*res.values()) if sum(u in r for r in res.values()) > 0.3 * len(res)} if res else set()
    for v, (nm, text, where) in sorted(own.items()):
        if not res[v] - often:
            ctx.violation('handler', where, 'the command "%s" (%s) is accepted but nothing is executed for it' % (text, nm), 'command %s' % text)
    ctx.count('commands executed abstractly', len(own))


def switches(ctx, cmds):
    """every configurable value of an enumeration that a function dispatches on has a case that does something"""
    P = ctx.P
    e = next((x for x in P.enums if x == 'Scheduler::ECommand'), None)
    if not e: return
    own = cmds.get(e) or cmds.get('Options::ESchedulerCommand') or {}
    f = P.fn('Scheduler::ExecuteTask')
    if not f: return ctx.need('Scheduler::ExecuteTask', None)
    def runtask(v):
        class K(simmod.Client):
            def __init__(k): k.called = set()
            def should_inline(k, sim, g): return False
            def on_call(k, sim, st, fr, i, n, obj, args):
                k.called.add((n.get('fn'), i)); return None
            def on_assign(k, sim, st, fr, i, lv, val): k.called.add(('=', i))
        k = K(); s = simmod.Sim(P, ctx.eff, k, K=2, budget=20000)
        st = simmod.State(); st.client = ()
        class KK: pass
        # the command of the task
        for q, p in enumerate(f.p):
            st.env[(f.tu, p['vi'])] = ('par', q)
            st.heap[('f', ('par', q), 'Scheduler::Task', 'm_command')] = ('c', v)
        s.run_fn(simmod.Frame(f, ('this',)), [st])
        return k.called
    base = runtask(max(v for _, v in P.enums[e]['v']) + 1000)
    n = 0
    for v, (nm, text, where) in sorted(own.items()):
        n += 1
        if not runtask(v) - base: ctx.violation('handler', f.loc(), 'the scheduler command "%s" (%s) can be configured but is not executed' % (text, nm), 'scheduler command %s' % text)
    ctx.floor('scheduler commands executed abstractly', n, 8)


def mirrors(ctx):
    """enumerations converted into each other: the values of the same name are the same"""
    P = ctx.P; done = set(); n = 0
    t = Tables(ctx)
    for f in sorted(P.daemon_fns(), key=lambda f: (f.file, f.l, f.u)):
        for i in f.reach_nodes():
            c = f.N[i]
            if c['k'] != 'cast': continue
            a = t.enum_of(f.typ(i)); x = c['x']; b = None
            while True:
                b = t.enum_of(f.typ(x))
                if b or f.N[x]['k'] != 'cast': break
                x = f.N[x]['x']
            if not a or not b or a == b or (a, b) in done or f.N[x].get('dk') == 'enum': continue
            done.add((a, b)); n += 1
            A = {ename(k): (k, v) for k, v in P.enums[a]['v']}
            for k, v in P.enums[b]['v']:
                if ename(k) in A and A[ename(k)][1] != v:
                    ctx.violation('mirror', f.loc(i), '%s converts %s to %s, but %s is %i there and %i here' % (f.n, b, a, k, A[ename(k)][1], v), '%s / %s: %s' % (b, a, k))
    ctx.count('enumerations converted into each other', n)


def run(ctx):
    mirrors(ctx)
    t = Tables(ctx)
    t.run()
    cmds = t.texts()
    handlers(ctx, cmds)
    switches(ctx, cmds)
