"""Pairing of borrowed news server connections.  Path-sensitive ownership analysis of every thread function that borrows connections
(the functions it calls are followed in the state of the caller): a connection that ServerPool::GetConnection returned is held until it has
been given to ServerPool::FreeConnection, or put into an object whose thread has been started; a thread that may be started with a
connection begins with holding it.  Holding one at the end, taking a second one over the first, giving back what is not held and using what
has been given back (or was never there) are violations.  The methods of the pool mark a connection as used exactly when they return it,
choose only unused ones, clear the mark when it comes back, and close or delete only connections that are not in use."""
from common import *
import sim as simmod

LEVEL = 'other'
TECHNIQUE = 'path-sensitive, interprocedural ownership (typestate) analysis of borrowed connections; typestate analysis of the pool'
NOTE = 'An exception thrown between taking and giving back a connection (memory exhaustion) is not considered. Thread::IsStopped is taken to remain true once it was true.'
ASSUMPTIONS = ['a stopped thread is not restarted', 'the generation number of the pool does not return to an earlier value']
POOL = 'ServerPool'
CONN = 'NntpConnection'


def isconn(t): return bare(t) in (CONN, POOL + '::PooledConnection', 'PooledConnection')


class Own(simmod.Client):
    """client: (held terms, {object: term} moved but not started, stopped, generation changed)"""
    inline_depth = 8
    def __init__(s, ctx, inl, root): s.ctx = ctx; s.inl = inl; s.root = root; s.n = {'taken': 0, 'returned': 0, 'used': 0, 'moved': 0}

    def should_inline(s, sim, g): return g.u in s.inl

    def bad(s, rule, st, fr, i, msg):
        s.ctx.violation(rule, fr.fn.loc(i) if i is not None else fr.fn.loc(), '%s (path %s)' % (msg, st.path()), '%s %s %s' % (s.root, fr.fn.n, rule))

    def on_call(s, sim, st, fr, i, n, obj, args):
        if n['k'] != 'call': return None
        held, moved, stopped, gen = st.client; fn = n.get('fn') or ''; f = fr.fn; last = lastname(n)
        if last == 'IsStopped' and not n.get('a'):
            if stopped: return [(st, ('c', 1))]
            return [(st.with_client((held, moved, True, gen)), ('c', 1)), (st, ('c', 0))]
        if fn == POOL + '::GetGeneration':
            if gen is None: return [(st.with_client((held, moved, stopped, False)), ('c', 1000))]
            if gen: return [(st, ('c', 1001))]
            return [(st, ('c', 1000)), (st.with_client((held, moved, stopped, True)), ('c', 1001))]
        if fn == POOL + '::GetConnection':
            s.n['taken'] += 1
            if held: s.bad('leak', st, fr, i, '%s takes a connection while it still holds another one' % f.n)
            t = sim.fresh(st, (f.u, i))
            out = [(st.with_client(st.client), ('c', 0))]
            for y in sim.assume(st, t, True): out.append((y.with_client((held | {t}, moved, stopped, gen)), t))
            return out
        if fn == POOL + '::FreeConnection':
            s.n['returned'] += 1; x = args[0]
            if x not in held:
                if sim.truth(st, x) is False: s.bad('null', st, fr, i, '%s gives back a connection that it does not have' % f.n)
                else: s.bad('not-held', st, fr, i, '%s gives back a connection that is not borrowed or has been given back before' % f.n)
                return None
            return [(st.with_client((held - {x}, moved, stopped, gen)), None)]
        if obj is not None and n.get('o', -1) >= 0 and isconn(f.typ(n['o'])):
            s.n['used'] += 1
            if obj in held: return None
            if any(m == obj for o, m in moved): return None
            if sim.truth(st, obj) is False: s.bad('null', st, fr, i, '%s uses a connection although none is held' % f.n)
            elif st.client[0] is not None: s.bad('used-after', st, fr, i, '%s uses a connection that is not borrowed or has been given back' % f.n)
            return None
        if last == 'Start' and obj is not None and any(o == obj for o, m in moved):
            return [(st.with_client((held, frozenset(x for x in moved if x[0] != obj), stopped, gen)), None)]
        return None

    def on_assign(s, sim, st, fr, i, lv, val):
        held, moved, stopped, gen = st.client
        if lv[0] != 'f' or (lv[2], lv[3]) not in s.ctx.fields: return None
        if lv[1] != ('this',) and val in held:
            s.n['moved'] += 1
            st.client = (held - {val}, moved | {(lv[1], val)}, stopped, gen)
        return None

    def on_exit(s, sim, st, fr, val):
        held, moved, stopped, gen = st.client
        if held: s.bad('leak', st, fr, None, '%s ends without giving back a connection it has borrowed' % fr.fn.n)
        if moved: s.bad('leak', st, fr, None, '%s puts a connection into an object whose thread is not started' % fr.fn.n)


def borrowers(ctx):
    P = ctx.P
    get, free = P.fn(POOL + '::GetConnection'), P.fn(POOL + '::FreeConnection')
    ctx.need('ServerPool::GetConnection and FreeConnection', get and free)
    get, free = get.u, free.u
    # fields of other classes that hold borrowed connections
    ctx.fields = {(c, x['m']) for c, r in P.records.items() if c and not c.startswith(POOL) for x in r['fields'] if bare(x['ts']) == CONN and '*' in x['ts'] and r.get('file', 'daemon/').startswith('daemon/')}
    touch = set()          # functions that matter
    for f in P.daemon_fns():
        if f.cl and f.cl.startswith(POOL): continue
        if any(m['k'] == 'mem' and (m['cl'], m['m']) in ctx.fields for m in f.N) or any(f.N[i].get('fn') in (POOL + '::GetConnection', POOL + '::FreeConnection') for i in f.calls()): touch.add(f.u)
    # every caller of a function that matters within its class, too (helper functions)
    rel = set(touch); grow = True
    runs = set(P.overriders(P.fn('Thread::Run').u)) & set(P.fns) if P.fn('Thread::Run') else set()
    stops = {'Stop', 'Cancel', 'LogDebugInfo'}
    while grow:
        grow = False
        for u in list(rel):
            if u in runs: continue
            for g, i, how in P.callers().get(u, ()):
                if g.u not in rel and (g.cl or '').split('::')[0] == (P.fns[u].cl or '').split('::')[0] or g.u not in rel and u in touch and not P.fns[u].n.split('::')[-1] in stops and \
                        any(g.N[j].get('fn') == POOL + '::GetConnection' for j in g.calls()):
                    rel.add(g.u); grow = True
    # functions that pass connections on
    grow = True
    while grow:
        grow = False
        for u in list(rel):
            f = P.fns[u]
            if not any(isconn(f.ptype(k)) for k in range(len(f.p))): continue
            for g, i, how in P.callers().get(u, ()):
                if g.u not in rel and g.u not in runs and not (g.cl or '').startswith(POOL): rel.add(g.u); grow = True
    direct = {f.u for f in P.daemon_fns() if any(f.N[i].get('fn') == POOL + '::GetConnection' for i in f.calls())}
    # roots: climb from the functions that borrow until a thread function or a function nobody calls
    roots = set(); seen = set(); stack = list(direct)
    while stack:
        u = stack.pop()
        if u in seen: continue
        seen.add(u)
        cs = [g.u for g, i, how in P.callers().get(u, ()) if g.u != u]
        if u in runs or not cs: roots.add(u)
        else: stack += cs
    # threads that can be started with a connection
    for c, m in ctx.fields:
        for u in runs:
            if P.fns[u].cl == c: roots.add(u)
    tot = {}
    for u in sorted(roots):
        f = P.fns[u]
        own = [(c, m) for c, m in ctx.fields if f.cl and c in P.bases(f.cl)]
        inl = (rel | {x for x in seen}) - runs - {g.u for g in P.daemon_fns() if g.n.split('::')[-1] in stops}
        for has in ((False, True) if own else (False,)):
            c = Own(ctx, inl, f.n)
            s = simmod.Sim(P, ctx.eff, c, K=4, budget=3000000)
            st = simmod.State(); held = frozenset()
            for cl, m in own:
                t = ('u', ('borrowed', m)) if has else ('c', 0)
                st.heap[('f', ('this',), cl, m)] = t
                if has: st = s.assume(st, t, True)[0]; held |= {t}
            st.client = (held, frozenset(), False, None)
            ex = s.run_fn(simmod.Frame(f, ('this',)), [st])
            for y, val in ex: c.on_exit(s, y, simmod.Frame(f, ('this',)), val)
            if s.truncated: ctx.notes.append('%s: not all paths were followed' % f.n)
            for k, v in c.n.items(): tot[k] = tot.get(k, 0) + v
        ctx.src(f.file)
    ctx.samples = sorted(P.fns[u].n for u in roots)
    ctx.floor('functions that borrow connections', len(direct), 1)
    ctx.floor('thread functions analysed', len(roots), 1)
    ctx.floor('connections taken on the paths', tot.get('taken', 0), 2)
    ctx.floor('connections given back on the paths', tot.get('returned', 0), 2)
    ctx.floor('uses of connections on the paths', tot.get('used', 0), 10)
    ctx.count('connections passed on', tot.get('moved', 0))
    # nobody else gives connections back or borrows them
    done = set()
    st = [u for u in roots]
    while st:
        u = st.pop()
        if u in done: continue
        done.add(u)
        for i in P.fns[u].calls(): st += [g.u for g in P.targets(P.fns[u], i) if g.u in inlset(ctx, rel, seen)]
    for f in P.daemon_fns():
        if f.u in done or (f.cl or '').startswith(POOL): continue
        for i in f.calls():
            if f.N[i].get('fn') == POOL + '::FreeConnection':
                ctx.violation('foreign', f.loc(i), '%s gives back a connection without having borrowed one' % f.n, f.n + ' foreign')


def inlset(ctx, rel, seen): return rel | seen


class Pool(simmod.Client):
    """client: (connections marked as used, connections cleared, containers with unsuitable elements, level changes, conditions of the server)"""
    inline_depth = 5
    def __init__(s, ctx, f, level): s.ctx = ctx; s.f = f; s.level = level; s.n = 0; s.io = 0; s.want_nodes = True; s.chk = 0
    def should_inline(s, sim, g): return (g.cl or '') == POOL and bool(g.B) and g.u != s.f.u and g.n.split('::')[-1] != 'IsServerBlocked'

    def flag(s, obj): return ('f', obj, POOL + '::PooledConnection', 'm_inUse')
    def inuse(s, sim, st, obj):
        r = [v for o, v in st.client[2] if o == obj]
        return sim.truth(st, r[0]) if r else None

    def on_call(s, sim, st, fr, i, n, obj, args):
        if n['k'] != 'call': return None
        used, freed, fl, lev, cond = st.client; f = fr.fn; last = lastname(n)
        if n.get('cl') == POOL + '::PooledConnection' and last == 'GetInUse':
            for o, v in fl:
                if o == obj: return [(st, v)]
            t = sim.fresh(st, (f.u, i)); s.chk += 1
            return [(st.with_client((used, freed, frozenset({(obj, t)}), lev, cond)), t)]      # what was known of others is forgotten
        if n.get('cl') == POOL + '::PooledConnection' and last == 'SetInUse':
            s.n += 1
            v = sim.truth(st, args[0])
            if v is True:
                if s.inuse(sim, st, obj) is True: s.ctx.violation('double', f.loc(i), '%s lends a connection that is in use' % f.n, f.n + ' double')
                return [(st.with_client(((used + (obj,))[:2], freed, fl, lev, cond)), None)]
            if v is False: return [(st.with_client((used, (freed + (obj,))[:2], fl, lev, cond)), None)]
            s.ctx.violation('mark', f.loc(i), '%s: the mark of a connection does not follow from the code' % f.n, f.n + ' mark'); return None
        if last in ('push_back', 'emplace_back') and n['a'] and bare(f.typ(n['a'][0])) in ('PooledConnection', POOL + '::PooledConnection') and '*' in f.typ(n['a'][0]) and s.f.n == POOL + '::GetConnection':
            s.io += 1
            if s.inuse(sim, st, args[0]) is not False:
                s.ctx.violation('candidate', f.loc(i), '%s considers a connection without having found it to be unused (path %s)' % (f.n, st.path()), f.n + ' candidate')
            return None
        if n.get('op') in ('[]', '*', '->') or last in ('at', 'back', 'front'):
            if 'PooledConnection *' in f.typ(i) and '&' not in f.typ(i) or isconn(f.typ(i)):
                t = sim.fresh(st, (f.u, i))      # the elements of the list are connections, not null
                return [(y, t) for y in sim.assume(st, t, True)]
        if last in ('GetActive', 'GetNormLevel') and n.get('cl') == 'NewsServer':
            if s.f.n == POOL + '::GetConnection': return None
            t = sim.fresh(st, (f.u, i))
            return [(st.with_client((used, freed, fl, lev, cond | {(last, t)})), t)]
        return None

    def on_node(s, sim, st, fr, i, n):
        f = fr.fn
        d = 0
        if n['k'] == 'un' and n['op'] in ('++', '--', 'post++', 'post--', 'pre++', 'pre--'): d = 1 if '+' in n['op'] else -1
        elif n['k'] == 'bin' and n['op'] in ('+=', '-='): d = 1 if n['op'] == '+=' else -1
        if d:
            x = n['x']
            if any(f.N[j]['k'] == 'mem' and f.N[j]['cl'] == POOL and f.N[j]['m'] in s.level for j in f.subtree(x)):
                used, freed, fl, lev, cond = st.client
                st.client = (used, freed, fl, max(-2, min(2, lev + d)), cond)
        return None


def pool(ctx):
    P = ctx.P
    get, free = P.fn(POOL + '::GetConnection'), P.fn(POOL + '::FreeConnection')
    # fields counted up and down
    up, down = set(), set()
    for f in P.fns.values():
        if f.cl != POOL: continue
        for j, n in enumerate(f.N):
            if n['k'] == 'un' and ('++' in n['op'] or '--' in n['op']) or n['k'] == 'bin' and n['op'] in ('+=', '-='):
                for k in f.subtree(n['x']):
                    if f.N[k]['k'] == 'mem' and f.N[k]['cl'] == POOL: (up if '+' in n['op'] else down).add(f.N[k]['m'])
    level = up & down
    ctx.count('counters of free connections', len(level))
    c = Pool(ctx, get, level); s = simmod.Sim(P, ctx.eff, c, K=4, budget=2000000)
    n = 0
    for st, val in s.run_fn(simmod.Frame(get, ('this',)), [simmod.State(client=((), (), frozenset(), 0, frozenset()))]):
        used, freed, fl, lev, cond = st.client; n += 1
        for y in s.assume(st, val, True):
            if used != (val,) and (len(used) != 1 or s.truth(y, s.cmp('==', used[0], val)) is False) or freed:
                ctx.violation('mark', get.loc(), '%s returns a connection without having marked it (and only it) as used (path %s)' % (get.n, y.path()), 'mark get')
            elif level and lev != -1: ctx.violation('level', get.loc(), '%s returns a connection and changes the number of free ones by %i (path %s)' % (get.n, lev, y.path()), 'level get')
        for y in s.assume(st, val, False):
            if used: ctx.violation('mark', get.loc(), '%s marks a connection as used without returning it (path %s)' % (get.n, y.path()), 'mark null')
            elif level and lev: ctx.violation('level', get.loc(), '%s returns nothing but changes the number of free connections by %i (path %s)' % (get.n, lev, y.path()), 'level null')
    ctx.floor('results of GetConnection', n, 2); ctx.floor('marks', c.n, 1)
    ctx.count('candidates examined', c.io)
    c = Pool(ctx, free, level); s = simmod.Sim(P, ctx.eff, c, K=6); n = 0
    pt = ('v', free.tu, free.p[0]['vi'])
    for st, val in s.run_fn(simmod.Frame(free, ('this',)), [simmod.State(client=((), (), frozenset(), 0, frozenset()))]):
        used, freed, fl, lev, cond = st.client; n += 1
        arg = s.lookup(st, pt)
        if used or not freed or any(x != arg for x in freed): ctx.violation('mark', free.loc(), '%s does not mark the connection as unused (path %s)' % (free.n, st.path()), 'mark free')
        if level:
            act = [s.truth(st, t) for k, t in cond if k == 'GetActive']
            lvl = [s.truth(st, s.cmp('<', t, ('c', 0))) for k, t in cond if k == 'GetNormLevel']
            if lev > 1 or lev < 0 or lev == 0 and False not in act and True not in lvl:
                ctx.violation('level', free.loc(), '%s changes the number of free connections by %i (path %s)' % (free.n, lev, st.path()), 'level free')
    ctx.floor('ends of FreeConnection', n, 1)


class Idle(simmod.Client):
    """the pool itself disconnects or deletes only what is unused; client: frozenset of (connection, result of GetInUse)"""
    inline_depth = 4
    def __init__(s, ctx): s.ctx = ctx; s.n = 0
    def on_call(s, sim, st, fr, i, n, obj, args):
        if n['k'] != 'call' or obj is None or n.get('o', -1) < 0: return None
        f = fr.fn; last = lastname(n)
        if n.get('cl') == POOL + '::PooledConnection' and last == 'GetInUse':
            for o, v in st.client:
                if o == obj: return [(st, v)]
            t = sim.fresh(st, (f.u, i))
            return [(st.with_client(frozenset({(obj, t)})), t)]
        return None


def closing(ctx):
    """functions of the pool that disconnect: each Disconnect needs evidence that the connection, or every connection of its level, is unused"""
    P = ctx.P; n = 0
    for f in P.daemon_fns():
        cl = P.fns[f.encl].cl if f.encl and f.encl in P.fns else f.cl
        if cl != POOL or not f.B: continue
        sites = [i for i in f.calls() if lastname(f.N[i]) in ('Disconnect', 'Connect', 'Cancel', 'TryRecv', 'Request') and f.N[i].get('o', -1) >= 0 and isconn(f.typ(f.N[i]['o']))]
        if not sites and not f.encl: continue

        class C(Idle):
            def on_call(s, sim, st, fr, i, n, obj, args):
                if n['k'] == 'call' and i in sites and fr.fn is f:
                    s.n += 1
                    known = [v for o, v in st.client if o == obj]
                    if known and sim.truth(st, known[0]) is False: return None
                    if witness(sim, st, f): return None
                    ctx.violation('in-use', f.loc(i), '%s closes a connection that may be in use (path %s)' % (f.n, st.path()), f.n + ' in-use')
                return Idle.on_call(s, sim, st, fr, i, n, obj, args)
        c = C(ctx); s = simmod.Sim(P, ctx.eff, c, K=8)
        for st, val in s.run_fn(simmod.Frame(f, ('this',)), [simmod.State(client=frozenset())]):
            # predicate of an erasing lambda: true only for unused ones
            if f.encl and f.rt == 'bool' and any('PooledConnection' in f.ptype(k) for k in range(len(f.p))):
                for y in s.assume(st, val, True):
                    if not any(s.truth(y, v) is False for o, v in st.client):
                        ctx.violation('in-use', f.loc(), '%s deletes a connection that may be in use (path %s)' % (f.n, st.path()), f.n + ' delete')
                n += 1
        n += c.n
    ctx.floor('connections closed or deleted by the pool', n, 1)


def witness(sim, st, f):
    """a local flag that is false only if no connection of the level is in use: every place where GetInUse is found true sets it"""
    flags = set()
    for i, nd in enumerate(f.N):
        if nd['k'] == 'bin' and nd['op'] == '=' and f.N[nd['x']]['k'] == 'ref' and f.N[nd['x']]['dk'] == 'loc' and f.N[nd['y']].get('cv', f.N[nd['y']].get('v')) in (1, True):
            v = f.N[nd['x']]['vi']
            if sim.truth(st, st.env.get((f.tu, v), ('v', f.tu, v))) is False: flags.add((v, i))
    # or the decision is made in another method of the pool that looks at the connections
    P = sim.P
    for i in f.calls():
        for g in P.targets(f, i):
            if (g.cl or '').startswith(POOL) and g.B and any(lastname(g.N[j]) == 'GetInUse' for j in g.calls()) and g.rt == 'bool': return True
    if not flags: return False
    # all branches on GetInUse with the true side reaching the assignment
    for v, i in flags:
        b = f.blocknode()[i][0]
        for bb, blk in f.B.items() if isinstance(f.B, dict) else enumerate(f.B):
            tc = blk.get('tc', -1)
            if tc is None or tc < 0: continue
            if any(f.N[j]['k'] == 'call' and lastname(f.N[j]) == 'GetInUse' for j in f.subtree(tc)) and blk['s'] and (blk['s'][0] == b or blk['s'][0] == bb): return True
    return False


def run(ctx):
    borrowers(ctx)
    pool(ctx)
    closing(ctx)
