"""Searches that may find nothing.  The functions of the program that can return a null pointer are computed from their return statements (directly,
or by returning the result of such a function), together with the library functions that can.  On all paths of all functions that call one of them:
before the result is dereferenced, given to a library function that requires a string, or passed on to a function of the program that dereferences
the parameter (decided by analysing that function with a null argument), the path must have excluded null.
Objects taken out of their lists and released (results of Remove that are dropped or that end with a local variable, erase, delete, functions that do
this to a parameter - computed bottom up) are not used on the rest of the path."""
from common import *
import sim as simmod

LEVEL = 'other'
TECHNIQUE = 'path-sensitive nullness analysis of the results of searches, with analysis of the called functions for null arguments'
NOTE = 'Pointers kept in fields are not covered; results merged from several sources at a join are not followed.'
ASSUMPTIONS = ['library functions outside the tables do not return null and accept null']
LIBNULL = {'strchr', 'strrchr', 'strstr', 'strcasestr', 'strpbrk', 'memchr', 'fopen', 'fopen64', 'getenv', 'opendir', 'readdir', 'gethostbyname', 'getpwnam', 'getpwuid', 'freopen', 'fdopen', 'popen',
           'strtok', 'strtok_r', 'realpath', 'xmlHasProp', 'xmlGetProp', 'fgets'}
NONNULL = {'strlen': (0,), 'strcmp': (0, 1), 'strcasecmp': (0, 1), 'strncmp': (0, 1), 'strncasecmp': (0, 1), 'strchr': (0,), 'strrchr': (0,), 'strstr': (0, 1), 'strcasestr': (0, 1), 'strpbrk': (0, 1),
           'atoi': (0,), 'atol': (0,), 'atoll': (0,), 'atof': (0,), 'strtol': (0,), 'strtoll': (0,), 'strtoul': (0,), 'strcpy': (0, 1), 'strncpy': (0, 1), 'strcat': (0, 1), 'strdup': (0,), 'fopen': (0,),
           'fclose': (0,), 'fgets': (2,), 'fputs': (0, 1), 'fwrite': (3,), 'fread': (3,), 'closedir': (0,), 'readdir': (0,), 'sscanf': (0,), 'memcpy': (0, 1), 'memmove': (0, 1)}

# results that are never null for a reason outside of the rule's reach
KNOWN = {('UnpackController', 'strrchr'): 'names of split files have an extension (they match the pattern that JoinSplittedFiles looks for)'}


def strip(f, i):
    while f.N[i]['k'] == 'cast': i = f.N[i]['x']
    return i


def base(t):
    while t[0] == 'old': t = t[1]
    return t


def returned(f):
    """(nodes of returned values, through ?: and local variables)"""
    out = []; todo = []; seen = set()
    for i in f.reach_nodes():
        n = f.N[i]
        if n['k'] == 'ret' and n.get('x', -1) is not None and n.get('x', -1) >= 0: todo.append(n['x'])
    while todo:
        i = strip(f, todo.pop())
        if i in seen: continue
        seen.add(i); n = f.N[i]
        if n['k'] == 'cond': todo += [n['y'], n['z']]
        else: out.append(i)
    return out


def maynull(P):
    """functions of the program that may return null: u -> reason"""
    out = {}; rets = {}
    for f in P.daemon_fns():
        if not f.B or not f.rt.strip().endswith('*'): continue
        if not f.p and sum(n['k'] == 'ret' for n in f.N) == 1 and not any(n['k'] == 'decl' for n in f.N): continue      # access to a field
        rets[f.u] = (f, returned(f))
        for i in rets[f.u][1]:
            if f.N[i].get('cv') == 0 or f.N[i]['k'] in ('null',) or f.N[i]['k'] == 'int' and f.N[i]['v'] == 0: out[f.u] = 'null'
    changed = True
    while changed:
        changed = False
        for u, (f, l) in rets.items():
            if u in out: continue
            for i in l:
                n = f.N[i]
                if n['k'] == 'call' and (n.get('fn') in LIBNULL or any(g.u in out for g in P.targets(f, i))): out[u] = n.get('fn'); changed = True; break
    return out


class Nul(simmod.Client):
    def __init__(s, A, f, param=None, force=()):
        s.A = A; s.f = f; s.src = {}; s.n = 0; s.derefs = 0; s.bad = []; s.param = param; s.force = set(force); s.entered = False
        s.ptrs = [v['vi'] for n in f.N if n['k'] == 'decl' for v in n['vars'] if f.T[v['t']].strip().endswith('*')]
        s.byname = any(n['k'] == 'call' and n.get('a') and n.get('o', -1) >= 0 and f.N[strip(f, n['o'])]['k'] != 'this' and f.typ(n['a'][0]).startswith(('const char', 'char'))
            and any(g.u in A.null for g in A.P.targets(f, i)) for i, n in enumerate(f.N))
        if len(s.ptrs) > 4: s.ptrs = []
        s.flags = [v['vi'] for n in f.N if n['k'] == 'decl' for v in n['vars'] if f.T[v['t']].strip() in ('bool', 'const bool')]
        if len(s.flags) > 4: s.flags = []

    def part(s, sim, st):
        out = [st.client]
        for vi in s.ptrs:
            t = st.env.get((s.f.tu, vi))
            if t is not None and base(t) in s.src: out.append((vi, sim.truth(st, t)))
        for vi in s.flags:
            t = st.env.get((s.f.tu, vi))
            if t is not None and t[0] == 'c': out.append((vi, t))
        return tuple(out)

    def should_inline(s, sim, g):
        if g.u in s.force: s.entered = True; return True
        st, fr, i, obj, args = s.cur
        if fr.depth >= 5: return False
        return any(s.open(sim, st, t) and not s.A.accepts(g, k) for k, t in enumerate(args) if k < len(g.p))

    def open(s, sim, st, t): return base(t) in s.src and bool(sim.assume(st, sim.cmp('==', t, ('c', 0)), True))

    def source(s, sim, fr, i, n):
        if n['k'] != 'call': return None
        f = fr.fn
        nm = n.get('fn', '')
        if nm in LIBNULL: return nm
        for g in sim.P.targets(f, i):
            if g.u in s.A.null:
                return g.n
        return None

    def check(s, sim, st, fr, i, t, what):
        """t is used where null is not allowed"""
        f = fr.fn
        src = s.src.get(base(t))
        if src is None: return
        s.derefs += 1
        bad = sim.assume(st, sim.cmp('==', t, ('c', 0)), True)
        if not bad: return
        s.bad.append((f.loc(i), what, src, st.path(), f.cl))

    def on_deref(s, sim, st, fr, i, obj):
        s.check(sim, st, fr, i, obj, 'is dereferenced')
        return None

    def on_node(s, sim, st, fr, i, n):
        if n['k'] == 'idx':
            x = strip(fr.fn, n['x'])
            if fr.fn.typ(x).strip().endswith('*'): s.check(sim, st, fr, i, sim.eval(st, fr, x), 'is dereferenced')
        return None

    def on_call(s, sim, st, fr, i, n, obj, args):
        f = fr.fn
        nm = n.get('fn', '')
        for k in NONNULL.get(nm, ()):
            if k < len(args): s.check(sim, st, fr, i, args[k], 'is given to %s' % nm)
        for k, t in enumerate(args):
            if n['k'] not in ('call', 'ctor') or not s.open(sim, st, t): continue
            for g in s.A.P.targets(f, i) if n['k'] == 'call' else s.A.ctor(n):
                if k < len(g.p) and '*' in g.ptype(k) and not s.A.accepts(g, k):
                    # followed into the function, where possible
                    if n['k'] == 'ctor' or fr.depth >= 5 or g in fr.stack(): s.check(sim, st, fr, i, t, 'is passed to %s (which uses it unchecked)' % g.n)
        if s.force and n['k'] == 'call' and any(g.u in s.force for g in s.A.P.targets(f, i)): return None
        src = s.source(sim, fr, i, n)
        # an element has been added with the key it is searched by
        key = [t for t in args if t[0] in ('s', 'g', 'c')]
        if s.byname and obj is not None and len(key) >= 1:
            if nm.split('::')[-1] in ('emplace_back', 'push_back', 'Add', 'emplace', 'emplace_front'):
                if (obj, key[0]) not in st.client and len(st.client) < 2: st.client = st.client + ((obj, key[0]),)
            elif src and (obj, key[0]) in st.client: src = None
        if src:
            t = sim.pure_call(st, fr, i, n, obj, args) if n.get('f') else None
            if t is None or t[0] not in ('call', 'u'): t = sim.fresh(st, (f.u, i))
            s.src[t] = src; s.n += 1
            return [(st, t)]
        return None
    want_nodes = True


class End(simmod.Client):
    """iterators returned by searches: compared with the end before they are dereferenced"""
    def __init__(s, f): s.f = f; s.src = set(); s.n = 0; s.uses = 0; s.bad = []

    def val(s, st, t):
        if t is not None and t[0] == 'v': t = st.env.get((t[1], t[2]), t)
        return t

    def on_call(s, sim, st, fr, i, n, obj, args):
        f = fr.fn
        if n['k'] != 'call': return None
        nm = n.get('fn', ''); last = nm.split('::')[-1]
        if search(n):
            t = sim.fresh(st, (f.u, i)); s.src.add(t); s.n += 1
            st.client = frozenset(x for x in st.client if x != t)
            return [(st, t)]
        if last in ('operator==', 'operator!='):
            ops = [s.val(st, x) for x in ([obj] if obj is not None else []) + list(args)]
            nodes = ([n['o']] if n.get('o', -1) is not None and n.get('o', -1) >= 0 else []) + list(n.get('a', ()))
            for k, t in enumerate(ops):
                if t not in s.src: continue
                e = nodes[1 - k] if len(nodes) == 2 else None
                if e is None or not any(f.N[j]['k'] == 'call' and lastname(f.N[j]) in ('end', 'cend') for j in f.subtree(e)): continue
                if t in st.client: return [(st, ('c', int(last == 'operator!=')))]
                a = st.copy(); a.client = st.client | {t}
                return [(a, ('c', int(last == 'operator!='))), (st, ('c', int(last == 'operator==')))]
        if last in ('operator*', 'operator->') and 'iterator' in n.get('cl', '') and obj is not None:
            t = s.val(st, obj)
            if t in s.src:
                s.uses += 1
                if t not in st.client: s.bad.append((f.loc(i), st.path()))
        return None


class Dead(simmod.Client):
    """objects that have been released on the path"""
    want_nodes = True
    def __init__(s, A, f, kills): s.A = A; s.f = f; s.kills = kills; s.n = 0; s.uses = 0; s.bad = []

    def on_call(s, sim, st, fr, i, n, obj, args):
        f = fr.fn
        if n['k'] != 'call': return None
        nm = n.get('fn', ''); last = nm.split('::')[-1]
        if nm in ('std::move',):
            # handed on: a variable that owned the object does not release it
            x = strip(f, n['a'][0])
            if f.N[x]['k'] == 'ref' and f.N[x].get('vi') is not None: st.client = frozenset(y for y in st.client if y[:2] != ('own', f.N[x]['vi']))
            return None
        if last == 'release' and n.get('o', -1) >= 0:
            x = strip(f, n['o'])
            if f.N[x]['k'] == 'ref' and f.N[x].get('vi') is not None: st.client = frozenset(y for y in st.client if y[:2] != ('own', f.N[x]['vi']))
            return None
        if last in ('operator++', 'operator--', 'operator=', 'operator+=', 'operator-=') and obj is not None: s.changed(sim, st, obj)
        if n.get('cl', '').startswith('UniqueDeque<') and last == 'Remove' and args:
            par = f.parents()[i]
            if not par: s.kill(st, f, i, args[0])
            else:
                v = s.owner(f, i)
                if v is not None: st.client = st.client | {('own', v, args[0], f.loc(i))}
        elif last == 'erase' and n.get('a') and 'unique_ptr<' in n.get('cl', ''):
            x = strip(f, n['a'][0])
            while f.N[x]['k'] in ('ctor', 'cast') : x = f.N[x]['a'][0] if f.N[x]['k'] == 'ctor' and f.N[x].get('a') else f.N[x].get('x', -1)
            m = f.N[x]
            el = bare(n['cl'].split('unique_ptr<')[1].split('>')[0])
            if x >= 0 and not (m['k'] == 'ref' and m.get('vi') is not None):
                # computed position: the element at hand, if there is only one
                l = [st.env.get((f.tu, vi)) for vi, ty in s.locals(f) if bare(ty) == el]
                l = [v for v in l if v is not None and v[0] == 'call']
                moved = any(y['k'] == 'call' and y.get('fn') == 'std::move' and f.N[strip(f, y['a'][0])]['k'] != 'ref' for y in f.N)
                if len(l) == 1 and not moved: s.kill(st, f, i, l[0])
            if x >= 0 and m['k'] == 'ref' and m.get('vi') is not None:
                if m.get('dk') == 'par':
                    ps = [p for k, p in enumerate(f.p) if bare(f.ptype(k)) == el and '*' in f.ptype(k)]
                    if len(ps) == 1 and sum('iterator' in f.ptype(k) for k in range(len(f.p))) == 1: s.kill(st, f, i, sim.eval(st, fr, s.refnode(f, ps[0]['vi'])) if s.refnode(f, ps[0]['vi']) is not None else None)
                else:
                    loc = ('v', f.tu, m['vi']); val = st.env.get((f.tu, m['vi']))
                    for vi, ty in s.locals(f):
                        if bare(ty) != el: continue
                        v = st.env.get((f.tu, vi))
                        if v is not None and v[0] == 'call' and (sim.mentions(v, loc) or val is not None and sim.mentions(v, val)): s.kill(st, f, i, v)
        else:
            for g in sim.P.targets(f, i):
                for k in s.kills.get(g.u, ()):
                    if k < len(args): s.kill(st, f, i, args[k], g)
                for k, a in enumerate(args):
                    d = s.dead(st, a)
                    if d and k < len(g.p) and '*' in g.ptype(k) and k not in s.kills.get(g.u, ()) and not s.A.accepts(g, k):
                        s.uses += 1; s.bad.append((f.loc(i), 'passes', d[2], st.path()))
        return None

    def locals(s, f):
        c = f._cache.get('ptrlocals')
        if c is None: c = f._cache['ptrlocals'] = [(v['vi'], f.T[v['t']]) for n in f.N if n['k'] == 'decl' for v in n['vars'] if f.T[v['t']].strip().endswith('*')]
        return c

    def refnode(s, f, vi):
        return next((i for i, n in enumerate(f.N) if n['k'] == 'ref' and n.get('vi') == vi), None)

    def owner(s, f, i):
        """variable that is initialised with the result of call i"""
        for n in f.N:
            if n['k'] == 'decl':
                for v in n['vars']:
                    x = v.get('i', -1)
                    while x is not None and x >= 0 and x != i and f.N[x]['k'] in ('ctor', 'cast'):
                        x = f.N[x]['a'][0] if f.N[x]['k'] == 'ctor' and f.N[x].get('a') else f.N[x].get('x', -1)
                    if x == i: return v['vi']
        return None

    def changed(s, sim, st, lv):
        # what the variable stood for (an iterator of a loop, for instance) is another object now
        st.client = frozenset(x for x in st.client if not (x[0] == 'dead' and sim.mentions(x[1], lv) and x[1] != lv))

    def on_assign(s, sim, st, fr, i, lv, val):
        if lv[0] == 'v': s.changed(sim, st, lv)
        return None

    def kill(s, st, f, i, t, by=None):
        if t is None or t[0] == 'c': return
        s.n += 1
        st.client = frozenset(x for x in st.client if x[:2] != ('dead', t)) | {('dead', t, '%s%s' % (f.loc(i), ' (%s)' % by.n if by else ''))}

    def dead(s, st, t):
        for x in st.client:
            if x[0] == 'dead' and x[1] == t: return x
        return None

    def on_dtor(s, sim, st, fr, e):
        if e['k'] == 'dtor' and fr.parent is None:
            for x in list(st.client):
                if x[:2] == ('own', e['vi']): st.client = (st.client - {x}) | {('dead', x[2], x[3])}
        return None

    def on_node(s, sim, st, fr, i, n):
        if n['k'] == 'del' and n.get('x', -1) >= 0: s.kill(st, fr.fn, i, sim.eval(st, fr, n['x']))
        return None

    def on_deref(s, sim, st, fr, i, obj):
        if not st.client: return None
        s.uses += 1
        d = s.dead(st, obj)
        if d and d[2].split(' ')[0] != fr.fn.loc(i): s.bad.append((fr.fn.loc(i), 'uses', d[2], st.path()))
        return None

    def on_exit(s, sim, st, fr, val): pass


def released(ctx, A):
    """uses of objects after their release"""
    P = ctx.P; kills = {}; todo = {}; done = {}; nk = nu = 0
    for f in P.daemon_fns():
        if not f.B: continue
        for i, n in enumerate(f.N):
            if n['k'] == 'del' or n['k'] == 'call' and (n.get('cl', '').startswith('UniqueDeque<') and lastname(n) == 'Remove' or lastname(n) == 'erase' and 'unique_ptr<' in n.get('cl', '')): todo[f.u] = f; break
    while todo:
        u, f = todo.popitem()
        c = Dead(A, f, kills); m = simmod.Sim(P, ctx.eff, c, K=8, budget=150000)
        res = m.run_fn(simmod.Frame(f, ('this',)), [simmod.State(client=frozenset())])
        if m.truncated: ctx.notes.append('not all paths of %s were followed (released objects)' % f.n)
        done[u] = (c.n, c.uses); ctx.src(f.file)
        for loc, what, where, path in c.bad[:3]:
            ctx.violation('released', loc, '%s %s an object that has been released at %s (path %s)' % (f.n, what, where, path), '%s released' % f.n)
        dead = set()
        for st, v in res:
            for x in st.client:
                if x[0] == 'dead':
                    for k, p in enumerate(f.p):
                        if x[1] == ('v', f.tu, p['vi']): dead.add(k)
        if dead - kills.get(u, set()):
            kills[u] = kills.get(u, set()) | dead
            for h, i, how in P.callers().get(u, ()): todo[h.u] = h
    return kills, done


def search(n):
    nm = n.get('fn', '')
    return nm in ('std::find', 'std::find_if', 'std::lower_bound', 'std::upper_bound') or nm.startswith('std::') and nm.split('::')[-1] == 'find' and n.get('cl', '').split('<')[0] in ('std::map', 'std::unordered_map', 'std::set', 'std::multimap')


class Analysis:
    def __init__(s, ctx):
        s.ctx = ctx; s.P = ctx.P; s.null = maynull(ctx.P); s.memo = {}; s.declared = None
    def ctor(s, n):
        g = s.P.fns.get(n.get('f'))
        return [g] if g else []
    def accepts(s, g, k):
        key = (g.u, k)
        if key in s.memo: return s.memo[key]
        s.memo[key] = True          # recursion
        ok = True
        if g.B:
            c = Nul(s, g, k); m = simmod.Sim(s.P, s.ctx.eff, c, K=3, budget=60000)
            st = simmod.State(client=())
            t = ('nullparam', g.u, k)
            st.env[(g.tu, g.p[k]['vi'])] = t
            c.src[t] = 'param'
            l = m.assume(st, m.cmp('==', t, ('c', 0)), True)
            m.run_fn(simmod.Frame(g, ('this',)), l)
            ok = not any(b[2] == 'param' for b in c.bad)
        s.memo[key] = ok
        return ok


def run(ctx):
    P = ctx.P; A = Analysis(ctx)
    ctx.floor('functions that may find nothing', len(A.null), 15)
    users = []
    for f in P.daemon_fns():
        if not f.B: continue
        for i in f.calls():
            n = f.N[i]
            if n['k'] == 'call' and (n.get('fn') in LIBNULL or any(g.u in A.null for g in P.targets(f, i))): users.append(f); break
    calls = derefs = 0
    for f in users:
        c = Nul(A, f); m = simmod.Sim(P, ctx.eff, c, K=5, budget=250000)
        m.run_fn(simmod.Frame(f, ('this',)), [simmod.State(client=())])
        if m.truncated: ctx.notes.append('not all paths of %s were followed' % f.n)
        calls += c.n; derefs += c.derefs; ctx.src(f.file)
        seen = set()
        c.bad = [x for x in c.bad if x[2] != 'param']
        if c.bad:
            # once more with more paths told apart
            c2 = Nul(A, f); m = simmod.Sim(P, ctx.eff, c2, K=40, budget=100000)
            m.run_fn(simmod.Frame(f, ('this',)), [simmod.State(client=())])
            if not m.truncated: c.bad = [x for x in c2.bad if x[2] != 'param']
        if c.bad:
            # what the callers guarantee
            callers = {h.u: h for h, i, how in P.callers().get(f.u, ()) if h is not f}
            if callers and len(callers) <= 6 and f.kind != 'lambda':
                sites = set(); known = True
                for h in callers.values():
                    c2 = Nul(A, h, force=(f.u,)); m = simmod.Sim(P, ctx.eff, c2, K=5, budget=250000)
                    m.run_fn(simmod.Frame(h, ('this',)), [simmod.State(client=())])
                    sites |= {(x[0], x[2]) for x in c2.bad}; known &= c2.entered and not m.truncated
                if known: c.bad = [x for x in c.bad if (x[0], x[2]) in sites]
        for loc, what, src, path, cl in c.bad:
            if (cl, src) in KNOWN: ctx.notes.append('%s: %s' % (cl, KNOWN[cl, src])); continue
            if (loc, what, src) in seen: continue
            seen.add((loc, what, src))
            ctx.violation('null', loc, 'the result of %s %s in %s although it may be null (path %s)' % (src, what, f.n, path), '%s %s %s' % (f.n, src, what))
    found = uses = 0
    for f in P.daemon_fns():
        if not f.B or not any(f.N[i]['k'] == 'call' and search(f.N[i]) for i in f.calls()): continue
        c = End(f); m = simmod.Sim(P, ctx.eff, c, K=5, budget=100000)
        m.run_fn(simmod.Frame(f, ('this',)), [simmod.State(client=frozenset())])
        found += c.n; uses += c.uses; ctx.src(f.file)
        for loc, path in c.bad[:1]:
            ctx.violation('end', loc, '%s uses the result of a search in a container although nothing may have been found (path %s)' % (f.n, path), '%s end' % f.n)
    kills, done = released(ctx, A)
    ctx.count('functions that release objects or call such', len(done)); ctx.count('functions that may release an argument', len(kills))
    ctx.count('uses of objects after possible releases checked', sum(b for a, b in done.values()))
    ctx.floor('functions that release objects or call such', len(done), 15)
    ctx.count('searches in containers on paths', found); ctx.count('uses of their results checked', uses)
    ctx.count('functions that search', len(users)); ctx.count('searches on paths', calls); ctx.count('uses of results checked', derefs)
    ctx.floor('functions that search', len(users), 60)
