"""Lock sets: which mutexes are certainly / possibly held at every program point, by a forward dataflow over scoped guards inside each
function and a fixpoint over the call graph. A lock is (class, mutex member)."""
import re
from collections import defaultdict
from ir import bare

E = frozenset()
GUARDS = re.compile(r'^(Guard|GuardedPtr<.*)$')


def merge(a, b):
    if a is None: return b
    out = {}
    for k in set(a) | set(b):
        x = a.get(k, (E, E)); y = b.get(k, (E, E))
        v = (x[0] & y[0], x[1] | y[1])
        if v[0] or v[1]: out[k] = v
    return out


class Locks:
    def __init__(s, P, observers=True):
        s.P = P
        s.sum = {}            # usr -> (must, may) locks owned by the returned guard
        s.ctor = {}           # usr of a ctor -> locks owned by the object it builds (('P', k) = k-th argument's mutex)
        s.snap = {}           # usr -> {node: (must, may)} local
        s.acq = {}            # usr -> [(node, lock, must before, may before)]
        s._busy = set(); s._impl = {}; s._ft = {}
        s.leaves = {}         # usr -> {member: locks} a method leaves locked in a member guard
        s.subjects = s._subjects() if observers else None
        for f in P.daemon_fns(): s.local(f)
        s._entries()

    # ---- mutex expressions
    def mutex(s, f, i, d=0):
        """lock denoted by an expression of type Mutex (&, *, unique_ptr)"""
        if i < 0 or d > 8: return None
        n = f.N[i]; k = n['k']
        if k == 'mem': return (n['cl'], n['m'])
        if k == 'un' and n['op'] in ('&', '*'): return s.mutex(f, n['x'], d + 1)
        if k == 'cast': return s.mutex(f, n['x'], d + 1)
        if k == 'idx': return s.mutex(f, n['x'], d + 1)
        if k == 'call' and n.get('o', -1) >= 0 and (n.get('op') in ('*', '->') or n.get('fn', '').endswith(('::get', '::operator*'))): return s.mutex(f, n['o'], d + 1)
        if k == 'ref':
            if n.get('dk') == 'par':
                for x, p in enumerate(f.p):
                    if p['vi'] == n['vi']: return ('P', x)
            if n.get('dk') == 'loc':
                j = s.initof(f, n['vi'])
                if j is not None: return s.mutex(f, j, d + 1)
                return ('local', n['d'])
            if n.get('d'):
                q = n['d'].rsplit('::', 1)
                return (q[0] if len(q) > 1 else '', q[-1])
        if k == 'call':
            # accessor returning the mutex
            for t in s.P.targets(f, i):
                for j in t.reach_nodes():
                    if t.N[j]['k'] == 'ret' and t.N[j].get('x', -1) >= 0: return s.mutex(t, t.N[j]['x'], d + 1)
        return None

    def initof(s, f, vi):
        m = f._cache.get('inits')
        if m is None:
            m = {}
            for i in f.reach_nodes():
                if f.N[i]['k'] == 'decl':
                    for v in f.N[i]['vars']:
                        if v.get('i', -1) >= 0: m[v['vi']] = v['i']
            f._cache['inits'] = m
        return m.get(vi)

    def carrier(s, t):
        """does a type own locks: Guard, GuardedPtr, or a class with such a field"""
        t = bare(t)
        if GUARDS.match(t): return True
        c = s.P.records.get(t)
        return bool(c) and any(GUARDS.match(bare(x['ts'])) and not x['ts'].endswith(('*', '&')) for x in c['fields'])

    # ---- local analysis
    def local(s, f):
        if f.u in s.snap or f.u in s._busy or not f.B: return
        s._busy.add(f.u)
        st = {f.entry: {}}
        order = f.rpo(); work = set(order)
        primitive = GUARDS.match(f.cl or '') or f.cl in ('Mutex', 'ConditionVar')
        for _ in range(40):
            ch = False
            for b in order:
                if b not in st: continue
                x = s.block(f, b, dict(st[b]), None) if not primitive else dict(st[b])
                for t in f.B[b]['s']:
                    if t < 0: continue
                    o = st.get(t); n = merge(o, x)
                    if o != n: st[t] = n; ch = True
            if not ch: break
        snap = {}; s.acq[f.u] = []
        for b in order:
            if b in st and not primitive: s.block(f, b, dict(st[b]), snap)
        s.snap[f.u] = snap
        if f.kind == 'ctor' and not primitive:
            x = st.get(f.exit) or {}
            fl = [(v[0], v[1]) for k, v in x.items() if k[0] == 'f']
            if fl: s.ctor[f.u] = (frozenset().union(*[a for a, _ in fl]), frozenset().union(*[b for _, b in fl]))
        if f.kind not in ('ctor', 'dtor') and not primitive:
            # guards kept in a member of a longer living object
            fl = {k: v for k, v in (st.get(f.exit) or {}).items() if k[0] == 'f'}
            if fl: s.leaves[f.u] = fl
        s._busy.discard(f.u)

    def total(s, x):
        mu = E; ma = E
        for k, v in x.items(): mu |= v[0]; ma |= v[1]
        return mu, ma

    def subst(s, f, n, v):
        def one(l):
            if l[0] == 'P':
                a = n.get('a', [])
                return s.mutex(f, a[l[1]]) if l[1] < len(a) else None
            return l
        return tuple(frozenset(x for x in (one(l) for l in p) if x) for p in v)

    def block(s, f, b, x, snap):
        N = f.N
        def take(key, i, lock):
            if snap is not None:
                mu, ma = s.total(x)
                s.acq[f.u].append((i, lock, mu, ma))
            x[key] = (frozenset([lock]), frozenset([lock]))
        def move(src, dst):
            v = x.pop(src, None)
            if v: x[dst] = v
        for e in f.B[b]['e']:
            if not isinstance(e, int):
                if e['k'] == 'dtor': x.pop(('v', e.get('vi')), None)
                elif e['k'] == 'tdtor': x.pop(('n', e.get('x')), None)
                elif e['k'] == 'init':
                    i = e.get('x', -1)
                    if i >= 0:
                        if N[i]['k'] in ('call', 'ctor'): s.step(f, i, x, snap, take, move)
                        o = s.owner(f, i, x)
                        if o: move(o, ('f', e.get('m')))
                continue
            s.step(f, e, x, snap, take, move)
        return x

    def owner(s, f, i, x, d=0):
        n = f.N[i]
        if ('n', i) in x: return ('n', i)
        if n['k'] == 'ref' and n.get('dk') in ('loc', 'par') and ('v', n['vi']) in x: return ('v', n['vi'])
        if n['k'] == 'mem' and ('f', n['m']) in x: return ('f', n['m'])
        if n['k'] == 'call' and n.get('fn', '').startswith('std::move') and n['a']: return s.owner(f, n['a'][0], x, d + 1)
        if n['k'] in ('cast',) : return s.owner(f, n['x'], x, d + 1)
        return None

    def step(s, f, i, x, snap, take, move):
        N = f.N; n = N[i]; k = n['k']
        if snap is not None and i not in snap: snap[i] = s.total(x)
        if k == 'ctor':
            cl = n.get('cl', '')
            if n.get('cp') and n['a']:
                o = s.owner(f, n['a'][0], x)
                if o: move(o, ('n', i))
            elif GUARDS.match(cl):
                for a in n['a']:
                    t = f.typ(a)
                    if 'Mutex' in t:
                        l = s.mutex(f, a)
                        if l: take(('n', i), i, l)
            else:
                g = s.P.fns.get(n.get('f'))
                if g:
                    s.local(g)
                    if g.u in s.ctor:
                        v = s.subst(f, n, s.ctor[g.u])
                        if v[1]:
                            if snap is not None:
                                mu, ma = s.total(x)
                                for l in v[1]: s.acq[f.u].append((i, l, mu, ma))
                            x[('n', i)] = v
        elif k == 'call':
            op = n.get('op')
            if op == '=' and n.get('o', -1) >= 0 and n['a']:
                o = s.owner(f, n['a'][0], x)
                if o:
                    d = N[n['o']]
                    dst = ('v', d['vi']) if d['k'] == 'ref' and 'vi' in d else ('f', d.get('m'))
                    move(o, dst)
                return
            fn = n.get('fn', '')
            if fn in ('Mutex::Lock', 'Mutex::Unlock') or re.match(r'std::(recursive_|timed_)?mutex::(un)?lock$', fn):
                l = s.mutex(f, n.get('o', -1))
                if l:
                    if fn.lower().endswith('unlock'): x.pop(('m', l), None)
                    else: take(('m', l), i, l)
                return
            if fn.startswith('std::make_unique') and n['a']:
                o = s.owner(f, n['a'][0], x)
                if o and o[0] == 'n': move(o, ('n', i))
                return
            if fn.endswith('::reset') and n.get('o', -1) >= 0:
                o = f.N[n['o']]
                x.pop(('f', o.get('m')) if o['k'] == 'mem' else ('v', o.get('vi')), None)
            if not s.carrier(f.typ(i)) or s.P.targets(f, i): 
                for t in s.P.targets(f, i):
                    s.local(t)
                    if n.get('o', -1) >= 0 and N[n['o']]['k'] == 'this':
                        for k, v in s.leaves.get(t.u, {}).items(): x[k] = (E, v[1])
            if s.carrier(f.typ(i)):
                v = (E, E); first = True
                for t in s.P.targets(f, i):
                    r = s.retsum(t)
                    v = r if first else (v[0] & r[0], v[1] | r[1]); first = False
                v = s.subst(f, n, v)
                if v[1]:
                    x[('n', i)] = v
        elif k == 'decl':
            for v in n['vars']:
                j = v.get('i', -1)
                if j >= 0:
                    o = s.owner(f, j, x)
                    if o and o[0] == 'n': move(o, ('v', v['vi']))
        elif k == 'ret' and n.get('x', -1) >= 0 and s.carrier(f.rt):
            o = s.owner(f, n['x'], x)
            v = x.pop(o, (E, E)) if o else (E, E)
            if snap is not None:
                p = s.sum.get(f.u)
                s.sum[f.u] = v if p is None else (p[0] & v[0], p[1] | v[1])

    def retsum(s, t):
        s.local(t)
        return s.sum.get(t.u, (E, E))

    # ---- dynamic types
    def instantiated(s):
        r = getattr(s, '_inst', None)
        if r is None:
            r = set()
            for f in s.P.fns.values():
                for i in f.calls():
                    n = f.N[i]
                    if n['k'] == 'ctor': r.add(n.get('cl', ''))
                    elif n.get('fn', '').startswith('std::make_unique'):
                        m = re.match(r'std::unique_ptr<(.*?)(, std::default_delete.*)?>$', f.typ(i))
                        if m: r.add(m.group(1))
                for i in f.reach_nodes():
                    if f.N[i]['k'] == 'new': r.add(bare(f.typ(i)))
            for g in s.P.globals.values(): r.add(bare(g['T'][g['t']]))
            for c in list(s.P.records.values()):
                for x in c['fields']:
                    t = x['ts']
                    if not t.endswith(('*', '&')): r.add(bare(t)); r |= set(re.findall(r'[\w:]+', t))
            # locals declared without a constructor call node
            for f in s.P.fns.values():
                for i in f.reach_nodes():
                    if f.N[i]['k'] == 'decl':
                        for v in f.N[i]['vars']: r.add(bare(f.T[v['t']]))
            st = set(r)
            s._inst = r
        return r

    def method(s, cl, u, names=None):
        """implementation of the virtual function u in class cl"""
        us = s.P.overriders(u)
        st = [cl]; seen = set()
        while st:
            c = st.pop(0)
            if c in seen: continue
            seen.add(c)
            r = s.P.records.get(c)
            if not r: continue
            for m in r['methods']:
                if m['u'] in us: return m['u']
            st += r['bases']
        return u

    def impls(s, u, D):
        """functions a virtual call of u on an object of static type D may run"""
        k = (u, D); r = s._impl.get(k)
        if r is None:
            r = []
            for c in sorted(s.P.subclasses(D)):
                if c != D and c not in s.instantiated(): continue
                x = s.method(c, u)
                if x in s.P.fns and (x, c) not in r: r.append((x, c))
            # one entry per implementation when the class does not matter
            s._impl[k] = r
        return r

    def types(s, f, i, d=0):
        """static lower bounds of the dynamic type of a pointer expression"""
        n = f.N[i]; k = n['k']; t = bare(f.typ(i))
        m = re.match(r'std::unique_ptr<(.*?)(, std::default_delete.*)?>$', t)
        if m: t = m.group(1)
        if d > 6 or t not in ('Thread',): return {t}
        if k == 'cast': return s.types(f, n['x'], d + 1)
        if k == 'this': return {f.cl}
        if k == 'new': return {bare(f.typ(i))}
        if k == 'mem': return s.fieldtypes(n['cl'], n['m'], d + 1) or {t}
        if k == 'call' and n.get('fn', '').endswith(('::get', '::operator->', '::operator*', '::release')) and n.get('o', -1) >= 0: return s.types(f, n['o'], d + 1)
        if k == 'call':
            g = s.P.fns.get(n.get('f'))
            if g:
                out = set()
                for j in g.reach_nodes():
                    if g.N[j]['k'] == 'ret' and g.N[j].get('x', -1) >= 0: out |= s.types(g, g.N[j]['x'], d + 1)
                return out or {t}
        if k == 'ref' and n.get('dk') == 'loc':
            j = s.initof(f, n['vi'])
            if j is not None: return s.types(f, j, d + 1)
        if k == 'ref' and n.get('dk') == 'par':
            pos = [x for x, p in enumerate(f.p) if p['vi'] == n['vi']]
            if pos:
                out = set()
                for g, j, how in s.P.callers().get(f.u, ()):
                    if j is None: continue
                    a = g.N[j].get('a', [])
                    if pos[0] < len(a): out |= s.types(g, a[pos[0]], d + 1)
                return out or {t}
        if k == 'null' or k == 'int': return set()
        return {t}

    def fieldtypes(s, cl, m, d):
        key = (cl, m)
        if key in s._ft: return s._ft[key]
        s._ft[key] = {'Thread'}
        out = set()
        for f in s.P.daemon_fns():
            for i in f.reach_nodes():
                n = f.N[i]
                if n['k'] == 'bin' and n['op'] == '=':
                    o = f.N[n['x']]
                    if o['k'] == 'mem' and (o['cl'], o['m']) == key: out |= s.types(f, n['y'], d + 1)
        s._ft[key] = out
        return out

    # ---- observers
    def _subjects(s):
        """class of a subject -> set of observer classes attached to it"""
        m = defaultdict(set)
        for f in s.P.daemon_fns():
            for i in f.calls():
                n = f.N[i]
                if n.get('fn') == 'Subject::Attach' and n['a']:
                    o = bare(f.typ(n['o']))
                    g = re.match(r'GuardedPtr<(.*)>$', o)
                    if g: o = g.group(1)
                    m[o].add(bare(f.typ(n['a'][0])))
        return m

    def callees(s, f, T):
        """call graph edges of f run on an object of class T, with thread starts and observer notifications resolved:
        (node, callee, class of the callee's object)"""
        out = []; P = s.P; live = None
        if T and '@' in T:
            T, subj = T.split('@')
            live = s.prune(f, subj)
        def ctx(g, D):
            if g.kind == 'lam' or g.cl is None: return None
            return D if D in P.records and g.cl in P.bases(D) else g.cl
        for i, t, how in P.callees(f):
            if i is None:
                out.append((i, t, t.cl)); continue
            if how == 'dtor' and f.N[i]['k'] == 'del':
                D = s.types(f, f.N[i]['x'])
                if not any(d in P.records and t.cl in P.bases(d) | P.subclasses(d) for d in D): continue
            if live is not None and f.blocknode().get(i, (None,))[0] not in live: continue
            n = f.N[i]
            if how == 'lam':
                if any(f.N[p]['k'] == 'ctor' and (f.N[p].get('fn', '').startswith(('std::function', 'std::thread'))) for p in s.users(f, i)): continue
                out.append((i, t, T)); continue
            if n.get('fn') == 'Subject::Notify' and s.subjects is not None:
                o = n.get('o', -1)
                c = bare(f.typ(o)) if o >= 0 and f.N[o]['k'] != 'this' else T
                g = re.match(r'GuardedPtr<(.*)>$', c or '')
                if g: c = g.group(1)
                subs = P.subclasses(c) | P.bases(c) if c in P.records else {c}
                for k, obs in s.subjects.items():
                    if k in subs or k == c:
                        for ob in obs:
                            for g in P.byname.get(ob + '::Update', []): out.append((i, g, ob + '@' + k))
                continue
            if f.n == 'Subject::Notify' and t.n.endswith('::Update') and s.subjects is not None: continue
            o = n.get('o', -1)
            if n['k'] == 'call' and o >= 0 and t.cl and not t.st:
                if f.N[o]['k'] == 'this': D = {T or f.cl}
                else: D = s.types(f, o)
                D = {x for x in D if x in P.records} or {t.cl}
                if n.get('vm') and not n.get('qual'):
                    ok = False
                    for d in D:
                        for u, c in s.impls(n['f'], d):
                            if u == t.u: out.append((i, t, c))
                else:
                    for d in D: out.append((i, t, ctx(t, d)))
                continue
            if n['k'] == 'ctor' or how == 'dtor' or n.get('fn', '').startswith('std::make_unique'):
                out.append((i, t, t.cl)); continue
            out.append((i, t, T if t.kind == 'lam' else None))
        return list(dict.fromkeys((i, t.u, c) for i, t, c in out))

    def prune(s, f, subj):
        """blocks of an observer's Update reachable when the notifying subject is of class subj"""
        P = s.P
        def decide(c):
            n = f.N[c]
            if n['k'] == 'bin' and n['op'] in ('==', '!='):
                for a, b in ((n['x'], n['y']), (n['y'], n['x'])):
                    while f.N[a]['k'] == 'cast': a = f.N[a]['x']
                    while f.N[b]['k'] == 'cast': b = f.N[b]['x']
                    if f.N[a]['k'] == 'ref' and f.N[a].get('dk') == 'par' and bare(f.typ(a)) == 'Subject' and f.N[b]['k'] == 'ref' and f.N[b].get('dk') == 'glob':
                        t = bare(f.typ(b))
                        if t in P.records:
                            same = subj in P.bases(t) | P.subclasses(t)
                            return same == (n['op'] == '==')
            return None
        live = set(); st = [f.entry]
        while st:
            b = st.pop()
            if b in live: continue
            live.add(b); B = f.B[b]; succ = B['s']
            d = decide(B['tc']) if B.get('tc', -1) is not None and B.get('tc', -1) >= 0 and len(succ) == 2 else None
            if d is not None: succ = succ[:1] if d else succ[1:]
            st += [x for x in succ if x >= 0]
        return live

    def users(s, f, i):
        out = []; st = [i]; seen = set()
        while st:
            x = st.pop()
            for p in f.parents()[x]:
                if p in seen: continue
                seen.add(p); out.append(p)
                if f.N[p]['k'] in ('ctor', 'cast') : st.append(p)
        return out

    # ---- interprocedural: nodes are (function, class of the object it runs on)
    def _entries(s):
        P = s.P
        fns = {f.u: f for f in P.daemon_fns() if f.B}
        has = set()
        for u, f in fns.items():
            for i, t, how in P.callees(f): has.add(t.u)
        roots = set()
        for u, f in fns.items():
            if f.n == 'main' or f.u not in has: roots.add((u, f.cl))
            if f.n.endswith('::Run') and 'Thread' in P.bases(f.cl or ''):
                for c in P.subclasses(f.cl):
                    if s.method(c, u) == u and (c == f.cl or c in s.instantiated()): roots.add((u, c))
        for u, f in fns.items():
            for i in f.reach_nodes():
                if f.N[i]['k'] == 'lam':
                    t = P.lam_of(f, i)
                    if t and any(f.N[p]['k'] == 'ctor' and f.N[p].get('fn', '').startswith(('std::function', 'std::thread')) for p in s.users(f, i)): roots.add((t.u, None))
        def explore(work):
            while work:
                x = work.pop()
                if x in edges: continue
                edges[x] = [(i, (tu, c)) for i, tu, c in s.callees(fns[x[0]], x[1]) if tu in fns]
                work += [t for i, t in edges[x]]
        edges = {}; explore(list(roots))
        # a method of a base class reached only through classes not seen instantiated
        seen = {u for u, c in edges}
        for u, f in fns.items():
            if u not in seen: roots.add((u, f.cl))
        explore(list(roots))
        must = {x: None for x in edges}; may = {x: E for x in edges}
        for x in roots: must[x] = E
        incoming = defaultdict(list)
        for x, l in edges.items():
            for i, t in l: incoming[t].append((x, i))
        work = list(roots); inwork = set(work)
        while work:
            x = work.pop(); inwork.discard(x)
            sn = s.snap.get(x[0], {})
            for i, t in edges[x]:
                lm, la = sn.get(i, (E, E)) if i is not None else (E, E)
                nm = lm | must[x]; na = la | may[x]
                o = must[t]
                m2 = nm if o is None else (o & nm)
                a2 = may[t] | na
                if m2 != o or a2 != may[t]:
                    must[t] = m2; may[t] = a2
                    if t not in inwork: inwork.add(t); work.append(t)
        s.cmust = must; s.cmay = may; s.fns = fns; s.incoming = incoming; s.edges = edges; s.roots = roots
        s.must = {u: None for u in fns}; s.may = {u: E for u in fns}
        for x in edges:
            if must[x] is None: continue
            o = s.must[x[0]]
            s.must[x[0]] = must[x] if o is None else o & must[x]
            s.may[x[0]] = s.may[x[0]] | may[x]
        s.acquires = s.transitive(lambda f: {a[1] for a in s.acq.get(f.u, []) if a[1][0] != 'P'})

    def transitive(s, local):
        """least solution of X(node) = local(function) + X(callees)"""
        acq = {}
        for x in s.edges: acq[x] = set(local(s.fns[x[0]]))
        work = list(s.edges); inwork = set(work)
        while work:
            x = work.pop(); inwork.discard(x)
            v = acq[x]; n = len(v)
            for i, t in s.edges[x]: v |= acq[t]
            if len(v) != n:
                for y, i in s.incoming[x]:
                    if y not in inwork: inwork.add(y); work.append(y)
        return acq

    def path(s, x, goal, depth=25):
        """shortest call chain from node x to a node satisfying goal"""
        from collections import deque
        q = deque([x]); prev = {x: None}
        while q:
            y = q.popleft()
            if goal(y):
                out = []
                while y is not None: out.append(y); y = prev[y]
                return out[::-1]
            for i, t in s.edges[y]:
                if t not in prev: prev[t] = y; q.append(t)
        return [x]

    def held(s, f, i):
        """locks certainly held when node i of f is evaluated (None: f is never reached)"""
        m = s.must.get(f.u)
        if m is None: return None
        l = s.snap[f.u].get(i)
        if l is None: return m
        return m | l[0]

    def maybe(s, f, i):
        l = s.snap[f.u].get(i, (E, E))
        return s.may[f.u] | l[1]

    def why(s, f, lock, depth=12):
        """a call chain on which f is entered without the lock"""
        out = []; seen = set()
        cur = next((x for x in s.edges if x[0] == f.u and s.cmust[x] is not None and lock not in s.cmust[x]), None)
        while cur and depth:
            depth -= 1; seen.add(cur)
            if cur in s.roots: break
            nxt = None
            for x, i in s.incoming.get(cur, ()):
                if x in seen or s.cmust.get(x) is None: continue
                lm = s.snap[x[0]].get(i, (E, E))[0] if i is not None else E
                if lock not in (lm | s.cmust[x]): nxt = (x, i); break
            if not nxt: break
            g = s.fns[nxt[0][0]]
            out.append('%s (%s)' % (g.n, g.loc(nxt[1]) if nxt[1] is not None else g.loc()))
            cur = nxt[0]
        return out
