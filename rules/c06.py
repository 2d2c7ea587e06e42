"""Lock order.  From the lock sets, every acquisition made while another lock is possibly held - directly, or in any function reachable from
a call made under that lock - is an edge of the lock order graph.  Notifications of observers are resolved to the observers attached to that
class of subject, virtual calls to the implementations of the classes the receiver may have.  A cycle, or an edge of a lock to itself (for
locks of which there is one, or on the same object), is reported with the two call chains."""
from collections import defaultdict
from common import *
from locktab import *

LEVEL = 'other'
TECHNIQUE = 'lock-order graph from interprocedural lock sets'
NOTE = 'Two objects of a class that has a mutex per object are one node; nesting two such objects is not reported.'
ASSUMPTIONS = ['observers are attached by Subject::Attach only', 'functions called through std::function members are run by their own thread']


def graph(L):
    edges = defaultdict(list)
    for x in L.edges:
        f = L.fns[x[0]]
        for i, l, mu, ma in L.acq.get(x[0], []):
            for h in ma:
                if h[0] != 'P' and l[0] != 'P': edges[(h, l)].append((x, i, None))
        for i, t in L.edges[x]:
            h = L.snap[x[0]].get(i, (0, frozenset()))[1] if i is not None else frozenset()
            if not h: continue
            for l in L.acquires.get(t, ()):
                for y in h:
                    if y[0] != 'P': edges[(y, l)].append((x, i, t))
    return edges


def chain_text(L, e, lock):
    x, i, t = e
    f = L.fns[x[0]]
    out = '%s (%s)' % (f.n, f.loc(i))
    if t is not None:
        p = L.path(t, lambda y: any(q[1] == lock for q in L.acq.get(y[0], [])))
        out += ' -> ' + ' -> '.join(L.fns[y[0]].n for y in p)
    return out


def single(ctx, L, l):
    """is there only one object with this mutex: static member, or member of a class with a global object"""
    P = ctx.P
    c = P.records.get(l[0])
    if c is None: return True
    if not any(x['m'] == l[1] for x in c['fields']): return True
    g = getattr(L, '_single', None)
    if g is None:
        g = set()
        for v in P.globals.values():
            t = bare(v['T'][v['t']])
            m = re.match(r'std::unique_ptr<(.*?)(, std::default_delete.*)?>$', t)
            g.add(m.group(1) if m else t)
        L._single = g
    return any(c in g for c in P.subclasses(l[0]) | {l[0]})


def run(ctx):
    P = ctx.P; L = model(ctx)
    edges = graph(L)
    nacq = sum(len(v) for v in L.acq.values())
    ctx.floor('acquisitions', nacq, 80)
    nodes = {l for v in L.acq.values() for a in v for l in [a[1]]}
    ctx.floor('locks', len(nodes), 20)
    ctx.count('ordered pairs', len(edges))
    ctx.count('functions on objects', len(L.edges))
    for (a, b), v in sorted(edges.items()):
        if a != b: continue
        for e in v:
            if single(ctx, L, a) or sameobject(L, e, a):
                f = L.fns[e[0][0]]
                ctx.violation('relock', f.loc(e[1]), '%s::%s is acquired again while it is held: %s' % (a + (chain_text(L, e, b),)), '%s.%s in %s' % (a + (f.n,)))
    succ = defaultdict(set)
    for a, b in edges:
        if a != b: succ[a].add(b)
    # strongly connected components
    for comp in sccs(succ):
        if len(comp) < 2: continue
        comp = sorted(comp)
        txt = []; where = None
        for a in comp:
            for b in sorted(succ[a]):
                if b in comp:
                    e = edges[(a, b)][0]
                    txt.append('%s::%s then %s::%s in %s' % (a + b + (chain_text(L, e, b),)))
                    where = where or L.fns[e[0][0]].loc(e[1])
        # name the weaker direction of the cycle as the place of the violation
        ws = sorted(((len(edges[(a, b)]), a, b) for a in comp for b in succ[a] if b in comp))
        e = edges[(ws[0][1], ws[0][2])][0]
        ctx.violation('cycle', L.fns[e[0][0]].loc(e[1]), 'locks are acquired in different orders: ' + '; '.join(txt[:6]), ' '.join('.'.join(x) for x in comp))


def sameobject(L, e, lock):
    """the second acquisition is made on the object whose lock is held: within methods of one object"""
    x, i, t = e
    f = L.fns[x[0]]
    def base(g, j):
        n = g.N[j]
        a = [y for y in n.get('a', []) if y >= 0]
        for y in a:
            z = y
            while g.N[z]['k'] in ('un', 'cast'): z = g.N[z]['x']
            if g.N[z]['k'] == 'mem' and (g.N[z]['cl'], g.N[z]['m']) == lock: return expr(g, g.N[z]['o'])
        return None
    def expr(g, j):
        n = g.N[j]
        if n['k'] == 'this': return 'this'
        if n['k'] == 'ref': return ('v', n.get('vi'), n.get('d'))
        return None
    # held by this object's guard in f
    helds = {base(f, j) for j, l, mu, ma in L.acq.get(x[0], []) if l == lock} - {None}
    if not helds: return False
    if t is None:
        return base(f, i) in helds and len([1 for j, l, mu, ma in L.acq[x[0]] if l == lock]) > 1
    n = f.N[i]
    o = n.get('o', -1)
    if o < 0 or expr(f, o) not in helds: return False
    # chain of calls on the same object
    st = [t]; seen = set()
    while st:
        y = st.pop()
        if y in seen: continue
        seen.add(y); g = L.fns[y[0]]
        for j, l, mu, ma in L.acq.get(y[0], []):
            if l == lock and base(g, j) == 'this': return True
        for j, z in L.edges[y]:
            if j is not None and g.N[j].get('o', -1) >= 0 and g.N[g.N[j]['o']]['k'] == 'this': st.append(z)
    return False


def sccs(succ):
    index = {}; low = {}; st = []; on = set(); out = []; c = [0]
    def go(v):
        index[v] = low[v] = c[0]; c[0] += 1; st.append(v); on.add(v)
        for w in succ.get(v, ()):
            if w not in index: go(w); low[v] = min(low[v], low[w])
            elif w in on: low[v] = min(low[v], index[w])
        if low[v] == index[v]:
            comp = set()
            while True:
                w = st.pop(); on.discard(w); comp.add(w)
                if w == v: break
            out.append(comp)
    for v in list(succ):
        if v not in index: go(v)
    return out
