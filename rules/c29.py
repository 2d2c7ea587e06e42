"""Integer divisions.  Every integer division and remainder whose divisor is not a constant: on all paths to it the divisor must be known not to be zero
(comparisons on the path, values computed on the path).  A divisor that is a parameter is required of all callers, transitively."""
from common import *
import sim as simmod

LEVEL = 'other'
TECHNIQUE = 'path-sensitive analysis of divisors, requirements on parameters passed up to the callers'
NOTE = 'Floating point divisions (no trap) are not covered.'
ASSUMPTIONS = ['fields that are listed as never zero are set by their constructors or are checked where they are set']
OPS = ('/', '%', '/=', '%=')
# sizes that are never negative (set from the sizes of files and articles)
NOTNEG = {('FileInfo', 'm_remainingSize'), ('FileInfo', 'm_size'), ('NzbInfo', 'm_size'), ('NzbInfo', 'm_remainingSize')}
# divisors that cannot be zero because of how the data is built: (class or function, divisor)
NEVER = {
    ('ListFilesXmlCommand', 'FileInfo::GetSize() - FileInfo::GetMissedSize()'): 'size of the articles that are present; one of them was counted as successful or failed',
    ('QueueCoordinator', 'NzbInfo::GetTotalArticles()'): 'called for a download with at least one file; NzbFile does not add files without articles',
    ('NzbInfo', 'm_size - goodParSize'): 'good par size <= par size <= size, and par size != size here',
    ('Repairer', 'totaldata'): 'field of the par2 library, set before the repair threads are started',
}


def strip(f, i):
    while f.N[i]['k'] == 'cast': i = f.N[i]['x']
    return i


def integral(t):
    t = bare(t)
    return not any(x in t for x in ('float', 'double')) and '<' not in t


def divisions(f):
    for i in f.reach_nodes():
        n = f.N[i]
        if n['k'] == 'bin' and n['op'] in OPS and integral(f.typ(i)) and integral(f.typ(n['y'])) and not f.N[strip(f, n['y'])].get('cv') and not f.N[n['y']].get('cv') and f.N[strip(f, n['y'])]['k'] != 'int': yield i, n


class Div(simmod.Client):
    want_nodes = True
    def __init__(s, f, req): s.f = f; s.req = req; s.n = 0; s.bad = []; s.up = {}; s.upf = {}; s.never = set(); s.sizes = set(); s.neg = []; s.sites = set(); s.div = {}

    def should_inline(s, sim, g): return len(g.N) < 25 and bool(g.B) and not any(x['k'] in ('new', 'lam') for x in g.N)

    def zero(s, sim, st, t):
        """may the value be zero here?"""
        if t[0] == 'c': return t[1] == 0
        sts = sim.assume(st, sim.cmp('==', t, ('c', 0)), True)
        if sts and t[0] == 'op' and t[1] == '-': sts = [q for r in sts for q in sim.assume(r, sim.cmp('==', t[2], t[3]), True)]
        if sts and t[0] == 'op' and t[1] == '*': return s.zero(sim, st, t[2]) or s.zero(sim, st, t[3])
        if t[0] == 'call' and '@F@size#' in t[1]:
            e = ('call', t[1].replace('@F@size#', '@F@empty#')) + t[2:]
            sts = [r for r in sts if sim.truth(r, e) is not False]
        # 0 <= x < divisor
        sts = [r for r in sts if not any(v and a[0] == 'lt' and a[2] == t and (a[1][0] == 'f' and a[1][2:] in NOTNEG or sim.interval(st, a[1])[0] >= 0) for a, v in r.atoms.items())]
        return bool(sts)

    def on_node(s, sim, st, fr, i, n):
        f = fr.fn
        if n['k'] == 'bin' and n['op'] in OPS and (f.u, i) in s.all(f):
            s.sites.add((f.u, i)); s.n += 1
            s.check(sim, st, fr, i, n['y'], sim.eval(st, fr, n['y']), 'divides by')
        return None

    def all(s, f):
        if f.u not in s.div: s.div[f.u] = {(f.u, i) for i, n in divisions(f)}
        return s.div[f.u]

    def check(s, sim, st, fr, i, y, t, what):
        if not s.zero(sim, st, t): return
        f = fr.fn
        x = strip(f, y)
        if f.N[x]['k'] == 'ref' and f.N[x].get('dk') == 'par' and fr.parent is None and f.kind != 'lambda' and t == ('v', f.tu, f.N[x]['vi']):
            for k, p in enumerate(f.p):
                if p['vi'] == f.N[x]['vi']: s.up[k] = (f.loc(i), what)
            return
        if f.N[x]['k'] == 'mem' and f.N[f.N[x]['o']]['k'] == 'this' and t == ('f', fr.this, f.N[x]['cl'], f.N[x]['m']):
            ks = ctorparams(sim.P, f.N[x]['cl'], f.N[x]['m'])
            for u, k in ks: s.upf.setdefault(u, {})[k] = (f.loc(i), what)
            if ks: return
        if (f.cl, text(f, y)) in NEVER: s.never.add((f.cl, text(f, y))); return
        s.bad.append((f, i, y, what, st.path()))

    def on_call(s, sim, st, fr, i, n, obj, args):
        for a in [args[0]] if n['k'] == 'call' and n.get('fn') == 'ArticleInfo::SetSize' and args and fr.fn.cl == 'NzbFile' else ():
            s.sizes.add((fr.fn.u, i))
            for v in [a] if a[0] != 'cond' else [q for q, w in ((a[2], True), (a[3], False)) if sim.assume(st, a[1], w)]:
                sts = sim.assume(st, sim.cmp('<', v, ('c', 0)), True)
                if a[0] == 'cond': sts = [r for r0 in sts for r in sim.assume(r0, a[1], v == a[2])]
                if sts: s.neg.append((fr.fn, i, st.path()))
        for g in sim.P.targets(fr.fn, i):
            for k in s.req.get(g.u, ()):
                if k < len(args): s.check(sim, st, fr, i, n['a'][k], args[k], 'passes to %s, which divides by it,' % g.n)
        return None


def ctorparams(P, cl, m):
    """[(constructor, index of parameter)] if the field is only set by constructors, from their parameters"""
    out = []
    for f in P.daemon_fns():
        for i in f.reach_nodes():
            n = f.N[i]
            w = n['k'] == 'bin' and n['op'].endswith('=') and n['op'] not in ('==', '!=', '<=', '>=') and n['x'] or n['k'] == 'un' and n['op'] in ('++', '--') and n['x']
            if w and f.N[strip(f, w)]['k'] == 'mem' and f.N[strip(f, w)]['m'] == m and f.N[strip(f, w)]['cl'] == cl: return []
        if f.cl != cl or f.kind != 'ctor': continue
        for b in f.B.values():
            for e in b['e']:
                if not isinstance(e, int) and e['k'] == 'init' and e.get('m') == m:
                    x = strip(f, e['x']) if e.get('x', -1) >= 0 else -1
                    k = [k for k, p in enumerate(f.p) if x >= 0 and f.N[x]['k'] == 'ref' and f.N[x].get('dk') == 'par' and f.N[x]['vi'] == p['vi']]
                    if not k: return []
                    out.append((f.u, k[0]))
    return out


def text(f, i):
    i = strip(f, i); n = f.N[i]
    return {'ref': lambda: n.get('d', '?').split('::')[-1], 'mem': lambda: n['m'], 'call': lambda: n.get('fn', '?') + '()', 'bin': lambda: '%s %s %s' % (text(f, n['x']), n['op'], text(f, n['y'])), 'un': lambda: n['op'] + text(f, n['x'])}.get(n['k'], lambda: n['k'])()


def run(ctx):
    P = ctx.P; req = {}; todo = {}; sites = set(); fns = set(); never = set(); sizes = set()
    for f in P.daemon_fns():
        if f.B and any(True for x in divisions(f)): todo[f.u] = f
    for f in P.daemon_fns():
        if f.cl == 'NzbFile' and any(n['k'] == 'call' and n.get('fn') == 'ArticleInfo::SetSize' for n in f.N): todo[f.u] = f
    total = 0
    while todo:
        u, f = todo.popitem()
        c = Div(f, req); m = simmod.Sim(P, ctx.eff, c, K=8, budget=150000)
        m.run_fn(simmod.Frame(f, ('this',)), [simmod.State(client=())])
        if c.bad:
            c = Div(f, req); m = simmod.Sim(P, ctx.eff, c, K=40, budget=150000)
            m.run_fn(simmod.Frame(f, ('this',)), [simmod.State(client=())])
        if m.truncated: ctx.notes.append('not all paths of %s were followed' % f.n)
        sites |= c.sites; never |= c.never; fns.add(u); ctx.src(f.file); total += c.n
        seen = set()
        for g, i, y, what, path in c.bad:
            t = text(g, y)
            if (g.loc(i), t) in seen: continue
            seen.add((g.loc(i), t))
            ctx.violation('zero', g.loc(i), '%s %s "%s" although it may be zero (path %s)' % (f.n, what, t, path), '%s divides by %s' % (g.n, t))
        for fu, ks in c.upf.items():
            if set(ks) - req.get(fu, set()):
                req.setdefault(fu, set()).update(ks)
                for h, i, how in P.callers().get(fu, ()): todo[h.u] = h
        sizes |= c.sizes
        for g, i, path in c.neg: ctx.violation('size', g.loc(i), 'the size of an article, read from the nzb-file, may be negative (path %s): sums of sizes that are used as divisors may be zero' % path, 'negative article size in %s' % g.n)
        if set(c.up) - req.get(u, set()):
            req.setdefault(u, set()).update(c.up)
            for h, i, how in P.callers().get(u, ()): todo[h.u] = h
    ctx.count('divisions', len(sites)); ctx.count('divisions on paths', total); ctx.count('functions', len(fns)); ctx.count('parameters the callers must not set to zero', sum(map(len, req.values())))
    for k in sorted(never): ctx.notes.append('accepted: %s %s: %s' % (k + (NEVER[k],)))
    ctx.count('sizes of articles', len(sizes)); ctx.need('the size of an article read from an nzb-file', sizes)
    ctx.floor('divisions', len(sites), 12)
