"""The web server does not leave its directory.  The request processor is analysed under the hypothesis that the requested path contains a
forbidden sequence somewhere (an unknown place, found by no scan yet).  A scan over the path is followed abstractly: its cursor is before, on,
or behind the sequence; the end of the path is not reached before the sequence was seen; searches of the C library for the sequence succeed.
On no path may a file be loaded.  Separately, every file name that is opened begins with the web directory and continues with the checked
path (or parts of it) and nothing else."""
from common import *
import sim as simmod

LEVEL = 'other'
TECHNIQUE = 'path-sensitive analysis under the hypothesis of a forbidden sequence (abstract cursor position)'
NOTE = 'Decides that no path with ".." or a backslash reaches the opening of a file and that file names are built from the web directory and the checked path. Symbolic links inside of the web directory are not judged.'
ASSUMPTIONS = ['C library search functions behave as documented']
SINKS = ('FileSystem::LoadFileIntoBuffer', 'DiskFile::Open', 'fopen', 'open', 'FileSystem::OpenFile')
BAD = ('..', '\\')


class Url(simmod.Client):
    """client state: (position of the cursor, cursor variable, objects derived from the path)"""
    inline_depth = 8
    want_nodes = True
    def __init__(s, ctx, seq, field):
        s.ctx = ctx; s.seq = seq; s.len = len(seq); s.field = field; s.reads = 0; s.sinks = {}
        P = ctx.P
        s.reach = P.closure(lambda g: g.n in SINKS)

    def is_url(s, t):
        while t is not None and t[0] == 'call' and t[1] == 'str': t = t[2]
        return t is not None and t[0] == 'f' and t[3] == s.field and t[2] == 'WebProcessor'

    def should_inline(s, sim, g):
        if not g.B or not g.file.startswith('daemon/remote/'): return False
        if g.cl == 'WebProcessor': return g.u in s.reach or s.scans(g)
        return s.scans(g) and any(s.off(a) is not None or s.is_url(a) for a in sim.c.cur[4])

    def scans(s, g):
        c = g._cache.get('c10')
        if c is None:
            c = False
            for i in g.reach_nodes():
                n = g.N[i]
                if n['k'] == 'un' and n['op'] == '*' or n['k'] == 'idx':
                    if bare(g.typ(i)).replace('const ', '') == 'char': c = True
                if n['k'] == 'call' and n.get('fn') in ('strstr', 'strchr', 'strpbrk') and g.n != 'WebProcessor::ParseHeaders': c = True
            g._cache['c10'] = c
        return c and g.n not in ('WebProcessor::ParseHeaders', 'WebProcessor::SendBodyResponse')

    def off(s, t):
        """offset to the cursor"""
        if t is None: return None
        if t[0] == 'cur': return 0
        if t[0] == 'op' and t[1] in '+-' and t[2][0] == 'cur' and t[3][0] == 'c': return t[3][1] if t[1] == '+' else -t[3][1]
        if t[0] == 'op' and t[1] == '+' and s.is_url(t[2]): return s.off(t[3])
        if t[0] == 'op' and t[1] in '+-' and t[3][0] == 'c' and s.off(t[2]) is not None: return s.off(t[2]) + (t[3][1] if t[1] == '+' else -t[3][1])
        return None

    def indexvar(s, f):
        """variables that index characters"""
        c = f._cache.get('c10i')
        if c is None:
            c = set()
            for i in f.reach_nodes():
                n = f.N[i]
                if n['k'] == 'idx' and bare(f.typ(i)).replace('const ', '') == 'char' or n['k'] == 'call' and lastname(n) == 'operator[]':
                    j = n['y'] if n['k'] == 'idx' else n['a'][-1]
                    c |= {f.N[x]['vi'] for x in f.subtree(j) if f.N[x]['k'] == 'ref' and f.N[x]['dk'] in ('loc', 'par')}
                if n['k'] == 'bin' and n['op'] == '+' and f.typ(i).replace('const ', '').strip() == 'char *':
                    c |= {f.N[x]['vi'] for x in f.subtree(n['y']) if f.N[x]['k'] == 'ref' and f.N[x]['dk'] in ('loc', 'par')}
            f._cache['c10i'] = c
        return c

    def start(s, st, key):
        for k, v in list(st.env.items()):
            if s.off(v) is not None: st.env[k] = ('u', ('stale', k))
        st.client = ('clean' if st.client[0] == 'clean' else 'maybe', key, st.client[2])
        st.env[key] = ('cur', key)

    def on_assign(s, sim, st, fr, i, lv, val):
        pos, ck, der = st.client
        if s.is_url(lv):
            st.client = ('none', None, der); return None
        if lv[0] in ('deref', 'idx') and val != ('c', 0) and any(s.off(x) is not None or s.is_url(x) for x in lv[1:]):
            st.client = ('none', None, der); return None       # the path is rewritten
        if lv[0] != 'v': return None
        key = (lv[1], lv[2])
        T = None
        if s.is_url(val) or val and val[0] == 'op' and s.is_url(val[2]) and val[3][0] == 'c' and 0 <= val[3][1] <= 1 and val[1] == '+':
            if 'CString' in fr.fn.typ(i): return None
            s.start(st, key); return None
        if val == ('c', 0) and key[0] == fr.fn.tu and key[1] in s.indexvar(fr.fn) and not fr.fn.N[i].get('fn'):
            s.start(st, key); return None
        o = s.off(val)
        if o is not None and val[2 if val[0] == 'op' else 0] == (('cur', ck) if val[0] == 'op' else 'cur') and key == ck and o > 0:
            outs = [st]
            for _ in range(min(o, 3)):
                nxt = []
                for x in outs:
                    p = x.client[0]
                    if isinstance(p, int): nx = (p + 1,) if p < s.len else ('passed',)
                    else: nx = {'before': ('maybe',), 'maybe': ('maybe', 1), 'passed': ('passed',), 'clean': ('clean',), 'none': ('none',)}[p]
                    for q in nx:
                        y = x.copy(); y.client = (q, ck, der); nxt.append(y)
                outs = nxt
            cur = ('cur', ck)
            for x in outs:
                for k, v in list(x.env.items()):
                    ov = s.off(v)
                    if k != key and ov is not None: x.env[k] = cur if ov == o else ('op', '+', cur, ('c', ov - o))
                x.env[key] = cur
                n = fr.fn.N[i]
                if n['k'] == 'un': x.vals[(fr.fn.u, i)] = ('op', '+', cur, ('c', -o)) if n.get('post') else cur
            return outs
        return None

    def cell(s, sim, st, fr, i, o):
        s.reads += 1
        pos, ck, der = st.client; out = []
        for p in (('before', 0) if pos == 'maybe' else (pos,)):
            x = st.copy(); x.client = (p, ck, der)
            if isinstance(p, int) and 0 <= o + p < s.len: x.vals[(fr.fn.u, i)] = ('c', ord(s.seq[o + p]))
            else:
                t = sim.fresh(x, (fr.fn.u, i))
                if p == 'before' and o in (0, 1): sim.setnum(x, t, -128, 127, frozenset((0,)))
                x.vals[(fr.fn.u, i)] = t
            out.append(x)
        return out

    def on_node(s, sim, st, fr, i, n):
        f = fr.fn
        if n['k'] == 'un' and n['op'] == '*':
            o = s.off(sim.eval(st, fr, n['x']))
            if o is not None: return s.cell(sim, st, fr, i, o)
        elif n['k'] == 'idx' or n['k'] == 'call' and lastname(n) == 'operator[]' and n.get('a'):
            x, y = (n['x'], n['y']) if n['k'] == 'idx' else (n.get('o', -1), n['a'][-1])
            if x < 0: return None
            a, b = sim.eval(st, fr, x), sim.eval(st, fr, y)
            o = s.off(a)
            if o is not None and b[0] == 'c': return s.cell(sim, st, fr, i, o + b[1])
            if s.is_url(a) and s.off(b) is not None: return s.cell(sim, st, fr, i, s.off(b))
        elif n['k'] == 'bin' and n['op'] in ('!=', '<', '>', '=='):
            a, b = sim.eval(st, fr, n['x']), sim.eval(st, fr, n['y'])
            op = n['op']
            if s.off(b) == 0 and s.off(a) is None: a, b = b, a; op = {'<': '>', '>': '<'}.get(op, op)
            if s.off(a) == 0 and s.off(b) is None and mentions(b, lambda x: x[0] == 'call' and re.search(r'strlen|Length|end|size', str(x[1]))):
                # end of the path: not reached before the sequence
                if st.client[0] in ('before', 'maybe') or isinstance(st.client[0], int) and st.client[0] < s.len:
                    y = st.copy(); y.vals[(f.u, i)] = ('c', 1 if op in ('!=', '<') else 0); return [y]
        return None

    def on_call(s, sim, st, fr, i, n, obj, args):
        fn = n.get('fn', ''); last = lastname(n); f = fr.fn
        pos, ck, der = st.client
        if fn in ('strstr', 'strchr', 'strpbrk', 'index') and args and (s.is_url(args[0])):
            a = args[1]
            lit = a[1] if a[0] == 's' else chr(a[1]) if a[0] == 'c' and 0 < a[1] < 128 else None
            t = sim.fresh(st, ('URL', f.u, i))
            if pos == 'clean': return [(st, t)]
            if lit and (fn == 'strpbrk' and s.seq[0] in lit and len(s.seq) == 1 or fn != 'strpbrk' and lit in s.seq):
                s.reads += 1
                sim.setnum(st, t, 1, simmod.POS_INF, frozenset((0,)))
                if lit != s.seq: return [(st, t)]
            return [(st, t)]
        if last in SINKS or fn in SINKS:
            s.sink(sim, st, fr, i, n, args)
            return [(st, sim.fresh(st, (f.u, i)))]
        if n['k'] == 'ctor' and not n.get('cp') and args and f.N[i].get('cl') in ('Tokenizer',):
            return None
        if last == 'Next' and obj is not None and n.get('cl') == 'Tokenizer':
            return [(st, sim.fresh(st, ('TOK', f.u, i)))]
        # a function that may rewrite the path
        if n['k'] == 'call' and n.get('f') in s.ctx.P.fns:
            g = s.ctx.P.fns[n['f']]
            for a, p in zip(args, g.p):
                t = g.T[p['t']]
                if s.is_url(a) and t.strip() == 'char *' and not s.should_inline2(sim, st, fr, i, obj, args, g):
                    st.client = ('none', None, der)
        return None

    def should_inline2(s, sim, st, fr, i, obj, args, g):
        sim.c.cur = (st, fr, i, obj, args); return s.should_inline(sim, g)

    def sink(s, sim, st, fr, i, n, args):
        f = fr.fn
        s.sinks.setdefault((f.u, i), (f, i))
        if st.client[0] == 'clean': return
        s.ctx.violation('escape', f.loc(i), '%s opens a file although the requested path may contain "%s" (path %s)' % (f.n, s.seq, st.path()), '%s %s' % (f.n, s.seq))


def names(ctx, url, fns):
    """the name of every file opened for a request: web directory first, then the path"""
    P = ctx.P; n = 0
    def origin(f, i, depth=0, seen=None):
        """what a text expression is made of"""
        seen = seen or set()
        if depth > 12 or i is None or i < 0 or (f.u, i) in seen: return set()
        seen = seen | {(f.u, i)}
        x = f.N[i]; k = x['k']
        if k in ('int', 'null') or 'cv' in x: return {('lit', x.get('cv', x.get('v')))}
        if k == 'str': return {('lit', x['v'])}
        if k == 'cast' or k == 'un': return origin(f, x['x'], depth + 1, seen)
        if k == 'mem':
            if x['m'] == url and x['cl'] == 'WebProcessor': return {('url',)}
            return {('field', x['cl'] + '::' + x['m'])}
        if k == 'bin': return origin(f, x['x'], depth + 1, seen) | (origin(f, x['y'], depth + 1, seen) if x['op'] not in ('+', '-') else set())
        if k == 'cond': return origin(f, x['y'], depth + 1, seen) | origin(f, x['z'], depth + 1, seen)
        if k == 'idx': return origin(f, x['x'], depth + 1, seen)
        if k == 'ref':
            if x['dk'] in ('loc',):
                out = set()
                for j in f.reach_nodes():
                    y = f.N[j]
                    if y['k'] == 'decl':
                        for d in y['vars']:
                            if d['vi'] == x['vi'] and d.get('i', -1) >= 0: out |= origin(f, d['i'], depth + 1, seen)
                    elif y['k'] == 'bin' and y['op'] in ('=', '+='):
                        z = f.N[y['x']]
                        if z['k'] == 'ref' and z.get('vi') == x['vi'] and z['dk'] == 'loc': out |= origin(f, y['y'], depth + 1, seen)
                    elif y['k'] == 'call' and y.get('o', -1) >= 0 and lastname(y) in ('Format', 'Append', 'AppendFmt', 'Set', 'operator='):
                        z = f.N[y['o']]
                        while z['k'] == 'cast': z = f.N[z['x']]
                        if z['k'] == 'ref' and z.get('vi') == x['vi']:
                            for a in y['a']: out |= origin(f, a, depth + 1, seen)
                return out
            if x['dk'] == 'par':
                out = set()
                for g, j, how in P.callers().get(f.u, ()):
                    y = g.N[j]; a = y.get('a', ())
                    idx = [q for q, p in enumerate(f.p) if p.get('vi') == x['vi']]
                    if idx and idx[0] < len(a): out |= origin(g, a[idx[0]], depth + 1, seen)
                    elif idx: out |= {('other', 'parameter')}
                return out or {('other', 'parameter')}
            return {('global', x.get('d'))}
        if k in ('call', 'ctor'):
            ln = lastname(x)
            if ln == 'GetWebDir': return {('webdir',)}
            if is_text(x, ln) or k == 'ctor':
                out = set()
                if x.get('o', -1) is not None and x.get('o', -1) >= 0: out |= origin(f, x['o'], depth + 1, seen)
                for a in x.get('a', ()): out |= origin(f, a, depth + 1, seen)
                return out
            return {('other', x.get('fn', ''))}
        return {('other', k)}
    def is_text(x, ln):
        return ln in ('strchr', 'strrchr', 'strstr', 'Next', 'Str', 'c_str', 'operator*', 'operator[]', 'FormatStr', 'Content') or ln.startswith('operator ')
    for f in fns:
        for i in f.calls():
            x = f.N[i]
            if lastname(x) not in ('LoadFileIntoBuffer', 'Open', 'fopen', 'open', 'OpenFile') or not (x.get('fn') in SINKS): continue
            n += 1
            o = origin(f, x['a'][0])
            for k in sorted(o, key=str):
                if k[0] in ('other', 'field', 'global'):
                    ctx.violation('name', f.loc(i), '%s opens a file whose name is made of something other than the web directory and the checked path (%s)' % (f.n, ' '.join(str(y) for y in k)), '%s %s' % (f.n, k[-1]))
            if ('webdir',) not in o: ctx.violation('name', f.loc(i), '%s opens a file outside of the web directory' % f.n, f.n + ' webdir')
            bad = [k[1] for k in o if k[0] == 'lit' and isinstance(k[1], str) and '..' in k[1]]
            if bad: ctx.violation('name', f.loc(i), '%s adds a parent reference to the name' % f.n, f.n + ' parent')
    return n


def run(ctx):
    P = ctx.P
    f = ctx.fn('WebProcessor::Execute')
    flds = {x['m'] for x in P.records['WebProcessor']['fields']}
    url = 'm_url'
    for g in P.fn('WebProcessor::SetUrl') if isinstance(P.fn('WebProcessor::SetUrl'), list) else [P.fn('WebProcessor::SetUrl')]:
        if g is None: continue
        for i in g.reach_nodes():
            if g.N[i]['k'] == 'mem' and g.N[i]['m'] in flds: url = g.N[i]['m']
    ctx.need('requested path in WebProcessor', url in flds)
    total = {}
    for seq, first in [(q, p) for q in BAD for p in ('none', 'clean')]:      # clean: the path was good until it is rewritten
        c = Url(ctx, seq, url)
        s = simmod.Sim(P, ctx.eff, c, K=2)
        st = simmod.State(client=(first, None, frozenset()))
        s.setnum(st, ('this',), 1, simmod.POS_INF, frozenset((0,)))
        s.run_fn(simmod.Frame(f, ('this',)), [st])
        ctx.need('complete analysis of the request processor', not s.truncated)
        if first == 'none': ctx.count('characters examined by checks of the path (%s)' % seq, c.reads)
        else: ctx.need('opening of files in the web server', c.sinks)
    fns = [g for g in P.fns.values() if g.file.endswith('remote/WebServer.cpp') and g.B]
    ctx.floor('file openings in the web server', names(ctx, url, fns), 1)
