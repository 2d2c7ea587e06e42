"""Context-sensitive forward dataflow with set-valued abstract values ("where does a value come from").

A value is (tags, consts): a set of client-defined tags and a small set of possible constants (None: anything).  Locals are tracked
flow-sensitively, callees chosen by the client are analysed in the context of the call (results are cached per context and input), branches whose
condition has a known constant truth are pruned.  The client may keep a dictionary of sets (cl) in the state that is joined by union."""
from ir import bare

TOP = (frozenset(), None)
MAXC = 6


def const(*c): return (frozenset(), frozenset(c))
def tags(*t): return (frozenset(t), None)


def join(a, b):
    if a == b: return a
    if a is None: return b
    if b is None: return a
    c = None
    if a[1] is not None and b[1] is not None:
        c = a[1] | b[1]
        if len(c) > MAXC: c = None
    return (a[0] | b[0], c)


def truth(v):
    c = v[1]
    if not c: return None
    r = {bool(x) or isinstance(x, str) for x in c}
    return r.pop() if len(r) == 1 else None


class St:
    __slots__ = ('env', 'vals', 'cl')

    def __init__(s, env=None, vals=None, cl=None):
        s.env = env if env is not None else {}; s.vals = vals if vals is not None else {}; s.cl = cl if cl is not None else {}

    def copy(s): return St(dict(s.env), dict(s.vals), dict(s.cl))
    def key(s): return (frozenset(s.env.items()), frozenset(s.cl.items()))
    def __eq__(s, o): return s.env == o.env and s.vals == o.vals and s.cl == o.cl


def joinst(a, b):
    if a is None: return b
    env = dict(a.env)
    for k, v in b.env.items():
        x = env.get(k)
        env[k] = v if x is None else join(x, v) if isinstance(v, tuple) and v[0] != 'ref' else v
    vals = dict(a.vals)
    for k, v in b.vals.items():
        x = vals.get(k); vals[k] = v if x is None else join(x, v)
    cl = dict(a.cl)
    for k, v in b.cl.items(): cl[k] = cl.get(k, frozenset()) | v
    return St(env, vals, cl)


class Frame:
    __slots__ = ('fn', 'this', 'parent', 'site', 'depth', 'chain')

    def __init__(s, fn, this, parent=None, site=None):
        s.fn = fn; s.this = this; s.parent = parent; s.site = site
        s.depth = parent.depth + 1 if parent else 0
        s.chain = parent.chain + ((parent.fn.u, site),) if parent else ()

    def stack(s):
        f = s
        while f: yield f.fn; f = f.parent


class Client:
    depth = 10
    def call(s, fl, st, fr, i, n, obj, args): return None      # value, or None for default handling
    def inline(s, fl, st, fr, i, g, obj, args): return False
    def field(s, fl, st, fr, i, cl, m, obj): return tags(('f', cl, m))
    def store(s, fl, st, fr, i, lv, val): pass                 # lv: key
    def ret(s, fl, st, fr, i, val): return True                # False: path is dropped
    def node(s, fl, st, fr, i, n): pass
    def accum(s, v): return (v[0], None)                       # value added by a compound assignment
    def default(s, fl, st, fr, i, n, obj, args):               # result of an unknown call
        t = frozenset()
        if obj is not None: t |= obj[0]
        for a in args: t |= a[0]
        return (t, None)


class Flow:
    def __init__(s, P, client, budget=2000000):
        s.P = P; s.c = client; s.memo = {}; s.steps = 0; s.budget = budget

    # ---- lvalues
    def lv(s, st, fr, i):
        """keys an lvalue expression may denote"""
        fn = fr.fn; n = fn.N[i]; k = n['k']
        if k == 'ref':
            if n.get('dk') in ('loc', 'par'):
                key = (fn.tu, n['vi'])
                r = st.env.get(key)
                if isinstance(r, tuple) and r and r[0] == 'ref': return list(r[1])
                return [key]
            return [('g', n.get('d'))]
        if k == 'mem': return [('f', n['cl'], n['m'])]
        if k == 'idx':
            b = fn.N[n['x']]
            if b['k'] in ('ref', 'mem') and '[' in fn.typ(n['x']): return s.lv(st, fr, n['x'])
            return s.pointees(s.eval(st, fr, n['x'])) or (s.lv(st, fr, n['x']) if b['k'] == 'mem' else [])
        if k == 'un' and n['op'] == '*': return s.pointees(s.eval(st, fr, n['x']))
        if k == 'un' and n['op'] in ('++', '--'): return s.lv(st, fr, n['x'])
        if k == 'cast': return s.lv(st, fr, n['x'])
        if k == 'cond': return s.lv(st, fr, n['y']) + s.lv(st, fr, n['z'])
        if k in ('call',) and n.get('op') in ('*', '->', '[]') and n.get('o', -1) >= 0: return s.lv(st, fr, n['o'])
        v = s.eval(st, fr, i)
        return [t[1] for t in v[0] if t[0] in ('addr', 'at')]

    def pointees(s, v): return [t[1] for t in v[0] if t[0] == 'addr']

    def assign(s, st, fr, i, keys, val, weak=False):
        for k in keys:
            s.c.store(s, st, fr, i, k, val)
            if k[0] in ('f', 'g'): continue
            if weak or len(keys) > 1: st.env[k] = join(st.env.get(k, TOP), val)
            else: st.env[k] = val

    # ---- values
    def eval(s, st, fr, i):
        if i is None or i < 0: return TOP
        fn = fr.fn; n = fn.N[i]; k = n['k']
        v = st.vals.get((fr.depth, i))
        if v is not None: return v
        if k == 'ref':
            dk = n.get('dk')
            if 'cv' in n and dk != 'enum': return const(n['cv'])
            if dk in ('loc', 'par'):
                key = (fn.tu, n['vi']); v = st.env.get(key)
                if isinstance(v, tuple) and v and v[0] == 'ref':
                    out = None
                    for x in v[1]: out = join(out, s.load(st, fr, i, x))
                    return out or TOP
                return v if v is not None else TOP
            if dk == 'enum': return const(n['v'])
            if dk == 'glob':
                c = s.P.constant(n['d'])
                return const(c) if c is not None else tags(('g', n['d']))
            return TOP
        if k == 'int': return const(n['v'])
        if k == 'null': return const(0)
        if k == 'str': return const(n['v'])
        if k == 'this': return fr.this
        if 'cv' in n and k in ('bin', 'un', 'cast', 'szof'): return const(n['cv'])
        if k == 'mem':
            o = s.eval(st, fr, n['o']) if n.get('o', -1) >= 0 else fr.this
            return s.c.field(s, st, fr, i, n['cl'], n['m'], o)
        if k == 'cast':
            return s.eval(st, fr, n['x'])
        if k == 'un':
            op = n['op']
            if op == '&':
                ks = s.lv(st, fr, n['x'])
                base = s.eval(st, fr, n['x'])
                return (frozenset(('addr', x) for x in ks) | base[0], frozenset((1,)))
            v = s.eval(st, fr, n['x'])
            if op == '!':
                t = truth(v)
                return (v[0], None if t is None else frozenset((int(not t),)))
            if op == '*':
                out = (frozenset(t for t in v[0] if t[0] != 'addr'), None)
                for x in s.pointees(v): out = join(out, s.load(st, fr, i, x))
                return out
            return (v[0], None)
        if k == 'bin':
            op = n['op']
            if op == ',': return s.eval(st, fr, n['y'])
            if op == '=': return s.eval(st, fr, n['x'])
            if op.endswith('=') and op not in ('==', '!=', '<=', '>='): return s.eval(st, fr, n['x'])
            a, b = s.eval(st, fr, n['x']), s.eval(st, fr, n['y'])
            c = None
            if a[1] is not None and b[1] is not None:
                try:
                    f = {'+': lambda x, y: x + y, '-': lambda x, y: x - y, '*': lambda x, y: x * y, '==': lambda x, y: int(x == y), '!=': lambda x, y: int(x != y),
                         '<': lambda x, y: int(x < y), '>': lambda x, y: int(x > y), '<=': lambda x, y: int(x <= y), '>=': lambda x, y: int(x >= y)}.get(op)
                    if f: c = frozenset(f(x, y) for x in a[1] for y in b[1])
                except TypeError: c = None
            if op in ('&&', '||'):
                ta, tb = truth(a), truth(b)
                if op == '&&' and (ta is False or tb is False): c = frozenset((0,))
                elif op == '||' and (ta or tb): c = frozenset((1,))
                elif ta is not None and tb is not None: c = frozenset((int(ta and tb if op == '&&' else ta or tb),))
            if c is not None and len(c) > MAXC: c = None
            return (a[0] | b[0], c)
        if k == 'cond':
            t = truth(s.eval(st, fr, n['x']))
            if t is True: return s.eval(st, fr, n['y'])
            if t is False: return s.eval(st, fr, n['z'])
            v = join(s.eval(st, fr, n['y']), s.eval(st, fr, n['z']))
            return v if v[0] else (s.eval(st, fr, n['x'])[0], v[1])
        if k == 'idx':
            b = s.eval(st, fr, n['x'])
            if '[' in fn.typ(n['x']): return (b[0], None)
            out = (frozenset(t for t in b[0] if t[0] != 'addr'), None)
            for x in s.pointees(b): out = join(out, s.load(st, fr, i, x))
            return (out[0], None)
        if k == 'ilist':
            t = frozenset()
            for a in n['a']: t |= s.eval(st, fr, a)[0]
            return (t, None)
        if k == 'new': return s.eval(st, fr, n['x']) if n.get('x', -1) >= 0 else (frozenset(), None)
        if k == 'lam': return TOP
        return TOP

    def load(s, st, fr, i, key):
        if key[0] == 'f': return s.c.field(s, st, fr, i, key[1], key[2], TOP)
        if key[0] == 'g': return tags(('g', key[1]))
        return st.env.get(key, TOP)

    # ---- execution
    def elem(s, st, fr, e):
        fn = fr.fn
        if not isinstance(e, int):
            if e['k'] == 'init' and e.get('x', -1) >= 0 and 'm' in e:
                s.assign(st, fr, e['x'], [('f', fn.cl, e['m'])], s.eval(st, fr, e['x']))
            return True
        n = fn.N[e]; k = n['k']
        s.c.node(s, st, fr, e, n)
        if k == 'decl':
            for d in n['vars']:
                key = (fn.tu, d['vi'])
                if d.get('i', -1) >= 0:
                    t = fn.T[d['t']]
                    if t.endswith('&'):
                        ks = s.lv(st, fr, d['i'])
                        st.env[key] = ('ref', tuple(ks)) if ks else s.eval(st, fr, d['i'])
                    else:
                        v = s.eval(st, fr, d['i'])
                        st.env[key] = v; s.c.store(s, st, fr, e, key, v)
                else: st.env[key] = TOP
        elif k == 'bin':
            op = n['op']
            if op == '=':
                v = s.eval(st, fr, n['y'])
                s.assign(st, fr, e, s.lv(st, fr, n['x']), v, weak=fn.N[n['x']]['k'] in ('idx', 'un'))
            elif op in ('+=', '-=', '*=', '/=', '|=', '&=', '^=', '<<=', '>>=', '%='):
                v = s.eval(st, fr, n['y'])
                s.assign(st, fr, e, s.lv(st, fr, n['x']), s.c.accum(v), weak=True)
        elif k == 'un' and n['op'] in ('++', '--'):
            ks = s.lv(st, fr, n['x'])
            for key in ks:
                if key[0] not in ('f', 'g'):
                    v = st.env.get(key, TOP); st.env[key] = (v[0], None)
        elif k in ('call', 'ctor'):
            v = s.call(st, fr, e, n)
            if v is False: return False
            st.vals[(fr.depth, e)] = v
        elif k == 'ret':
            v = s.eval(st, fr, n['x']) if n.get('x', -1) >= 0 else TOP
            if not s.c.ret(s, st, fr, e, v): return False
            key = (fr.depth, 'ret')
            st.vals[key] = join(st.vals.get(key), v)
            if fn.rt.endswith('&') and n.get('x', -1) >= 0:
                ks = s.lv(st, fr, n['x'])
                st.vals[key] = (st.vals[key][0] | frozenset(('at', x) for x in ks), st.vals[key][1])
        return True

    def call(s, st, fr, i, n):
        fn = fr.fn
        obj = s.eval(st, fr, n['o']) if n.get('o', -1) >= 0 else (fr.this if n.get('cl') and n['k'] == 'call' and n.get('o', -1) < 0 else None)
        args = [s.eval(st, fr, a) for a in n.get('a', ())]
        r = s.c.call(s, st, fr, i, n, obj, args)
        if r is not None: return r
        nm = n.get('fn', '').split('::')[-1]
        op = n.get('op')
        if n['k'] == 'ctor' and n.get('cp') and args: return args[0]
        if n['k'] == 'call' and obj is not None and not n.get('a') and (nm in ('get', 'operator->', 'operator*', 'Str', 'c_str', 'data', 'operator bool', 'release', 'front', 'back', 'begin', 'end', 'rbegin')
                                                                       or nm.startswith('operator ') or op in ('->', '*')):
            # views of the object itself
            ks = s.lv(st, fr, n['o']) if op == '*' else []
            return (obj[0], obj[1] if nm in ('operator bool',) or nm.startswith('operator ') or nm in ('get', 'Str') else None)
        if op == '=' and n.get('o', -1) >= 0 and args:
            s.assign(st, fr, i, s.lv(st, fr, n['o']), args[0]); return args[0]
        if nm in ('move', 'forward', 'make_unique') and args:
            t = frozenset()
            for a in args: t |= a[0]
            return (t, args[0][1] if nm != 'make_unique' else None)
        tg = [g for g in s.P.targets(fn, i) if g.B]
        outs = None; done = False
        for g in tg:
            if fr.depth >= s.c.depth or any(x is g for x in fr.stack()): continue
            if len(tg) == 1 and s.tiny(g) or s.c.inline(s, st, fr, i, g, obj, args):
                r = s.inlined(st, fr, i, n, obj, args, g)
                done = True
                if r is None: continue
                outs = r if outs is None else (joinst(outs[0], r[0]), join(outs[1], r[1]))
        if done:
            if outs is None: return False
            st.env = dict(outs[0].env); st.cl = dict(outs[0].cl)
            return outs[1] if outs[1] is not None else TOP
        return s.c.default(s, st, fr, i, n, obj, args)

    def tiny(s, g):
        """accessors"""
        c = g._cache.get('tiny')
        if c is None:
            c = g.file.startswith('daemon/') and len(g.B) <= 3 and len(g.N) <= 14 and g.kind not in ('ctor', 'dtor') and \
                not any(g.N[i]['k'] == 'ctor' or not (g.N[i].get('op') in ('=', '->', '*', '[]') or g.N[i].get('fn', '').split('::')[-1] in ('get', 'move', 'Str', 'c_str') or
                        g.N[i].get('fn', '').split('::')[-1].startswith('operator ')) for i in g.calls())
            g._cache['tiny'] = c
        return c

    def inlined(s, st, fr, i, n, obj, args, g):
        f2 = Frame(g, obj if obj is not None else TOP, fr, i)
        st2 = St(dict(st.env), {k: v for k, v in st.vals.items() if k[0] < f2.depth}, dict(st.cl))
        for k, p in enumerate(g.p):
            key = (g.tu, p['vi'])
            if k < len(args):
                t = g.T[p['t']]
                if t.endswith('&') and not t.startswith('const '):
                    ks = s.lv(st, fr, n['a'][k])
                    st2.env[key] = ('ref', tuple(ks)) if ks else args[k]
                else: st2.env[key] = args[k]
            else: st2.env[key] = TOP
        mk = (f2.chain, g.u, st2.key(), f2.this)
        if mk in s.memo: return s.memo[mk]
        r = s.run_fn(f2, st2)
        if r is not None:
            out, val = r
            own = s.own(g)
            out.env = {k: v for k, v in out.env.items() if k not in own}
            r = (out, val)
        s.memo[mk] = r
        return r

    def own(s, g):
        c = g._cache.get('own')
        if c is None:
            c = {(g.tu, p['vi']) for p in g.p}
            for n in g.N:
                if n['k'] == 'decl': c |= {(g.tu, d['vi']) for d in n['vars']}
            g._cache['own'] = c
        return c

    def run_fn(s, fr, st0):
        fn = fr.fn
        if not fn.B: return (st0, TOP)
        order = {b: k for k, b in enumerate(fn.rpo())}
        ins = {fn.entry: st0}; work = {fn.entry}; seen = set(); out = None
        while work:
            b = min(work, key=lambda q: order.get(q, 1 << 30)); work.discard(b)
            s.steps += 1
            if s.steps > s.budget: break
            blk = fn.B[b]; st = ins[b].copy(); alive = True
            for e in blk['e']:
                if not s.elem(st, fr, e): alive = False; break
            if not alive or blk.get('nr'): continue
            if b == fn.exit:
                out = st; continue
            succ = blk['s']; t = blk.get('t'); tc = blk.get('tc', -1)
            live = [x for x in succ if x >= 0]
            if t and tc is not None and tc >= 0 and len(succ) == 2 and t not in ('SwitchStmt', 'CXXForRangeStmt') and not blk.get('tdb'):
                r = truth(s.eval(st, fr, s.deciding(fn, tc, blk)))
                if r is True: live = [succ[0]] if succ[0] >= 0 else []
                elif r is False: live = [succ[1]] if succ[1] >= 0 else []
            elif t == 'SwitchStmt':
                v = s.eval(st, fr, tc)
                if v[1] is not None:
                    hit = [x for x in live if 'case' in fn.B[x] and fn.B[x]['case'] in v[1]]
                    miss = any(not any(fn.B[x].get('case') == c for x in live) for c in v[1])
                    live = hit + ([x for x in live if 'case' not in fn.B[x]] if miss else [])
            for x in live:
                o = ins.get(x); nst = joinst(o, st)
                if o is None or not (nst == o):
                    ins[x] = nst if nst is not st else st.copy(); work.add(x)
        if out is None: return None
        val = out.vals.get((fr.depth, 'ret'), TOP)
        out.vals = {k: v for k, v in out.vals.items() if k[0] < fr.depth}
        return out, val

    def deciding(s, fn, tc, blk):
        bn = fn.blocknode(); n = fn.N[tc]
        while n['k'] == 'bin' and n['op'] in ('&&', '||') and not (tc in bn and bn[tc][0] == blk['i']):
            tc = n['y']; n = fn.N[tc]
        return tc

    def run(s, fn, args=(), this=TOP):
        st = St()
        for k, p in enumerate(fn.p): st.env[(fn.tu, p['vi'])] = args[k] if k < len(args) else TOP
        return s.run_fn(Frame(fn, this), st)
