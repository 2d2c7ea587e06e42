"""Path-sensitive dataflow over the extracted CFGs ("property simulation").

A state carries what is known at a program point: values of locals (env) and of fields (heap) as symbolic terms, facts about terms
(intervals / disequalities against constants, and truth of comparisons), and the checker's own abstract state (client).  Conditions split
states, contradictory branches are dropped, states that agree in the client part are merged (intersection of facts) once there are more
than K of them, and loops are iterated until nothing new appears.  Callees that matter to the checker are analysed in the caller's state.
"""
from ir import bare

K_VARIANTS = 8
MAX_VISITS = 60
NEG_INF, POS_INF = -(1 << 70), 1 << 70
TRUE, FALSE, NULL = ('c', 1), ('c', 0), ('c', 0)


def tdepth(t):
    d = 0
    st = [(t, 1)]
    n = 0
    while st:
        x, k = st.pop(); n += 1
        if k > d: d = k
        if n > 200: return 99
        for y in x[1:]:
            if isinstance(y, tuple) and y: st.append((y, k + 1))
    return d


class State:
    __slots__ = ('env', 'heap', 'num', 'atoms', 'vals', 'client', 'trace')

    def __init__(s, env=None, heap=None, num=None, atoms=None, vals=None, client=None, trace=None):
        s.env = env if env is not None else {}; s.heap = heap if heap is not None else {}
        s.num = num if num is not None else {}; s.atoms = atoms if atoms is not None else {}
        s.vals = vals if vals is not None else {}; s.client = client; s.trace = trace

    def copy(s):
        return State(dict(s.env), dict(s.heap), dict(s.num), dict(s.atoms), dict(s.vals), s.client, s.trace)

    def key(s):
        return (s.client, frozenset(s.env.items()), frozenset(s.heap.items()), frozenset(s.num.items()), frozenset(s.atoms.items()), frozenset(s.vals.items()))

    def with_client(s, c):
        t = s.copy(); t.client = c; return t

    def path(s, limit=14):
        out = []; t = s.trace
        while t is not None:
            out.append(t[1]); t = t[0]
        out.reverse()
        if len(out) > limit: out = out[:3] + ['...'] + out[-(limit - 4):]
        return ' > '.join(out)


class Frame:
    __slots__ = ('fn', 'this', 'parent', 'site', 'depth')

    def __init__(s, fn, this, parent=None, site=None):
        s.fn = fn; s.this = this; s.parent = parent; s.site = site; s.depth = parent.depth + 1 if parent else 0

    def stack(s):
        out = []; f = s
        while f: out.append(f.fn); f = f.parent
        return out

    def chain(s):
        out = []; f = s
        while f:
            out.append(f.fn.n + (' (called at %s)' % f.parent.fn.loc(f.site) if f.parent and f.site is not None else '')); f = f.parent
        return ' <- '.join(out)


IDENT_CALLS = {'get', 'operator->', 'operator*', 'operator bool'}


def is_conv(n):
    return n.get('fn', '').split('::')[-1].startswith('operator ')


class Client:
    inline_depth = 6
    def on_call(self, sim, st, fr, i, n, obj, args): return None
    def after_call(self, sim, st, fr, i, n, obj, args, ret): return None
    def on_deref(self, sim, st, fr, i, obj): return None
    def on_assign(self, sim, st, fr, i, lv, val): return None
    def on_dtor(self, sim, st, fr, e): return None
    def on_node(self, sim, st, fr, i, n): return None
    def on_return(self, sim, st, fr, i, val): return None
    def should_inline(self, sim, callee): return False
    def on_exit(self, sim, st, fr, val): return None
    def part(self, sim, st): return st.client      # states are merged only if they agree in this
    want_nodes = False


class Sim:
    def __init__(s, P, eff, client, K=K_VARIANTS, budget=400000):
        s.P = P; s.eff = eff; s.c = client; s.K = K; s.steps = 0; s.budget = budget
        s.deps_cache = {}
        s.truncated = False; s.wide = False

    # ------------------------------------------------------------------ terms
    def deps(s, t):
        r = s.deps_cache.get(t)
        if r is None:
            acc = set()
            k = t[0]
            if k == 'f': acc.add((t[2], t[3]))
            elif k == 'g': acc.add(t[1] if isinstance(t[1], tuple) else ('', t[1]))
            elif k == 'call':
                rs = s.eff.R.get(t[1])
                if rs: acc |= rs
            elif k == 'old':
                s.deps_cache[t] = frozenset(); return s.deps_cache[t]
            for x in t[1:]:
                if isinstance(x, tuple) and x and isinstance(x[0], str): acc |= s.deps(x)
            r = frozenset(acc); s.deps_cache[t] = r
        return r

    def mentions(s, t, sub):
        if t == sub: return True
        for x in t[1:]:
            if isinstance(x, tuple) and x and s.mentions(x, sub): return True
        return False

    def rename(s, t, mod, sub=None):
        """mark parts of t whose value may have changed as old values"""
        if t[0] in ('c', 's', 'u', 'old', 'v', 'this', 'fn'):
            if sub is not None and t == sub and t[0] == 'u': return ('old', t)
            return t
        d = s.deps(t)
        if not (d & mod) and (sub is None or not s.mentions(t, sub)): return t
        nt = tuple(s.rename(x, mod, sub) if isinstance(x, tuple) and x and isinstance(x[0], str) else x for x in t)
        if t[0] == 'f' and (t[2], t[3]) in mod: return ('old', nt)
        if t[0] == 'g' and (t[1] if isinstance(t[1], tuple) else ('', t[1])) in mod: return ('old', t)
        if t[0] == 'call' and (s.eff.R.get(t[1], frozenset()) & mod or (sub is not None and s.mentions(t, sub))): return ('old', nt)
        return nt

    def invalidate(s, st, mod, sub=None, fields=False):
        """fields in mod (and the content of object sub; with fields: except fields not in mod) may have changed"""
        if not mod and sub is None: return
        env = st.env
        def plain(t):
            while t[0] == 'f': t = t[1]
            return t == sub
        def aff(t):
            return (mod and s.deps(t) & mod) or (sub is not None and t != sub and s.mentions(t, sub) and not (fields and plain(t)))
        for k, t in list(env.items()):
            if aff(t): env[k] = s.rename(t, mod, sub)
        live = set()
        def collect(t):
            if t[0] == 'old': live.add(t)
            for x in t[1:]:
                if isinstance(x, tuple) and x and isinstance(x[0], str): collect(x)
        for t in env.values(): collect(t)
        for k, t in list(st.heap.items()):
            if aff(k): del st.heap[k]
            elif aff(t): st.heap[k] = s.rename(t, mod, sub); collect(st.heap[k])
        for k, t in list(st.vals.items()):
            if aff(t): st.vals[k] = s.rename(t, mod, sub); collect(st.vals[k])
        for k in list(st.num):
            if aff(k):
                v = st.num.pop(k); nk = s.rename(k, mod, sub)
                if nk in live: st.num[nk] = v
        for k in list(st.atoms):
            if aff(k[1]) or aff(k[2]):
                v = st.atoms.pop(k); a, b = s.rename(k[1], mod, sub), s.rename(k[2], mod, sub)
                def ok(t):
                    return t[0] != 'old' or t in live
                if ok(a) and ok(b): st.atoms[(k[0], a, b)] = v

    def fresh(s, st, site):
        return s.fresh_term(st, ('u', site))

    def fresh_term(s, st, t):
        used = any(s.mentions(x, t) for x in st.env.values()) or any(s.mentions(x, t) for x in st.heap.values()) or any(s.mentions(x, t) for x in st.heap) \
            or any(s.mentions(x, t) for x in st.num) or any(s.mentions(k[1], t) or s.mentions(k[2], t) for k in st.atoms) or any(s.mentions(x, t) for x in st.vals.values())
        if used:
            old = ('old', t)
            # drop what was known about an even older value, then rename
            def sub(x):
                if x == t: return old
                if x[0] in ('c', 's', 'v', 'this', 'fn'): return x
                return tuple(sub(y) if isinstance(y, tuple) and y and isinstance(y[0], str) else y for y in x)
            dead = lambda x: s.mentions(x, old)
            for d in (st.heap, st.num):
                for k in list(d):
                    if dead(k): del d[k]
            for k in list(st.atoms):
                if dead(k[1]) or dead(k[2]): del st.atoms[k]
            for d in (st.env, st.vals):
                for k, x in list(d.items()):
                    if dead(x): d[k] = ('u', ('gone', k))
                    elif s.mentions(x, t): d[k] = sub(x)
            for k, x in list(st.heap.items()):
                if s.mentions(k, t) or s.mentions(x, t):
                    del st.heap[k]; st.heap[sub(k)] = sub(x)
            for k in list(st.num):
                if s.mentions(k, t): st.num[sub(k)] = st.num.pop(k)
            for k in list(st.atoms):
                if s.mentions(k[1], t) or s.mentions(k[2], t): st.atoms[(k[0], sub(k[1]), sub(k[2]))] = st.atoms.pop(k)
            if hasattr(s.c, 'rename_client'):
                st.client = s.c.rename_client(st.client, t, old)
        return t

    # ------------------------------------------------------------------ facts
    def interval(s, st, t):
        if t[0] == 'c': return (t[1], t[1], frozenset())
        if t[0] == 's' or t[0] == 'addr' or t[0] == 'lam' or t[0] == 'fn': return (1, POS_INF, frozenset((0,)))
        r = st.num.get(t)
        if r: return r
        if t[0] == 'op' and t[1] in ('+', '-') and t[3][0] == 'c':
            lo, hi, ne = s.interval(st, t[2]); c = t[3][1] if t[1] == '+' else -t[3][1]
            return (lo + c if lo > NEG_INF else lo, hi + c if hi < POS_INF else hi, frozenset(x + c for x in ne))
        return (NEG_INF, POS_INF, frozenset())

    def truth(s, st, t):
        k = t[0]
        if k == 'c': return t[1] != 0
        if k == 'not':
            r = s.truth(st, t[1]); return None if r is None else not r
        if k == 'and':
            a, b = s.truth(st, t[1]), s.truth(st, t[2])
            if a is False or b is False: return False
            if a and b: return True
            return None
        if k == 'or':
            a, b = s.truth(st, t[1]), s.truth(st, t[2])
            if a or b: return True
            if a is False and b is False: return False
            return None
        if k == 'eq' or k == 'lt':
            a, b = t[1], t[2]
            r = st.atoms.get(t)
            if r is not None: return r
            if k == 'eq':
                if a == b: return True
                if a[0] in ('eq', 'lt', 'not', 'and', 'or') and b[0] == 'c':
                    if b[1] == 0:
                        r = s.truth(st, a); return None if r is None else not r
                    if b[1] == 1: return s.truth(st, a)
                if a[0] == 's' and b[0] == 's': return None
                la, ha, na = s.interval(st, a); lb, hb, nb = s.interval(st, b)
                if ha < lb or hb < la: return False
                if la == ha == lb == hb: return True
                if b[0] == 'c' and b[1] in na or a[0] == 'c' and a[1] in nb: return False
                if st.atoms.get(('lt', a, b)) or st.atoms.get(('lt', b, a)): return False
                return None
            if a == b: return False
            la, ha, na = s.interval(st, a); lb, hb, nb = s.interval(st, b)
            if ha < lb: return True
            if la >= hb: return False
            if st.atoms.get(('eq', a, b)) or st.atoms.get(('eq', b, a)): return False
            if st.atoms.get(('lt', b, a)): return False
            return None
        if k == 'cond':
            c = s.truth(st, t[1])
            if c is True: return s.truth(st, t[2])
            if c is False: return s.truth(st, t[3])
            a, b = s.truth(st, t[2]), s.truth(st, t[3])
            return a if a == b else None
        lo, hi, ne = s.interval(st, t)
        if lo > 0 or hi < 0 or 0 in ne: return True
        if lo == hi == 0: return False
        return None

    def setnum(s, st, t, lo, hi, ne):
        a, b, c = s.interval(st, t)
        a = max(a, lo); b = min(b, hi); c = c | ne
        while a in c: a += 1
        while b in c: b -= 1
        if a > b: return False
        st.num[t] = (a, b, c)
        return True

    def assume(s, st, t, v):
        """list of states in which term t has truth value v (st is not modified)"""
        r = s.truth(st, t)
        if r is not None:
            return [st] if r == v else []
        k = t[0]
        if k == 'not': return s.assume(st, t[1], not v)
        if k == 'and' or k == 'or':
            if (k == 'and') == v:
                return [y for x in s.assume(st, t[1], v) for y in s.assume(x, t[2], v)]
            out = s.assume(st, t[1], v)
            for x in s.assume(st, t[1], not v): out = out + s.assume(x, t[2], v)
            return out
        if k == 'cond':
            out = []
            for x in s.assume(st, t[1], True): out += s.assume(x, t[2], v)
            for x in s.assume(st, t[1], False): out += s.assume(x, t[3], v)
            return out
        n = st.copy()
        if k == 'eq':
            a, b = t[1], t[2]
            if a[0] in ('eq', 'lt', 'not', 'and', 'or', 'cond') and b[0] == 'c' and b[1] in (0, 1):
                if b[1] == 0: return s.assume(st, a, not v)
                if a[0] != 'cond': return s.assume(st, a, v)
            if a[0] == 'cond' and b[0] == 'c' and b[1] != 1:
                return s.assume(st, ('cond', a[1], ('eq', a[2], b), ('eq', a[3], b)), v)
            if b[0] == 'c':
                ok = s.setnum(n, a, b[1], b[1], frozenset()) if v else s.setnum(n, a, NEG_INF, POS_INF, frozenset((b[1],)))
                return [n] if ok else []
            n.atoms[t] = v
            if v:
                la, ha, na = s.interval(n, a); lb, hb, nb = s.interval(n, b)
                if not s.setnum(n, a, lb, hb, nb) or not s.setnum(n, b, la, ha, na): return []
                for x in (a, b):
                    if n.num.get(x) == (NEG_INF, POS_INF, frozenset()): del n.num[x]
            return [n]
        if k == 'lt':
            a, b = t[1], t[2]
            la, ha, na = s.interval(n, a); lb, hb, nb = s.interval(n, b)
            if v:
                if a[0] != 'c' and hb < POS_INF and not s.setnum(n, a, NEG_INF, hb - 1, frozenset()): return []
                if b[0] != 'c' and la > NEG_INF and not s.setnum(n, b, la + 1, POS_INF, frozenset()): return []
            else:
                if a[0] != 'c' and lb > NEG_INF and not s.setnum(n, a, lb, POS_INF, frozenset()): return []
                if b[0] != 'c' and ha < POS_INF and not s.setnum(n, b, NEG_INF, ha, frozenset()): return []
            if a[0] != 'c' and b[0] != 'c': n.atoms[t] = v
            return [n]
        if v: ok = s.setnum(n, t, NEG_INF, POS_INF, frozenset((0,)))
        else: ok = s.setnum(n, t, 0, 0, frozenset())
        return [n] if ok else []

    # ------------------------------------------------------------------ evaluation
    def cmp(s, op, a, b):
        if op in ('==', '!='):
            if a[0] == 'c' and b[0] != 'c' : a, b = b, a
            elif a[0] != 'c' and b[0] != 'c' and repr(b) < repr(a): a, b = b, a
            t = ('eq', a, b)
            if a[0] == 'c' and b[0] == 'c': t = ('c', int(a[1] == b[1]))
            return t if op == '==' else s.neg(t)
        if op in ('>', '<='): x = ('lt', b, a)
        else: x = ('lt', a, b)
        if a[0] == 'c' and b[0] == 'c': x = ('c', int(x[1][1] < x[2][1]))
        return x if op in ('<', '>') else s.neg(x)

    def neg(s, t):
        if t[0] == 'not': return t[1] if t[1][0] in ('eq', 'lt', 'and', 'or', 'not') else ('not', t)
        if t[0] == 'c': return ('c', int(not t[1]))
        return ('not', t)

    def lookup(s, st, t):
        h = st.heap.get(t)
        return t if h is None else h

    def eval(s, st, fr, i, lv=False):
        if i is None or i < 0: return ('u', ('none',))
        fn = fr.fn
        v = st.vals.get((fn.u, i))
        if v is not None: return v if lv else s.lookup(st, v) if v[0] in ('f', 'idx') else v
        n = fn.N[i]; k = n['k']
        if 'cv' in n and not lv: return ('c', n['cv'])
        if k == 'int': return ('c', n['v'])
        if k == 'null': return NULL
        if k == 'str': return ('s', n['v'])
        if k == 'this': return fr.this
        if k == 'ref':
            dk = n['dk']
            if dk == 'enum': return ('c', n['v'])
            if dk == 'fn': return ('fn', n.get('f'))
            if dk in ('par', 'loc'):
                key = (fn.tu, n['vi'])
                t = st.env.get(key)
                isref = s.isrefvar(fn, n['vi'])
                if lv and not isref: return ('v', fn.tu, n['vi'])
                if t is None: t = ('v', fn.tu, n['vi'])
                if isref and not lv and t[0] == 'v': return st.env.get((t[1], t[2]), t)
                return t if lv else s.lookup(st, t)
            if dk == 'glob': t = ('g', n['d'])
            elif dk == 'slocal': t = ('g', (fn.u, n['d']))
            else: t = ('g', n['d'])
            return t if lv else s.lookup(st, t)
        if k == 'mem':
            t = ('f', s.eval(st, fr, n['o'], not n.get('ar')), n['cl'], n['m'])
            return t if lv else s.lookup(st, t)
        if k == 'un':
            op = n['op']
            if op == '*':
                t = s.eval(st, fr, n['x'])
                if t[0] == 'addr': return t[1] if lv else st.env.get((t[1][1], t[1][2]), t[1]) if t[1][0] == 'v' else s.lookup(st, t[1])
                return t if not s.isscalar(fn.typ(i)) else (('deref', t) if lv else s.lookup(st, ('deref', t)))
            if op == '&':
                x = fn.N[n['x']]
                t = s.eval(st, fr, n['x'], True)
                if s.isscalar(fn.typ(n['x'])) or x['k'] == 'ref' and t[0] == 'v': return ('addr', t)
                return t
            if op == '!': return s.neg(s.eval(st, fr, n['x']))
            x = s.eval(st, fr, n['x'])
            if op == '-' and x[0] == 'c': return ('c', -x[1])
            if op == '~' and x[0] == 'c': return ('c', ~x[1])
            if op == '+': return x
            return ('op1', op, x)
        if k == 'bin':
            op = n['op']
            if op in ('==', '!=', '<', '>', '<=', '>='):
                return s.cmp(op, s.eval(st, fr, n['x']), s.eval(st, fr, n['y']))
            if op == '&&' or op == '||':
                a = s.eval(st, fr, n['x']); ta = s.truth(st, a)
                if op == '&&':
                    if ta is False: return FALSE
                    b = s.eval(st, fr, n['y'])
                    return b if ta else ('and', a, b)
                if ta: return TRUE
                b = s.eval(st, fr, n['y'])
                return b if ta is False else ('or', a, b)
            if op == ',': return s.eval(st, fr, n['y'], lv)
            if op.endswith('='): return s.eval(st, fr, n['x'], lv)
            a = s.eval(st, fr, n['x']); b = s.eval(st, fr, n['y'])
            if a[0] == 'c' and b[0] == 'c':
                try:
                    r = {'+': lambda: a[1] + b[1], '-': lambda: a[1] - b[1], '*': lambda: a[1] * b[1], '&': lambda: a[1] & b[1], '|': lambda: a[1] | b[1],
                         '<<': lambda: a[1] << min(b[1], 63), '>>': lambda: a[1] >> b[1], '/': lambda: int(a[1] / b[1]), '%': lambda: a[1] % b[1], '^': lambda: a[1] ^ b[1]}[op]()
                    return ('c', r)
                except Exception: pass
            if op == '+' and a[0] == 'c': a, b = b, a
            if op in '+-' and b == ('c', 0): return a
            if op in '+-' and b[0] == 'c' and a[0] == 'op' and a[1] in '+-' and a[3][0] == 'c':
                c = (a[3][1] if a[1] == '+' else -a[3][1]) + (b[1] if op == '+' else -b[1])
                return a[2] if c == 0 else ('op', '+', a[2], ('c', c))
            t = ('op', op, a, b)
            return t if tdepth(t) < 9 else ('u', (fn.u, i))
        if k == 'cond':
            c = s.eval(st, fr, n['x']); tc = s.truth(st, c)
            if tc is True: return s.eval(st, fr, n['y'], lv)
            if tc is False: return s.eval(st, fr, n['z'], lv)
            a, b = s.eval(st, fr, n['y'], lv), s.eval(st, fr, n['z'], lv)
            return a if a == b else ('cond', c, a, b)
        if k == 'cast': return s.eval(st, fr, n['x'], lv)
        if k == 'idx':
            t = ('idx', s.eval(st, fr, n['x']), s.eval(st, fr, n['y']))
            return t if lv else s.lookup(st, t)
        if k == 'ilist' and n.get('a') and len(n['a']) <= 40:
            return ('ilist',) + tuple(s.eval(st, fr, a) for a in n['a'])
        if k == 'lam': return ('lam', n['f'])
        if k == 'ctor':
            if n.get('cp') and n['a']: return s.eval(st, fr, n['a'][0])
            if n['a'] and n.get('cl', '').startswith('std::unique_ptr') and len(n['a']) >= 1: return s.eval(st, fr, n['a'][0])
            return ('u', (fn.u, i))
        if k == 'call':
            r = s.pure_call(st, fr, i, n)
            return r if r is not None else ('u', (fn.u, i))
        if k == 'oth' and len(n.get('a', ())) == 1: return s.eval(st, fr, n['a'][0], lv)
        return ('u', (fn.u, i))

    _refvars = None
    def isrefvar(s, fn, vi):
        if s._refvars is None: s._refvars = {}
        m = s._refvars.get(fn.u)
        if m is None:
            m = {}
            for p in fn.p: m[p['vi']] = fn.T[p['t']].endswith('&')
            for n in fn.N:
                if n['k'] == 'decl':
                    for d in n['vars']: m[d['vi']] = fn.T[d['t']].endswith('&')
            s._refvars[fn.u] = m
        return m.get(vi, False)

    def isscalar(s, t):
        t = t.strip()
        if t.endswith('*'): return True
        b = bare(t)
        return b in ('int', 'bool', 'char', 'unsigned int', 'long', 'unsigned long', 'short', 'unsigned char', 'unsigned short', 'long long', 'unsigned long long', 'float', 'double', 'signed char') \
            or (b in s.P.enums)

    # expression functions: single return of a side-effect free expression over this/parameters
    def exprfn(s, f):
        c = f._cache.get('expr')
        if c is not None: return c if c != -2 else None
        r = -2
        if f.B and f.kind not in ('ctor', 'dtor') and len(f.N) <= 60:
            rets = [i for i in f.reach_nodes() if f.N[i]['k'] == 'ret']
            if len(rets) == 1 and 'x' in f.N[rets[0]]:
                ok = True
                for i in f.reach_nodes():
                    n = f.N[i]; k = n['k']
                    if k in ('decl', 'new', 'del', 'lam', 'throw', 'ctor') or (k == 'un' and n['op'] in ('++', '--')) or \
                       (k == 'bin' and n['op'].endswith('=') and n['op'] not in ('==', '!=', '<=', '>=')) or k.endswith('Stmt'):
                        if not (k == 'ctor' and n.get('cp')): ok = False; break
                    if k == 'call':
                        if not s.pure_callee(f, i, n): ok = False; break
                if ok: r = f.N[rets[0]]['x']
        f._cache['expr'] = r
        return r if r != -2 else None

    def pure_callee(s, f, i, n):
        u = n.get('f')
        if not u: return False
        g = s.P.fns.get(u)
        nm = n.get('fn', '')
        if g is not None:
            if n.get('vm') and not n.get('qual') and len(s.P.targets(f, i)) > 1: return False
            c = g._cache.get('pure')
            if c is None:
                g._cache['pure'] = False   # recursion
                c = not s.eff.W.get(u) and g.kind != 'ctor' and s.onlypure(g)
                g._cache['pure'] = c
            return c
        last = nm.split('::')[-1]
        if nm in ('std::move', 'std::forward') or last in IDENT_CALLS or is_conv(n): return True
        if n.get('cm'): return True
        from effects import PURE_EXT
        return nm in PURE_EXT or last in ('begin', 'end', 'back', 'front', 'operator[]', 'at', 'operator==', 'operator!=', 'operator<')

    def onlypure(s, g):
        for i in g.reach_nodes():
            n = g.N[i]; k = n['k']
            if k in ('new', 'del', 'throw'): return False
            if k == 'ctor' and not n.get('cp'): return False
            if k == 'call':
                if not s.pure_callee(g, i, n): return False
        return True

    def pure_call(s, st, fr, i, n, obj=None, args=None):
        """term of a side-effect free call, or None"""
        fn = fr.fn
        nm = n.get('fn', ''); last = nm.split('::')[-1]; u = n.get('f')
        if not u: return None
        g = s.P.fns.get(u)
        if obj is None and n.get('o', -1) >= 0: obj = s.eval(st, fr, n['o'], not n.get('ar'))
        if args is None: args = [s.eval(st, fr, a) for a in n.get('a', ())]
        if obj is not None and not args and (last in IDENT_CALLS or is_conv(n)) and (g is None or n.get('cl', '').split('<')[0] in ('GuardedPtr',)):
            if last == 'operator*' and 'iterator' in n.get('cl', ''): return ('call', u, obj)
            if last == 'operator->' and 'iterator' in n.get('cl', ''): return ('call', u.replace('->', '*'), obj)
            if obj[0] == 'v': return st.env.get((obj[1], obj[2]), obj)
            return s.lookup(st, obj)
        if nm in ('std::move', 'std::forward') and len(args) == 1: return args[0]
        if g is not None:
            if g.kind == 'ctor': return None
            cl = n.get('cl', '')
            if (cl == 'CString' or cl.startswith('BString')) and (is_conv(n) or last == 'Str') and obj is not None: return ('call', 'str', obj)
            x = s.exprfn(g)
            if x is not None and not (n.get('vm') and not n.get('qual') and len(s.P.targets(fn, i)) > 1) and fr.depth < 12:
                f2 = Frame(g, obj if obj is not None else ('this',), fr, i)
                saved = {}
                for k, p in enumerate(g.p):
                    key = (g.tu, p['vi'])
                    saved[key] = st.env.get(key)
                    if k < len(args): st.env[key] = args[k]
                sv = st.vals
                st.vals = {}
                try: r = s.eval(st, f2, x)
                finally:
                    st.vals = sv
                    for key, o in saved.items():
                        if o is None: st.env.pop(key, None)
                        else: st.env[key] = o
                return r if tdepth(r) < 9 else None
        if s.pure_callee(fn, i, n):
            t = ('call', u) + ((obj,) if obj is not None else ()) + tuple(args)
            return t if tdepth(t) < 8 else None
        return None

    # ------------------------------------------------------------------ statements
    def assign(s, st, fr, i, lvn, val):
        """store val into lvalue node lvn"""
        fn = fr.fn
        n = fn.N[lvn]
        while n['k'] in ('cast',): lvn = n['x']; n = fn.N[lvn]
        if n['k'] == 'ref' and n['dk'] in ('par', 'loc') and not s.isrefvar(fn, n['vi']):
            key = (fn.tu, n['vi'])
            s.setvar(st, key, val)
            return ('v',) + key
        t = s.eval(st, fr, lvn, True)
        s.store(st, t, val)
        return t

    def setvar(s, st, key, val):
        v = ('v',) + key
        # facts that mention the variable symbolically (uninitialised / by-address uses) become stale
        if key not in st.env or True:
            self_m = s.mentions(val, v)
            for d in (st.num,):
                for k in list(d):
                    if s.mentions(k, v): del d[k]
            for k in list(st.atoms):
                if s.mentions(k[1], v) or s.mentions(k[2], v): del st.atoms[k]
            for k in list(st.heap):
                if s.mentions(k, v): del st.heap[k]
            if self_m: val = ('u', ('self', key))
        st.env[key] = val

    def store(s, st, t, val):
        if t[0] == 'f':
            mod = frozenset(((t[2], t[3]),))
            base = t
            s.invalidate(st, mod)
            if not s.mentions(val, t) : st.heap[t] = val
            else: st.heap[t] = s.rename(val, mod)
        elif t[0] == 'g':
            s.invalidate(st, frozenset((t[1] if isinstance(t[1], tuple) else ('', t[1]),)))
            st.heap[t] = val
        elif t[0] == 'v':
            s.setvar(st, (t[1], t[2]), val)
        elif t[0] == 'addr': s.store(st, t[1], val)
        elif t[0] in ('idx', 'deref'):
            if t[0] == 'deref' and t[1][0] == 'addr': return s.store(st, t[1][1], val)
            for k in list(st.heap):
                if k[0] == t[0] and k != t: del st.heap[k]
            for k in list(st.num):
                if k[0] == t[0]: del st.num[k]
            st.heap[t] = val
        else:
            s.invalidate(st, frozenset(), t)

    def mkold(s, st, site):
        return s.fresh(st, site)

    def exec_elem(s, st, fr, e):
        """returns list of (state); may be empty when the path ends"""
        fn = fr.fn
        if not isinstance(e, int):
            k = e['k']
            if k == 'init':
                if 'm' in e:
                    n = fn.N[e['x']] if e.get('x', -1) >= 0 else None
                    outs = [st]
                    for x in outs:
                        v = s.eval(x, fr, e['x'])
                        x.heap[('f', fr.this, fn.cl, e['m'])] = v
                    return outs
                return [st]
            if k in ('dtor', 'tdtor', 'mdtor'):
                r = s.c.on_dtor(s, st, fr, e)
                return [st] if r is None else r
            return [st]
        i = e; n = fn.N[i]; k = n['k']
        if s.c.want_nodes:
            r = s.c.on_node(s, st, fr, i, n)
            if r is not None: return r
        if k == 'call' or k == 'ctor': return s.exec_call(st, fr, i, n)
        if k == 'mem':
            if n.get('ar') and fn.N[n['o']]['k'] != 'this':
                r = s.c.on_deref(s, st, fr, i, s.eval(st, fr, n['o']))
                if r is not None: return r
            return [st]
        if k == 'un':
            op = n['op']
            if op in ('++', '--'):
                old = s.eval(st, fr, n['x'])
                if old[0] == 'c': nv = ('c', old[1] + (1 if op == '++' else -1))
                else: nv = ('op', '+', old, ('c', 1 if op == '++' else -1))
                if old[0] == 'op' and old[1] == '+' and old[3][0] == 'c':
                    c = old[3][1] + (1 if op == '++' else -1); nv = old[2] if c == 0 else ('op', '+', old[2], ('c', c))
                if tdepth(nv) >= 9: nv = s.fresh(st, (fn.u, i))
                # the old value's term may be the location itself
                lvt = s.assign(st, fr, i, n['x'], nv)
                st.vals[(fn.u, i)] = old if n.get('post') else nv
                r = s.c.on_assign(s, st, fr, i, lvt, nv)
                return [st] if r is None else r
            if op == '*' :
                r = s.c.on_deref(s, st, fr, i, s.eval(st, fr, n['x']))
                if r is not None: return r
            return [st]
        if k == 'bin':
            op = n['op']
            if op == '=':
                val = s.eval(st, fr, n['y'])
                lvt = s.assign(st, fr, i, n['x'], val)
                st.vals[(fn.u, i)] = val
                r = s.c.on_assign(s, st, fr, i, lvt, val)
                return [st] if r is None else r
            if op.endswith('=') and op not in ('==', '!=', '<=', '>='):
                a = s.eval(st, fr, n['x']); b = s.eval(st, fr, n['y'])
                if a[0] == 'c' and b[0] == 'c' and op in ('+=', '-=', '|=', '&=', '*='):
                    val = ('c', {'+=': a[1] + b[1], '-=': a[1] - b[1], '|=': a[1] | b[1], '&=': a[1] & b[1], '*=': a[1] * b[1]}[op])
                elif op == '|=' and bare(fn.typ(n['x'])) == 'bool': val = ('or', a, b)
                elif op == '&=' and bare(fn.typ(n['x'])) == 'bool': val = ('and', a, b)
                else: val = ('op', op[:-1], a, b)
                if tdepth(val) >= 7: val = s.fresh(st, (fn.u, i))
                lvt = s.assign(st, fr, i, n['x'], val)
                st.vals[(fn.u, i)] = val
                r = s.c.on_assign(s, st, fr, i, lvt, val)
                return [st] if r is None else r
            return [st]
        if k == 'decl':
            for d in n['vars']:
                key = (fn.tu, d['vi'])
                t = fn.T[d['t']]
                if d.get('st'): continue
                if d.get('i', -1) >= 0:
                    isref = t.endswith('&')
                    x = fn.N[d['i']]
                    if x['k'] == 'ctor' and not x.get('cp') and not x.get('cl', '').startswith('std::unique_ptr') and (fn.u, d['i']) not in st.vals:
                        s.setvar(st, key, ('u', (fn.u, d['i'], 'obj')))
                        st.env[key] = s.fresh(st, (fn.u, i, d['vi']))
                        r = s.c.on_assign(s, st, fr, d['i'], ('v',) + key, st.env[key])
                        continue
                    val = s.eval(st, fr, d['i'], isref)
                    if x['k'] == 'ilist' and not x.get('a'): val = ('c', 0)
                    if tdepth(val) >= 9: val = s.fresh(st, (fn.u, i, d['vi']))
                    s.setvar(st, key, val)
                    s.c.on_assign(s, st, fr, d['i'], ('v',) + key, val)
                else:
                    s.setvar(st, key, s.fresh(st, (fn.u, i, d['vi'])))
            return [st]
        if k == 'new':
            t = s.fresh(st, (fn.u, i))
            s.setnum(st, t, 1, POS_INF, frozenset((0,)))
            st.vals[(fn.u, i)] = t
            return [st]
        if k == 'cond' or (k == 'bin' and n['op'] in ('&&', '||')):
            return [st]
        if k == 'idx': return [st]
        if k == 'throw': return []
        if k == 'ret':
            return [st]
        return [st]

    def havoc_call(s, st, fr, i, n, obj, args, g):
        fn = fr.fn
        mod = s.eff.W.get(g.u, frozenset()) if g is not None else frozenset()
        last = n.get('fn', '').split('::')[-1]
        sub = None
        s.invalidate(st, frozenset(mod))
        from effects import PURE_EXT
        if n['k'] == 'call' and obj is not None and not n.get('cm'):
            if g is None and last not in ('get', 'begin', 'end', 'operator->', 'operator*', 'operator[]', 'back', 'front', 'at', 'data', 'operator bool', 'find', 'rbegin', 'rend'):
                m2 = set(); 
                if n.get('o', -1) >= 0: s.eff.lval(fn, n['o'], m2)
                s.invalidate(st, frozenset(m2), obj)
                if obj[0] == 'v':
                    key = (obj[1], obj[2])
                    st.env.pop(key, None)
            elif g is not None and obj[0] == 'v' and s.eff.W.get(g.u):
                # method on a local object: what was known about its content is gone (fields it does not write excepted)
                s.invalidate(st, frozenset(), obj, fields=True)
        for idx, a in enumerate(n.get('a', ())):
            if a < 0: continue
            an = fn.N[a]; t = args[idx] if idx < len(args) else None
            byref = False
            if g is not None and idx < len(g.p):
                pt = g.ptype(idx); byref = pt.endswith('&') and not pt.startswith('const ') and an.get('lv')
                if t and t[0] == 'addr' and pt.endswith('*') and pt.startswith('const '): continue
            if g is None and an.get('lv') and n.get('fn', '').startswith('std::swap'): byref = True
            if t and t[0] == 'addr':
                v = t[1]
                s.store(st, v, s.fresh(st, (fn.u, i, 'out%d' % idx)))
            elif byref:
                s.store(st, s.eval(st, fr, a, True), s.fresh(st, (fn.u, i, 'out%d' % idx)))
            elif g is None and t and t[0] == 'v' and n.get('fn') not in PURE_EXT and n['k'] == 'call': s.invalidate(st, frozenset(), t)

    def exec_call(s, st, fr, i, n):
        fn = fr.fn
        obj = s.eval(st, fr, n['o'], not n.get('ar')) if n.get('o', -1) >= 0 else None
        args = [s.eval(st, fr, a) for a in n.get('a', ())]
        nm = n.get('fn', ''); last = nm.split('::')[-1]
        if obj is not None and n['k'] == 'call' and (n.get('ar') or last in ('operator->', 'operator*')) and fn.N[n['o']]['k'] != 'this':
            ot = obj if n.get('ar') else s.pure_call(st, fr, i, n, obj, args)
            if ot is not None:
                r = s.c.on_deref(s, st, fr, i, ot)
                if r is not None: return r
        r = s.c.on_call(s, st, fr, i, n, obj, args)
        if r is not None:
            out = []
            for x, ret in r:
                if ret is not None: x.vals[(fn.u, i)] = ret
                out.append(x)
            return out
        if n['k'] == 'ctor' and n.get('cp') : return [st]
        if n['k'] == 'ctor' and n.get('cl', '').startswith('std::unique_ptr') and args:
            st.vals[(fn.u, i)] = args[0]; return [st]
        # smart pointer assignment / reset
        if nm.startswith('std::unique_ptr') and last == 'operator=' and obj is not None and args:
            if obj[0] == 'v': s.setvar(st, (obj[1], obj[2]), args[0])
            else: s.store(st, obj, args[0])
            return s.after([st], fr, i, n, obj, args, args[0])
        if nm.startswith('std::unique_ptr') and last in ('reset', 'release') and obj is not None:
            old = st.env.get((obj[1], obj[2]), obj) if obj[0] == 'v' else s.lookup(st, obj)
            nv = args[0] if args else NULL
            if old == obj and obj[0] != 'v': old = ('old', obj)
            if obj[0] == 'v': s.setvar(st, (obj[1], obj[2]), nv)
            else: s.store(st, obj, nv)
            st.vals[(fn.u, i)] = old
            return s.after([st], fr, i, n, obj, args, old)
        if last == 'operator++' and 'iterator' in n.get('cl', '') and obj is not None and obj[0] == 'v':
            key = (obj[1], obj[2]); old = st.env.get(key, obj)
            nv = old if old[0] == 'next' else ('next', old)
            nv = s.fresh_term(st, nv)
            st.env[key] = nv
            st.vals[(fn.u, i)] = nv
            return [st]
        if nm.startswith(('std::make_unique', 'std::make_shared')):
            t = s.fresh(st, (fn.u, i)); s.setnum(st, t, 1, POS_INF, frozenset((0,)))
            st.vals[(fn.u, i)] = t
            return s.after([st], fr, i, n, obj, args, t)
        t = s.pure_call(st, fr, i, n, obj, args) if n['k'] == 'call' else None
        tg = s.P.targets(fn, i)
        s.c.cur = (st, fr, i, obj, args)
        want = [g for g in tg if s.c.should_inline(s, g)] if tg else []
        if t is not None and not want:
            st.vals[(fn.u, i)] = t
            return s.after([st], fr, i, n, obj, args, t)
        small = [g for g in tg if len(tg) == 1 and s.small(g)]
        inl = want or small
        if inl and fr.depth < s.c.inline_depth and all(g not in fr.stack() for g in inl):
            out = []
            others = [g for g in tg if g not in inl]
            for g in inl:
                for x, ret in s.inline(st.copy(), fr, i, n, obj, args, g):
                    if ret is not None: x.vals[(fn.u, i)] = ret
                    else: x.vals[(fn.u, i)] = s.fresh(x, (fn.u, i))
                    out += s.after([x], fr, i, n, obj, args, x.vals[(fn.u, i)])
            if others:
                x = st.copy()
                for g in others: s.havoc_call(x, fr, i, n, obj, args, g)
                x.vals[(fn.u, i)] = s.fresh(x, (fn.u, i)); out += s.after([x], fr, i, n, obj, args, x.vals[(fn.u, i)])
            return s.limit(out, (fn.u, i))
        if tg:
            for g in tg: s.havoc_call(st, fr, i, n, obj, args, g)
        else: s.havoc_call(st, fr, i, n, obj, args, None)
        for a in n.get('a', ()):
            # lambdas passed along may run now
            if a >= 0 and fn.N[a]['k'] == 'lam':
                g = s.P.fns.get(fn.N[a]['f'])
                if g: s.invalidate(st, frozenset(s.eff.W.get(g.u, ())))
        u = ('u', (fn.u, i))
        if n['k'] == 'call':
            u = s.fresh(st, (fn.u, i))
            st.vals[(fn.u, i)] = u
        return s.after([st], fr, i, n, obj, args, u)

    def after(s, sts, fr, i, n, obj, args, ret):
        out = []
        for x in sts:
            r = s.c.after_call(s, x, fr, i, n, obj, args, ret)
            out += [x] if r is None else r
        return out

    def small(s, g):
        c = g._cache.get('small')
        if c is None:
            c = bool(g.B) and len(g.B) <= 6 and len(g.N) <= 60 and g.kind not in ('ctor', 'dtor') and g.file.startswith('daemon/') and \
                not any(g.N[i]['k'] == 'call' and not s.pure_callee(g, i, g.N[i]) and g.N[i].get('f') in s.P.fns and not s.exprfn(s.P.fns[g.N[i]['f']]) for i in g.calls())
            g._cache['small'] = c
        return c

    def inline(s, st, fr, i, n, obj, args, g):
        """run callee g; list of (state, return term)"""
        fn = fr.fn
        f2 = Frame(g, obj if obj is not None and g.kind != 'lambda' else (fr.this if n['k'] != 'ctor' else ('u', (fn.u, i))), fr, i)
        pkeys = []
        for k, p in enumerate(g.p):
            key = (g.tu, p['vi']); pkeys.append(key)
            if k < len(n.get('a', ())):
                isref = g.ptype(k).endswith('&')
                v = s.eval(st, fr, n['a'][k], isref)
                st.env[key] = v
        caller_vals = {k: v for k, v in st.vals.items()}
        st.vals = {}
        res = s.run_fn(f2, [st])
        out = []
        own = s.local_keys(g)
        for x, ret in res:
            if ret is not None and any(s.mentions(ret, ('v',) + k) for k in own if k not in x.env): pass
            for k in own: x.env.pop(k, None)
            x.vals = dict(caller_vals)
            out.append((x, ret))
        return out

    def local_keys(s, g):
        c = g._cache.get('lk')
        if c is None:
            c = [(g.tu, p['vi']) for p in g.p]
            for n in g.N:
                if n['k'] == 'decl': c += [(g.tu, d['vi']) for d in n['vars']]
            g._cache['lk'] = c
        return c

    # ------------------------------------------------------------------ CFG fixpoint
    def limit(s, sts, key=None):
        """dedupe and merge per client value"""
        if len(sts) <= 1: return sts
        groups = {}
        for x in sts:
            v = x.vals.get(key) if key else None
            groups.setdefault((s.c.part(s, x), v if v and v[0] == 'c' else None), {})[x.key()] = x
        out = []
        for c, m in groups.items():
            l = list(m.values())
            if len(l) > s.K:
                acc = l[0]
                for y in l[1:]: acc = s.merge(acc, y, ('lim',))
                l = [acc]
            out += l
        return out

    def merge(s, a, b, where):
        r = State(client=a.client, trace=a.trace)
        def contains_phi(t):
            return any(isinstance(x, tuple) and x and (x[0] == 'phi' and x[1] == where or contains_phi(x)) for x in t)
        phis = []
        for k in a.env.keys() & b.env.keys():
            x, y = a.env[k], b.env[k]
            if x == y: r.env[k] = x
            elif x == ('next', y): r.env[k] = x
            elif y == ('next', x): r.env[k] = y
            else:
                t = ('phi', where, k); r.env[k] = t
                phis.append((t, x, y))
        for k in a.heap.keys() & b.heap.keys():
            if a.heap[k] == b.heap[k]: r.heap[k] = a.heap[k]
            else:
                t = ('phi', where, k); r.heap[k] = t; phis.append((t, a.heap[k], b.heap[k]))
        for k in a.vals.keys() & b.vals.keys():
            if a.vals[k] == b.vals[k]: r.vals[k] = a.vals[k]
            else:
                t = ('phi', where, ('val', k)); r.vals[k] = t; phis.append((t, a.vals[k], b.vals[k]))
        # facts about terms that are keyed by heap locations overwritten in one branch are dropped
        newphi = {p[0] for p in phis}
        def stale(t):
            return t in newphi or any(isinstance(x, tuple) and x and stale(x) for x in t)
        for k in a.num.keys() | b.num.keys():
            if stale(k): continue
            x, y = s.interval(a, k), s.interval(b, k)
            z = s.joinnum(x, y)
            if z != (NEG_INF, POS_INF, frozenset()): r.num[k] = z
        for k in a.atoms.keys() & b.atoms.keys():
            if a.atoms[k] == b.atoms[k] and not stale(k[1]) and not stale(k[2]): r.atoms[k] = a.atoms[k]
        for t, x, y in phis:
            z = s.joinnum(s.tnum(a, x), s.tnum(b, y))
            if z != (NEG_INF, POS_INF, frozenset()): r.num[t] = z
        return r

    def tnum(s, st, t):
        r = s.truth(st, t)
        if t[0] in ('eq', 'lt', 'not', 'and', 'or'):
            if r is None: return (0, 1, frozenset())
            return (int(r), int(r), frozenset())
        return s.interval(st, t)

    def joinnum(s, x, y):
        lo, hi = min(x[0], y[0]), max(x[1], y[1])
        def ex(v, i): return v < i[0] or v > i[1] or v in i[2]
        ne = frozenset(v for v in x[2] | y[2] | {0} if ex(v, x) and ex(v, y) and lo <= v <= hi)
        # widening: keep only small bounds
        if lo != x[0] and lo != y[0]: lo = NEG_INF
        if lo < -4 and x[0] != y[0]: lo = NEG_INF
        if x[1] != y[1] and (hi > 64 or s.wide and hi > 2): hi = POS_INF
        return (lo, hi, ne)

    def run_fn(s, fr, states):
        """list of (state, return term) at the function's exit"""
        fn = fr.fn
        if not fn.B: return [(x, None) for x in states]
        acc = {}      # block -> {client: {key: state}}
        visits = {}
        retkey = (fn.u, 'ret')
        if fr.parent is None:
            # references passed by an unknown caller denote some variable
            for k, p in enumerate(fn.p):
                t = fn.ptype(k)
                if t.endswith('&') and not t.endswith('&&') and not t.startswith('const '):
                    for st in states: st.env.setdefault((fn.tu, p['vi']), ('v', fn.tu, ('ref', p['vi'])))
        order = {b: k for k, b in enumerate(fn.rpo())}
        work = {}
        exits = []
        def push(b, st):
            part = s.c.part(s, st)
            if b == fn.exit:
                v = st.vals.get(retkey)
                if v is not None and v[0] == 'c': part = (part, v)      # results are told apart
            m = acc.setdefault(b, {}).setdefault(part, {})
            k = st.key()
            if k in m: return
            lim = s.K if visits.get(b, 0) < MAX_VISITS else 1
            s.wide = visits.get(b, 0) > 8
            if len(m) >= lim or m.get('merged'):
                l = [x for kk, x in m.items() if kk != 'merged']
                old = None
                if m.get('merged'): old = l[0]
                a = l[0]
                for y in l[1:]: a = s.merge(a, y, (fn.u, b))
                a = s.merge(a, st, (fn.u, b))
                if old is not None and a.key() == old.key(): return
                if m.get('merged'):
                    # widen further: anything that changed again is forgotten
                    cnt = visits.get(b, 0)
                    if cnt > MAX_VISITS:
                        a2 = s.merge(old, a, (fn.u, b))
                        a = s.drop_unstable(old, a2)
                        if a.key() == old.key(): return
                m.clear(); m[a.key()] = a; m['merged'] = True
                # everything waiting for this block with that client is covered by the merged state
                if b in work: work[b] = [x for x in work[b] if s.c.part(s, x) != s.c.part(s, st) or b == fn.exit and x.vals.get(retkey) != st.vals.get(retkey)]
                st = a
            else: m[k] = st
            work.setdefault(b, []).append(st)
        for x in states: push(fn.entry, x)
        loopvals = s.crossvals(fn)
        joins = s.joins(fn)
        cur_blk = [None]
        def strip(b, st):
            # results of logical operators and conditional expressions that are joined in block b
            for L in joins.get(b, ()):
                r = s.joined(st, fr, L, cur_blk[0])
                if r is not None: st.vals[(fn.u, L)] = r
            # keep only values needed in other blocks
            if st.vals: st.vals = {k: v for k, v in st.vals.items() if k[0] != fn.u or k == retkey or k[1] in loopvals}
            push(b, st)
        while work:
            b = min(work, key=lambda q: order.get(q, 1 << 30))
            sts = work.pop(b)
            visits[b] = visits.get(b, 0) + len(sts)
            blk = fn.B[b]
            for st0 in sts:
                s.steps += 1
                if s.steps > s.budget:
                    s.truncated = True
                    return s.fin(exits)
                cur = [st0.copy()]
                for e in blk['e']:
                    nxt = []
                    if isinstance(e, int) and fn.N[e]['k'] == 'ret':
                        for st in cur:
                            n = fn.N[e]
                            if 'x' in n:
                                v = s.eval(st, fr, n['x'], fn.rt.endswith('&'))
                                st.vals[retkey] = v
                                r = s.c.on_return(s, st, fr, e, v)
                                nxt += [st] if r is None else r
                            else: nxt.append(st)
                        cur = nxt; continue
                    for st in cur: nxt += s.exec_elem(st, fr, e)
                    cur = s.limit(nxt, (fn.u, e) if isinstance(e, int) else None) if len(nxt) > 1 else nxt
                    if not cur: break
                if not cur or blk.get('nr'): continue
                if b == fn.exit:
                    for st in cur: exits.append((st, st.vals.get(retkey)))
                    continue
                succ = blk['s']
                for st in cur:
                    cur_blk[0] = blk
                    s.branch(st, fr, blk, succ, strip)
        return s.fin(exits)

    def drop_unstable(s, old, new):
        for k in list(new.num):
            if old.num.get(k) != new.num[k]:
                x, y = old.num.get(k), new.num[k]
                # only the bounds that did not move stay
                z = (y[0] if x and x[0] == y[0] else NEG_INF, y[1] if x and x[1] == y[1] else POS_INF, y[2] & x[2] if x else frozenset())
                if x is None or z == (NEG_INF, POS_INF, frozenset()): del new.num[k]
                else: new.num[k] = z
        return new

    def fin(s, exits):
        out = {}
        for st, v in exits:
            st.vals = {}
            out.setdefault((s.c.part(s, st), v, st.key()), (st, v))
        # limit per (client, return value)
        g = {}
        for (c, v, k), x in out.items(): g.setdefault((c, v), []).append(x)
        res = []
        for (c, v), l in g.items():
            if len(l) > s.K:
                a = l[0][0]
                for y in l[1:]: a = s.merge(a, y[0], ('exit',))
                res.append((a, v))
            else: res += l
        return res

    def joins(s, fn):
        c = fn._cache.get('joins')
        if c is None:
            bn = fn.blocknode(); c = {}
            for i, (b, k) in bn.items():
                n = fn.N[i]
                if n['k'] == 'bin' and n['op'] in ('&&', '||') or n['k'] == 'cond' and not n.get('lv'): c.setdefault(b, []).append(i)
            for b in c: c[b].sort()
            fn._cache['joins'] = c
        return c

    def joined(s, st, fr, L, blk):
        """value of the logical operator or conditional expression L when control comes from block blk"""
        fn = fr.fn; n = fn.N[L]; bn = fn.blocknode()
        tc = blk.get('tc', -1)
        if n['k'] == 'bin':
            y = n['y']
            while fn.N[y]['k'] == 'cast': y = fn.N[y]['x']
            if bn.get(n['y'], bn.get(y, (None,)))[0] == blk['i']:
                v = s.eval(st, fr, n['y'])
                return v
            if tc is not None and tc >= 0 and blk.get('t') and tc in s.logsub(fn, n['y']):
                # decided within the second operand, whose value is the result
                if fn.N[y]['k'] == 'bin' and fn.N[y]['op'] in ('&&', '||') or fn.N[y]['k'] == 'cond': return s.joined(st, fr, y, blk)
                return None
            if tc is not None and tc >= 0 and blk.get('t') and tc in s.logsub(fn, L): return TRUE if n['op'] == '||' else FALSE
            return None
        for k in ('y', 'z'):
            y = n[k]
            while fn.N[y]['k'] == 'cast' and y not in bn: y = fn.N[y]['x']
            if bn.get(y, (None,))[0] == blk['i']: return s.eval(st, fr, n[k])
        return None

    def logsub(s, fn, L):
        c = fn._cache.setdefault('logsub', {})
        if L not in c: c[L] = set(fn.subtree(L))
        return c[L]

    def crossvals(s, fn):
        c = fn._cache.get('cv')
        if c is None:
            bn = fn.blocknode(); c = set()
            par = fn.parents()
            def add(x):
                # nodes that keep a value of their own end the descent
                st = [x]
                while st:
                    y = st.pop()
                    if y < 0 or y in c: continue
                    c.add(y); n = fn.N[y]
                    if n['k'] in ('call', 'ctor', 'new') or n['k'] == 'un' and n['op'] in ('++', '--') or n['k'] == 'bin' and n['op'].endswith('=') and n['op'] not in ('==', '!=', '<=', '>='): continue
                    st += fn.kids(y)
            for i, (b, k) in bn.items():
                for p in par.get(i, ()):
                    if p in bn and bn[p][0] != b: add(i); break
            for l in s.joins(fn).values(): c.update(l)
            for b in fn.B.values():
                tc = b.get('tc', -1)
                if tc is not None and tc >= 0:
                    st = [s.deciding(fn, tc, b)]
                    while st:
                        x = st.pop()
                        if x < 0: continue
                        if x in bn and bn[x][0] != b['i']: add(x)
                        else: st += fn.kids(x)
            fn._cache['cv'] = c
        return c

    def branch(s, st, fr, blk, succ, push):
        fn = fr.fn
        live = [x for x in succ if x >= 0]
        if not live: return
        t = blk.get('t')
        tc = blk.get('tc', -1)
        if t is None or blk.get('tdb'):
            if len(succ) == 1 or t is None:
                for x in live: push(x, st)
                return
            for x in live: push(x, st.copy())
            return
        if t == 'SwitchStmt':
            v = s.eval(st, fr, tc)
            rest = [st]
            dflt = None
            for x in succ:
                if x < 0: continue
                bb = fn.B[x]
                if 'case' in bb:
                    nr = []
                    cc = ('eq', v, ('c', bb['case'])) if v[0] != 'c' else ('c', int(v[1] == bb['case']))
                    for y in rest:
                        for z in s.assume(y, cc, True):
                            if z is y: z = y.copy()
                            z.trace = (st.trace, '%s:%d case %s' % (fn.file.split('/')[-1], fn.N[bb['casen']]['l'], bb['case'])); push(x, z)
                        nr += s.assume(y, cc, False)
                    rest = nr
                else: dflt = x
            if dflt is not None:
                for y in rest: push(dflt, y.copy())
            return
        if t == 'CXXForRangeStmt' or tc is None or tc < 0 or len(succ) < 2:
            if tc is None or tc < 0 or len(succ) < 2:
                for x in live: push(x, st.copy())
                return
        # condition of this block: for logical operators the last operand is what decides here
        n = fn.N[tc]
        c = s.eval(st, fr, s.deciding(fn, tc, blk))
        for v, x in ((True, succ[0]), (False, succ[1])):
            if x < 0: continue
            for y in s.assume(st, c, v):
                y = y.copy()
                if s.truth(st, c) is None:
                    y.trace = (st.trace, '%s:%d %s' % (fn.file.split('/')[-1], blk.get('tl', fn.N[tc]['l']) if fn.N[tc]['l'] == 0 else fn.N[tc]['l'], 'T' if v else 'F'))
                push(x, y)

    def deciding(s, fn, tc, blk):
        n = fn.N[tc]
        bn = fn.blocknode()
        while n['k'] == 'bin' and n['op'] in ('&&', '||') and tc not in bn:
            tc = n['y']; n = fn.N[tc]
        return tc

    def run(s, fn, this=('this',), client=None, env=None):
        st = State(client=client)
        if env: st.env.update(env)
        s.setnum(st, ('this',), 1, POS_INF, frozenset((0,)))
        fr = Frame(fn, this)
        res = s.run_fn(fr, [st])
        for x, v in res: s.c.on_exit(s, x, fr, v)
        return res
