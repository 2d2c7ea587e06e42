"""Demand-driven provenance: which expressions can a text (or value) come from?

prov(fn, node) follows a value backwards: through casts, conditional expressions, string conversions, reaching definitions of local variables
(strong definitions end the search, appending ones do not), parameters (into the callers, or into the one caller when the callee was entered
from there), returned values, fields (all stores in the program) and constant tables.  A judge decides at every expression first: True (good,
stop), False (bad, reported), 'source' strings, or None (look through)."""
from ir import bare
import re

STR = re.compile(r'^(CString|BString<.*>|StringBuilder|CharBuffer|std::(__cxx11::)?basic_string<.*>|std::string|char ?\[\d*\])$')
SETTERS = {'Set', 'Append', 'AppendFmt', 'Format', 'AppendFmtV', 'FormatV', 'Replace', 'append', 'assign', 'operator+=', 'operator=', 'push_back', 'Bind'}
STRONG = {'Set', 'Format', 'FormatV', 'operator=', 'assign', 'Bind', 'Clear'}
OUTFN = {'strncpy': 1, 'strcpy': 1, 'strcat': 1, 'strncat': 1, 'memcpy': 1, 'memmove': 1, 'sprintf': 1, 'snprintf': 2, 'vsnprintf': 2, 'vsprintf': 1, 'strlcpy': 1}


def last(n): return (n.get('fn') or '').split('::')[-1]


class Prov:
    def __init__(s, P, judge, fields=True, depth=40, numbers=False, unknown_call=False):
        s.P = P; s.judge = judge; s.fields = fields; s.depth = depth; s.bad = []; s.numbers = numbers; s.memo = set(); s.steps = 0; s.unknown_call = unknown_call
        s._stores = None; s.good = 0

    # ctx: tuple of (caller fn, call node) from outermost to innermost
    def trace(s, f, i, ctx=(), via=()):
        if i is None or i < 0: return
        key = (f.u, i, ctx[-2:], s.tagof(via))
        if key in s.memo: return
        s.memo.add(key); s.steps += 1
        if len(via) > s.depth:
            return s.report(f, i, 'too deep', via)
        n = f.N[i]; k = n['k']; t = f.typ(i)
        j = s.judge(s, f, i, ctx, via)
        if j is True: s.good += 1; return
        if isinstance(j, str) or j is False: return s.report(f, i, j or '', via)
        if isinstance(j, tuple):      # look at these expressions instead
            for x in j: s.trace(f, x, ctx, via)
            return
        via = via + ((f, i),)
        if k in ('str', 'int', 'null', 'szof', 'float', 'bool', 'nullptr'): return
        if 'cv' in n: return
        if 'va_list' in t and k in ('ref', 'cast'):
            # the variable arguments of the function
            for g, c, how in (s.P.callers().get(f.u, ()) if not ctx else ((ctx[-1][0], ctx[-1][1], 'call'),)):
                if c is None: continue
                for a in g.N[c].get('a', ())[len(f.p):]: s.trace(g, a, ctx[:-1], via)
            return
        if not s.numbers and not s.texty(t): return
        if k == 'cast': return s.trace(f, n['x'], ctx, via)
        if k == 'cond':
            s.trace(f, n['y'] if n['y'] >= 0 else n['x'], ctx, via); return s.trace(f, n['z'], ctx, via)
        if k == 'bin':
            if n['op'] == ',': return s.trace(f, n['y'], ctx, via)
            if n['op'] in ('+', '-'):
                for c in ('x', 'y'):
                    if s.numbers or s.texty(f.typ(n[c])): s.trace(f, n[c], ctx, via)
                return
            if n['op'] in ('==', '!=', '<', '>', '<=', '>=', '&&', '||'): return
            if n['op'] == '=': return s.trace(f, n['y'], ctx, via)
            for c in ('x', 'y'): s.trace(f, n[c], ctx, via)
            return
        if k == 'un':
            return s.trace(f, n['x'], ctx, via)
        if k == 'idx':
            return s.trace(f, n['x'], ctx, via)
        if k == 'ref':
            dk = n['dk']
            if dk in ('loc', 'par'):
                return s.local(f, i, n['vi'], ctx, via)
            if dk == 'glob': return s.glob(f, i, n, ctx, via)
            return
        if k == 'mem': return s.field(f, i, n, ctx, via)
        if k in ('call', 'ctor', 'new'): return s.call(f, i, n, ctx, via)
        if k == 'init' or 'a' in n:
            for a in n.get('a', ()): s.trace(f, a, ctx, via)
            return
        if k in ('this', 'lam'): return
        s.report(f, i, k, via)

    def tagof(s, via): return None

    def texty(s, t):
        return 'char' in t or 'String' in t or 'CharBuffer' in t or 'void' in t or 'string' in t

    def report(s, f, i, why, via):
        s.bad.append((f, i, why, via))

    # -- locals
    def local(s, f, i, vi, ctx, via):
        par = [k for k, p in enumerate(f.p) if p['vi'] == vi]
        defs, entry = s.reaching(f, i, vi)
        for d, kind in defs:
            s.definition(f, d, kind, vi, ctx, via)
        if par and entry: s.param(f, par[0], ctx, via)
        if not par and entry and f.kind == 'lambda' or not par and entry and f.encl: s.captured(f, vi, ctx, via)

    def captured(s, f, vi, ctx, via):
        g = s.P.fns.get(f.encl)
        if g is None: return
        for d, kind in s.alldefs(g, vi): s.definition(g, d, kind, vi, (), via)
        par = [k for k, p in enumerate(g.p) if p['vi'] == vi]
        if par: s.param(g, par[0], (), via)

    def vardefs(s, f):
        """per element: [(vi, node, kind)] kind: assign/decl/set/app/out"""
        c = f._cache.get('provdefs')
        if c is not None: return c
        c = {}
        def root(j):
            while True:
                n = f.N[j]
                if n['k'] == 'ref' and n['dk'] in ('loc', 'par'): return n['vi'], n
                if n['k'] in ('cast', 'un', 'idx'): j = n['x']
                elif n['k'] == 'bin' and n['op'] in '+-': j = n['x']
                elif n['k'] == 'call' and n.get('o', -1) >= 0 and (n.get('op') or last(n).startswith('operator')): j = n['o']
                else: return None, None
        for i in f.reach_nodes():
            n = f.N[i]; out = []
            if n['k'] == 'decl':
                for d in n['vars']: out.append((d['vi'], d.get('i', -1), 'decl'))
            elif n['k'] == 'bin' and n['op'] in ('=', '+='):
                t = f.N[n['x']]
                if t['k'] == 'ref' and t['dk'] in ('loc', 'par'): out.append((t['vi'], n['y'], 'assign' if n['op'] == '=' else 'app'))
                else:
                    v, _ = root(n['x'])
                    if v is not None: out.append((v, n['y'], 'elem'))
            elif n['k'] == 'call':
                ln = last(n); o = n.get('o', -1)
                if n.get('op') in ('=', '+=') and o >= 0:
                    v, r = root(o)
                    if v is not None and n.get('a', ()): out.append((v, i, 'assign*' if n['op'] == '=' and f.N[o]['k'] == 'ref' else 'app'))
                elif o >= 0 and ln in SETTERS | {'Clear'}:
                    v, r = root(o)
                    if v is not None: out.append((v, i, 'set' if ln in STRONG and f.N[o]['k'] == 'ref' else 'app'))
                elif (n.get('fn') or '') in OUTFN and n.get('a', ()):
                    v, r = root(n.get('a', ())[0])
                    if v is not None: out.append((v, i, 'out'))
                else:
                    # passed to a function that may write to it
                    for k, a in enumerate(n.get('a', ())):
                        m = f.N[a]
                        if m['k'] == 'un' and m['op'] == '&' or m['k'] == 'ref' and ('[' in f.typ(a) or STR.match(bare(f.typ(a)))):
                            v, r = root(a)
                            if v is not None: out.append((v, (i, k), 'arg'))
            if out: c[i] = out
        f._cache['provdefs'] = c
        return c

    def alldefs(s, f, vi):
        return [(d, kind) for l in s.vardefs(f).values() for v, d, kind in l if v == vi]

    def reaching(s, f, i, vi):
        """definitions of vi that may reach node i; whether the value at the function's entry may"""
        D = s.vardefs(f); bn = f.blocknode(); pos = bn.get(i)
        if pos is None:
            # not an element itself (operand folded into a terminator): use the closest parent
            q = list(f.parents().get(i, ())); seen = set(q)
            while q and pos is None:
                x = q.pop(0); pos = bn.get(x)
                for y in f.parents().get(x, ()):
                    if y not in seen: seen.add(y); q.append(y)
        if pos is None: return s.alldefs(f, vi), True
        out = []; entry = False; seen = set()
        todo = [(pos[0], pos[1])]
        while todo:
            b, k = todo.pop()
            els = f.B[b]['e']; stop = False
            for x in range(k - 1, -1, -1):
                e = els[x]
                if not isinstance(e, int): continue
                for v, d, kind in D.get(e, ()):
                    if v != vi: continue
                    if (d, kind) not in out: out.append((d, kind))
                    if kind in ('decl', 'assign', 'assign*', 'set'): stop = True
                if stop: break
            if stop: continue
            ps = f.preds().get(b, [])
            if b == f.entry: entry = True
            for p in ps:
                if p not in seen: seen.add(p); todo.append((p, len(f.B[p]['e'])))
        return out, entry

    def definition(s, f, d, kind, vi, ctx, via):
        if kind in ('decl', 'assign', 'app', 'elem') and isinstance(d, int):
            n = f.N[d] if d >= 0 else None
            if n is not None and kind == 'app' and n['k'] == 'call' and (n.get('op') == '+=' or last(n) in SETTERS):
                for a in n.get('a', ()): s.trace(f, a, ctx, via)
                return
            return s.trace(f, d, ctx, via)
        if kind in ('assign*', 'set'):
            for a in f.N[d]['a']: s.trace(f, a, ctx, via)
            return
        if kind == 'out':
            n = f.N[d]
            for a in n.get('a', ())[1:]: s.trace(f, a, ctx, via)
            return
        if kind == 'arg':
            i, k = d; n = f.N[i]
            return s.outparam(f, i, k, ctx, via)

    def outparam(s, f, i, k, ctx, via):
        """what a callee writes through its k-th argument"""
        for g in s.P.targets(f, i):
            if not g.B or k >= len(g.p): continue
            pt = g.ptype(k)
            if pt.replace(' ', '').startswith('constchar*') and not pt.rstrip().endswith('**') or pt.startswith('const ') and pt.rstrip().endswith('&'): continue
            if '*' not in pt and '&' not in pt: continue
            for d, kind in s.alldefs(g, g.p[k]['vi']):
                if kind in ('elem', 'out', 'app', 'set', 'assign*', 'arg'):
                    s.definition(g, d, kind, g.p[k]['vi'], ctx + ((f, i),), via + ((f, i),))

    # -- parameters
    def param(s, f, k, ctx, via):
        if ctx:
            g, c = ctx[-1]
            return s.arg(g, c, f, k, ctx[:-1], via)
        cs = [(g, c, how) for g, c, how in s.P.callers().get(f.u, ()) if g.file.startswith('daemon/')]
        ov = set()
        for b in f.ov:
            for g, c, how in s.P.callers().get(b, ()): cs.append((g, c, how))
        if not cs: return s.nocaller(f, k, via)
        for g, c, how in cs:
            if c is None or how == 'dtor': continue
            s.arg(g, c, f, k, (), via)

    def nocaller(s, f, k, via): pass

    def arg(s, g, c, f, k, ctx, via):
        n = g.N[c]
        if n['k'] not in ('call', 'ctor'): return
        a = n.get('a', ())
        if (n.get('fn') or '').startswith('std::make_unique') or k < len(a):
            if k < len(a): s.trace(g, a[k], ctx, via)

    # -- calls
    def call(s, f, i, n, ctx, via):
        ln = last(n); o = n.get('o', -1)
        # conversions and accessors of string objects, smart pointers
        if o >= 0 and (n.get('op') in ('*', '->', '[]') or ln.startswith('operator') or ln in ('Str', 'c_str', 'data', 'get', 'Unbind', 'GetBuf')):
            return s.trace(f, o, ctx, via)
        fn = n.get('fn') or ''
        if n['k'] == 'ctor' and STR.match(bare(n.get('cl') or '')) or fn == 'CString::FormatStr' or fn in ('std::move', 'std::forward'):
            for a in n.get('a', ()): s.trace(f, a, ctx, via)
            return
        if fn in ('strdup', 'strchr', 'strrchr', 'strstr', 'strpbrk', 'std::min', 'std::max', 'strtok', 'strtok_r'):
            return s.trace(f, n.get('a', ())[0], ctx, via)
        gs = [g for g in s.P.targets(f, i) if g.B]
        if not gs:
            return s.report(f, i, 'call of ' + (fn or '?'), via) if s.unknown_call else None
        for g in gs:
            if any(x[1] == i and x[0] is f for x in ctx) or sum(1 for x in ctx) > 12: continue
            for j in g.reach_nodes():
                m = g.N[j]
                if m['k'] == 'ret' and m.get('x', -1) >= 0: s.trace(g, m['x'], ctx + ((f, i),), via)

    # -- fields and globals
    def stores(s):
        """(class, field) -> [(fn, node, ctx)] expressions stored"""
        if s._stores is None:
            S = {}
            for f in s.P.daemon_fns():
                for bi, k, e in f.elements():
                    if isinstance(e, dict):
                        if e['k'] == 'init' and e.get('x', -1) >= 0 and 'm' in e: S.setdefault((f.cl, e['m']), []).append((f, e['x']))
                        continue
                    n = f.N[e]
                    if n['k'] == 'bin' and n['op'] in ('=', '+='):
                        t = s.memroot(f, n['x'])
                        if t: S.setdefault(t, []).append((f, n['y']))
                    elif n['k'] == 'call':
                        o = n.get('o', -1)
                        if o >= 0 and (n.get('op') in ('=', '+=') or last(n) in SETTERS):
                            t = s.memroot(f, o)
                            if t:
                                for a in n.get('a', ()): S.setdefault(t, []).append((f, a))
                        elif (n.get('fn') or '') in OUTFN and n.get('a', ()):
                            t = s.memroot(f, n.get('a', ())[0])
                            if t:
                                for a in n.get('a', ())[1:]: S.setdefault(t, []).append((f, a))
            s._stores = S
        return s._stores

    def memroot(s, f, j):
        while True:
            n = f.N[j]
            if n['k'] == 'mem': return (n['cl'], n['m'])
            if n['k'] in ('cast', 'un', 'idx'): j = n['x']
            elif n['k'] == 'call' and n.get('o', -1) >= 0 and (n.get('op') or last(n).startswith('operator')): j = n['o']
            else: return None

    def field(s, f, i, n, ctx, via):
        if not s.fields: return s.report(f, i, 'field %s::%s' % (n['cl'], n['m']), via)
        for g, x in s.stores().get((n['cl'], n['m']), ()): s.trace(g, x, (), via)

    def glob(s, f, i, n, ctx, via):
        g = s.P.globals.get(n.get('d'))
        if g and g.get('i', -1) >= 0: return     # constant tables hold literals
        return
