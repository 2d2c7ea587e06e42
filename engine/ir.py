"""Program model: functions (CFG + expression nodes), records, enums, globals, merged from the extractor's output."""
import json, glob, os, re
from collections import defaultdict


class Fn:
    __slots__ = ('u', 'n', 'file', 'l', 'le', 'cl', 'kind', 'vm', 'st', 'impl', 'p', 'va', 'entry', 'exit', 'B', 'N', 'T', 'rt', 'ov',
                 'encl', 'tu', '_pred', '_order', '_parents', '_cache')

    def __init__(s, d, types, tu):
        s.u = d['u']; s.n = d['n']; s.file = d['file']; s.l = d['l']; s.le = d.get('le', 0); s.cl = d.get('cl'); s.kind = d.get('kind')
        s.vm = d.get('vm', 0); s.st = d.get('st', 0); s.impl = d.get('impl', 0); s.p = d['p']; s.va = d.get('va', 0); s.tu = tu
        s.entry = d.get('entry'); s.exit = d.get('exit'); s.N = d['N']; s.T = types; s.ov = d.get('ov', []); s.encl = d.get('encl')
        s.rt = types[d['rt']] if d.get('rt', -1) >= 0 else ''
        s.B = {b['i']: b for b in d.get('B', [])}
        s._pred = None; s._order = None; s._parents = None; s._cache = {}

    def __repr__(s):
        return '<%s %s:%d>' % (s.n, s.file, s.l)

    @property
    def short(s):
        return s.n

    def typ(s, i):
        if i is None or i < 0: return ''
        t = s.N[i].get('t', -1)
        return s.T[t] if t is not None and t >= 0 else ''

    def ptype(s, k):
        return s.T[s.p[k]['t']]

    def loc(s, i=None):
        if i is None: return '%s:%d' % (s.file, s.l)
        return '%s:%d' % (s.file, s.N[i]['l'])

    def preds(s):
        if s._pred is None:
            p = defaultdict(list)
            for b in s.B.values():
                for x in b['s']:
                    if x >= 0: p[x].append(b['i'])
            s._pred = p
        return s._pred

    def elements(s):
        """(block, index, element) in CFG block order; only blocks reachable from the entry"""
        for bi in s.rpo():
            b = s.B[bi]
            for k, e in enumerate(b['e']):
                yield bi, k, e

    def rpo(s):
        if s._order is None:
            seen = set(); out = []
            if s.entry is not None:
                st = [(s.entry, iter(s.B[s.entry]['s']))]; seen.add(s.entry)
                while st:
                    b, it = st[-1]
                    for x in it:
                        if x >= 0 and x not in seen:
                            seen.add(x); st.append((x, iter(s.B[x]['s']))); break
                    else:
                        out.append(b); st.pop()
            s._order = out[::-1]
        return s._order

    def calls(s):
        """node ids of reachable calls and constructions"""
        c = s._cache.get('calls')
        if c is None:
            c = []
            seen = set()
            for bi, k, e in s.elements():
                i = e if isinstance(e, int) else e.get('x', -1) if e['k'] == 'init' else -1
                if i >= 0 and i not in seen and s.N[i]['k'] in ('call', 'ctor'):
                    seen.add(i); c.append(i)
            s._cache['calls'] = c
        return c

    def reach_nodes(s):
        c = s._cache.get('rn')
        if c is None:
            c = []
            seen = set()
            for bi, k, e in s.elements():
                i = e if isinstance(e, int) else e.get('x', -1)
                if i is not None and i >= 0 and i not in seen:
                    seen.add(i); c.append(i)
            s._cache['rn'] = c
        return c

    def kids(s, i):
        n = s.N[i]
        for k in ('o', 'x', 'y', 'z', 'fx'):
            v = n.get(k)
            if isinstance(v, int) and v >= 0 and not (k == 'x' and n['k'] == 'int'):
                yield v
        for v in n.get('a', ()):
            if v >= 0: yield v
        for d in n.get('vars', ()):
            if d.get('i', -1) >= 0: yield d['i']

    def parents(s):
        if s._parents is None:
            p = defaultdict(list)
            for i in range(len(s.N)):
                for c in s.kids(i): p[c].append(i)
            s._parents = p
        return s._parents

    def subtree(s, i):
        st = [i]; seen = set()
        while st:
            x = st.pop()
            if x in seen: continue
            seen.add(x); yield x
            st.extend(s.kids(x))

    def blocknode(s):
        """node id -> (block, element index)"""
        m = s._cache.get('bn')
        if m is None:
            m = {}
            for b in s.B.values():
                for k, e in enumerate(b['e']):
                    if isinstance(e, int): m.setdefault(e, (b['i'], k))
                    elif e['k'] == 'init' and e.get('x', -1) >= 0: m.setdefault(e['x'], (b['i'], k))
            s._cache['bn'] = m
        return m


class Program:
    def __init__(s, files):
        s.fns = {}; s.records = {}; s.enums = {}; s.globals = {}; s.tus = []
        for f in files:
            with open(f) as h: d = json.load(h)
            s.tus.append(d['tu'])
            T = d['types']
            for fn in d['functions']:
                if not fn['file']: continue
                o = s.fns.get(fn['u'])
                if o is None: s.fns[fn['u']] = Fn(fn, T, d['tu'])
            for g in d['globals']:
                if g['n'] not in s.globals:
                    g['T'] = T; s.globals[g['n']] = g
            for r in d['records']:
                if r['n'] not in s.records:
                    r['T'] = T
                    for fl in r['fields']: fl['ts'] = T[fl['t']]
                    s.records[r['n']] = r
            for e in d['enums']: s.enums.setdefault(e['n'], e)
        s.byname = defaultdict(list)
        for f in s.fns.values(): s.byname[f.n].append(f)
        s._derived = None; s._overr = None; s._callees = {}; s._callers = None; s._lam = None

    def daemon_fns(s):
        return [f for f in s.fns.values() if f.file.startswith('daemon/')]

    def fn(s, name):
        l = [f for f in s.byname.get(name, []) if f.B]
        return l[0] if l else None

    def constant(s, name):
        """value of a constant integer global"""
        g = s.globals.get(name)
        if not g or g.get('i', -1) < 0 or not g['T'][g['t']].startswith('const '): return None
        n = g['N'][g['i']]
        if 'cv' in n: return n['cv']
        return n['v'] if n['k'] == 'int' else None

    # ---- classes
    def derived(s):
        if s._derived is None:
            d = defaultdict(set)
            for r in s.records.values():
                for b in r['bases']: d[b].add(r['n'])
            s._derived = d
        return s._derived

    def subclasses(s, c):
        out = {c}; st = [c]
        while st:
            for x in s.derived().get(st.pop(), ()):
                if x not in out: out.add(x); st.append(x)
        return out

    def bases(s, c):
        out = {c}; st = [c]
        while st:
            r = s.records.get(st.pop())
            if r:
                for b in r['bases']:
                    if b not in out: out.add(b); st.append(b)
        return out

    def overriders(s, u):
        """all function USRs that override u transitively (including u)"""
        if s._overr is None:
            m = defaultdict(set)
            for r in s.records.values():
                for me in r['methods']:
                    for b in me['ov']: m[b].add(me['u'])
            for f in s.fns.values():
                for b in f.ov: m[b].add(f.u)
            s._overr = m
        out = {u}; st = [u]
        while st:
            for x in s._overr.get(st.pop(), ()):
                if x not in out: out.add(x); st.append(x)
        return out

    def targets(s, fn, i):
        """Functions (bodies) a call/ctor node may invoke."""
        n = fn.N[i]; u = n.get('f')
        if not u: return []
        if n.get('vm') and not n.get('qual'):
            us = s.overriders(u)
            # receiver static type restricts the set
            o = n.get('o', -1)
            if o >= 0:
                t = bare(fn.typ(o))
                if t in s.records:
                    sub = s.subclasses(t) | s.bases(t)
                    if fn.N[o]['k'] == 'this' and False: pass
                    us = {x for x in us if x not in s.fns or s.fns[x].cl in sub}
            return [s.fns[x] for x in sorted(us) if x in s.fns]
        f = s.fns.get(u)
        return [f] if f else []

    def lam_of(s, fn, i):
        n = fn.N[i]
        return s.fns.get(n['f']) if n['k'] == 'lam' else None

    def callees(s, fn):
        """[(node id or None, callee Fn, how)] how: call/dtor/lam"""
        c = s._callees.get(fn.u)
        if c is not None: return c
        c = []
        for bi, k, e in fn.elements():
            if isinstance(e, int) or e['k'] == 'init':
                i = e if isinstance(e, int) else e.get('x', -1)
                if i < 0: continue
                n = fn.N[i]
                if n['k'] in ('call', 'ctor'):
                    for t in s.targets(fn, i): c.append((i, t, 'call'))
                elif n['k'] == 'lam':
                    t = s.lam_of(fn, i)
                    if t: c.append((i, t, 'lam'))
                elif n['k'] == 'del':
                    for t in s.dtors(bare(fn.typ(n['x']))): c.append((i, t, 'dtor'))
            elif e['k'] in ('dtor', 'tdtor'):
                for t in s.dtors(bare(fn.T[e['t']]), exact=True): c.append((None, t, 'dtor'))
        # make_unique<T>(...) constructs T
        for i in fn.calls():
            n = fn.N[i]
            if n.get('fn', '').startswith('std::make_unique'):
                m = re.match(r'std::unique_ptr<(.*?)(, std::default_delete.*)?>$', fn.typ(i))
                if m:
                    for f in s.ctors(m.group(1), len(n['a'])): c.append((i, f, 'call'))
        seen = set(); out = []
        for x in c:
            key = (x[0], x[1].u)
            if key not in seen: seen.add(key); out.append(x)
        s._callees[fn.u] = out
        return out

    def ctors(s, cl, nargs=None):
        idx = getattr(s, '_ctors', None)
        if idx is None:
            idx = defaultdict(list)
            for f in s.fns.values():
                if f.kind == 'ctor': idx[f.cl].append(f)
            s._ctors = idx
        return [f for f in idx.get(cl, []) if nargs is None or len(f.p) >= nargs]

    def dtors(s, cl, exact=False):
        idx = getattr(s, '_dt', None)
        if idx is None:
            idx = defaultdict(list)
            for f in s.fns.values():
                if f.kind == 'dtor': idx[f.cl].append(f)
            s._dt = idx
        m = re.match(r'std::unique_ptr<(.*?)(, std::default_delete.*)?>$', cl)
        if m: cl = m.group(1)
        out = []
        f = idx.get(cl, [])
        if f and f[0].vm and not exact:
            for c in s.subclasses(cl): out += idx.get(c, [])
        else: out = list(f)
        return out

    def callers(s):
        if s._callers is None:
            m = defaultdict(list)
            for f in list(s.fns.values()):
                for i, t, how in s.callees(f): m[t.u].append((f, i, how))
            s._callers = m
        return s._callers

    def closure(s, pred):
        """set of function USRs that may (transitively) call a function satisfying pred (or satisfy it)."""
        start = {f.u for f in s.fns.values() if pred(f)}
        cal = s.callers(); out = set(start); st = list(start)
        while st:
            for f, i, how in cal.get(st.pop(), ()):
                if f.u not in out: out.add(f.u); st.append(f.u)
        return out

    def reaching_nodes(s, nodepred):
        """functions that may transitively execute a node satisfying nodepred(fn, i)"""
        hit = set()
        for f in s.daemon_fns():
            for i in f.reach_nodes():
                if nodepred(f, i): hit.add(f.u); break
        return s.closure(lambda f: f.u in hit)


_bare = {}
def bare(t):
    r = _bare.get(t)
    if r is None:
        r = t
        while True:
            o = r
            r = r.strip()
            for suf in ('*', '&', 'const', 'volatile'):
                if r.endswith(suf) and (suf in '*&' or r.endswith(' ' + suf) or r.endswith('*' + suf)): r = r[:-len(suf)].strip()
            if r.startswith('const '): r = r[6:]
            if r.startswith('volatile '): r = r[9:]
            if r == o: break
        _bare[t] = r
    return r
