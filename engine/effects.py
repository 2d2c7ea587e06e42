"""Field effect summaries: which (class, field) pairs and globals a function may read / write, transitively."""
from ir import bare

PURE_EXT = {'strlen', 'strcmp', 'strcasecmp', 'strncmp', 'strncasecmp', 'strchr', 'strrchr', 'strstr', 'atoi', 'atoll', 'atol', 'strtol', 'abs',
            'isdigit', 'isalpha', 'isspace', 'tolower', 'toupper', 'std::max', 'std::min', 'time', 'getpid', 'memcmp', 'ntohl', 'htonl'}


class Effects:
    def __init__(s, P):
        s.P = P
        s.W = {}; s.R = {}
        dw = {}; dr = {}
        for f in P.fns.values():
            w = set(); r = set()
            s.direct(f, w, r)
            dw[f.u] = w; dr[f.u] = r
        # closure
        cal = {f.u: {t.u for _, t, _ in P.callees(f)} for f in P.fns.values()}
        s.W = s._close(dw, cal); s.R = s._close(dr, cal)

    def _close(s, d, cal):
        # Tarjan SCC then propagate
        idx = {}; low = {}; onst = set(); st = []; comp = {}; comps = []
        c = [0]
        for root in cal:
            if root in idx: continue
            work = [(root, iter(cal[root]))]
            idx[root] = low[root] = c[0]; c[0] += 1; st.append(root); onst.add(root)
            while work:
                v, it = work[-1]
                adv = False
                for w in it:
                    if w not in cal: continue
                    if w not in idx:
                        idx[w] = low[w] = c[0]; c[0] += 1; st.append(w); onst.add(w)
                        work.append((w, iter(cal[w]))); adv = True; break
                    elif w in onst: low[v] = min(low[v], idx[w])
                if adv: continue
                work.pop()
                if work: low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    k = len(comps); mem = []
                    while True:
                        w = st.pop(); onst.discard(w); comp[w] = k; mem.append(w)
                        if w == v: break
                    comps.append(mem)
        res = [None] * len(comps); out = {}
        for k, mem in enumerate(comps):
            acc = set()
            for v in mem: acc |= d[v]
            seen = {k}
            for v in mem:
                for w in cal[v]:
                    if w in comp and comp[w] not in seen:
                        seen.add(comp[w]); acc |= res[comp[w]]
            res[k] = acc
            for v in mem: out[v] = acc
        return out

    def lval(s, f, i, out):
        """fields an lvalue expression designates (outermost member plus enclosing by-value members)"""
        n = f.N[i]
        while True:
            k = n['k']
            if k == 'mem':
                out.add((n['cl'], n['m']))
                if n.get('ar'): return
                n = f.N[n['o']]
            elif k == 'idx': n = f.N[n['x']]
            elif k in ('cast',): n = f.N[n['x']]
            elif k == 'un' and n['op'] in ('*', '&', '++', '--'): n = f.N[n['x']]
            elif k == 'ref' and n.get('dk') == 'glob': out.add(('', n['d'])); return
            elif k == 'ref' and n.get('dk') == 'slocal': out.add((f.u, n['d'])); return
            elif k == 'call' and n.get('o', -1) >= 0 and n.get('op') in ('[]', '*', '->'): n = f.N[n['o']]
            elif k == 'call' and n.get('o', -1) >= 0 and n.get('fn', '').split('::')[-1] in ('get', 'begin', 'end', 'back', 'front', 'at'): n = f.N[n['o']]
            elif k == 'cond':
                s.lval(f, n['y'], out); n = f.N[n['z']]
            elif k == 'bin' and n['op'] in ('=', '+=', '-=', ','): n = f.N[n['x']]
            else: return

    def direct(s, f, w, r):
        for i in f.reach_nodes():
            n = f.N[i]; k = n['k']
            if k == 'mem': r.add((n['cl'], n['m']))
            elif k == 'ref' and n.get('dk') == 'glob': r.add(('', n['d']))
            elif k == 'ref' and n.get('dk') == 'slocal': r.add((f.u, n['d']))
            elif k == 'bin' and n['op'].endswith('=') and n['op'] not in ('==', '!=', '<=', '>='): s.lval(f, n['x'], w)
            elif k == 'un' and n['op'] in ('++', '--'): s.lval(f, n['x'], w)
            elif k == 'call' or k == 'ctor':
                u = n.get('f')
                g = s.P.fns.get(u) if u else None
                o = n.get('o', -1)
                if o >= 0 and not n.get('cm') and k == 'call':
                    # non-const method: writes the object (field object by value, or through a smart pointer only when the method is the pointer's own)
                    nm = n.get('fn', '').split('::')[-1]
                    if g is None and nm not in ('get', 'begin', 'end', 'operator->', 'operator*', 'operator[]', 'back', 'front', 'at', 'find', 'data', 'operator bool', 'operator()',
                                                'rbegin', 'rend', 'operator==', 'operator!='):
                        if not n.get('ar'): s.lval(f, o, w)
                for idx, a in enumerate(n.get('a', ())):
                    if a < 0: continue
                    an = f.N[a]
                    if an['k'] == 'un' and an['op'] == '&': s.lval(f, an['x'], w)
                    elif g is not None and idx < len(g.p):
                        t = g.ptype(idx)
                        if t.endswith('&') and not t.startswith('const ') and an.get('lv'): s.lval(f, a, w)
                        elif t.endswith('*') and not t.startswith('const ') and '[' in f.typ(a): s.lval(f, a, w)
                    elif g is None and '[' in f.typ(a) and n.get('fn') not in PURE_EXT: s.lval(f, a, w)
                    elif g is None and an.get('lv') and n.get('fn', '').startswith(('std::swap', 'std::move', 'std::sort')): s.lval(f, a, w)
        for b in f.B.values():
            for e in b['e']:
                if not isinstance(e, int) and e['k'] == 'init' and 'm' in e: w.add((f.cl, e['m']))
