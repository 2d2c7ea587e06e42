"""Encrypted connections.  (1) All paths of the functions that make a connection count as established: only after the connecting function
succeeded, and that one succeeds for an encrypted connection only if the TLS start (as client) was its last word.  (2) The plain socket
functions are used only where no TLS socket exists.  (3) All paths of the TLS start, with its helpers followed: success only after the
handshake succeeded and, for a client with a certificate store, after the certificate was verified for the host of the connection.
(4) The certificate store is set up according to the options.  (5) The connections are created with the encryption that the configuration
or the address demands.  (6) A request of a client is read only after the TLS start where encryption is on."""
from common import *
import sim as simmod

LEVEL = 'other'
TECHNIQUE = 'path-sensitive typestate analysis of connection setup, handshake and certificate verification; creation sites checked for their encryption flag'
NOTE = 'Decides the use of GnuTLS (the library of this build); what its verification function accepts is trusted. The code for OpenSSL is not compiled here and not analysed.'
ASSUMPTIONS = ['gnutls_certificate_verify_peers3 verifies chain and host name, as documented']
CON, TLS = 'Connection', 'TlsSocket'


def put(st, **k):
    d = dict(st.client); d.update(k)
    return st.with_client(tuple(sorted(d.items(), key=lambda x: x[0])))


def init(*flags): return simmod.State(client=tuple(sorted((k, None) for k in flags)))


def family(P, cls):
    return {cls} | set(P.subclasses(cls))


class Setup(simmod.Client):
    """functions of the connection: m_status = csConnected, result of the connecting functions"""
    inline_depth = 4
    def __init__(s, ctx, opaque, inl, conn): s.ctx = ctx; s.opaque = opaque; s.inl = inl; s.conn = conn; s.hits = {}
    def should_inline(s, sim, g): return g.u in s.inl and g.u not in s.opaque

    def on_call(s, sim, st, fr, i, n, obj, args):
        if n['k'] != 'call': return None
        f = fr.fn
        for g in sim.P.targets(f, i):
            if g.u in s.opaque:
                what, cond = s.opaque[g.u]
                ok = cond(args)
                out = [(put(st, **{what: bool(ok)}), ('c', 1)), (put(st, **{what: False}), ('c', 0))]
                return out
        return s.io(sim, st, fr, i, n)

    def io(s, sim, st, fr, i, n): return None

    def on_assign(s, sim, st, fr, i, lv, val):
        if lv[0] == 'f' and (lv[2], lv[3]) == (CON, 'm_status'):
            for y in sim.assume(st, sim.cmp('==', val, ('c', s.conn)), True):
                s.hits['set'] = s.hits.get('set', 0) + 1
                if dict(y.client).get('do') is not True:
                    s.ctx.violation('established', fr.fn.loc(i), '%s marks the connection as established without the success of the connecting function (path %s)' % (fr.fn.n, y.path()), 'status')
        return None


def flaw(ctx, rule, f, msg, key, st=None): ctx.violation(rule, f.loc(), msg + (' (path %s)' % st.path() if st else ''), key)


def wiretap(P):
    """functions of the program that read or write the data of a connection"""
    base = {f.u for f in P.fns.values() if f.cl == CON and f.n.split('::')[-1] in ('send', 'recv', 'Send', 'Recv', 'TryRecv', 'WriteLine', 'ReadLine')}
    return base


def raw(f, n): return n['k'] == 'call' and not n.get('cl') and n.get('fn') in ('send', 'recv', 'sendto', 'recvfrom', 'sendmsg', 'recvmsg') or \
    n['k'] == 'call' and not n.get('cl') and n.get('fn') in ('write', 'read') and any(x.get('m') == 'm_socket' for j in n['a'][:1] for x in (f.N[k] for k in f.subtree(j)))


def established(ctx):
    P = ctx.P
    conn = dict((k.split('::')[-1], v) for k, v in P.enums[CON + '::EStatus']['v'])['csConnected']
    start = P.fn(CON + '::StartTls'); do = P.fn(CON + '::DoConnect'); con = P.fn(CON + '::Connect')
    ctx.need('Connection::Connect, DoConnect and StartTls', start and do and con)
    mine = {f.u for f in P.fns.values() if f.cl == CON and f.B}
    taps = wiretap(P)

    class DoC(Setup):
        def io(s, sim, st, fr, i, n):
            if any(g.u in taps for g in sim.P.targets(fr.fn, i)) or raw(fr.fn, n):
                for y in sim.assume(st, sim.lookup(st, ('f', ('this',), CON, 'm_tls')), True):
                    if dict(y.client)['tls'] is not True: flaw(s.ctx, 'plain', fr.fn, '%s sends or receives data before the encryption is started' % fr.fn.n, 'io', y)
            return None
    # what leads to the TLS start is followed
    near = lambda u: any(g.u == start.u for i in P.fns[u].calls() for g in P.targets(P.fns[u], i))
    inl = {u for u in mine if near(u)}
    inl |= {u for u in mine if any(g.u in inl for i in P.fns[u].calls() for g in P.targets(P.fns[u], i))} - {con.u}
    isclient = lambda args: args and args[0] == ('c', 1)
    c = DoC(ctx, {start.u: ('tls', isclient)}, inl - {do.u}, conn); s = simmod.Sim(P, ctx.eff, c, K=6)
    n = 0
    for y, val in s.run_fn(simmod.Frame(do, ('this',)), [init('tls', 'do')]):
        for z in s.assume(y, val, True):
            for w in s.assume(z, s.lookup(z, ('f', ('this',), CON, 'm_tls')), True):
                n += 1
                if dict(w.client)['tls'] is not True: flaw(ctx, 'handshake', do, '%s reports success for an encrypted connection without a successful TLS start as client' % do.n, 'doconnect', w)
    if s.truncated: ctx.notes.append('not all paths of %s were followed' % do.n)
    ctx.floor('successful ends of the connecting function with encryption', n, 1)
    # who marks the connection as established
    setters = [f for f in P.daemon_fns() if f.B and any(k['k'] == 'bin' and k['op'] == '=' and f.N[k['x']].get('m') == 'm_status' and f.N[k['x']].get('cl') == CON for k in f.N)]
    roots = {}
    for f in setters:
        todo = [f]; seen = set()
        while todo:
            g = todo.pop()
            if g.u in seen: continue
            seen.add(g.u)
            callers = [h for h, i, how in P.callers().get(g.u, ())]
            if g.u != con.u and callers and all(h.cl in family(P, CON) for h in callers) and len(seen) < 6: todo.extend(callers)
            else: roots[g.u] = g
    roots[con.u] = con
    total = 0
    for f in sorted(roots.values(), key=lambda x: x.u):
        if f.kind == 'ctor' and any(p['d'] == 'socket' or f.ptype(k) in ('SOCKET', 'int') and k == 0 for k, p in enumerate(f.p)): continue        # a socket that was accepted
        inl2 = {g.u for g in setters if g.u != f.u} | ({u for u in mine if u not in (do.u,) and any(g.u == do.u for i in P.fns[u].calls() for g in P.targets(P.fns[u], i))} - {f.u})
        c = Setup(ctx, {do.u: ('do', lambda a: True)}, inl2, conn); s = simmod.Sim(P, ctx.eff, c, K=6)
        st = init('do', 'tls')
        known = s.assume(st, s.cmp('==', s.lookup(st, ('f', ('this',), CON, 'm_status')), ('c', conn)), False)      # not established yet
        for y, val in s.run_fn(simmod.Frame(f, ('this',)), known):
            if f.u == con.u:
                for z in s.assume(y, val, True):
                    if dict(z.client)['do'] is not True: flaw(ctx, 'established', f, '%s reports success without the success of the connecting function' % f.n, 'connect', z)
        total += c.hits.get('set', 0)
    ctx.floor('places that mark a connection as established', total, 1)
    # derived connections
    for d in sorted(set(P.subclasses(CON)) - {CON}):
        f = P.fn(d + '::Connect')
        if not f or not f.B: continue
        up = [g.u for g in [con]]
        opened = {'n': 0}

        class Der(Setup):
            def io(s, sim, st, fr, i, n):
                if n.get('fn') == CON + '::Connect': opened['n'] += 1
                return None
        c = Der(ctx, {con.u: ('do', lambda a: True)}, set(), conn); s = simmod.Sim(P, ctx.eff, c, K=6)
        st = init('do', 'tls')
        known = s.assume(st, s.cmp('==', s.lookup(st, ('f', ('this',), CON, 'm_status')), ('c', conn)), False)
        for y, val in s.run_fn(simmod.Frame(f, ('this',)), known):
            for z in s.assume(y, val, True):
                if dict(z.client)['do'] is not True: flaw(ctx, 'established', f, '%s reports success without having established the connection' % f.n, 'connect ' + d, z)
        ctx.src(f.file)
    ctx.src(do.file)


def plain(ctx):
    P = ctx.P
    conn = dict((k.split('::')[-1], v) for k, v in P.enums[CON + '::EStatus']['v'])['csConnected']
    n = 0
    wrappers = set()
    tlsio = {f.u for f in P.fns.values() if f.cl == TLS and f.n.split('::')[-1] in ('Send', 'Recv')}
    for f in P.daemon_fns():
        sites = [i for i in f.calls() if raw(f, f.N[i])] if f.B else []
        if not sites: continue
        if f.cl not in family(P, CON):
            sites = [i for i in sites if f.N[i]['fn'] not in ('recv', 'recvfrom', 'recvmsg', 'read')]          # (the rest of the data is dropped on closing)
            for i in sites: ctx.violation('plain', f.loc(i), '%s uses the plain socket function %s outside of the connection class' % (f.n, f.N[i].get('fn')), 'raw ' + f.n)
            continue
        if f.kind in ('ctor', 'dtor') : continue
        wrappers.add(f.u)

        class Pl(simmod.Client):
            def should_inline(s, sim, g): return False
            def on_call(s, sim, st, fr, i, m, obj, args):
                if m['k'] == 'call' and raw(fr.fn, m):
                    for y in sim.assume(st, sim.lookup(st, ('f', ('this',), CON, 'm_tlsSocket')), True):
                        flaw(ctx, 'plain', fr.fn, '%s uses the plain socket function %s although the connection may be encrypted' % (fr.fn.n, m.get('fn')), 'raw ' + fr.fn.n, y); break
                return None
        s = simmod.Sim(P, ctx.eff, Pl(), K=6); s.run_fn(simmod.Frame(f, ('this',)), [simmod.State(client=())]); n += len(sites)
    ctx.count('uses of the plain socket functions', n)
    # data is sent only on an established connection
    m = 0
    for f in P.fns.values():
        if f.cl != CON or not f.B or f.u in wrappers: continue
        sites = [i for i in f.calls() if any(g.u in wrappers and g.n.split('::')[-1] == 'send' for g in P.targets(f, i))]
        if not sites: continue
        if all(h.cl == CON for h, i, how in P.callers().get(f.u, ())) and P.callers().get(f.u): continue

        class Se(simmod.Client):
            def should_inline(s, sim, g): return False
            def on_call(s, sim, st, fr, i, k, obj, args):
                if k['k'] == 'call' and any(g.u in wrappers and g.n.split('::')[-1] == 'send' for g in sim.P.targets(fr.fn, i)):
                    for y in sim.assume(st, sim.cmp('==', sim.lookup(st, ('f', ('this',), CON, 'm_status')), ('c', conn)), False):
                        flaw(ctx, 'unestablished', fr.fn, '%s sends data although the connection may not be established' % fr.fn.n, 'send ' + fr.fn.n, y); break
                return None
        s = simmod.Sim(P, ctx.eff, Se(), K=6); s.run_fn(simmod.Frame(f, ('this',)), [simmod.State(client=())]); m += len(sites)
    ctx.floor('places that send data', m, 1)
    # the encrypted counterparts exist in the wrappers
    for u in wrappers:
        f = P.fns[u]
        if f.n.split('::')[-1] in ('send', 'recv') and not any(g.u in tlsio for i in f.calls() for g in P.targets(f, i)):
            ctx.violation('plain', f.loc(), '%s never uses the TLS socket' % f.n, 'notls ' + f.n)


class Start(simmod.Client):
    inline_depth = 4
    FL = ('hs', 'peer', 'store', 'client', 'trust', 'used')
    def __init__(s, ctx): s.ctx = ctx; s.n = {'hs': 0, 'peer': 0}
    def should_inline(s, sim, g): return g.cl == TLS and g.n.split('::')[-1] not in ('Close', 'ReportError', 'PrintError')

    def on_call(s, sim, st, fr, i, n, obj, args):
        if n['k'] != 'call': return None
        fn = (n.get('fn') or '').split('::')[-1]; f = fr.fn; d = dict(st.client)
        if fn == 'gnutls_handshake':
            s.n['hs'] += 1
            r = sim.fresh(st, (f.u, i))
            return [(put(st, hs=True), ('c', 0))] + [(put(y, hs=False), r) for y in sim.assume(st, r, True)]
        if fn in ('gnutls_certificate_set_x509_trust_dir', 'gnutls_certificate_set_x509_trust_file'):
            r = sim.fresh(st, (f.u, i))
            a = put(st, trust=('m_certStore' in str(args[1]) or s.says(f, n['a'][1], 'm_certStore')) or None); sim.setnum(a, r, 0, 1 << 31, frozenset())
            b = put(st, trust=False); sim.setnum(b, r, -(1 << 31), -1, frozenset())
            return [(a, r), (b, r)]
        if fn == 'gnutls_certificate_verify_peers3':
            s.n['peer'] += 1
            host = s.says(f, n['a'][1], 'm_host') or 'm_host' in str(args[1])
            if not host:
                s.ctx.violation('hostname', f.loc(i), '%s verifies the certificate for something else than the host of the connection' % f.n, 'peers host')
            r = sim.fresh(st, (f.u, i)); out = []
            # the status is written through the pointer
            v = f.N[n['a'][2]]
            while v['k'] in ('cast', 'un'): v = f.N[v['x']]
            key = (f.tu, v['vi']) if v['k'] == 'ref' and 'vi' in v else None
            good = put(st, peer=True if host and d['hs'] and d['trust'] else None)
            bad = put(st, peer=False)
            q = sim.fresh(st, (f.u, i, 'status'))
            if key: good.env[key] = ('c', 0); bad.env[key] = q; bad = sim.assume(bad, q, True)[0]
            out = [(good, ('c', 0)), (bad, ('c', 0))]
            return out + [(put(y, peer=False), r) for y in sim.assume(st, r, True)]
        if fn == 'Empty' and s.says(f, n.get('o'), 'm_certStore'):
            if d['store'] is not None: return [(st, ('c', int(not d['store'])))]
            return [(put(st, store=True), ('c', 0)), (put(st, store=False), ('c', 1))]
        if fn == 'Length' and s.says(f, n.get('o'), 'm_certStore'):
            if d['store'] is not None: return [(st, ('c', 100 if d['store'] else 0))]
            return [(put(st, store=True), ('c', 100)), (put(st, store=False), ('c', 0))]
        return None

    def says(s, f, a, m):
        if a is None: return False
        return any(f.N[j].get('m') == m or (f.N[j]['k'] == 'ref' and f.N[j].get('d', '').split('::')[-1] == m) for j in f.subtree(a))


def start(ctx):
    P = ctx.P
    f = P.fn(TLS + '::Start'); ctx.need('TlsSocket::Start', f)
    c = Start(ctx); s = simmod.Sim(P, ctx.eff, c, K=8)
    n = 0
    for y, val in s.run_fn(simmod.Frame(f, ('this',)), [init(*Start.FL)]):
        for z in s.assume(y, val, True):
            n += 1
            d = dict(z.client)
            if d['hs'] is not True: flaw(ctx, 'handshake', f, '%s reports success although the handshake was not made or failed' % f.n, 'start handshake', z)
            for w in s.assume(z, s.lookup(z, ('f', ('this',), TLS, 'm_isClient')), True):
                if d['store'] is not False and d['peer'] is not True:
                    flaw(ctx, 'verified', f, '%s reports success for a client with a certificate store although the certificate was not verified or rejected' % f.n, 'start verify', w)
    if s.truncated: ctx.notes.append('not all paths of %s were followed' % f.n)
    ctx.floor('successful ends of the TLS start', n, 1); ctx.floor('handshakes', c.n['hs'], 1); ctx.floor('verifications', c.n['peer'], 1)
    ctx.src(f.file)
    # the wrapper: creates the TLS socket with the values of the connection and passes its result on
    g = P.fn(CON + '::StartTls')

    class Wrap(simmod.Client):
        def should_inline(s, sim, h): return False
        def on_call(s, sim, st, fr, i, m, obj, args):
            if m['k'] == 'call' and m.get('fn') == TLS + '::Start': return [(put(st, hs=True), ('c', 1)), (put(st, hs=False), ('c', 0))]
            return None
    s = simmod.Sim(P, ctx.eff, Wrap(), K=6)
    for y, val in s.run_fn(simmod.Frame(g, ('this',)), [init('hs')]):
        for z in s.assume(y, val, True):
            if dict(z.client)['hs'] is not True: flaw(ctx, 'handshake', g, '%s reports success although the TLS start was not made or failed' % g.n, 'wrapper', z)


def arguments(P, cls, depth=0):
    """field of TlsSocket -> parameter index, for the constructors of cls"""
    out = {}
    for f in P.ctors(cls):
        m = {}
        if not f.p: continue
        for b in f.B:
            for e in f.B[b]['e'] if isinstance(f.B, dict) else b['e']:
                if isinstance(e, dict) and e.get('k') == 'init' and e.get('m'):
                    for j in f.subtree(e['x']):
                        x = f.N[j]
                        if x['k'] == 'ref' and x.get('dk') == 'par':
                            for k, p in enumerate(f.p):
                                if p['vi'] == x['vi']: m[e['m']] = k
        for i, n in enumerate(f.N):
            if n['k'] == 'ctor' and n.get('cl') in P.bases(cls) and n['cl'] != cls and depth < 3:
                up = arguments(P, n['cl'], depth + 1)
                for fld, k in up.items():
                    if k < len(n['a']):
                        for j in f.subtree(n['a'][k]):
                            x = f.N[j]
                            if x['k'] == 'ref' and x.get('dk') == 'par':
                                for q, p in enumerate(f.p):
                                    if p['vi'] == x['vi']: m[fld] = q
        if m and len(m) >= len(out): out = m
    return out


def creations(P, classes):
    """sites that create an object of one of the classes: (function, node, class, arguments)"""
    for f in P.daemon_fns():
        for i, n in enumerate(f.N):
            if n['k'] == 'call' and n.get('fn') == 'std::make_unique':
                t = f.typ(i)
                m = re.match(r'(?:class )?(?:std::)?unique_ptr<(?:class )?([\w:]+)', t)
                if not m: t2 = re.search(r'_MakeUniq<([\w:]+)', t); m = t2
                c = bare(m.group(1)) if m else None
                if c in classes: yield f, i, c, n['a']
            elif n['k'] == 'ctor' and n.get('cl') in classes and not n.get('cp'): yield f, i, n['cl'], n['a']


def socketargs(ctx):
    P = ctx.P
    classes = family(P, TLS); n = 0
    for f, i, c, a in creations(P, classes):
        if f.kind == 'ctor' and c in P.bases(f.cl) and f.cl != c: continue
        m = arguments(P, c)
        if not {'m_isClient', 'm_host'} <= set(m): ctx.notes.append('parameters of %s not understood' % c); continue
        n += 1
        host = a[m['m_host']]
        if not any(f.N[j].get('m') == 'm_host' for j in f.subtree(host)) and not any(f.N[j]['k'] == 'ref' for j in f.subtree(host)):
            ctx.violation('hostname', f.loc(i), '%s creates the TLS socket without the host name of the connection' % f.n, 'socket host')
        cl = a[m['m_isClient']]
        par = [f.N[j] for j in f.subtree(cl) if f.N[j]['k'] == 'ref' and f.N[j].get('dk') in ('par', 'loc')]
        neg = any(f.N[j]['k'] == 'un' and f.N[j]['op'] == '!' for j in f.subtree(cl))
        if f.N[cl].get('cv', f.N[cl].get('v')) == 0 or par and neg or not par and f.N[cl].get('cv', f.N[cl].get('v')) is None and neg:
            ctx.violation('verified', f.loc(i), '%s does not pass the role (client or server) on to the TLS socket' % f.n, 'socket role')
    ctx.floor('creations of TLS sockets', n, 1)
    # the fields keep what the constructor got
    for cls in (TLS, CON):
        for f in P.daemon_fns():
            if f.kind == 'ctor': continue
            for k, x in enumerate(f.N):
                if x['k'] == 'bin' and x['op'] == '=' and f.N[x['x']].get('cl') == cls and f.N[x['x']].get('m') in (('m_isClient',) if cls == TLS else ('m_tls',)):
                    if f.N[x['y']].get('cv', f.N[x['y']].get('v')) == 0: ctx.violation('downgrade', f.loc(k), '%s turns off the encryption or verification of a connection' % f.n, 'downgrade ' + f.n)


class Store(simmod.Client):
    def __init__(s, ctx): s.ctx = ctx; s.n = 0
    def should_inline(s, sim, g): return False
    def on_call(s, sim, st, fr, i, n, obj, args):
        if n['k'] != 'call': return None
        fn = n.get('fn') or ''; d = dict(st.client)
        if fn.endswith('Options::GetCertCheck'):
            if d['check'] is not None: return [(st, ('c', int(d['check'])))]
            return [(put(st, check=True), ('c', 1)), (put(st, check=False), ('c', 0))]
        if fn.endswith('Options::GetCertStore'): return [(st, ('call', 'certstore'))]
        if fn == TLS + '::InitOptions':
            s.n += 1
            if d['check'] is not False and args[0] != ('call', 'certstore'):
                s.ctx.violation('store', fr.fn.loc(i), '%s does not hand over the certificate store although certificate verification may be enabled (path %s)' % (fr.fn.n, st.path()), 'initoptions')
        return None


def store(ctx):
    P = ctx.P
    g = P.fn(TLS + '::InitOptions'); ctx.need('TlsSocket::InitOptions', g)
    n = 0
    for f, i, how in P.callers().get(g.u, ()):
        c = Store(ctx); s = simmod.Sim(P, ctx.eff, c, K=2, budget=400000)
        s.run_fn(simmod.Frame(f, ('this',)), [init('check')]); n += c.n
        if s.truncated: ctx.notes.append('not all paths of %s were followed' % f.n)
    ctx.floor('places that set the certificate store', n, 1)
    w = 0
    for f in P.daemon_fns():
        for k, x in enumerate(f.N):
            tgt = None
            if x['k'] in ('bin', 'call') and x.get('op') == '=':
                l = x['x'] if x['k'] == 'bin' else x.get('o', x['a'][0] if x.get('a') else None)
                r = x['y'] if x['k'] == 'bin' else x['a'][-1]
                if l is not None and any(f.N[j]['k'] in ('ref', 'mem') and (f.N[j].get('d') or f.N[j].get('m') or '').split('::')[-1] == 'm_certStore' and (f.cl == TLS or TLS in str(f.N[j].get('d')) or f.N[j].get('cl') == TLS) for j in [l] + list(f.kids(l))): tgt = r
            if tgt is None: continue
            w += 1
            if f.u != g.u and not any(h.u == g.u for h, _, _ in P.callers().get(f.u, ())):
                ctx.violation('store', f.loc(k), '%s changes the certificate store' % f.n, 'store ' + f.n)
            elif not any(f.N[j]['k'] == 'ref' and f.N[j].get('dk') == 'par' for j in f.subtree(tgt)):
                ctx.violation('store', f.loc(k), '%s does not store the certificate store it is given' % f.n, 'store ' + f.n)
    ctx.floor('assignments of the certificate store', w, 1)


class Create(simmod.Client):
    """creation of connections: the encryption flag"""
    inline_depth = 2
    def __init__(s, ctx, site, file): s.ctx = ctx; s.site = site; s.n = 0; s.file = file
    def should_inline(s, sim, g): return g.file == s.file and len(g.N) < 80
    def on_call(s, sim, st, fr, i, n, obj, args):
        f = fr.fn; d = dict(st.client)
        if (f.u, i) in s.site:
            s.n += 1
            k = s.site[(f.u, i)]
            for y in sim.assume(st, args[k], False):
                if dict(y.client)['https'] is not False:
                    s.ctx.violation('flag', f.loc(i), '%s creates a connection without encryption although the address may demand it (path %s)' % (f.n, y.path()), 'flag ' + f.n); break
            return None
        if n['k'] == 'call' and (n.get('fn') or '') in ('strcasecmp', 'strcmp') and any(a == ('s', 'https') for a in args):
            if d['https'] is not None: return [(st, ('c', 0 if d['https'] else 1))]
            return [(put(st, https=True), ('c', 0)), (put(st, https=False), ('c', 1))]
        if n['k'] == 'call' and (n.get('fn') or '') in ('strcasecmp', 'strcmp') and any(a == ('s', 'http') for a in args):
            if d['https'] is True: return [(st, ('c', 1))]
            r = [(put(st, https=False), ('c', 0)), (st, ('c', 1))]
            return r
        return None


def flags(ctx):
    P = ctx.P
    n = 0
    for f, i, c, a in creations(P, {CON}):
        if f.cl in family(P, CON) and f.kind != 'ctor': continue          # accepted connections take over the flag of the listening one
        if len(a) < 3: continue
        if f.kind != 'ctor' and not any((f.N[j].get('cl') or '') == 'URL' for j in f.calls()): continue          # not an address given by the user
        n += 1
        flag = a[2]
        if f.kind == 'ctor':
            if not any(f.N[j]['k'] == 'call' and lastname(f.N[j]) == 'GetTls' for j in f.subtree(flag)) or any(f.N[j]['k'] == 'un' for j in f.subtree(flag)):
                ctx.violation('flag', f.loc(i), '%s does not take the encryption of the connection from the settings of the server' % f.n, 'flag ' + f.n)
            continue
        cl = Create(ctx, {(f.u, i): 2}, f.file); s = simmod.Sim(P, ctx.eff, cl, K=8); s.run_fn(simmod.Frame(f, ('this',)), [init('https')])
        ctx.src(f.file)
    ctx.floor('creations of outgoing connections', n, 2)


def server(ctx):
    P = ctx.P
    start = P.fn(CON + '::StartTls')
    taps = wiretap(P)
    users = [f for f, i, how in P.callers().get(start.u, ()) if f.cl not in family(P, CON)]
    busy = {}
    def talks(g):
        if g.u in taps: return True
        if g.u in (start.u,) or g.cl in family(P, CON): return False
        if g.u not in busy:
            busy[g.u] = False
            busy[g.u] = any(talks(h) for i in g.calls() for h in P.targets(g, i))
        return busy[g.u]
    n = 0
    # the function that starts the encryption and what calls it inside of its class
    roots = {}
    for f in users:
        top = f
        for _ in range(4):
            cs = [h for h, i, how in P.callers().get(top.u, ()) if h.cl == f.cl]
            if not cs: break
            top = cs[0]
        roots[top.u] = top
    for f in roots.values():
        if 'm_tls' not in {x['m'] for x in P.records[f.cl]['fields']}: continue
        near = {g.u for g in P.fns.values() if g.cl == f.cl and g.B and any(h.u == start.u for i in g.calls() for h in P.targets(g, i))} - {f.u}

        class Sv(simmod.Client):
            inline_depth = 3
            def should_inline(s, sim, g): return g.u in near
            def on_call(s, sim, st, fr, i, m, obj, args):
                nonlocal n
                if m['k'] != 'call': return None
                ts = sim.P.targets(fr.fn, i)
                if any(g.u == start.u for g in ts): return [(put(st, tls=True), ('c', 1)), (put(st, tls=False), ('c', 0))]
                if any(g.u in near for g in ts): return None
                if any(talks(g) for g in ts):
                    n += 1
                    if dict(st.client)['tls'] is not True:
                        ctx.violation('request', fr.fn.loc(i), '%s reads or answers a request before the encryption is started (path %s)' % (fr.fn.n, st.path()), 'request ' + m.get('fn', ''))
                return None
        s = simmod.Sim(P, ctx.eff, Sv(), K=6); st = init('tls'); st.heap[('f', ('this',), f.cl, 'm_tls')] = ('c', 1)
        s.run_fn(simmod.Frame(f, ('this',)), [st])
        ctx.src(f.file)
    ctx.floor('places that read or answer a request', n, 1)
    # the listening thread hands its flag over
    m = 0
    for f in P.daemon_fns():
        for i in f.calls():
            x = f.N[i]
            if x['k'] == 'call' and lastname(x) == 'SetTls' and x.get('a') and f.cl and 'm_tls' in {y['m'] for y in P.records.get(f.cl, {'fields': []})['fields']}:
                m += 1
                if not any(f.N[j].get('m') == 'm_tls' or f.N[j]['k'] == 'ref' and f.N[j].get('dk') in ('loc', 'par') for j in f.subtree(x['a'][0])) or any(f.N[j].get('op') in ('!', '&&') for j in f.subtree(x['a'][0])):
                    ctx.violation('flag', f.loc(i), '%s does not hand its encryption setting over to the thread that serves the request' % f.n, 'settls')
    ctx.count('hand-overs of the flag', m)


def run(ctx):
    established(ctx)
    plain(ctx)
    start(ctx)
    socketargs(ctx)
    store(ctx)
    flags(ctx)
    server(ctx)
