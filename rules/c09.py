"""Access levels of the API.  Path-sensitive analysis of the API processor from its entry to the execution of a command, once for each access
level and HTTP method (both are known at the entry), with comparisons of the method name as facts: which classes of commands can be executed;
whether the command was told the protocol, HTTP method and access level of the request before; whether a command that is not declared safe can
be executed by GET.  Separately: commands declared safe reach none of the operations that change something (call graph), values of options
are given to restricted users only after the option was found to be unrestricted, and the options of the security section are restricted."""
from common import *
import sim as simmod

LEVEL = 'other'
TECHNIQUE = 'path-sensitive class analysis of command creation; effect analysis over the call graph'
NOTE = ('Decides which command classes can be reached by which access level and HTTP method, on every path. JSON-P requests use GET by design and are exempt. '
        'What a command does inside of its limits is not judged.')
ASSUMPTIONS = ['the web server passes on the proven access level (C08)']
ADD_OK = {'DownloadXmlCommand', 'VersionXmlCommand'}
RESTRICTED_NO = {'SaveConfigXmlCommand'}
# operations that change the state of the program, by their public names
CHANGES = re.compile(r'^(WorkState::Set\w+|DownloadQueue::(EditEntry|EditList|HistoryChanged|Save|SaveChanged)|QueueEditor::\w+|ExitProc|Reload|Log::Clear|Scanner::(ScanNzbDir|AddExternalFile)|'
                     r'UrlCoordinator::(AddUrlToQueue|DeleteQueueEntry)|QueueCoordinator::(EditQueueEntry|EditQueueList|AddNzbFileToQueue)|HistoryCoordinator::Edit\w*|PrePostProcessor::Edit\w*|'
                     r'FeedCoordinator::(FetchFeed|FetchAllFeeds)|ServerPool::Changed|NewsServer::SetActive|ScriptConfig::SaveConfig|Maintenance::StartUpdate|ServerVolume::Reset\w*|'
                     r'CommandScriptController::StartScript|AddMessage|DiskState::(Save|Discard)\w*|Scheduler::\w+)$')


def made(fr, i, n):
    m = re.match(r'std::unique_ptr<(\w+)', bare(fr.fn.typ(i)))
    return m.group(1) if m else None


class Proc(simmod.Client):
    """client state: (method name or None, names excluded, class created or None, where the compared name is)"""
    inline_depth = 8
    def __init__(s, ctx, access, method, fields, consts):
        s.ctx = ctx; s.access = access; s.method = method; s.f = fields; s.k = consts; s.executed = {}; s.unknown = set()
        P = ctx.P
        s.cmds = {c for c in P.records if 'XmlCommand' in P.bases(c)}

    def should_inline(s, sim, g): return g.cl == 'XmlRpcProcessor' or not g.cl and g.file.endswith('XmlRpc.cpp') and bool(g.B)

    def prop(s, cls, name):
        """constant returned by a boolean member of a command class"""
        P = s.ctx.P
        for c in s.line(cls):
            for f in P.fns.values():
                if f.n == '%s::%s' % (c, name) and f.B:
                    rets = [f.N[i] for i in f.reach_nodes() if f.N[i]['k'] == 'ret']
                    vals = {f.N[r['x']].get('cv', f.N[r['x']].get('v')) for r in rets if 'x' in r}
                    return vals.pop() if len(vals) == 1 else None
        return None

    def line(s, cls):
        out = []; st = [cls]
        while st:
            c = st.pop(0)
            if c in out or c not in s.ctx.P.records: continue
            out.append(c); st += [b if isinstance(b, str) else b.get('n') for b in s.ctx.P.records[c]['bases']]
        return out

    def on_call(s, sim, st, fr, i, n, obj, args):
        fn = n.get('fn', ''); last = lastname(n); c = st.client
        if n['k'] == 'ctor':
            if n.get('cl') in s.cmds and not n.get('cp'):
                return None
            return None
        if fn in ('strcasecmp', 'strcmp') and args and args[-1][0] == 's' and any(mentions(a, lambda x: x[0] == 'f' and x[3] == s.f['url']) for a in args[:1]) is False:
            lit = args[-1][1].lower(); out = []
            name, ex, cl, buf = c
            b = frozenset(x for x in subterms(args[0]) if x[0] == 'v') or args[0]
            if b != buf: name, ex = None, frozenset()
            if name is not None: return [(st, ('c', 0 if name == lit else 1))]
            if fn == 'strcmp': return [(st.with_client((lit, frozenset(), cl, b)), ('c', 0)), (st, ('c', 1))]
            if lit in ex: return [(st, ('c', 1))]
            return [(st.with_client((lit, frozenset(), cl, b)), ('c', 0)), (st.with_client((name, ex | {lit}, cl, b)), ('c', 1))]
        if fn.startswith('std::make_unique'):
            k = made(fr, i, n)
            if k in s.cmds:
                t = sim.fresh(st, (fr.fn.u, i)); sim.setnum(st, t, 1, simmod.POS_INF, frozenset((0,)))
                return [(st.with_client((c[0], c[1], k, c[3])), t)]
        if n.get('cl') in s.cmds and n['k'] == 'call':
            k = c[2] if n['cl'] == 'XmlCommand' else n['cl']
            if last == 'Execute':
                s.execute(sim, st, fr, i, n, obj, k)
                return [(st, sim.fresh(st, (fr.fn.u, i)))]
            v = s.prop(k, last) if k and last in ('IsSafeMethod', 'IsError') else None
            if v is not None: return [(st, ('c', int(v)))]
            if last in ('IsSafeMethod', 'IsError'): return [(st, sim.fresh(st, (fr.fn.u, i)))]
        return None

    def execute(s, sim, st, fr, i, n, obj, k):
        f = fr.fn; ctx = s.ctx
        if k is None: s.unknown.add((f.n, f.loc(i))); return
        s.executed.setdefault(k, set()).add((f.u, i))
        err = s.prop(k, 'IsError') == 1
        who = '%s (%s, %s)' % (f.n, s.access, s.method)
        if not err:
            if s.access == 'uaAdd' and k not in ADD_OK:
                ctx.violation('add-user', f.loc(i), '%s: the add-only account can execute %s%s (path %s)' % (f.n, k, ' by "%s"' % st.client[0] if st.client[0] else '', st.path()), '%s add %s' % (f.n, k))
            if s.access == 'uaRestricted' and k in RESTRICTED_NO:
                ctx.violation('restricted-user', f.loc(i), '%s: the restricted account can execute %s (path %s)' % (f.n, k, st.path()), '%s restricted %s' % (f.n, k))
            if s.method == 'hmGet' and s.prop(k, 'IsSafeMethod') != 1:
                p = sim.lookup(st, ('f', ('this',), 'XmlRpcProcessor', s.f['protocol']))
                if sim.truth(st, sim.cmp('==', p, ('c', s.k['rpJsonPRpc']))) is not True:
                    ctx.violation('get', f.loc(i), '%s executes %s, which is not declared safe, for a GET request (path %s)' % (f.n, k, st.path()), '%s get %s' % (f.n, k))
        # what the command was told
        base = 'XmlCommand'
        for what, fld in (('protocol', s.f['cprotocol']), ('HTTP method', s.f['cmethod']), ('access level', s.f['caccess'])):
            if err and what != 'protocol': continue
            if obj is None: continue
            have = st.heap.get(('f', obj, base, fld))
            want = sim.lookup(st, ('f', ('this',), 'XmlRpcProcessor', {'protocol': s.f['protocol'], 'HTTP method': s.f['method'], 'access level': s.f['access']}[what]))
            if have != want:
                ctx.violation('untold', f.loc(i), '%s executes a command that does not know the %s of the request (path %s)' % (f.n, what, st.path()), '%s untold %s' % (f.n, what))


def fields(ctx):
    P = ctx.P
    r = P.records.get('XmlRpcProcessor'); c = P.records.get('XmlCommand')
    ctx.need('class XmlRpcProcessor', r); ctx.need('class XmlCommand', c)
    def one(rec, suf, what):
        m = [x['m'] for x in rec['fields'] if x.get('ts', '').endswith(suf)]
        ctx.need(what, len(m) == 1); return m[0]
    d = dict(protocol=one(r, 'ERpcProtocol', 'protocol of XmlRpcProcessor'), method=one(r, 'EHttpMethod', 'method of XmlRpcProcessor'), access=one(r, 'EUserAccess', 'access level of XmlRpcProcessor'),
             cprotocol=one(c, 'ERpcProtocol', 'protocol of XmlCommand'), cmethod=one(c, 'EHttpMethod', 'method of XmlCommand'), caccess=one(c, 'EUserAccess', 'access level of XmlCommand'))
    u = [x['m'] for x in r['fields'] if 'url' in x['m'].lower()]
    d['url'] = u[0] if u else ''
    return d


class Values(simmod.Client):
    """options: client state = frozenset of (option object, found unrestricted)"""
    def __init__(s, ctx): s.ctx = ctx; s.n = 0
    def on_call(s, sim, st, fr, i, n, obj, args):
        fn = n.get('fn', '')
        if n['k'] != 'call' or n.get('cl') != 'Options::OptEntry': return None
        last = lastname(n)
        if last == 'Restricted': return [(st.with_client(st.client | {obj}), ('c', 0)), (st.with_client(st.client - {obj}), ('c', 1))]
        if last in ('GetValue', 'GetDefValue'):
            s.n += 1
            if last == 'GetValue' and obj not in st.client:
                s.ctx.violation('secret', fr.fn.loc(i), '%s reads the value of an option for a restricted user without having found it unrestricted (path %s)' % (fr.fn.n, st.path()), fr.fn.n + ' secret')
            return [(st, sim.fresh(st, (fr.fn.u, i)))]
        return None


class Names(simmod.Client):
    def __init__(s): s.free = []; s.full = []
    def on_call(s, sim, st, fr, i, n, obj, args):
        fn = n.get('fn', '')
        if fn in ('strcasecmp', 'strcmp', 'strstr', 'strcasestr', 'strchr') and len(n['a']) == 2:
            b = args[1]
            lit = chr(b[1]) if b[0] == 'c' else None
            if b[0] == 's': lit = b[1]
            if lit is None:
                x = fr.fn.N[n['a'][1]]
                while x['k'] == 'cast': x = fr.fn.N[x['x']]
                if x['k'] == 'ref': lit = s.strings.get(x.get('d'))
            if lit is None: return None
            raw = s.m_name and mentions(args[0], lambda x: x[0] == 'f' and x[3] == s.m_name)
            insens = 'case' in fn or s.lower and not raw
            k = ('=' if fn.endswith('cmp') else '~') + ('i' if insens else 's') + (lit.lower() if insens else lit)
            hit, miss = (('c', 0), ('c', 1)) if fn.endswith('cmp') else (('c', 1), ('c', 0))
            return [(st.with_client((st.client[0] | {k}, st.client[1])), hit), (st.with_client((st.client[0], st.client[1] | {k})), miss)]
    def on_exit(s, sim, st, fr, val):
        v = sim.truth(st, val) if val is not None else None
        if v is not True: s.free.append(st.client)


SECRET = ['ControlIP', 'ControlPort', 'ControlUsername', 'ControlPassword', 'RestrictedUsername', 'RestrictedPassword', 'AddUsername', 'AddPassword', 'FormAuth', 'SecureControl', 'SecurePort',
          'SecureCert', 'SecureKey', 'AuthorizedIP', 'CertStore', 'CertCheck', 'DaemonUsername', 'UMask', 'Server1.Username', 'Server1.Password', 'script.py:option']


def secrets(ctx):
    P = ctx.P
    f = ctx.fn('Options::OptEntry::Restricted')
    c = Names(); c.strings = {}
    for v in P.globals.values():
        x = v['N'][v['i']] if v.get('i') is not None and v['i'] >= 0 else {}
        while x.get('k') == 'cast': x = v['N'][x['x']]
        if x.get('k') == 'str': c.strings[v['n']] = x['v']
    near = [f] + [h for i in f.calls() for h in P.targets(f, i) if h.B]
    c.lower = any(re.search(r'tolower$', g.N[i].get('fn', ''), re.I) for g in near for i in g.calls())
    c.m_name = next((x['m'] for x in P.records['Options::OptEntry']['fields'] if x['m'].lower() in ('m_name', 'name')), None)
    simmod.Sim(P, ctx.eff, c, K=1).run(f, client=(frozenset(), frozenset()))
    ctx.need('result of Options::OptEntry::Restricted', c.free)
    for name in SECRET:
        # a path that declares the option unrestricted and is consistent with this name
        def possible(cl):
            hit, miss = cl
            def t(k, name):
                if k[1] == 'i': name = name.lower()
                return name == k[2:] if k[0] == '=' else k[2:] in name
            return any(all(t(k, v) for k in hit) and not any(t(k, v) for k in miss) for v in (name, name.lower(), name.upper()))
        if any(possible(cl) for cl in c.free):
            ctx.violation('unrestricted', f.loc(), 'option %s is not protected from restricted users' % name, 'unrestricted ' + name)
    ctx.count('security options', len(SECRET))


def run(ctx):
    P = ctx.P
    f = ctx.fn('XmlRpcProcessor::Execute'); fl = fields(ctx)
    ua = {k.split('::')[-1]: v for k, v in P.enums['XmlRpcProcessor::EUserAccess']['v']}
    hm = {k.split('::')[-1]: v for k, v in P.enums['XmlRpcProcessor::EHttpMethod']['v']}
    rp = {k.split('::')[-1]: v for k, v in P.enums['XmlRpcProcessor::ERpcProtocol']['v']}
    ctx.need('access levels and methods', all(x in ua for x in ('uaControl', 'uaRestricted', 'uaAdd')) and 'hmGet' in hm and 'hmPost' in hm and 'rpJsonPRpc' in rp)
    allx = {}
    for a in ('uaControl', 'uaRestricted', 'uaAdd'):
        for h in ('hmGet', 'hmPost'):
            c = Proc(ctx, a, h, fl, rp)
            s = simmod.Sim(P, ctx.eff, c, K=2)
            st = simmod.State(client=(None, frozenset(), None, None))
            s.setnum(st, ('this',), 1, simmod.POS_INF, frozenset((0,)))
            st.heap[('f', ('this',), 'XmlRpcProcessor', fl['access'])] = ('c', ua[a])
            st.heap[('f', ('this',), 'XmlRpcProcessor', fl['method'])] = ('c', hm[h])
            s.run_fn(simmod.Frame(f, ('this',)), [st])
            if s.truncated or c.unknown: ctx.need('known class of every executed command (%s)' % ', '.join('%s at %s' % x for x in sorted(c.unknown)[:2]), False)
            for k, v in c.executed.items(): allx.setdefault(k, set()).update((a, h) for _ in v)
            ctx.count('commands executable by %s, %s' % (a, h), len(c.executed))
            if a == 'uaAdd' and h == 'hmPost' and not ADD_OK & set(c.executed): ctx.need('commands of the add-only account', False)
    ctx.floor('command classes executed', len(allx), 10)
    # every place that executes a command was seen
    seen_fns = {'XmlRpcProcessor'}
    # declared safe: reaches nothing that changes something
    pc = Proc(ctx, 'uaControl', 'hmPost', fl, rp)
    nsafe = 0
    acts = [g for g in P.fns.values() if CHANGES.match(g.n)]
    ctx.floor('operations that change the state', len(acts), 15)
    act = {g.u for g in acts}
    for k in sorted(pc.cmds):
        if pc.prop(k, 'IsSafeMethod') != 1: continue
        fs = [g for g in P.fns.values() if g.cl == k and g.B]
        if not fs: continue
        nsafe += 1
        st = [(g, (g.n,)) for g in fs]; seen = set()
        while st:
            g, path = st.pop()
            if g.u in seen: continue
            seen.add(g.u)
            for i in g.calls():
                for h in P.targets(g, i):
                    if h.u in act:
                        ctx.violation('safe', g.loc(i), '%s is declared safe for GET requests but reaches %s: %s' % (k, h.n, ' -> '.join(path[-5:])), '%s safe %s' % (k, h.n))
                    elif h.u not in seen and h.B and h.file.startswith('daemon/') and len(path) < 12: st.append((h, path + (h.n,)))
    ctx.floor('command classes declared safe', nsafe, 5)
    # option values for restricted users
    n = 0
    for g in P.daemon_fns():
        if g.cl not in pc.cmds or not g.B: continue
        if not any(g.N[i].get('cl') == 'Options::OptEntry' and lastname(g.N[i]) == 'GetValue' for i in g.calls() if g.N[i]['k'] == 'call'): continue
        v = Values(ctx); s = simmod.Sim(P, ctx.eff, v)
        st = simmod.State(client=frozenset())
        s.setnum(st, ('this',), 1, simmod.POS_INF, frozenset((0,)))
        st.heap[('f', ('this',), 'XmlCommand', fl['caccess'])] = ('c', ua['uaRestricted'])
        s.run_fn(simmod.Frame(g, ('this',)), [st]); n += v.n
    ctx.count('reads of option values for API clients', n)
    secrets(ctx)
