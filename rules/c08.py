"""Authentication of remote requests.  Path-sensitive analysis of the request processors, with the comparisons of the credentials as
uninterpreted facts: every path to the execution of an API request, of a binary command, or to the delivery of a file must have compared user
name and password (or session token) with the configured ones completely and successfully, or have found the connected address in the list of
authorized addresses, or have found that no password is configured.  The access level handed to the API must be one that was proven, and a
session token is only given to an authenticated client, and only the one of its own level."""
from common import *
import sim as simmod

LEVEL = 'other'
TECHNIQUE = 'path-sensitive must-precede analysis of credential checks'
NOTE = ('Decides which comparisons precede the processing of a request on every path; the meaning of strcmp and of the wildcard matcher, the secrecy of session tokens '
        '(random generator) and the transport are assumed. With form authentication static files of the web interface are public by design.')
ASSUMPTIONS = ['strcmp compares complete texts', 'option values do not change while a request is checked']
SINKS = ('XmlRpcProcessor::Execute', 'FileSystem::LoadFileIntoBuffer')
LEVELS = ('Control', 'Restricted', 'Add')


def opts_in(t): return {x[1][4:] for x in subterms(t) if x[0] == 'call' and isinstance(x[1], str) and x[1].startswith('opt:')}
def has_token(t): return next((x for x in subterms(t) if x[0] == 'idx' and x[1][0] == 'g' and 'm_serverAuthToken' in str(x[1][1])), None)


class Auth(simmod.Client):
    """client state: frozenset of facts"""
    inline_depth = 10
    def __init__(s, ctx, files): s.ctx = ctx; s.files = files; s.sinks = {}; s.visited = set()

    def should_inline(s, sim, g): return g.file in s.files and s.relevant(sim, g)

    def relevant(s, sim, g):
        """functions that (or whose callees in the same file) compare credentials or do what needs authentication"""
        c = g._cache.get('c08')
        if c is None:
            g._cache['c08'] = False
            c = False
            for i in g.reach_nodes() if g.B else ():
                n = g.N[i]
                if n['k'] == 'call':
                    fn = n.get('fn', '')
                    if fn.startswith('Options::Get') or fn in ('strcmp', 'std::strcmp') or lastname(n) == 'Match' or n.get('f') in s.sinkfns or fn in SINKS: c = True
                    else:
                        h = sim.P.fns.get(n.get('f'))
                        if h is not None and h is not g and h.file in s.files and s.relevant(sim, h): c = True
                elif n['k'] in ('ref', 'mem') and (n.get('d') or n.get('m') or '').endswith('m_serverAuthToken'): c = True
                if c: break
            g._cache['c08'] = c
        return c

    want_nodes = True
    def on_node(s, sim, st, fr, i, n):
        # first character of an option: the option is empty or not
        if n['k'] == 'un' and n['op'] == '*' or n['k'] == 'idx' and fr.fn.N[n['y']].get('cv', fr.fn.N[n['y']].get('v')) == 0:
            t = sim.eval(st, fr, n['x'])
            if t[0] != 'call' or not str(t[1]).startswith('opt:'): return None
            r = sim.fresh(st, (fr.fn.u, i)); out = []
            for x, v in s.split(st, ('empty', t[1][4:])):
                for y in sim.assume(x, r, v == ('c', 0)):
                    y = y.copy(); y.vals[(fr.fn.u, i)] = ('c', 0) if v == ('c', 1) else r
                    out.append(y)
            return out

    def split(s, st, fact, tv=('c', 1), fv=('c', 0)):
        """two states: fact holds / does not hold; only facts that can contribute to a proof are kept"""
        out = []
        for v, r in ((True, tv), (False, fv)):
            if (fact, not v) in st.client: continue
            good = v
            if fact[0] == 'empty': good = v == (fact[1] in ('ControlPassword', 'ControlUsername'))
            if fact[0] in ('empty', 'eq') and not fact[1].endswith(('Username', 'Password', 'AuthorizedIp')): good = False
            elif fact[0] == 'flag': good = v and fact[1] == 'FormAuth'
            x = st.with_client(s.norm(st.client | {(fact, v)}) if good else st.client)
            out.append((x if x is not st else st.copy(), r))
        return out

    def norm(s, c):
        """a proof of full access makes all other facts superfluous"""
        if s.level(c)[0] == 0: return frozenset(x for x in c if x[0][0] == 'flag') | {(('proved',), True)}
        return c

    def on_call(s, sim, st, fr, i, n, obj, args):
        if n['k'] != 'call' and n['k'] != 'ctor': return None
        fn = n.get('fn', ''); last = lastname(n)
        s.visited.add((fr.fn.u, i))
        if fn.startswith('Options::Get') and n['k'] == 'call':
            o = fn[len('Options::Get'):]
            if bare(fr.fn.typ(i)) == 'bool': return s.split(st, ('flag', o))
            return [(st, ('call', 'opt:' + o))]
        if fn.endswith('::GetRemoteAddr'): return [(st, ('call', 'remoteaddr'))]
        if fn == 'Util::EmptyStr' or fn == 'strlen' or fn == 'CString::Empty':
            a = args[0] if args else obj
            o = opts_in(a)
            if len(o) == 1 and a[0] == 'call':
                f = ('empty', next(iter(o)))
                if fn == 'strlen':
                    r = sim.fresh(st, (fr.fn.u, i)); out = []
                    for x, e in s.split(st, f, True, False):
                        out += [(y, r) for y in sim.assume(x, ('eq', r, ('c', 0)), e)] if not e else [(x, ('c', 0))]
                    for x, _ in out: pass
                    return [(y, t) for x, t in out for y in (sim.assume(x, ('lt', ('c', 0), t), True) if t != ('c', 0) else [x])]
                return s.split(st, f)
            return None
        if fn in ('strcmp', 'std::strcmp') or last in ('operator==', 'operator!=', 'compare') and n.get('cl') in ('CString', 'std::basic_string<char>'):
            aa = list(args) + ([obj] if obj is not None else [])
            tk = [has_token(a) for a in aa]
            o = [opts_in(a) for a in aa]
            f = None
            if any(tk) and not all(tk):
                t = next(x for x in tk if x); f = ('token', t[2])
            elif sum(map(len, o)) == 1 and any(not x for x in o): f = ('eq', next(x for y in o for x in y))
            if f:
                eq = ('c', 0 if fn.endswith('strcmp') or last == 'operator!=' or last == 'compare' else 1)
                # a new comparison may be about another text: an earlier result says nothing about it
                base = st.with_client(frozenset(x for x in st.client if x[0] != f))
                if eq == ('c', 1): return s.split(base, f, eq, ('c', 0))
                return s.split(base, f, eq, ('c', 1))
            return None
        if last == 'Match' and n['k'] == 'call' and n.get('cl') in ('WildMask', 'RegEx') or fn in ('fnmatch',):
            if any(mentions(a, lambda x: x == ('call', 'remoteaddr')) for a in args): return s.split(st, ('ipmatch',))
            return [(st, sim.fresh(st, (fr.fn.u, i)))]
        s.sink(sim, st, fr, i, n, obj, args)
        if n['k'] == 'call' and (n.get('f') in s.sinkfns or fn in SINKS): return [(st, sim.fresh(st, (fr.fn.u, i)))]
        return None

    def grounds(s, st): return s.level(st.client)

    def level(s, c):
        """best access level proven on this path: 0..2, 9 if none; and levels proven by token"""
        has = lambda f, v=True: (f, v) in c
        best = 9; tok = []
        if has(('empty', 'ControlPassword')) or has(('proved',)): best = 0
        if has(('ipmatch',)) and has(('empty', 'AuthorizedIp'), False): best = 0
        for k, l in enumerate(LEVELS):
            user = has(('eq', l + 'Username')) and (k == 0 or has(('empty', l + 'Username'), False)) or k == 0 and has(('empty', l + 'Username'))
            if user and has(('eq', l + 'Password')): best = min(best, k)
        for x in c:
            if x[0][0] == 'token' and x[1]: tok.append(x[0][1])
        return best, tok

    def level_ok(s, sim, st, v):
        best, tok = s.grounds(st)
        if v in tok: return True
        for t in tok:
            if t[0] == 'c': best = min(best, t[1])
        if best == 9: return False
        if best == 0: return True
        lo, hi, ne = sim.interval(st, v)
        return lo >= best

    def authed(s, st):
        b, t = s.grounds(st)
        return b != 9 or bool(t)


class Http(Auth):
    sinkfns = ()
    def sink(s, sim, st, fr, i, n, obj, args):
        fn = n.get('fn', ''); f = fr.fn; ctx = s.ctx
        if fn == 'XmlRpcProcessor::Execute' and n['k'] == 'call':
            s.sinks[(f.u, i)] = 'api'
            if not s.authed(st):
                ctx.violation('unauthenticated', f.loc(i), '%s executes an API request without a completed check of the credentials (path %s)' % (f.n, st.path()), f.n + ' api')
            else:
                v = sim.lookup(st, ('f', obj, 'XmlRpcProcessor', s.accessfield))
                s.levels += 1
                if not s.level_ok(sim, st, v):
                    ctx.violation('level', f.loc(i), '%s executes an API request with a higher access level than the credentials prove (path %s)' % (f.n, st.path()), f.n + ' level')
        elif fn == 'FileSystem::LoadFileIntoBuffer':
            s.sinks[(f.u, i)] = 'file'
            if not (s.authed(st) or (('flag', 'FormAuth'), True) in st.client):
                ctx.violation('unauthenticated', f.loc(i), '%s delivers a file without a completed check of the credentials (path %s)' % (f.n, st.path()), f.n + ' file')
        elif n['k'] in ('call', 'ctor') and fn not in ('strcmp', 'strncmp', 'strlen', 'memcmp', 'strcasecmp'):
            g = sim.P.fns.get(n.get('f'))
            if g is not None and s.should_inline(sim, g): return
            for a in args:
                t = a
                while t[0] == 'cond':
                    c = sim.truth(st, t[1])
                    if c is None: break
                    t = t[2] if c else t[3]
                k = has_token(t)
                if k is None: continue
                s.sinks[(f.u, i)] = 'token'
                if not (s.authed(st) and s.level_ok(sim, st, k[2])):
                    ctx.violation('token', f.loc(i), '%s passes on a session token that the client has not been authenticated for (path %s)' % (f.n, st.path()), f.n + ' token')


class Bin(Auth):
    def sink(s, sim, st, fr, i, n, obj, args):
        f = fr.fn
        if n['k'] == 'call' and n.get('f') in s.sinkfns:
            s.sinks[(f.u, i)] = 'command'
            if s.grounds(st)[0] != 0:
                s.ctx.violation('unauthenticated', f.loc(i), '%s executes a binary request without a completed check of user name and password (path %s)' % (f.n, st.path()), f.n + ' command')


def run(ctx):
    P = ctx.P
    web = ctx.fn('WebProcessor::Execute'); bin_ = ctx.fn('BinRpcProcessor::Execute')
    api = ctx.fn('XmlRpcProcessor::Execute')
    rec = P.records.get('XmlRpcProcessor'); ctx.need('class XmlRpcProcessor', rec)
    acc = [x['m'] for x in rec['fields'] if x.get('ts', '').endswith('EUserAccess')]
    ctx.need('access level of XmlRpcProcessor', len(acc) == 1)
    # both enumerations of access levels agree
    ea, eb = P.enums.get('WebProcessor::EUserAccess'), P.enums.get('XmlRpcProcessor::EUserAccess')
    if ea and eb:
        da, db = dict(ea['v']), dict(eb['v'])
        for k in da:
            nm = k.split('::')[-1]
            o = {x.split('::')[-1]: v for x, v in db.items()}.get(nm)
            if o is not None and o != da[k]: ctx.violation('levels', web.loc(), 'access level %s has different values in the web server and in the API' % nm, 'levels ' + nm)
    h = Http(ctx, {web.file}); h.accessfield = acc[0]; h.levels = 0
    s = simmod.Sim(P, ctx.eff, h, K=2); s.run(web, client=frozenset())
    kinds = list(h.sinks.values())
    ctx.floor('API requests executed', kinds.count('api'), 1)
    ctx.floor('files delivered', kinds.count('file'), 1)
    ctx.count('session tokens sent', kinds.count('token'))
    ctx.count('checked arrivals with access level', h.levels)
    trunc = s.truncated
    base = P.records.get('BinCommand'); ctx.need('class BinCommand', base)
    cmds = {c for c in P.records if 'BinCommand' in P.bases(c)}
    bx = {f.u for f in P.fns.values() if f.cl in cmds and f.n.endswith('::Execute')} | {u for c in cmds for u in [x.get('u') for x in P.records[c].get('methods', ())] if u}
    bx |= {f.N[i]['f'] for f in P.fns.values() if f.cl == 'BinRpcProcessor' and f.B for i in f.calls() if f.N[i]['k'] == 'call' and f.N[i].get('fn') == 'BinCommand::Execute'}
    b = Bin(ctx, {bin_.file}); b.sinkfns = bx
    b.should_inline = lambda sim, g: g.cl == 'BinRpcProcessor' or (g.file == bin_.file and not g.cl)
    s2 = simmod.Sim(P, ctx.eff, b, K=2); s2.run(bin_, client=frozenset())
    ctx.floor('binary commands executed', len(b.sinks), 1)
    if trunc or s2.truncated: ctx.need('complete exploration of the request processors', False)
    # no other way to the commands
    n = 0
    cx = {f.u for f in P.fns.values() if f.n.endswith('::Execute') and 'XmlCommand' in P.bases(f.cl or '')}
    for f in P.daemon_fns():
        if not f.B: continue
        for i in f.calls():
            c = f.N[i]
            if c['k'] != 'call': continue
            u = c.get('f'); fnm = c.get('fn', '')
            if u in bx and not c.get('qual'):
                n += 1
                if (f.u, i) not in b.sinks and f.cl not in cmds: ctx.violation('bypass', f.loc(i), '%s executes a binary command outside of the checked request processor' % f.n, f.n + ' bypass')
            elif fnm == 'XmlRpcProcessor::Execute' and (f.u, i) not in h.sinks:
                ctx.violation('bypass', f.loc(i), '%s executes an API request outside of the checked request processor' % f.n, f.n + ' bypass')
            elif fnm.endswith('::Execute') and 'XmlCommand' in P.bases(c.get('cl', '')) and f.cl != 'XmlRpcProcessor' and 'XmlCommand' not in P.bases(f.cl or ''):
                ctx.violation('bypass', f.loc(i), '%s executes an API command outside of the request processor' % f.n, f.n + ' bypass')
