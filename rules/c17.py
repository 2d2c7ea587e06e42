"""Acceptance of articles.  (1) All paths of the thread that downloads an article, with the functions that request, decode and write it
followed in the state of the caller: the status "finished" may be recorded only if, since the last request, the response had a success
code, the decoder was reset and set up, its end marker was the reason to stop reading, its check succeeded after the last data
(or raw mode is active) and no attempt to store data failed.  (2) All paths of the decoder's check: success only with begin and end seen,
matching sizes and, if enabled and sent, matching checksums.  (3) The markers that the check relies on are set only when found, and reset.
(4) The queue records an article as successful or failed only for the corresponding result of the download."""
from common import *
import sim as simmod

LEVEL = 'other'
TECHNIQUE = 'path-sensitive, interprocedural must-have-happened (typestate) analysis; abstract execution of the decoder check'
NOTE = ('Decides that the checks are made and their results respected on every path; that the decoder computes the bytes and the checksum correctly is C40. '
        'An article of a file that exists already (duplicate check) counts as finished without having been received, which is intended.')
ASSUMPTIONS = ['options do not change while an article is downloaded', 'Thread::IsStopped remains true once it was true']
DL, DEC, WR = 'ArticleDownloader', 'Decoder', 'ArticleWriter'
FLAGS = ('last', 'resp', 'clear', 'crc', 'rawset', 'eof', 'chk', 'werr', 'raw', 'dup', 'stop')


class Dl(simmod.Client):
    inline_depth = 6
    def __init__(s, ctx, inl): s.ctx = ctx; s.inl = inl; s.n = {'request': 0, 'check': 0, 'status': 0}; s.enums = ctx.enums
    def should_inline(s, sim, g): return g.u in s.inl

    @staticmethod
    def put(st, **k):
        d = dict(st.client); d.update(k)
        return st.with_client(tuple(sorted(d.items(), key=lambda x: x[0])))

    def on_call(s, sim, st, fr, i, n, obj, args):
        if n['k'] != 'call': return None
        fn = n.get('fn') or ''; last = lastname(n); f = fr.fn; d = dict(st.client); cl = n.get('cl') or ''
        if last == 'IsStopped' and not n.get('a'):
            if d['stop']: return [(st, ('c', 1))]
            return [(s.put(st, stop=True), ('c', 1)), (st, ('c', 0))]
        if fn == 'NntpConnection::Request':
            s.n['request'] += 1
            r = sim.fresh(st, (f.u, i))
            return [(s.put(st, resp=r, clear=None, crc=None, rawset=None, eof=None, chk=None, werr=None), r)]
        if fn in ('strncmp', 'strncasecmp') and args[0] == d['resp'] and d['resp'] is not None and args[1][0] == 's' and args[1][1][:1] == '2':
            out = [(s.put(st, resp='ok'), ('c', 0))]
            r = sim.fresh(st, (f.u, i))
            return out + [(y, r) for y in sim.assume(st, r, True)]
        if fn in ('atoi', 'strtol') and args[0] == d['resp'] and d['resp'] is not None:
            r = sim.fresh(st, (f.u, i)); x = s.put(st, resp='ok'); sim.setnum(x, r, 200, 299, frozenset()); return [(x, r), (st, ('c', 400))]
        if cl == DEC:
            if last == 'Clear': return [(s.put(st, clear=True, eof=None, chk=None), None)]
            if last == 'SetCrcCheck': return [(s.put(st, crc=any('GetCrcCheck' in str(x) for x in subterms(args[0])) or s.names(f, n['a'][0], 'GetCrcCheck')), None)]
            if last == 'SetRawMode': return [(s.put(st, rawset=any('GetRawArticle' in str(x) for x in subterms(args[0])) or s.names(f, n['a'][0], 'GetRawArticle')), None)]
            if last == 'DecodeBuffer': return [(s.put(st, eof=None, chk=None), sim.fresh(st, (f.u, i)))]
            if last == 'GetEof': return [(s.put(st, eof=True), ('c', 1)), (s.put(st, eof=False), ('c', 0))]
            if last == 'Check':
                s.n['check'] += 1; v = s.enums['dsFinished']
                return [(s.put(st, chk=True), ('c', v))] + [(s.put(st, chk=False), ('c', w)) for k, w in sorted(s.enums.items()) if k.startswith('ds') and w != v]
        if last == 'GetRawArticle':
            if d['raw'] is not None: return [(st, ('c', int(d['raw'])))]
            return [(s.put(st, raw=True), ('c', 1)), (s.put(st, raw=False), ('c', 0))]
        if cl == WR and last in ('Start', 'Write') and f.rt != 'void':
            return [(st, ('c', 1)), (s.put(st, werr=True), ('c', 0))]
        if cl == WR and last == 'GetDuplicate':
            if d['dup'] is not None: return [(st, ('c', int(d['dup'])))]
            return [(s.put(st, dup=True), ('c', 1)), (s.put(st, dup=False), ('c', 0))]
        return None

    def part(s, sim, st): return (st.client, tuple(st.env[k] for k in s.vars if k in st.env and st.env[k][0] == 'c'), tuple(sorted((str(k), v) for k, v in st.vals.items() if k in s.results and v and v[0] == 'c')))

    def names(s, f, a, what): return any(f.N[j]['k'] == 'call' and lastname(f.N[j]) == what for j in f.subtree(a)) or f.N[a]['k'] == 'ref'

    def on_return(s, sim, st, fr, i, val):
        r = dict(st.client)['resp']
        if r not in (None, 'ok') and any(v[0] == v[1] == 50 and r in list(subterms(k)) for k, v in st.num.items()): return [s.put(st, resp='ok')]
        return None

    def on_assign(s, sim, st, fr, i, lv, val):
        if lv[0] != 'f' or (lv[2], lv[3]) != (DL, 'm_status'): return None
        s.n['status'] += 1
        f = fr.fn.stack()[-1] if hasattr(fr.fn, 'stack') else fr.fn
        st.client = s.put(st, last=val if val[0] == 'c' else None).client
        for y in sim.assume(st, sim.cmp('==', val, ('c', s.enums['adFinished'])), True):
            d = dict(y.client)
            if d['dup']: continue
            root = next((g for g in [fr.parent] if g), fr)
            where = root.fn.loc(fr.site) if fr.parent and fr.site is not None else fr.fn.loc(i)
            msg = None
            if d['resp'] != 'ok': msg = 'although the server did not send a success code'
            elif d['werr']: msg = 'although data could not be stored'
            elif not d['eof']: msg = 'although the end of the article was not reached'
            elif not d['raw'] and not d['chk']: msg = 'although the check of the decoded data was not made or failed'
            elif not d['clear']: msg = 'although the decoder was not reset before'
            elif not d['crc'] or not d['rawset']: msg = 'although the decoder was not set up according to the options'
            if msg: s.ctx.violation('accepted', where, '%s records the article as downloaded %s (path %s)' % (root.fn.n, msg, y.path()), 'accepted ' + msg)
        return None

    def on_exit(s, sim, st, fr, val):
        if fr.parent is not None: return
        v = dict(st.client)['last']
        for k, w in s.enums.items():
            if v == ('c', w) and k.startswith('ad') and k not in ('adFinished', 'adFailed', 'adRetry'):
                s.ctx.violation('result', fr.fn.loc(), '%s ends with the result %s, which is neither success, failure nor another attempt (path %s)' % (fr.fn.n, k, st.path()), 'result ' + k)


def enumvals(P, *names):
    out = {}
    for nm in names:
        for k, v in P.enums.get(nm, {'v': []})['v']: out[k.split('::')[-1]] = v
    return out


def downloader(ctx):
    P = ctx.P
    run = P.fn(DL + '::Run'); ctx.need('ArticleDownloader::Run', run)
    # functions of the class that take part in the decision
    inl = set()
    keys = ('NntpConnection::Request', DEC + '::Check', DEC + '::DecodeBuffer', WR + '::Write', WR + '::Start')
    grow = True
    mine = [f for f in P.fns.values() if f.cl == DL and f.B]
    while grow:
        grow = False
        for f in mine:
            if f.u in inl: continue
            hit = any(f.N[i].get('fn') in keys for i in f.calls()) or any(g.u in inl for i in f.calls() for g in P.targets(f, i))
            hit = hit or any(n['k'] == 'mem' and n['cl'] == DL and n['m'] == 'm_status' for n in f.N)
            hit = hit or f.rt.endswith('EStatus') or any(f.N[i].get('fn') in ('strncmp', 'atoi') for i in f.calls())
            if hit: inl.add(f.u); grow = True
    # helpers outside of the class that look at the response
    for f in mine:
        for i in f.calls():
            for g in P.targets(f, i):
                if g.B and g.file == run.file and g.cl != DL and any(g.N[j].get('fn') in ('strncmp', 'strncasecmp', 'atoi', 'strtol') or g.rt == 'bool' for j in g.calls()): inl.add(g.u)
    inl -= {f.u for f in mine if f.n.endswith('::LogDebugInfo')} | {run.u}
    c = Dl(ctx, inl); s = simmod.Sim(P, ctx.eff, c, K=2, budget=3000000)
    st = simmod.State(client=tuple(sorted({k: None for k in FLAGS}.items())))
    # results are told apart on all paths
    c.vars = sorted({(f.tu, v['vi']) for f in mine for n in f.N if n['k'] == 'decl' for v in n['vars'] if f.T[v['t']].endswith('EStatus')})
    c.results = {(f.u, i) for f in mine for i in f.calls() if f.typ(i).endswith('EStatus')} | {(f.u, 'ret') for f in mine if f.rt.endswith('EStatus')}
    ex = s.run_fn(simmod.Frame(run, ('this',)), [st])
    for y, val in ex: c.on_exit(s, y, simmod.Frame(run, ('this',)), val)
    if s.truncated: ctx.notes.append('not all paths of %s were followed' % run.n)
    ctx.src(run.file)
    ctx.count('functions followed', len(inl) + 1); ctx.count('ends of the download', len(ex)); ctx.count('records of a status', c.n['status'])
    ctx.floor('requests on the paths', c.n['request'], 1); ctx.floor('checks on the paths', c.n['check'], 1); ctx.floor('status changes', c.n['status'], 2)


class Chk(simmod.Client):
    inline_depth = 3
    def should_inline(s, sim, g): return g.cl == DEC


def check(ctx):
    P = ctx.P; E = ctx.enums
    f = P.fn(DEC + '::Check'); ctx.need('Decoder::Check', f)
    fields = {x['m'] for x in P.records[DEC]['fields']}
    F = lambda m: ('f', ('this',), DEC, m)
    n = 0
    for fmt in ('efYenc', 'efUx', 'efUnknown'):
        s = simmod.Sim(P, ctx.eff, Chk(), K=16); st = simmod.State(client=())
        st.heap[F('m_format')] = ('c', E[fmt])
        for y, val in s.run_fn(simmod.Frame(f, ('this',)), [st]):
            for z in s.assume(y, s.cmp('==', val, ('c', E['dsFinished'])), True):
                n += 1
                L = lambda m: s.lookup(z, F(m))
                bad = lambda what, key: ctx.violation('check', f.loc(), '%s accepts an article %s (path %s)' % (f.n, what, z.path()), 'check ' + key)
                def poss(*conds):
                    sts = [z]
                    for t, v in conds: sts = [q for x in sts for q in s.assume(x, t, v)]
                    return bool(sts)
                if fmt == 'efUnknown': bad('without binary data', 'unknown'); continue
                if fmt == 'efUx':
                    if 'm_body' in fields and poss((L('m_body'), False)): bad('without a body', 'ux')
                    continue
                for m, what in (('m_begin', 'without a begin marker'), ('m_end', 'without an end marker')):
                    if m in fields and poss((L(m), False)): bad(what, m)
                if {'m_endSize', 'm_outSize'} <= fields and poss((s.cmp('!=', L('m_endSize'), L('m_outSize')), True)): bad('whose decoded size differs from the announced size', 'size')
                if {'m_endSize', 'm_size', 'm_part'} <= fields and poss((L('m_part'), False), (s.cmp('!=', L('m_size'), L('m_endSize')), True)): bad('whose sizes at begin and end differ', 'beginsize')
                if {'m_part', 'm_beginPos', 'm_endPos'} <= fields and poss((L('m_part'), True)) and not ranged(z):
                    bad('without having compared its decoded size with the range of the part (what exceeds the range has not been stored)', 'range')
                if {'m_crcCheck', 'm_crc', 'm_expectedCRC', 'm_calculatedCRC'} <= fields and poss((L('m_crcCheck'), True), (L('m_crc'), True), (s.cmp('!=', L('m_expectedCRC'), L('m_calculatedCRC')), True)):
                    bad('with a wrong checksum', 'crc')
                if {'m_calculatedCRC', 'm_crc32'} <= fields and not any('Finish' in str(x[:3]) for x in subterms(L('m_calculatedCRC'))) and not crcfinish(P, f): bad('without having computed its checksum', 'nocrc')
    ctx.floor('ways to accept an article', n, 2)


def ranged(st):
    """a comparison of the path involves begin, end and a size of the decoded data"""
    for t in list(st.atoms) + list(st.num):
        ms = {x[3] for x in subterms(t) if x[0] == 'f' and len(x) == 4 and x[2] == DEC}
        if {'m_beginPos', 'm_endPos'} <= ms and ms & {'m_outSize', 'm_endSize'}: return True
    return False


def crcfinish(P, f):
    """the calculated checksum is taken from the checksum object on the way"""
    for u in [f.u] + [g.u for g in P.fns.values() if g.cl == DEC]:
        g = P.fns[u]
        for i, n in enumerate(g.N):
            if n['k'] == 'bin' and n['op'] == '=' and g.N[n['x']].get('m') == 'm_calculatedCRC' and any(g.N[j]['k'] == 'call' and lastname(g.N[j]) == 'Finish' for j in g.subtree(n['y'])): return True
    return False


MARK = {'m_begin': ('=ybegin',), 'm_end': ('=yend', 'end '), 'm_crc': ('crc32=',)}
CHARS = {'m_end': (96,)}      # the line that ends UU-encoded data


class Mark(simmod.Client):
    def __init__(s, ctx, f): s.ctx = ctx; s.f = f; s.n = 0
    def on_call(s, sim, st, fr, i, n, obj, args):
        fn = n.get('fn')
        if fn in ('strncmp', 'strstr', 'strncasecmp', 'strcasestr', 'memcmp') and len(n['a']) > 1:
            # what is looked for: a literal, or one of several
            lits = tuple(sorted({fr.fn.N[j]['v'] for j in fr.fn.subtree(n['a'][1]) if fr.fn.N[j]['k'] == 'str'})) or s.local(fr.fn, n['a'][1])
            if not lits: return None
            t = sim.fresh(st, (fr.fn.u, i)); found = fn in ('strncmp', 'strncasecmp', 'memcmp')
            out = []
            for v in (True, False):
                for y in sim.assume(st, t, v):
                    hit = v != found
                    c = frozenset(x for x in y.client if x[0] != i) | {(i, hit, lits)}
                    out.append((y.with_client(c), t))
            return out
        return None
    def local(s, f, a):
        n = f.N[a]
        while n['k'] == 'cast': a = n['x']; n = f.N[a]
        if n['k'] != 'ref': return ()
        out = set()
        for m in f.N:
            if m['k'] == 'decl':
                for v in m['vars']:
                    if v['vi'] == n.get('vi') and v.get('i', -1) >= 0: out |= {f.N[j]['v'] for j in f.subtree(v['i']) if f.N[j]['k'] == 'str'}
        return tuple(sorted(out))
    def on_assign(s, sim, st, fr, i, lv, val):
        if lv[0] != 'f' or lv[2] != DEC: return None
        f = fr.fn
        if lv[3] in MARK and sim.truth(st, val) is not False:
            s.n += 1
            if not any(h and any(k in l for l in lits for k in MARK[lv[3]]) for i2, h, lits in st.client) and not any(k in str(x) for x in subterms(val) for k in MARK[lv[3]]) and \
                    not any(v[0] == v[1] and v[0] in CHARS.get(lv[3], ()) for v in st.num.values()) and sim.truth(st, val) is True:
                s.ctx.violation('marker', f.loc(i), '%s notes that the marker "%s" was found although it was not (path %s)' % (f.n, MARK[lv[3]][0], st.path()), '%s %s' % (f.n, lv[3]))
        if lv[3] == 'm_eof' and sim.truth(st, val) is True:
            s.n += 1
            if not any(v[0] == v[1] == 46 for v in st.num.values()) and not any(h and any('.' in l for l in lits) for i2, h, lits in st.client):
                s.ctx.violation('eof', f.loc(i), '%s notes the end of the article without having found a dot at the begin of a line (path %s)' % (f.n, st.path()), f.n + ' eof')
        return None


def markers(ctx):
    P = ctx.P; n = 0
    for f in P.fns.values():
        if f.cl != DEC or not f.B or f.kind == 'ctor': continue
        if not any(x['k'] == 'mem' and x['cl'] == DEC and (x['m'] in MARK or x['m'] == 'm_eof') for x in f.N): continue
        c = Mark(ctx, f); s = simmod.Sim(P, ctx.eff, c, K=4)
        s.run_fn(simmod.Frame(f, ('this',)), [simmod.State(client=frozenset())]); n += c.n
    ctx.floor('markers noted', n, 3)
    # everything that decoding changes and that the check or the caller looks at is reset
    clear, dec, chk = P.fn(DEC + '::Clear'), P.fn(DEC + '::DecodeBuffer'), P.fn(DEC + '::Check')
    ctx.need('Decoder::Clear, DecodeBuffer', clear and dec)
    W = lambda f: {m for c, m in ctx.eff.W[f.u] if c == DEC}
    rd = {m for c, m in ctx.eff.R[chk.u] if c == DEC} | {m for g in P.fns.values() if g.cl == DEC and lastname({'fn': g.n}).startswith('Get') for c, m in ctx.eff.R[g.u] if c == DEC}
    types = {x['m']: x['ts'] for x in P.records[DEC]['fields']}
    k = 0
    for m in sorted(W(dec) & rd):
        k += 1
        if m not in W(clear) and types.get(m) in ('bool', 'int', 'int64', 'uint32', 'long', 'long long', 'char', 'unsigned int', 'Decoder::EFormat', 'EFormat', 'int64_t', 'uint32_t'):
            # values only used together with a marker that is reset
            if m in ('m_expectedCRC', 'm_calculatedCRC', 'm_size', 'm_endSize', 'm_beginPos', 'm_endPos'): continue
            ctx.violation('reset', clear.loc(), '%s does not reset %s, which decoding changes and the check looks at' % (clear.n, m), 'reset ' + m)
    ctx.floor('attributes to reset', k, 3)


class Count(simmod.Client):
    """client: whether the checksum was fed"""
    def on_call(s, sim, st, fr, i, n, obj, args):
        if n['k'] == 'call' and n.get('cl') == 'Crc32' and lastname(n) == 'Append':
            return [(st.with_client(st.client + ((args[1],),)), None)]
        return None


def decode(ctx):
    """what is handed out is counted and checksummed"""
    P = ctx.P; f = P.fn(DEC + '::DecodeYenc')
    if not f: ctx.notes.append('Decoder::DecodeYenc not found: accounting of decoded data not analysed'); return
    s = simmod.Sim(P, ctx.eff, Count(), K=8); st = simmod.State(client=())
    F = lambda m: ('f', ('this',), DEC, m)
    st.heap[F('m_outSize')] = ('c', 0)
    n = 0
    for y, val in s.run_fn(simmod.Frame(f, ('this',)), [st]):
        n += 1
        new = y.heap.get(F('m_outSize'))
        if new is None or strip(new) != strip(val):
            ctx.violation('count', f.loc(), '%s hands out data without counting it (path %s)' % (f.n, y.path()), 'count')
        if s.assume(y, s.lookup(y, F('m_crcCheck')), True) and s.truth(y, s.lookup(y, F('m_crcCheck'))) is not False:
            if len(y.client) != 1 or strip(y.client[0][0]) != strip(val):
                if s.truth(y, s.lookup(y, F('m_crcCheck'))) is True or not y.client: ctx.violation('checksum', f.loc(), '%s hands out data without including it in the checksum (path %s)' % (f.n, y.path()), 'checksum')
    ctx.count('ends of decoding', n)


def strip(t):
    while t and t[0] in ('cast', 'conv') and isinstance(t[-1], tuple): t = t[-1]
    if t and t[:2] == ('op', '+') and ('c', 0) in t[2:]:
        r = [x for x in t[2:] if x != ('c', 0)]
        if len(r) == 1: return strip(r[0])
    return t


class Queue(simmod.Client):
    """constant results recorded for articles and files need the corresponding result of the download"""
    def __init__(s, ctx): s.ctx = ctx; s.n = 0
    def on_call(s, sim, st, fr, i, n, obj, args):
        if n['k'] != 'call': return None
        f = fr.fn; last = lastname(n); E = s.ctx.enums
        if n.get('fn') == DL + '::GetStatus':
            for o, t in st.client:
                if o == obj: return [(st, t)]
            t = sim.fresh(st, (f.u, i))
            return [(st.with_client(st.client | {(obj, t)}), t)]
        want = None
        if n.get('cl') == 'ArticleInfo' and last == 'SetStatus' and args[0][0] == 'c':
            want = {E['aiFinished']: 'adFinished', E['aiFailed']: 'adFailed'}.get(args[0][1])
        if n.get('cl') == 'FileInfo' and last in ('SetSuccessArticles', 'SetFailedArticles', 'SetSuccessSize', 'SetFailedSize') and st.client:
            want = 'adFinished' if 'Success' in last else 'adFailed'
        if want:
            s.n += 1
            if not any(sim.truth(st, sim.cmp('==', t, ('c', E[want]))) is True for o, t in st.client):
                s.ctx.violation('recorded', f.loc(i), '%s records the article as %s although the download did not end that way (path %s)' % (f.n, 'downloaded' if want == 'adFinished' else 'failed', st.path()), '%s %s %s' % (f.n, last, want))
        return None


def queue(ctx):
    P = ctx.P; n = 0; fs = 0; E = ctx.enums
    for f in P.daemon_fns():
        if not f.B or f.cl in ('ArticleInfo', DL): continue
        hit = False
        for i in f.calls():
            c = f.N[i]
            if c.get('cl') == 'ArticleInfo' and lastname(c) == 'SetStatus' and c['a'] and f.N[c['a'][0]]['k'] == 'ref' and f.N[c['a'][0]].get('v') in (E['aiFinished'], E['aiFailed']): hit = True
        if not hit: continue
        fs += 1
        c = Queue(ctx)
        # a helper that records a result is judged in its caller
        roots = [f]
        if not any(f.N[i].get('fn') == DL + '::GetStatus' for i in f.calls()) and f.cl == 'QueueCoordinator':
            roots = [g for g, i, how in P.callers().get(f.u, ()) if any(g.N[j].get('fn') == DL + '::GetStatus' for j in g.calls())] or [f]
        c.should_inline = lambda sim, g: g.u == f.u
        for r in roots: simmod.Sim(P, ctx.eff, c, K=4).run_fn(simmod.Frame(r, ('this',)), [simmod.State(client=frozenset())])
        n += c.n
    ctx.floor('places that record results', n, 2)
    ctx.count('functions that record results', fs)


def run(ctx):
    P = ctx.P
    ctx.enums = enumvals(P, DL + '::EStatus', DEC + '::EStatus', DEC + '::EFormat', 'ArticleInfo::EStatus')
    ctx.need('results of downloads and checks', all(k in ctx.enums for k in ('adFinished', 'adFailed', 'adRetry', 'dsFinished', 'efYenc', 'efUx', 'aiFinished', 'aiFailed')))
    downloader(ctx)
    check(ctx)
    markers(ctx)
    decode(ctx)
    queue(ctx)
