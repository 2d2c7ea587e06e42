"""The binary protocol server trusts no length and no text of a request.  Every command of the protocol is analysed path-sensitively: the
fields of a received request and the data received after it are untrusted.  Obligations, at each use: a text is terminated before something
reads it as a string; a number that becomes an allocation size, a pointer offset or an index has been bounded from both sides; a walk over
received strings compares its position with the end; a number that becomes an enumeration kept in the queue and used as table index
is one of its values."""
from common import *
import sim as simmod

LEVEL = 'other'
TECHNIQUE = 'path-sensitive typestate and interval analysis of untrusted request fields'
NOTE = 'Decides the bounds of everything read from a binary request. Wrong but harmless values (for example a category that does not exist) are not judged.'
ASSUMPTIONS = ['Connection::Recv fills exactly the requested number of bytes or fails']
MEMFN = {'memcpy', 'memset', 'memmove', 'Recv', 'Send', 'TryRecv', 'WriteLine', 'ReceiveRequest', 'sizeof', 'memcmp', 'min', 'max', 'std::min', 'std::max', 'free', 'realloc', 'forward', 'move'}
CHARARR = re.compile(r'^(?:const )?char ?\[(\d+)\]$')


def peel(t):
    while t is not None and t[0] == 'call' and t[1] == 'str': t = t[2]
    return t


def base_of(t):
    """object a pointer term points into"""
    t = peel(t)
    while t is not None and t[0] == 'op' and t[1] in '+-': t = peel(t[2])
    if t is not None and t[0] == 'addr' and t[1][0] in ('idx', 'deref'): return base_of(t[1][1])
    return t


class Bin(simmod.Client):
    """client state: (frozenset of terminated objects, frozenset of received buffers)"""
    inline_depth = 6
    want_nodes = True
    def __init__(s, ctx, reqs, enums):
        s.ctx = ctx; s.reqs = reqs; s.enums = enums; s.n = {'text': 0, 'size': 0, 'offset': 0, 'enum': 0, 'recv': 0}

    def should_inline(s, sim, g):
        return bool(g.B) and g.file == 'daemon/remote/BinRpc.cpp' and lastname({'fn': g.n}) != 'Execute' and g.cl in ('BinCommand', 'BinRpcProcessor', None, '')

    # -- classification
    def isreq(s, t):
        """a field of a received request"""
        t = peel(t)
        while t is not None and t[0] == 'f':
            if t[2] in s.reqs: return True
            t = t[1]
        return False

    def tainted(s, t):
        return t is not None and mentions(t, lambda x: x[0] == 'call' and x[1] == 'ntohl' and s.isreq(x[2]))

    def leaves(s, t):
        return {x for x in subterms(t) if x[0] == 'call' and x[1] == 'ntohl'}

    def isbuf(s, st, t):
        """received data: the memory of a buffer object that was passed to Recv"""
        b = base_of(t)
        if b is None: return False
        return b in st.client[1]

    def viol(s, st, fr, i, rule, msg, key):
        s.ctx.violation(rule, fr.fn.loc(i), msg + ': ' + st.path(), '%s: %s' % (fr.fn.n, key))

    def name(s, t):
        for x in subterms(t):
            if x[0] == 'f' and x[2] in s.reqs: return x[3]
        return 'received data'

    # -- bounds
    def bounded(s, sim, st, t):
        """every untrusted number in t is known to be >= 0 and to have an upper limit"""
        for l in s.leaves(t):
            lo, hi, ne = sim.interval(st, l)
            if lo < 0: return False, l
            if hi < simmod.POS_INF: continue
            if not s.upper(sim, st, l, set()): return False, l
        return True, None

    def upper(s, sim, st, l, seen):
        lo, hi, ne = sim.interval(st, l)
        if hi < simmod.POS_INF: return True
        if l in seen: return False
        seen = seen | {l}
        for a, v in st.atoms.items():
            if a[0] == 'eq' and v: pairs = ((a[1], a[2]), (a[2], a[1]))
            elif a[0] == 'lt': pairs = ((a[1], a[2]),) if v else ((a[2], a[1]),)
            else: continue
            for x, y in pairs:
                if not s.sumof(sim, st, x, l): continue
                yl = s.leaves(y)
                if not yl and not s.consty(sim, st, y): continue
                if all(s.upper(sim, st, z, seen) for z in yl): return True
        return False

    def consty(s, sim, st, y):
        return y[0] == 'c' or sim.interval(st, y)[1] < simmod.POS_INF or not s.tainted(y)

    def sumof(s, sim, st, x, l):
        """x is a sum of non-negative terms that contains l"""
        x = peel(x)
        if x == l: return True
        if x[0] == 'op' and x[1] == '+':
            a, b = x[2], x[3]
            return s.sumof(sim, st, a, l) and s.nonneg(sim, st, b) or s.sumof(sim, st, b, l) and s.nonneg(sim, st, a)
        if x[0] == 'op' and x[1] == '*':
            for a, b in ((x[2], x[3]), (x[3], x[2])):
                if b[0] == 'c' and b[1] >= 1 and s.sumof(sim, st, a, l): return True
        return False

    def nonneg(s, sim, st, x):
        if x[0] == 'op' and x[1] in '+*': return s.nonneg(sim, st, x[2]) and s.nonneg(sim, st, x[3])
        return sim.interval(st, x)[0] >= 0

    def need(s, sim, st, fr, i, t, what):
        if not s.tainted(t): return
        s.n['size' if 'size' in what else 'offset'] += 1
        ok, l = s.bounded(sim, st, t)
        if not ok: s.viol(st, fr, i, 'number', 'the number %s of the request is used as %s without having been checked from both sides' % (s.name(l), what), '%s as %s' % (s.name(l), what))

    # -- hooks
    def on_call(s, sim, st, fr, i, n, obj, args):
        fn = n.get('fn') or ''; last = lastname(n)
        if fn in ('ntohl', 'ntohs', 'htonl', 'htons') or last in ('__bswap_32',):
            a = args[0] if args else None
            return [(st, ('call', 'ntohl', peel(a)))] if a is not None else None
        if last in ('Recv', 'TryRecv') and n.get('cl') == 'Connection':
            s.n['recv'] += 1
            b = base_of(args[0])
            s.need(sim, st, fr, i, args[1], 'size of received data')
            term, bufs = st.client
            x = st.copy()
            # the termination survives if the terminating element lies behind the received part
            term = frozenset(q for q in term if q[0] != b or q[1] is not None and args[1] is not None and s.behind(sim, st, q[1], args[1], args[0]))
            x.client = (term, bufs | {b} if b is not None and not s.isreq(b) else bufs)
            return [(x, sim.fresh(x, (fr.fn.u, i)))]
        if last in ('Reserve', 'reserve', 'resize', 'malloc', 'realloc', 'calloc'):
            for a in args[:2]: s.need(sim, st, fr, i, a, 'size of an allocation')
        if last in ('memcpy', 'memmove', 'memset', 'strncpy') and len(args) > 2: s.need(sim, st, fr, i, args[2], 'size of a copy')
        if last not in MEMFN and not (n.get('op') == '=' and False):
            for k, a in enumerate(args):
                if k < len(n['a']) and 'char' in fr.fn.typ(n['a'][k]) or k >= len(n['a']): s.text(sim, st, fr, i, a, last, args[k + 1] if k + 1 < len(args) else None)
        return None

    def behind(s, sim, st, idx, size, start):
        if idx == size: return True
        return sim.truth(st, sim.cmp('>=', idx, size)) is True

    def text(s, sim, st, fr, i, a, where, nxt):
        if a is None: return
        b = base_of(a)
        if b is None: return
        if s.isreq(b):
            if b[0] != 'f' or b[2] not in s.ctx.P.records: return
            fld = [x for x in s.ctx.P.records[b[2]]['fields'] if x['m'] == b[3]]
            if not fld or not CHARARR.match(fld[0].get('ts') or ''): return
        elif not s.isbuf(st, a): return
        else:
            if nxt is not None and s.tainted(nxt) and peel(a) == b: return      # passed together with its length
        g = s.ctx.P.fn(where)
        s.n['text'] += 1
        if not any(q[0] == b for q in st.client[0]):
            s.viol(st, fr, i, 'text', '%s is given to %s as a text and may lack the terminating zero' % (s.name(b), where), '%s to %s' % (s.name(b), where))

    def on_assign(s, sim, st, fr, i, lv, val):
        if val == ('c', 0) and lv[0] in ('idx', 'deref'):
            p = lv[1]; idx = lv[2] if lv[0] == 'idx' else (p[3] if p[0] == 'op' and p[1] == '+' else ('c', 0))
            b = base_of(p)
            ok = b is not None
            if ok and s.isreq(b) and b[0] == 'f':
                fld = [x for x in s.ctx.P.records[b[2]]['fields'] if x['m'] == b[3]]
                m = fld and CHARARR.match(fld[0].get('ts') or '')
                ok = bool(m) and idx[0] == 'c' and 0 <= idx[1] < int(m.group(1))
            if ok: st.client = (st.client[0] | {(b, idx)}, st.client[1])
        return None

    def on_node(s, sim, st, fr, i, n):
        f = fr.fn
        if n['k'] == 'idx':
            b = sim.eval(st, fr, n['x']); y = sim.eval(st, fr, n['y'])
            if y is not None and b is not None:
                s.need(sim, st, fr, i, y, 'index')
                if s.isbuf(st, b):
                    # an index that is limited by an untrusted number
                    for a, v in list(st.atoms.items()):
                        if a[0] == 'lt' and v and a[1] == y and s.tainted(a[2]): s.need(sim, st, fr, i, a[2], 'limit of an index')
        elif n['k'] == 'bin' and n['op'] in ('+', '-') and f.typ(i).rstrip().endswith('*'):
            for c in ('x', 'y'):
                v = sim.eval(st, fr, n[c])
                if v is not None and not f.typ(n[c]).rstrip().endswith('*') and not f.typ(n[c]).rstrip().endswith(']'): s.need(sim, st, fr, i, v, 'offset')
        elif n['k'] == 'cast' and bare(f.typ(i)) in s.enums:
            v = sim.eval(st, fr, n['x'])
            if v is not None and s.tainted(v) and v[0] == 'call' and v[1] == 'ntohl' and not s.onlytest(f, i):
                s.n['enum'] += 1
                vs = [x[1] for x in s.ctx.P.enums[bare(f.typ(i))]['v']]
                lo, hi, ne = sim.interval(st, v)
                if lo < min(vs) or hi > max(vs):
                    s.viol(st, fr, i, 'enum', 'the number %s of the request becomes a %s without a range check (it is used as table index later)' % (s.name(v), bare(f.typ(i))), '%s as enum' % s.name(v))
        return None

    def onlytest(s, f, i):
        """the value is only compared or switched over"""
        todo = list(f.parents().get(i, ())); ps = []
        while todo:
            p = todo.pop()
            if f.N[p]['k'] == 'cast': todo += list(f.parents().get(p, ()))
            else: ps.append(p)
        return all(f.N[p]['k'] == 'bin' and f.N[p]['op'] in ('==', '!=', '<', '>', '<=', '>=') for p in ps)


def walks(ctx, f, tainted_bufs):
    """positions that advance over received strings are compared with another pointer in the same loop"""
    n = 0
    for i in f.reach_nodes():
        nd = f.N[i]
        if nd['k'] != 'bin' or nd['op'] not in ('+=', '='): continue
        t = f.N[nd['x']]
        if t['k'] != 'ref' or t['dk'] not in ('loc', 'par') or not f.typ(nd['x']).rstrip().endswith('*'): continue
        vi = t['vi']
        def hits(j): return any(f.N[x]['k'] == 'call' and f.N[x].get('fn') in ('strlen', 'strchr', 'strnlen', 'rawmemchr') and any(f.N[y].get('vi') == vi and f.N[y]['k'] == 'ref' for y in f.subtree(x)) for x in f.subtree(j))
        if not hits(nd['y']) or any(f.N[x].get('fn') == 'strnlen' for x in f.subtree(nd['y'])): continue
        n += 1
        ok = False
        blk = f.blocknode()[i][0] if i in f.blocknode() else None
        cyc = cycle(f, blk) if blk is not None else set()
        for b in cyc:
            tc = f.B[b].get('tc')
            if tc is None: continue
            for x in f.subtree(tc):
                m = f.N[x]
                if m['k'] == 'bin' and m['op'] in ('<', '<=', '>', '>=', '!=', '=='):
                    sides = [m['x'], m['y']]
                    if any(any(f.N[z]['k'] == 'ref' and f.N[z].get('vi') == vi for z in f.subtree(q)) for q in sides) and all('*' in f.typ(q) and f.N[q]['k'] not in ('null',) for q in sides) or \
                       any(any(f.N[z]['k'] == 'bin' and f.N[z]['op'] == '-' and f.typ(z) in ('long', 'int') and any(f.N[w].get('vi') == vi for w in f.subtree(z)) for z in f.subtree(q)) for q in sides): ok = True
        if not ok: ctx.violation('walk', f.loc(i), '%s advances over received strings by their length without comparing the position with the end of the received data' % f.n, '%s: walk %s' % (f.n, t['d']))
    return n


def cycle(f, b):
    """blocks on a cycle through b"""
    fw = set(); st = [b]
    while st:
        for s in f.B[st.pop()]['s']:
            if s is not None and s >= 0 and s not in fw: fw.add(s); st.append(s)
    if b not in fw: return set()
    pr = f.preds(); bw = set(); st = [b]
    while st:
        for s in pr.get(st.pop(), []):
            if s not in bw: bw.add(s); st.append(s)
    return fw & bw


def run(ctx):
    P = ctx.P
    reqs = {c for c in P.records if re.match(r'^SNzb\w*Request(Base)?$', c)}
    ctx.floor('request structures of the protocol', len(reqs), 10)
    # enumerations that are kept in a record and used as index of a table
    kept = {bare(fl['t'] if isinstance(fl['t'], str) else fl.get('ts') or '') for r in P.records.values() for fl in r['fields']} | {bare(fl.get('ts') or '') for r in P.records.values() for fl in r['fields']}
    enums = set()
    for f in P.daemon_fns():
        for i in f.reach_nodes():
            n = f.N[i]
            if n['k'] == 'idx':
                y = n['y']
                while f.N[y]['k'] == 'cast': y = f.N[y]['x']
                t = bare(f.typ(y))
                if t in P.enums and t in kept: enums.add(t)
    ctx.floor('enumerations kept and used as table index', len(enums), 3)
    roots = [P.fn('BinRpcProcessor::Execute')]
    for c in sorted(P.subclasses('BinCommand')):
        if c != 'BinCommand': roots += [g for g in [P.fn(c + '::Execute')] if g and g.B]
    ctx.floor('commands', len(roots), 10)
    tot = {}; w = 0
    # a request field that holds a base: BinRpcProcessor::m_messageBase is received as well
    for r in roots:
        c = Bin(ctx, reqs, enums)
        s = simmod.Sim(P, ctx.eff, c, K=3, budget=200000)
        st0 = simmod.State(); st0.client = (frozenset(), frozenset())
        s.run_fn(simmod.Frame(r, ('this',)), [st0])
        if s.truncated: ctx.notes.append('%s: analysis truncated' % r.n)
        for k, v in c.n.items(): tot[k] = tot.get(k, 0) + v
    for f in P.daemon_fns():
        if f.file == 'daemon/remote/BinRpc.cpp': w += walks(ctx, f, None)
    for k, v in sorted(tot.items()): ctx.count('uses: ' + k, v)
    ctx.floor('texts of requests used', tot['text'], 4)
    ctx.floor('receptions', tot['recv'], 3)
    ctx.count('walks over received strings', w)
