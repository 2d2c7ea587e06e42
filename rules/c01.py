"""State round trip.  For every file written through StateFile/StateDiskFile the sequence of lines a writer produces and the sequence of
lines the reader of the same file consumes (evaluated for the current format version) are extracted from the control flow as automata
whose transitions carry, per position, the conversion and the attribute (class, field) the value comes from / is stored to; both automata
are walked in step and every difference is reported.  In addition: conversions must be wide enough for the attribute, and text buffers of
the reader must hold the longest line the writer produces."""
import re
from collections import defaultdict
import flow
from ir import bare
from common import *

LEVEL = 'other'
TECHNIQUE = 'context-sensitive dataflow; product of writer and reader line automata'
NOTE = ('Decides, for every state file, that each written position is restored into the attribute it came from, for the current format version; '
        'assumes success of reads, and distinguishes objects by class only.')
ASSUMPTIONS = ['time stamps are taken to fit into 32 bits (they are written as int; valid until 2038)',
               'library functions strchr, sscanf and vsscanf behave as specified',
               'objects are distinguished by class, not by instance: a value stored to the right attribute of a wrong object is not noticed']
# stored under one attribute, matched on load against the id that attribute had in the saved file
KEYS = {('ServerStat', 'm_serverId'): {('NewsServer', 'm_stateId'), ('ServerStat', 'm_serverId')}}
TIMES = {('NzbInfo', 'm_minTime'), ('NzbInfo', 'm_maxTime'), ('FileInfo', 'm_time'), ('HistoryInfo', 'm_time'), ('FeedInfo', 'm_lastUpdate'),
         ('FeedHistoryInfo', 'm_lastSeen'), ('ServerVolume', 'm_dataTime'), ('ServerVolume', 'm_customTime')}
# attributes of the object that describes a saved server -> attribute of the server that was saved
SAME = {('ServerRef', 'm_name'): ('NewsServer', 'm_name'), ('ServerRef', 'm_host'): ('NewsServer', 'm_host'), ('ServerRef', 'm_port'): ('NewsServer', 'm_port'),
        ('ServerRef', 'm_user'): ('NewsServer', 'm_user')}


class Ev:
    def __init__(s, kind, fn, i): s.kind = kind; s.fn = fn; s.i = i; s.fmt = None; s.attrs = defaultdict(set); s.bufsize = None; s.npos = 0

    def loc(s): return s.fn.loc(s.i)


class C(flow.Client):
    depth = 9

    def __init__(s, ctx, mode, rel):
        s.ctx = ctx; s.P = ctx.P; s.mode = mode; s.rel = rel
        s.ev = {}; s.edges = defaultdict(lambda: defaultdict(set)); s.version = {}; s.opened = set()
        s.reads = defaultdict(set)      # (event, position) -> {(wrap, class, field)}
        s.keys = defaultdict(set)       # (event, position) -> attributes the value is compared with

    def field(s, fl, st, fr, i, cl, m, obj):
        if '<' in cl or cl in ('CString',): return (obj[0], None) if obj else flow.TOP
        return flow.tags(('a', cl, m))

    def inline(s, fl, st, fr, i, g, obj, args):
        if g.u in s.rel: return True
        if s.mode == 'r':
            if g.file.startswith('daemon/') and len(g.N) < 400 and not g.n.startswith(('Util::', 'FileSystem::', 'CString::', 'BString', 'CharBuffer', 'StringBuilder')):
                return any(t[0] == 'rd' for a in args for t in a[0])
            return False
        # attributes that are computed by a function of the record itself
        return not g.p and len(g.N) < 60 and g.file.startswith('daemon/') and '<' not in (g.cl or '')

    def accum(s, v):
        if s.mode == 'w' and v[1] is not None: return flow.tags(('#',))
        return (v[0], None)

    def fkeys(s, v): return sorted({t[1] for t in v[0] if t[0] == 'file'})

    def event(s, st, fr, i, kind, fobj):
        k = (fr.chain, fr.fn.u, i)
        e = s.ev.get(k)
        if e is None: e = s.ev[k] = Ev(kind, fr.fn, i)
        for fk in s.fkeys(fobj):
            for last in st.cl.get(fk, ()): s.edges[fk][last].add(k)
            st.cl[fk] = frozenset((k,))
        return k, e

    def finish(s, st, fk):
        for last in st.cl.pop(fk, ()): s.edges[fk][last].add('end')

    def sfs(s, v): return [t for t in v[0] if t[0] == 'sf']

    def node(s, fl, st, fr, i, n):
        if s.mode == 'r' and n['k'] == 'bin' and n['op'] in ('==', '!='):
            a, b = fl.eval(st, fr, n['x']), fl.eval(st, fr, n['y'])
            s.cmpkeys(a, b); s.cmpkeys(b, a)
            for v, y in ((a, n['y']), (b, n['x'])):
                m = fr.fn.N[y]
                if m['k'] == 'ref' and m.get('en'):
                    for t in v[0]:
                        if t[0] == 'rd': s.keys[(t[1], t[2])].add(('enum', m['en']))

    def cmpkeys(s, a, b):
        for t in a[0]:
            if t[0] == 'rd':
                s.keys[(t[1], t[2])].add(('key',))
                s.keys[(t[1], t[2])] |= {x[1:] for x in b[0] if x[0] == 'a'}

    def mapto(s, val, attr):
        if attr in SAME: attr = SAME[attr]
        for t in val[0]:
            if t[0] == 'rd': s.reads[(t[1], t[2])].add((t[3],) + attr)

    def store(s, fl, st, fr, i, lv, val):
        if s.mode == 'r' and lv[0] == 'f': s.mapto(val, (lv[1], lv[2]))

    def ret(s, fl, st, fr, i, val):
        # a constant false is the failure exit of a load or save function
        if fr.fn.rt == 'bool' and val[1] == frozenset((0,)) and fr.fn.u in s.rel: return False
        return True

    def call(s, fl, st, fr, i, n, obj, args):
        nm = n.get('fn', ''); last = nm.split('::')[-1]; fn = fr.fn
        if n['k'] == 'ctor' and nm == 'StateFile::StateFile':
            name = '|'.join(sorted(str(x) for x in args[0][1])) if args[0][1] else 'fmt:' + '|'.join(sorted(t[1] for t in args[0][0] if t[0] == 'fn'))
            return flow.tags(('sf', name, tuple(sorted(args[1][1] or ()))))
        if n['k'] == 'ctor' and n.get('cl', '').startswith('BString') and len(args) > 1 or nm == 'CString::FormatStr':
            name = ','.join('|'.join(sorted(str(x) for x in a[1])) if a[1] and all(isinstance(x, str) for x in a[1]) else '*' for a in args)
            t = frozenset((('fn', name),))
            for a in args: t |= a[0]
            return (t, None)
        if nm in ('StateFile::BeginWrite', 'StateFile::BeginRead'):
            if (last == 'BeginWrite') != (s.mode == 'w'): return (frozenset(), None)
            out = set()
            for t in s.sfs(obj):
                s.version.setdefault(t[1], set()).add(t[2]); s.opened.add(t[1])
                s.finish(st, t[1])
                st.cl[t[1]] = frozenset(('start',)); out.add(('file', t[1])); out.add(t)
            return (frozenset(out), frozenset((1,)))
        if nm == 'StateFile::GetFileVersion':
            v = set()
            for t in s.sfs(obj): v |= set(t[2])
            return (frozenset(), frozenset(v) or None)
        if nm == 'StateFile::FinishWrite':
            for t in s.sfs(obj): s.finish(st, t[1])
            return flow.const(1)
        if nm == 'StateFile::FileExists': return flow.const(1)
        if nm == 'StateFile::Discard': return flow.TOP
        if nm in ('StateDiskFile::PrintLine', 'StateDiskFile::ScanLine', 'StateDiskFile::ReadLine'):
            if (last == 'PrintLine') != (s.mode == 'w'): return flow.TOP
            k, e = s.event(st, fr, i, s.mode, obj)
            if last == 'ReadLine':
                e.fmt = 'LINE'
                m = re.search(r'\[(\d+)\]', fn.typ(n['a'][0]))
                if m: e.bufsize = int(m.group(1))
                for key in fl.lv(st, fr, n['a'][0]): st.env[key] = flow.tags(('rd', k, 'L', None))
                return flow.const(1)
            f = args[0][1]
            e.fmt = next(iter(f)) if f and len(f) == 1 and isinstance(next(iter(f)), str) else None
            e.npos = max(e.npos, len(args) - 1)
            for j, a in enumerate(args[1:]):
                if last == 'PrintLine': e.attrs[j] |= {x[1:] if x[0] == 'a' else x for x in a[0] if x[0] in ('a', 'hi', 'lo', '#')}
                else:
                    for key in fl.pointees(a):
                        if key[0] == 'f': s.reads[(k, j)].add((None, key[1], key[2]))
                        else: st.env[key] = flow.tags(('rd', k, j, None))
            return flow.const(len(args) - 1)
        if nm == 'sscanf' and s.mode == 'r' and args:
            for j, a in enumerate(args[2:]):
                for key in fl.pointees(a):
                    st.env[key] = (frozenset(('rd', t[1], ('S', j), None) for t in args[0][0] if t[0] == 'rd'), None)
            return flow.const(len(args) - 2)
        if nm == 'Util::SplitInt64':
            for j, tag in ((1, 'hi'), (2, 'lo')):
                for key in fl.pointees(args[j]): st.env[key] = (frozenset((tag,) + x[1:] for x in args[0][0] if x[0] == 'a'), None)
            return flow.TOP
        if nm == 'Util::JoinInt64':
            t = frozenset(('rd', x[1], x[2], w) for a, w in ((args[0], 'hi'), (args[1], 'lo')) for x in a[0] if x[0] == 'rd')
            return (t, None)
        if last == 'size' and obj is not None: return flow.tags(('#',))
        if s.mode == 'r':
            if nm == 'strchr':
                def nxt(p): return ('P', 1) if p == 'L' else ('P', p[1] + 1) if isinstance(p, tuple) and p[0] == 'P' and p[1] < 8 else p
                return (frozenset(('rd', t[1], nxt(t[2]), t[3]) if t[0] == 'rd' else t for t in args[0][0]), frozenset((1,)) if any(t[0] == 'rd' for t in args[0][0]) else None)
            rd = any(t[0] == 'rd' for a in args for t in a[0])
            if last in ('strcmp', 'strcasecmp', 'Find', 'find') and rd:
                every = list(args) + ([obj] if obj is not None else [])
                for a in every:
                    for b in every:
                        if a is not b: s.cmpkeys(a, b)
                for a in args: s.cmpkeys(a, flow.TOP)
                # the object found stands for the saved one
                return (frozenset(t for a in every for t in a[0] if t[0] != 'rd'), None)
            if nm == 'Util::EmptyStr' and rd: return (frozenset(), None)
            if last in ('emplace_back', 'push_back', 'emplace', 'insert', 'emplace_front', 'push_front') and rd:
                s.emplaced(fl, st, fr, i, n, obj, args); return flow.TOP
            if nm.startswith('std::make_unique') and rd:
                for _, g, _ in [x for x in s.P.callees(fn) if x[0] == i and x[1].kind == 'ctor' and len(x[1].p) >= len(args)][:1]:
                    fl.inlined(st, fr, i, n, flow.TOP, args, g)
                return (frozenset(t for a in args for t in a[0] if t[0] != 'rd'), frozenset((1,)))
        return None

    def emplaced(s, fl, st, fr, i, n, obj, args):
        m = re.match(r'std::(?:vector|deque|list)<(.*)>$', n.get('cl', ''))
        et = re.sub(r', std::allocator<.*$', '', m.group(1)).strip() if m else None
        c = [g for g in s.P.ctors(et, len(args)) if g.B and not g.impl] if et and et != 'CString' else []
        if c:
            g = min(c, key=lambda f: len(f.p))
            for j, a in enumerate(args):
                for cl, f in ctor_fields(s.P, g, j): s.mapto(a, (cl, f))
        else:
            for a in args:
                for t in obj[0]:
                    if t[0] == 'a': s.mapto(a, t[1:])


def ctor_fields(P, g, j):
    vi = g.p[j]['vi']; out = set()
    for b in g.B.values():
        for e in b['e']:
            if not isinstance(e, int) and e['k'] == 'init' and 'm' in e and e.get('x', -1) >= 0:
                for x in g.subtree(e['x']):
                    if g.N[x]['k'] == 'ref' and g.N[x].get('vi') == vi: out.add((g.cl, e['m']))
    for i in g.reach_nodes():
        n = g.N[i]
        if n['k'] == 'bin' and n['op'] == '=' or n['k'] == 'call' and n.get('op') == '=':
            l, r = (n['x'], n['y']) if n['k'] == 'bin' else (n.get('o', -1), n['a'][0] if n.get('a') else -1)
            if l >= 0 and r >= 0 and g.N[l]['k'] == 'mem' and any(g.N[x].get('vi') == vi and g.N[x]['k'] == 'ref' for x in g.subtree(r)): out.add((g.N[l]['cl'], g.N[l]['m']))
    return out


def skel(fmt):
    return re.sub(r'%(?:hh|h|ll|l|z)?[diu]', '%d', fmt) if fmt else fmt


def explore(ctx, mode):
    P = ctx.P
    prim = {'StateDiskFile::PrintLine'} if mode == 'w' else {'StateDiskFile::ScanLine', 'StateDiskFile::ReadLine'}
    rel = P.closure(lambda f: f.n in prim)
    own = {f.u for f in P.fns.values() if f.n.split('::')[0] in ('StateDiskFile', 'StateFile')}
    begin = 'StateFile::BeginWrite' if mode == 'w' else 'StateFile::BeginRead'
    openers = {f.u for f in P.fns.values() if f.B and any(f.N[i].get('fn') == begin for i in f.calls())}
    roots = [P.fns[u] for u in sorted(openers)]
    # callers that hand a file over to an opener are not needed: every opener is analysed itself
    cl = C(ctx, mode, (rel | openers) - own)
    for f in roots:
        fl = flow.Flow(P, cl)
        r = fl.run(f)
        if r:
            for fk in list(r[0].cl): cl.finish(r[0], fk)
    return cl, roots


def run(ctx):
    P = ctx.P
    W, wt = explore(ctx, 'w'); R, rt = explore(ctx, 'r')
    ctx.need('writers of state files', wt); ctx.need('readers of state files', rt)
    files = sorted(set(W.opened) | set(R.opened))
    nl = 0; na = 0
    for f in files:
        if f not in W.opened:
            ctx.violation('writer', '', 'state file "%s" is read but never written' % f, f); continue
        if f not in R.opened:
            ctx.violation('reader', '', 'state file "%s" is written but never read' % f, f); continue
        if W.version[f] != R.version[f]:
            ctx.violation('version', '', 'state file "%s" is written with version %s but read with %s' % (f, W.version[f], R.version[f]), f)
        a, b = compare(ctx, f, W, R)
        nl += a; na += b
    ctx.floor('state_files', len([f for f in files if f in W.opened and f in R.opened]), 6)
    ctx.floor('lines_compared', nl, 60)
    ctx.floor('attributes_compared', na, 110)
    newlines(ctx)


def mismatch(w, kr, R):
    """positions of the written line w whose attributes are not restored by the read kr"""
    bad = []
    n = max(w.npos, 1)
    er = R.ev[kr]
    for j in range(w.npos):
        wa = w.attrs[j]
        got = set(); key = set()
        for pos in (j, ('S', j), ('P', j)):
            got |= R.reads.get((kr, pos), set()); key |= R.keys.get((kr, pos), set())
        if w.npos == 1 and er.fmt == 'LINE':
            got |= R.reads.get((kr, 'L'), set()); key |= R.keys.get((kr, 'L'), set())
        elif j == 0: got |= R.reads.get((kr, 'L'), set()); key |= R.keys.get((kr, 'L'), set())
        flat = {(x[0],) + x[1:] if x[0] else x[1:] for x in got}
        if not wa or wa == {('#',)}:
            # a number that is computed while saving (number of records) is not an attribute
            if flat and wa: bad.append((j, ('#',), flat))
            continue
        for x in wa:
            if x == ('#',): continue
            if x in flat: continue
            if any(k[0] == 'enum' and k[1] == fieldtype(R.P, x) for k in key): continue
            if key and (x in key or x in KEYS and KEYS[x] & (key | flat)): continue
            bad.append((j, x, flat | {k for k in key if k != ('key',)}))
    return bad


def fieldtype(P, x):
    r = P.records.get(x[0])
    return next((bare(f['ts']) for f in r['fields'] if f['m'] == x[1]), None) if r and len(x) == 2 else None


def show(x):
    if not x: return 'nothing'
    if x == ('#',): return 'number of entries'
    if x[0] in ('hi', 'lo'): return x[0] + ' part of ' + show(x[1:])
    return '::'.join(str(y) for y in x)


def compare(ctx, f, W, R):
    P = ctx.P
    seen = set(); lines = set(); nattr = 0; used = set()
    reported = set(); held = []; fine = set()
    def rep(rule, ev, msg, key, attr=None):
        if attr is not None:
            held.append((rule, ev, msg, key, attr)); return
        if (rule, key) in reported: return
        reported.add((rule, key))
        ctx.violation(rule, ev.loc() if ev else '', 'state file "%s": %s' % (f, msg), '%s|%s' % (f, key))
    def label(k):
        if k == 'start': return 'the beginning'
        e = W.ev[k]
        return '"%s" (%s)' % (e.fmt, ', '.join(sorted({show(z) for v in e.attrs.values() for z in v})) or 'count')
    written = {x for es in W.edges[f].values() for k in es if k != 'end' for v in W.ev[k].attrs.values() for x in v}
    work = [('start', frozenset(('start',)))]
    while work:
        w, rs0 = work.pop()
        if (w, rs0) in seen: continue
        seen.add((w, rs0))
        after = label(w)
        ws = W.edges[f].get(w, set()); rs = set()
        for r in rs0: rs |= R.edges[f].get(r, set())
        if 'end' in ws and 'end' not in rs:
            rep('structure', W.ev.get(w), 'the file may end after %s but the reader goes on' % after, 'end|' + after)
        for x in sorted(ws - {'end'}, key=str):
            ew = W.ev[x]
            if x not in lines: nattr += sum(1 for v in ew.attrs.values() if v)
            lines.add(x)
            if ew.fmt is None:
                rep('structure', ew, 'line with a template that is not constant', ew.fn.n); continue
            cand = [y for y in rs - {'end'} if R.ev[y].fmt is not None and (skel(R.ev[y].fmt) == skel(ew.fmt) or R.ev[y].fmt == 'LINE' and '%' in ew.fmt)]
            if not cand:
                rep('structure', ew, 'after %s the line "%s" is written by %s but the reader expects %s' % (after, ew.fmt, ew.fn.n,
                    ', '.join(sorted('"%s" (%s)' % (R.ev[y].fmt, R.ev[y].fn.n) for y in rs - {'end'})) or 'the end'), '%s|%s' % (ew.fn.n, ew.fmt)); continue
            bads = sorted(((mismatch(ew, y, R), y) for y in cand), key=lambda t: (len(t[0]), str(t[1])))
            good = [y for b, y in bads if not b]
            if not good:
                best, y = bads[0]; er = R.ev[y]
                for j, wa, got in best:
                    rep('attribute', er, 'position %d of "%s" (after %s) is written from %s in %s but stored to %s by %s' % (j + 1, ew.fmt, after, show(wa), ew.fn.n,
                        ', '.join(sorted(show(g) for g in got)) or 'nothing', er.fn.n), '%s|%s' % (ew.fn.n, show(wa)), wa)
                good = [y for b, y in bads if len(b) == len(best)]
            used |= set(good)
            missed = {b[1] for b in bads[0][0]}
            fine |= {x for v in ew.attrs.values() for x in v} - missed
            for y in good:
                er = R.ev[y]
                for pos in range(ew.npos):
                    for z in (pos, ('S', pos), ('P', pos)) + (('L',) if ew.npos == 1 and er.fmt == 'LINE' else ()):
                        for g in R.reads.get((y, z), ()):
                            g = g[1:] if not g[0] else g
                            if g in written and g not in ew.attrs[pos] and ew.attrs[pos] and conversions(ew.fmt)[pos:pos + 1] and conversions(ew.fmt)[pos][4] != 's':
                                rep('foreign', er, 'position %d of "%s" is written from %s but also stored to %s' % (pos + 1, ew.fmt, ', '.join(sorted(show(q) for q in ew.attrs[pos])), show(g)), '%s|%s' % (er.fn.n, show(g)))
                for pos in range(ew.npos): widths(ctx, P, f, ew, er, pos, rep)
                if er.fmt == 'LINE' and er.bufsize is not None and er.bufsize < 1024 and any(c[4] == 's' for c in conversions(ew.fmt)):
                    what = ', '.join(sorted(show(z) for v in ew.attrs.values() for z in v))
                    rep('buffer', er, 'a text of up to 1023 characters (%s) is read into a buffer of %d bytes' % (what, er.bufsize), 'buf|' + what)
            work.append((x, frozenset(good)))
    # an attribute written twice has to be restored from one of the positions
    for rule, ev, msg, key, attr in held:
        if attr not in fine: rep(rule, ev, msg, key)
    reach = set(); todo = ['start']
    while todo:
        for y in R.edges[f].get(todo.pop(), ()):
            if y != 'end' and y not in reach: reach.add(y); todo.append(y)
    usedsites = {(R.ev[y].fn.u, R.ev[y].i) for y in used}
    for y in sorted(reach - used, key=str):
        er = R.ev[y]
        if (er.fn.u, er.i) in usedsites: continue
        rep('structure', er, 'the reader expects a line "%s" in %s that is not written there' % (er.fmt, er.fn.n), 'extra|%s|%s' % (er.fn.n, er.fmt))
    return len(lines), nattr


SZ = {'int': 4, 'unsigned int': 4, 'long': 8, 'unsigned long': 8, 'long long': 8, 'unsigned long long': 8, 'bool': 1, 'char': 1, 'short': 2, 'unsigned short': 2}


def width(P, t):
    t = bare(t)
    return 4 if t in P.enums else SZ.get(t)


def convwidth(c):
    return 8 if c[3] in ('l', 'll', 'j', 'z', 'q') else 4


def widths(ctx, P, f, ew, er, pos, rep):
    cw = conversions(ew.fmt)
    if pos >= len(cw): return
    for x in ew.attrs[pos]:
        if len(x) != 2 or x in TIMES or x[0] == '#': continue
        rec = P.records.get(x[0])
        if not rec: continue
        ft = next((fl['ts'] for fl in rec['fields'] if fl['m'] == x[1]), None)
        if ft is None: continue
        w = width(P, ft)
        if w is None or cw[pos][4] == 's': continue
        if convwidth(cw[pos]) < w:
            rep('truncated', ew, '%s (%s) is written with conversion "%s" and loses its upper half' % (show(x), ft, '%' + cw[pos][3] + cw[pos][4]), 'trunc|' + show(x))
        cr = conversions(er.fmt) if er.fmt not in (None, 'LINE') else []
        if pos < len(cr):
            if convwidth(cr[pos]) < w:
                rep('truncated', er, '%s (%s) is read with conversion "%s" and loses its upper half' % (show(x), ft, '%' + cr[pos][3] + cr[pos][4]), 'trunc|' + show(x))
            # unsigned values read or written as signed numbers and the other way around keep their bits


def newlines(ctx):
    """every text that becomes part of a line is freed from line breaks by the one function that writes lines"""
    P = ctx.P
    f = ctx.fn('StateDiskFile::PrintLine')
    todo = [f]; seen = set(); ok = False
    while todo:
        g = todo.pop()
        if g.u in seen: continue
        seen.add(g.u)
        for i in g.reach_nodes():
            n = g.N[i]
            if n['k'] == 'bin' and n['op'] in ('==', '!='):
                for s in (n['x'], n['y']):
                    m = g.N[s]
                    if m['k'] == 'int' and m.get('v') == 10: ok = True
            if n['k'] == 'call' and lastname(n) in ('strchr', 'strpbrk', 'memchr', 'ReplaceChars', 'find') and any(g.N[a]['k'] == 'int' and g.N[a].get('v') == 10 or g.N[a]['k'] == 'str' and '\n' in g.N[a]['v'] for a in n['a'] if a >= 0): ok = True
        todo += [t for _, t, _ in P.callees(g) if t.file.startswith('daemon/queue/')]
        if g.B and any('case' in b and b['case'] == 10 for b in g.B.values()): ok = True
    if not ok:
        ctx.violation('linebreak', f.loc(), 'a line break inside of a text is written as it is; the lines that follow are read as other attributes', 'PrintLine')


def dump(ctx):
    W, wt = explore(ctx, 'w'); R, rt = explore(ctx, 'r')
    for C_, t in ((W, wt), (R, rt)):
        print(C_.mode, [f.n for f in t], C_.opened, C_.version)
        print({k: len(v) for k, v in C_.edges.items()}, len(C_.ev))
    return W, R
