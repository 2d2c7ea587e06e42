"""Texts in API responses are encoded.  Every text appended to a response is followed back to where it comes from (reaching definitions,
parameters into the callers, returned values, fields, tables).  It must be a literal, a number, a name out of a constant table, or the result of
the encoder; encoded texts must not pass through a buffer of fixed size (which would cut them in the middle).  The encoder that is used must
be the one of the output format on every path, and the encoders must replace every character that the format forbids, with as much space
counted as is written."""
from common import *
import prov as pm
import sim as simmod

LEVEL = 'other'
TECHNIQUE = 'backwards provenance (taint) analysis of response texts; path-sensitive check of encoder choice; abstract execution of the encoders per byte'
NOTE = 'The name of the JSON-P callback function is part of the script by design and is not judged. Characters outside of the basic plane are replaced by the JSON encoder, which is accepted.'
ASSUMPTIONS = ['WebUtil::JsonFindField returns a complete JSON value of the request']
ENC = ('WebUtil::JsonEncode', 'WebUtil::XmlEncode')


def sinks(ctx):
    """(fn, call, argument nodes, or None for the variable arguments of the function)"""
    P = ctx.P; out = []
    cmd = P.subclasses('XmlCommand') | {'XmlRpcProcessor'}
    for f in P.daemon_fns():
        if f.file != 'daemon/remote/XmlRpc.cpp' and f.cl not in cmd: continue
        for i in f.calls():
            n = f.N[i]; o = n.get('o', -1)
            if o < 0 or n.get('cl') not in ('StringBuilder', 'CString'): continue
            m = f.N[o]
            while m['k'] in ('un', 'cast'): m = f.N[m['x']]
            if m['k'] == 'mem' and m['cl'] in cmd and m['m'] == 'm_response' or m['k'] == 'ref' and f.cl == 'XmlRpcProcessor' and bare(f.typ(o)) == 'StringBuilder':
                if lastname(n) in ('Append', 'AppendFmt', 'AppendFmtV'): out.append((f, i))
    return out


def judge_enc(ctx, p, f, i, c, via):
    n = f.N[i]
    if n['k'] == 'call':
        fn = n.get('fn') or ''
        if fn in ENC:
            b = bounded(via)
            if b and not literal(ctx, f, n['a'][0], c): return 'an encoded text passes through %s and may be cut' % b
            return True
        if fn == 'WebUtil::JsonFindField':
            b = bounded(via)
            if b: return 'a JSON value of the request passes through %s and may be cut' % b
            return True
        if lastname(n) in ('GetCallbackFunc',): return True
        if lastname(n) in ('GetResponse', 'GetMessageText') and n.get('cl') in ctx.P.subclasses('XmlCommand'): return True     # judged where it is built
        if fn in ('strerror', 'getenv', 'Options::Version', 'Util::VersionRevision'): return True
    if n['k'] == 'mem' and n['m'] == 'm_callbackFunc': return True
    if n['k'] == 'call' and n.get('op') == '*' or n['k'] == 'call' and lastname(n).startswith('operator'): return None
    if n['k'] == 'mem' and n['cl'] not in ctx.cmds and 'char' not in f.typ(i) and 'String' not in f.typ(i): return None
    if n['k'] == 'mem' and n['cl'] not in ctx.cmds and f.file.startswith('daemon/'):
        t = bare(f.typ(i))
        if t in ('CString', 'CharBuffer', 'char') or t.startswith('BString'):
            if p.literal_field(n['cl'], n['m']): return True
            return 'the content of %s::%s' % (n['cl'], n['m'])
    return None


def literal(ctx, f, i, c):
    """all texts the expression can hold are literals of the program"""
    p = Prov(ctx.P, lambda p, a, b, x, y: 'x' if a.N[b]['k'] == 'call' and not a.N[b].get('op') and lastname(a.N[b]) not in ('operator char *', 'Str') and not [g for g in ctx.P.targets(a, b) if g.B] else None, unknown_call=True)
    p.trace(f, i, c)
    return not p.bad and p.steps > 1


def bounded(via):
    for f, i in reversed(via):
        n = f.N[i]; t = bare(f.typ(i))
        if n['k'] == 'ctor' and (n.get('cl') or '').startswith('BString'): return 'a %s' % n['cl']
        if n['k'] == 'ref' and (t.startswith('BString<') or re.match(r'^char ?\[\d+\]$', t)): return 'the %s %s' % (t, n.get('d'))
    return None


class Prov(pm.Prov):
    def tagof(s, via): return bounded(via) is not None
    def literal_field(s, cl, m):
        st = s.stores().get((cl, m), ())
        return bool(st) and all(f.N[x]['k'] in ('str', 'null', 'nullptr') for f, x in st)
    def nocaller(s, f, k, via): s.report(f, via[-1][1] if via else 0, 'parameter %s of %s' % (f.p[k]['d'], f.n), via)
    def arg(s, g, c, f, k, ctx, via):
        # the error function of a class that is overridden: parameters of callbacks come from outside
        pm.Prov.arg(s, g, c, f, k, ctx, via)


def texts(ctx):
    P = ctx.P
    sk = sinks(ctx); n = 0
    ctx.cmds = P.subclasses('XmlCommand') | {'XmlRpcProcessor'}
    for f, i in sk:
        nd = f.N[i]; p = Prov(P, lambda p, a, b, c, d: judge_enc(ctx, p, a, b, c, d))
        args = list(nd['a'])
        va = any('va_list' in f.typ(a) for a in args)
        for a in args:
            if p.texty(f.typ(a)) and 'va_list' not in f.typ(a): p.trace(f, a); n += 1
        if va:
            for g, c, how in P.callers().get(f.u, ()):
                m = g.N[c]
                for a in m['a'][len(f.p):]:
                    n += 1
                    if p.texty(g.typ(a)): p.trace(g, a)
        for g, x, why, via in p.bad:
            w = via[0] if via else (f, i)
            # where the text leaves for the response
            site = next(((a, b) for a, b in via if a.file == 'daemon/remote/XmlRpc.cpp'), (f, i))
            if why in ('', 'too deep'): continue
            ctx.violation('unencoded', site[0].loc(site[1]), '%s: %s becomes part of a response without encoding%s' % (site[0].n, why, '' if 'cut' not in why else ''), '%s: %s' % (site[0].n, why))
    ctx.floor('texts appended to responses', n, 150)


class Choice(simmod.Client):
    inline_depth = 3
    def __init__(s, ctx): s.ctx = ctx; s.n = 0
    def should_inline(s, sim, g): return g.n.endswith('::IsJson') and bool(g.B)
    def on_call(s, sim, st, fr, i, n, obj, args):
        fn = n.get('fn')
        if fn in ENC:
            s.n += 1
            f = ('f', ('this',), s.cls, 'm_protocol')
            vals = s.ctx.protos
            poss = [k for k, v in vals.items() if k != 'rpUndefined' and sim.truth(st, sim.cmp('==', sim.lookup(st, f), ('c', v))) is not False]
            bad = [k for k in poss if ('Json' in k) != ('Json' in fn)]
            if bad: s.ctx.violation('encoder', fr.fn.loc(i), '%s is used for the output format %s: %s' % (fn, ', '.join(bad), st.path()), '%s %s' % (fr.fn.n, fn))
        return None


def choice(ctx):
    P = ctx.P; n = 0
    e = next((k for k in P.enums if k.endswith('ERpcProtocol')), None)
    ctx.need('XmlRpcProcessor::ERpcProtocol', e)
    if not e: return
    ctx.protos = dict((a, b) for a, b in P.enums[e]['v'])
    cmds = P.subclasses('XmlCommand') | {'XmlRpcProcessor'}
    for f in P.daemon_fns():
        if f.cl not in cmds or not any(f.N[i].get('fn') in ENC for i in f.calls()): continue
        c = Choice(ctx); c.cls = 'XmlCommand' if f.cl != 'XmlRpcProcessor' else f.cl
        s = simmod.Sim(P, ctx.eff, c, K=4); s.run(f); n += c.n
    ctx.floor('uses of encoders', n, 2)


# ---------------------------------------------------------------- the encoders
class Byte:
    """walks one round of the loops of an encoder for a given byte: (counted space, written bytes, literal text written)"""
    def __init__(s, ctx, f): s.ctx = ctx; s.f = f

    def run(s, byte):
        """list of (count, written, text or None) per path and per loop"""
        f = s.f; res = []
        # loop heads: targets of back edges
        order = {b: k for k, b in enumerate(f.rpo())}
        heads = sorted({x for b in order for x in f.B[b]['s'] if x >= 0 and x in order and order[x] <= order[b]}, key=lambda x: order[x])
        out = {}
        for h in heads:
            out[h] = list(s.walk(h, h, byte, {}, 0, 0, '', frozenset(), True, 0))
        return out

    def val(s, i, env, byte):
        f = s.f; n = f.N[i]
        if 'cv' in n: return n['cv']
        k = n['k']
        if k == 'int': return n['v']
        if k == 'cast':
            v = s.val(n['x'], env, byte)
            return v
        if k == 'ref': return env.get(n.get('vi'))
        if k == 'un' and n['op'] == '*':
            x = f.N[n['x']]
            while x['k'] == 'cast': x = f.N[x['x']]
            if x['k'] == 'ref' and x.get('vi') == s.cur(env): return byte
            return None
        if k == 'idx':
            x = f.N[n['x']]; y = s.val(n['y'], env, byte)
            if x['k'] == 'ref' and x.get('vi') == s.cur(env) and y == 0: return byte
            return None
        if k == 'bin':
            a, b = s.val(n['x'], env, byte), s.val(n['y'], env, byte)
            if n['op'] == '&&': return 0 if a == 0 or b == 0 else 1 if a and b else None
            if n['op'] == '||': return 1 if a or b else 0 if a == 0 and b == 0 else None
            if a is None or b is None: return None
            try:
                return {'<': lambda: int(a < b), '>': lambda: int(a > b), '<=': lambda: int(a <= b), '>=': lambda: int(a >= b), '==': lambda: int(a == b), '!=': lambda: int(a != b),
                        '>>': lambda: a >> b, '<<': lambda: a << b, '&': lambda: a & b, '|': lambda: a | b, '+': lambda: a + b, '-': lambda: a - b}[n['op']]()
            except KeyError: return None
        if k == 'un' and n['op'] == '!':
            a = s.val(n['x'], env, byte); return None if a is None else int(not a)
        return None

    def cur(s, env): return env.get('cur')

    def walk(s, b, head, byte, env, cnt, wr, txt, seen, first, moved):
        f = s.f; blk = f.B[b]; env = dict(env)
        if b in seen: return
        seen = seen | {b}
        for e in blk['e']:
            if not isinstance(e, int): continue
            n = f.N[e]; k = n['k']
            if k == 'decl':
                for d in n['vars']:
                    ini = d.get('i', -1)
                    if ini < 0: continue
                    x = f.N[ini]
                    while x['k'] == 'cast': x = f.N[x['x']]
                    if x['k'] in ('un', 'idx') and (x.get('op') == '*' or x['k'] == 'idx') and 'cur' not in env:
                        y = f.N[x['x']]
                        while y['k'] == 'cast': y = f.N[y['x']]
                        if y['k'] == 'ref': env['cur'] = y['vi']
                    env[d['vi']] = s.val(ini, env, byte)
            elif k == 'bin' and n['op'] in ('=', '+=', '-='):
                t = f.N[n['x']]; v = s.val(n['y'], env, byte)
                if t['k'] == 'ref':
                    ty = f.typ(n['x'])
                    if n['op'] == '+=' and '*' in ty and t['vi'] != env.get('cur'): wr += v if v is not None else 0; 
                    elif n['op'] == '+=' and ty in ('int', 'unsigned int', 'long', 'unsigned long', 'size_t') and t['vi'] not in env: cnt += v or 0
                    elif n['op'] == '+=' and t['vi'] in env: env[t['vi']] = None
                    else: env[t['vi']] = v if n['op'] == '=' else None
                    if t['vi'] == env.get('cur'): moved += 1
                else:
                    # *output++ = x
                    z = f.N[n['x']]
                    if z['k'] == 'un' and z['op'] == '*':
                        w = f.N[z['x']]
                        if w['k'] == 'un' and w['op'] == '++':
                            wr += 1; txt += chr(v) if v is not None and 0 <= v < 256 else '?'
            elif k == 'un' and n['op'] in ('++', '--'):
                t = f.N[n['x']]
                if t['k'] == 'ref':
                    if t['vi'] == env.get('cur'): moved += 1; env['curm'] = 1
                    elif '*' not in f.typ(n['x']) and t['vi'] not in env: cnt += 1
            elif k == 'call':
                fn = n.get('fn') or ''
                if fn in ('strcpy', 'strncpy', 'memcpy', 'strcat'):
                    x = f.N[n['a'][1]]
                    while x['k'] == 'cast': x = f.N[x['x']]
                    txt += x['v'] if x['k'] == 'str' else '?'
                elif fn in ('sprintf', 'snprintf'):
                    fm = [f.N[a]['v'] for a in n['a'] if f.N[a]['k'] == 'str']
                    txt += '\x00fmt:' + (fm[0] if fm else '?') + '\x00'
        succ = [x for x in blk['s']]
        tc = blk.get('tc')
        if tc is not None and len([x for x in succ if x >= 0]) > 1:
            if blk.get('t') == 'SwitchStmt':
                v = s.val(tc, env, byte) if not env.get('curm') or f.N[tc]['k'] == 'ref' else None
                nx = s.switch(blk, v)
            else:
                v = s.val(tc, env, byte) if not moved else None
                if v is not None: nx = [succ[0] if v else succ[1]]
                else: nx = [x for x in succ if x >= 0]
        else: nx = [x for x in succ if x >= 0]
        for x in nx:
            if x == head: yield (cnt, wr, txt)
            elif x >= 0: yield from s.walk(x, head, byte, env, cnt, wr, txt, seen, False, moved)

    def switch(s, blk, v):
        f = s.f; succ = [x for x in blk['s'] if x >= 0]; default = None; hit = []
        for x in succ:
            lab = f.B[x].get('case'); 
            if lab is None: default = x
            else:
                vals = lab if isinstance(lab, list) else [lab]
                if v in vals: hit.append(x)
        if v is None: return succ
        return hit or ([default] if default is not None else [])


JSON = {'"': '\\"', '\\': '\\\\', '/': '\\/', '\b': '\\b', '\f': '\\f', '\n': '\\n', '\r': '\\r', '\t': '\\t'}
XML = {'<': '&lt;', '>': '&gt;', '&': '&amp;', "'": '&apos;', '"': '&quot;'}


def flen(txt):
    """length of written text; formats of fixed width"""
    n = 0
    for k, part in enumerate(txt.split('\0')):
        if not part.startswith('fmt:'): n += len(part); continue
        fm = re.sub(r'%0(\d+)[xXdu]', lambda m: '#' * int(m.group(1)), part[4:])
        if '%' in fm: return None
        n += len(fm)
    return n


def encoders(ctx):
    P = ctx.P; tot = 0
    for name, table, must in (('WebUtil::JsonEncode', JSON, '"\\'), ('WebUtil::XmlEncode', XML, '<&')):
        f = P.fn(name)
        ctx.need(name, f)
        if not f: continue
        b = Byte(ctx, f)
        probe = b.run(ord('a'))
        wl = [h for h, r in probe.items() if any(w for c, w, t in r)]
        cl = [h for h, r in probe.items() if h not in wl]
        if len(wl) != 1: ctx.notes.append('%s: the shape of the loops is not recognised, its characters are not judged' % name); continue
        seen = set()
        for ch in range(1, 256):
            R = b.run(ch); tot += 1
            cnt = min([c for h in cl for c, w, t in R[h]] or [None], key=lambda x: x if x is not None else 0) if cl else None
            for c, w, t in R[wl[0]]:
                def bad(msg, key):
                    if key not in seen: seen.add(key); ctx.violation('character', f.loc(), '%s: byte 0x%02x %s' % (name, ch, msg), '%s 0x%02x %s' % (name, ch, key))
                c0 = chr(ch)
                if t == c0 and (c0 in must or ch >= 0x80 or ch < 0x20 and not (table is XML and ch in (9, 10, 13))):
                    bad('is written without being encoded', 'raw %02x' % ch)
                elif t == '' : bad('is dropped', 'dropped')
                elif '\0' not in t and t != c0 and table.get(c0) != t and t != '.': bad('is replaced by %r' % t, 'replaced %02x' % ch)
                elif '\0' not in t and t != c0 and t == '.' and 0x20 <= ch < 0x80: bad('is replaced by a dot', 'dot')
                l = flen(t)
                if l is not None and w != l: bad('advances the output by %i for %i written characters' % (w, l), 'advance %02x' % ch)
                if cnt is not None and w > 1 + cnt: bad('is counted with %i additional characters, %i are written' % (cnt, w), 'space %02x' % ch)
    ctx.count('bytes followed through the encoders', tot)


CMP = {'strcmp', 'strcasecmp', 'strncmp', 'strncasecmp', 'strlen', 'NextParamAsStr', 'BoolToStr', 'atoi', 'atol', 'strtol', 'free'}


class Params(simmod.Client):
    """client state: {text parameter -> number of decodings}"""
    inline_depth = 3
    def __init__(s, ctx): s.ctx = ctx; s.n = 0
    def should_inline(s, sim, g):
        return bool(g.B) and g.cl in s.ctx.cmds and g.n.split('::')[-1] not in ('DecodeStr', 'NextParamAsStr', 'NextParamAsInt', 'NextParamAsBool', 'Execute') and any('char *' in g.ptype(k) for k in range(len(g.p))) and \
            not g.va and g.n.split('::')[-1] not in ('EncodeStr', 'AppendResponse', 'AppendCondResponse')
    def on_call(s, sim, st, fr, i, n, obj, args):
        ln = lastname(n)
        if ln == 'NextParamAsStr' and args:
            a = args[0]; s.n += 1
            out = []
            if a[0] == 'addr' and a[1][0] == 'v':
                x = st.copy(); t = ('u', ('param', fr.fn.u, i))
                d = dict(x.client); d[t] = 0
                x.env[(a[1][1], a[1][2])] = t; x.client = frozenset(d.items()); sim.setnum(x, t, 1, simmod.POS_INF, frozenset((0,)))
                out.append((x, ('c', 1)))
            else: out.append((st, ('c', 1)))
            out.append((st.copy(), ('c', 0)))
            return out
        if ln in ('DecodeStr', 'JsonDecode', 'XmlDecode', 'UrlDecode') and args:
            d = dict(st.client); t = args[0]
            if t in d:
                if d[t]: s.ctx.violation('decode', fr.fn.loc(i), 'the text parameter is decoded twice: ' + st.path(), '%s twice' % fr.fn.n)
                d[t] = 1; x = st.copy(); x.client = frozenset(d.items())
                return [(x, ('c', 0))]
            return None
        if ln in CMP or ln.startswith('operator'): return None
        d = dict(st.client)
        for a in args:
            b = a
            while b is not None and (b[0] == 'call' and b[1] == 'str' or b[0] == 'op' and b[1] == '+'): b = b[2]
            if b is not None and d.get(b) == 0 and not (n.get('fn') in s.ctx.P.byname and s.should_inline(sim, s.ctx.P.fn(n['fn']) or fr.fn) and s.ctx.P.fn(n['fn'])):
                s.ctx.violation('decode', fr.fn.loc(i), 'the text parameter is given to %s without having been decoded: %s' % (n.get('fn'), st.path()), '%s %s' % (fr.fn.n, n.get('fn')))
        return None


def params(ctx):
    P = ctx.P; n = 0
    for c in sorted(ctx.cmds):
        f = P.fn(c + '::Execute')
        if not f: continue
        k = Params(ctx); s = simmod.Sim(P, ctx.eff, k, K=3, budget=150000)
        st = simmod.State(); st.client = frozenset()
        s.run_fn(simmod.Frame(f, ('this',)), [st]); n += k.n
        if s.truncated: ctx.notes.append('%s: truncated' % f.n)
    ctx.floor('text parameters read', n, 20)


def run(ctx):
    texts(ctx)
    choice(ctx)
    encoders(ctx)
    params(ctx)
