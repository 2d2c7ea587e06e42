"""XML and JSON responses.  Every API method is executed abstractly once for each output format; the literal parts and templates it appends
drive a push-down parser of that format (conversions stand for texts and numbers).  On every path - any number of elements, any branch -
the response must be exactly one well-formed value.  At every place that appends, the template for XML and the one for JSON must have the same
fields in the same order with the same conversions, texts in quotes and numbers without."""
from common import *
import sim as simmod

LEVEL = 'other'
TECHNIQUE = 'abstract interpretation of response building with a push-down parser per output format; comparison of paired templates'
NOTE = 'Decides well-formedness for any number of elements and the equality of field names, order, kinds and conversions of both formats. Values are the same because both templates get the same arguments.'
ASSUMPTIONS = ['texts inserted into quotes are encoded (C12)']
CONV = re.compile(r'%(%|[-+ #0]*(?:\*|\d+)?(?:\.(?:\*|\d+))?(?:hh|h|ll|l|z|j|t|L|q)?[a-zA-Z])')
XCHILD = {'struct': {'member'}, 'member': {'name', 'value'}, 'array': {'data'}, 'data': {'value'}, 'value': {'i4', 'int', 'boolean', 'string', 'double', 'struct', 'array', 'i8'}, 'name': set(),
          'i4': set(), 'int': set(), 'boolean': set(), 'string': set(), 'double': set(), 'i8': set()}


class Bad(Exception): pass


def lex(fmt, isfmt):
    """pieces of a template: characters and conversions"""
    p = 0
    while p < len(fmt):
        m = CONV.match(fmt, p) if isfmt else None
        if m:
            if m.group(1) == '%': yield '%'
            else: yield ('conv', m.group(0))
            p = m.end()
        else: yield fmt[p]; p += 1


# ---- JSON: state = (stack, lexer): stack entries v0 end {0 {k {v {, {n [0 [, [n ; lexer '' | 's' string | 'e' escape | 'a' atom
def json_step(st, c):
    stack, lx = st
    def value(stack):
        t = stack[-1]
        if t == 'v0': return stack[:-1] + ('end',)
        if t == '{v': return stack[:-1] + ('{,',)
        if t in ('[0', '[n'): return stack[:-1] + ('[,',)
        raise Bad('a value where none is expected (after %s)' % {'[,': 'an element without comma', '{,': 'a field without comma', 'end': 'the complete response', '{0': '"{"', '{n': 'a comma', '{k': 'a field name'}.get(t, t))
    if lx == 's':
        if isinstance(c, tuple): return (stack, 's')
        if c == '\\': return (stack, 'e')
        if c == '"': return (stack, '')
        if ord(c) < 0x20: raise Bad('a control character in a text')
        return (stack, 's')
    if lx == 'e': return (stack, 's')
    if lx == 'a':
        if isinstance(c, tuple) or c.isalnum() or c in '.+-_': return (stack, 'a')
        lx = ''
    if isinstance(c, tuple):
        return (value(stack), 'a')
    if c in ' \t\r\n': return (stack, '')
    t = stack[-1]
    if c == '"':
        if t in ('{0', '{n'): return (stack[:-1] + ('{k',), 's')
        return (value(stack), 's')
    if c == ':':
        if t != '{k': raise Bad('unexpected ":"')
        return (stack[:-1] + ('{v',), '')
    if c == ',':
        if t == '{,': return (stack[:-1] + ('{n',), '')
        if t == '[,': return (stack[:-1] + ('[n',), '')
        raise Bad('a comma without a preceding element')
    if c in '{[':
        return (value(stack) + (c + '0',), '')
    if c == '}':
        if t not in ('{0', '{,'): raise Bad('"}" ' + ('after a comma' if t == '{n' else 'out of place'))
        return (stack[:-1], '')
    if c == ']':
        if t not in ('[0', '[,'): raise Bad('"]" ' + ('after a comma' if t == '[n' else 'out of place'))
        return (stack[:-1], '')
    if c.isalnum() or c in '-+.':
        return (value(stack), 'a')
    raise Bad('unexpected character %r' % c)


# ---- XML: state = (stack, lexer): stack of (tag, last child); lexer '' | '<...' tag being read
def xml_step(st, c):
    stack, lx = st
    if lx:
        if isinstance(c, tuple):
            if lx == '<': raise Bad('a value inside of a tag')
            return (stack, lx)
        if c != '>': return (stack, lx + c)
        tag = lx[1:]
        if tag.startswith('/'):
            if not stack or stack[-1][0] != tag[1:]: raise Bad('</%s> closes <%s>' % (tag[1:], stack[-1][0] if stack else 'nothing'))
            return (stack[:-1] + (), '') if len(stack) > 1 else ((('', 'done'),), '') if stack[:-1] == () else (stack[:-1], '')
        selfc = tag.endswith('/')
        tag = tag.rstrip('/').strip()
        par, lastc = stack[-1] if stack else ('', None)
        if par == '':
            if lastc == 'done': raise Bad('a second value <%s>' % tag)
            if tag not in XCHILD['value']: raise Bad('<%s> at the top' % tag)
            stack = (('', 'open'),)
        elif tag not in XCHILD.get(par, ()): raise Bad('<%s> inside of <%s>' % (tag, par))
        else:
            if par == 'value' and lastc: raise Bad('two values in one <value>')
            if par == 'member' and (tag == 'value') != (lastc == 'name'): raise Bad('<%s> out of order in <member>' % tag)
            stack = stack[:-1] + ((par, tag if par in ('value', 'member') else None),)
        if selfc: return (stack, '')
        return (stack + ((tag, None),), '')
    if isinstance(c, tuple):
        if not stack or stack[-1][0] in ('struct', 'member', 'array', 'data', ''): raise Bad('a value outside of an element')
        return (stack, '')
    if c == '<': return (stack, '<')
    if c in ' \t\r\n': return (stack, '')
    if not stack or stack[-1][0] in ('struct', 'member', 'array', 'data', ''): raise Bad('text outside of an element')
    return (stack, '')


def xml_step_fix(st, c):
    """closing the outermost element ends the value"""
    stack, lx = st
    n = xml_step(st, c)
    s2, l2 = n
    if lx and c == '>' and lx.startswith('</') and len(stack) == 2 and stack[0][0] == '': return ((('', 'done'),), '')
    return n


def feed(st, json, text, isfmt):
    step = json_step if json else xml_step_fix
    for c in lex(text, isfmt): st = step(st, c)
    return st


def final(st, json):
    stack, lx = st
    return stack == ('end',) and lx in ('', 'a') if json else stack == (('', 'done'),) and not lx


START = {True: (('v0',), ''), False: ((), '')}


def shape(text, json, isfmt):
    """fields, conversions and kinds of a template"""
    out = []
    if json:
        for m in re.finditer(r'"((?:[^"\\]|\\.)+)"\s*:|"([^"]*)"|' + CONV.pattern, text):
            if m.group(1) is not None: out.append(('field', m.group(1)))
            elif m.group(2) is not None:
                cs = [x for x in CONV.findall(m.group(2)) if x != '%'] if isfmt else []
                out.append(('text', tuple('%' + x for x in cs)) if cs else ('text', m.group(2)))
            else: out.append(('num', m.group(0)))
    else:
        for m in re.finditer(r'<name>(.*?)</name>|<string>(.*?)</string>|<(i4|int|i8|double|boolean)>(.*?)</\3>', text, re.S):
            if m.group(1) is not None: out.append(('field', m.group(1)))
            elif m.group(3):
                out.append(('num', m.group(4)))
            else:
                cs = [x for x in CONV.findall(m.group(2)) if x != '%'] if isfmt else []
                out.append(('text', tuple('%' + x for x in cs)) if cs else ('text', m.group(2)))
    return out


def unsigned_arg(P, fn, k, before):
    """the argument of the last conversion is not a signed number of at most 32 bits"""
    n = sum(len(v) if t == 'text' and isinstance(v, tuple) else int(t == 'num' and v.startswith('%')) for t, v in before)
    a = fn.N[k].get('a', ())
    if n >= len(a): return True
    t = fn.typ(a[n]) or ''
    return t not in ('int', 'short', 'bool', 'char', 'time_t', 'long')


class Resp(simmod.Client):
    """client state: (parser state, texts of formatted objects)"""
    inline_depth = 8
    def __init__(s, ctx, json, sites): s.ctx = ctx; s.json = json; s.n = 0; s.sites = sites; s.proto = ctx.protos[json]

    def should_inline(s, sim, g):
        ln = g.n.split('::')[-1]
        if not g.B or g.file not in ('daemon/remote/XmlRpc.cpp', 'daemon/remote/XmlRpc.h'): return False
        return g.u in s.ctx.appenders or ln == 'IsJson'

    def dead(s, st, fr, i, msg, key):
        k = (fr.fn.u, i, msg)
        site = fr
        while site.parent is not None and site.fn.n in s.ctx.helpers: i = site.site; site = site.parent
        s.ctx.violation('response', site.fn.loc(i), 'the %s response is not well-formed: %s: %s' % ('JSON' if s.json else 'XML', msg, st.path()), '%s: %s' % (site.fn.n, msg))

    def append(s, sim, st, fr, i, t, isfmt):
        s.n += 1
        p, objs = st.client
        if p is None: return
        d = dict(objs)
        if t not in d and t is not None and t[0] == 'call' and t[1] == 'str': t = t[2]
        if t is not None and t[0] == 's': text = t[1]
        elif t in d: text, isfmt = d[t], True
        else: text = None
        site = fr
        k = i
        while site.parent is not None and site.fn.n in s.ctx.helpers: k = site.site; site = site.parent
        if text is None:
            # an inserted text: only inside of a text
            stack, lx = p
            if s.json and lx != 's' or not s.json and (lx or not stack or stack[-1][0] != 'string'):
                s.dead(st, fr, i, 'a text outside of quotes' if s.json else 'a text outside of <string>', ''); st.client = (None, objs)
            return
        s.sites.setdefault((site.fn.u, k), {}).setdefault(s.json, {})[(text, isfmt)] = (site.fn, k)
        try: st.client = (feed(p, s.json, text, isfmt), objs)
        except Bad as e:
            s.dead(st, fr, i, str(e), ''); st.client = (None, objs)

    def on_call(s, sim, st, fr, i, n, obj, args):
        ln = lastname(n)
        # the format of a request does not change while it is executed
        st.heap[('f', ('this',), 'XmlCommand', 'm_protocol')] = ('c', s.proto)
        if n.get('cl') == 'StringBuilder' and ln in ('Append', 'AppendFmt', 'AppendFmtV') and obj is not None and obj[0] == 'f' and obj[3] == 'm_response' and obj[2] == 'XmlCommand':
            x = st.copy()
            s.append(sim, x, fr, i, args[0], ln != 'Append')
            if x.client[0] is None: return []
            return [(x, ('c', 0))]
        if n.get('cl') == 'StringBuilder' and ln in ('Clear', 'Reserve') and obj is not None and obj[0] == 'f' and obj[3] == 'm_response':
            x = st.copy()
            if ln == 'Clear': x.client = (START[s.json], st.client[1])
            return [(x, ('c', 0))]
        return None

    def after_call(s, sim, st, fr, i, n, obj, args, ret):
        if n.get('cl') == 'HistoryInfo' and ret is not None and ret[0] != 'c':
            # a history record is of one of the kinds and has its data
            if lastname(n) == 'GetKind': sim.setnum(st, ret, s.ctx.kinds[0], s.ctx.kinds[-1], frozenset())
            elif lastname(n) in ('GetNzbInfo', 'GetDupInfo'): sim.setnum(st, ret, 1, simmod.POS_INF, frozenset())
        made = n['k'] == 'ctor' and re.match(r'^(BString<.*>|CString)$', n.get('cl') or '') and len(args) > 1
        if (made or n['k'] == 'call' and lastname(n) == 'Format' and args) and args[0] is not None and args[0][0] == 's':
            p, objs = st.client
            f = fr.fn; d = dict(objs)
            tgt = [ret] if made else [obj]
            if made:
                j = i
                for _ in range(4):
                    q = [x for x in f.parents()[j] or ()]
                    if not q: break
                    q = q[0]
                    if f.N[q]['k'] == 'decl':
                        tgt += [('v', f.tu, v['vi']) for v in f.N[q]['vars'] if v.get('i') == j]; break
                    j = q
            for o in tgt:
                if o is not None: d[o] = args[0][1]
            st.client = (p, tuple(sorted(d.items(), key=repr)))
        return None

    def on_exit(s, sim, st, fr, val):
        if fr.parent is None and st.client[0] is not None and not final(st.client[0], s.json):
            f = fr.fn
            what = 'no response at all' if st.client[0] == START[s.json] else 'it is not complete at the end'
            s.ctx.violation('response', f.loc(), 'the %s response of %s is not well-formed: %s: %s' % ('JSON' if s.json else 'XML', f.n, what, st.path()), '%s: %s' % (f.n, what))


def run(ctx):
    P = ctx.P
    cmds = sorted(P.subclasses('XmlCommand'))
    def appends(g):
        for i in g.calls():
            n = g.N[i]
            if n.get('cl') == 'StringBuilder' and lastname(n) in ('Append', 'AppendFmtV', 'AppendFmt'): return g.cl in cmds
        return False
    ctx.appenders = P.closure(appends)
    ctx.helpers = {g.n for g in P.daemon_fns() if g.cl == 'XmlCommand' and appends(g) and not g.n.endswith('Execute') and not g.n.endswith('Response')} | {'XmlCommand::AppendResponse', 'XmlCommand::AppendFmtResponse', 'XmlCommand::AppendCondResponse'}
    e = next((k for k in P.enums if k.endswith('ERpcProtocol')), None)
    ctx.need('XmlRpcProcessor::ERpcProtocol', e)
    if not e: return
    pv = dict((a.split('::')[-1], b) for a, b in P.enums[e]['v'])
    ctx.protos = {True: pv['rpJsonRpc'], False: pv['rpXmlRpc']}
    hk = next((P.enums[k] for k in P.enums if k == 'HistoryInfo::EKind'), None)
    ctx.kinds = sorted(b for a, b in hk['v'] if not a.endswith('Unknown')) if hk else [1, 3]
    # the methods ask for the format in one place
    q = P.fn('XmlCommand::IsJson')
    if q:
        for nm, num in sorted(pv.items()):
            if not nm.startswith('rp') or 'Json' not in nm and 'Xml' not in nm: continue
            k = simmod.Client(); s = simmod.Sim(P, ctx.eff, k, K=2, budget=2000); st = simmod.State()
            st.heap[('f', ('this',), 'XmlCommand', 'm_protocol')] = ('c', num)
            for x, v in s.run_fn(simmod.Frame(q, ('this',)), [st]):
                if v is not None and s.truth(x, v) is not None and s.truth(x, v) != ('Json' in nm):
                    ctx.violation('format', q.loc(), '%s takes requests of %s for %s' % (q.n, nm, 'XML' if 'Json' in nm else 'JSON'), '%s: %s' % (q.n, nm))
    sites = {}; m = 0; pieces = 0
    for c in cmds:
        f = P.fn(c + '::Execute')
        if not f: continue
        m += 1
        for json in (True, False):
            k = Resp(ctx, json, sites); s = simmod.Sim(P, ctx.eff, k, K=2, budget=200000)
            st = simmod.State(); st.client = (START[json], ())
            st.heap[('f', ('this',), 'XmlCommand', 'm_protocol')] = ('c', pv['rpJsonRpc' if json else 'rpXmlRpc'])
            ex = s.run_fn(simmod.Frame(f, ('this',)), [st])
            for x, v in ex: k.on_exit(s, x, simmod.Frame(f, ('this',)), v)
            pieces += k.n
            if s.truncated: ctx.notes.append('%s: truncated' % f.n)
    ctx.floor('API methods executed for both formats', m, 25)
    ctx.count('appended parts followed', pieces)
    npairs = 0
    for (u, i), d in sorted(sites.items()):
        if True not in d or False not in d: continue
        J, X = d[True], d[False]
        if len(J) != 1 or len(X) != 1: 
            if len(J) != len(X): continue
        for (jt, jf), (xt, xf) in zip(sorted(J), sorted(X)) if len(J) == 1 else ():
            fn, k = J[(jt, jf)]
            a = shape(jt, True, jf); b = shape(xt, False, xf)
            npairs += 1
            if ('field', 'faultCode') in b: npairs -= 1; continue      # the structure of errors is defined by the protocols
            bad = None
            for p in range(max(len(a), len(b))):
                x = a[p] if p < len(a) else None; y = b[p] if p < len(b) else None
                if x == y: continue
                if x and y and x[0] == y[0] == 'num' and {x[1], y[1]} <= {'%i', '%d', '%u'} and not unsigned_arg(P, fn, k, a[:p + 1]): continue
                if x and y and x[0] == y[0] == 'num' and (x[1] in ('true', 'false') or y[1] in ('0', '1')): continue
                bad = (x, y); break
            if bad:
                def show(v): return 'nothing' if v is None else '%s %s' % (v[0], v[1] if isinstance(v[1], str) else ' '.join(v[1]))
                ctx.violation('pair', fn.loc(k), '%s: the JSON template has %s where the XML template has %s' % (fn.n, show(bad[0]), show(bad[1])), '%s: %s / %s' % (fn.n, show(bad[0]), show(bad[1])))
    ctx.floor('pairs of templates compared', npairs, 25)
