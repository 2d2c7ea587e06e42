"""Formatted text and its arguments.  Sinks are the formatting functions of the C library; a parameter that reaches the template of one of them
together with the variable arguments makes its function a formatting function too.  For each call of a formatting function the possible templates
are determined by following the template argument backwards through the whole program: only constants are allowed, and each of them must fit the
arguments of the call in number, kind and size; conversions that store texts must be limited to the size of their buffer."""
from common import *
import prov as provmod

LEVEL = 'other'
TECHNIQUE = 'interprocedural backwards provenance of templates, conversion by conversion type comparison with the arguments of every call'
NOTE = 'Decides every call of a formatting function compiled on this platform. Signedness of integers is not compared.'
LIBC = {'printf': 0, 'fprintf': 1, 'snprintf': 2, 'sprintf': 1, 'syslog': 1, 'sscanf': 1, 'fscanf': 1, 'scanf': 0, 'dprintf': 1, 'asprintf': 1, 'wprintw': 1, 'mvprintw': 2, 'printw': 0}
VLIBC = {'vprintf': 0, 'vfprintf': 1, 'vsnprintf': 2, 'vsprintf': 1, 'vsyslog': 1, 'vsscanf': 1, 'vfscanf': 1, 'vasprintf': 1}
CONV = re.compile(r'%([-+ #0]*)(\*|\d+)?(?:\.(\*|-?\d+)?)?(hh|h|ll|l|z|j|t|L|q)?(\[\^?\]?[^\]]*\]|[a-zA-Z%])')


def base(n): return (n.get('fn') or '').replace('std::', '')


def size_of(t):
    t = bare(t).strip()
    if t in ('long', 'unsigned long', 'long long', 'unsigned long long', 'int64', 'uint64', 'size_t', 'ssize_t', 'time_t', 'int64_t', 'uint64_t'): return 8
    if t in ('int', 'unsigned int', 'char', 'signed char', 'unsigned char', 'short', 'unsigned short', 'bool', 'unsigned', 'char16_t', 'char32_t', 'wchar_t'): return 4
    return None


def exact(t):
    t = bare(t).strip()
    return {'bool': 1, 'char': 1, 'signed char': 1, 'unsigned char': 1, 'short': 2, 'unsigned short': 2, 'int': 4, 'unsigned int': 4, 'float': 'f', 'double': 'd', 'long double': 'D'}.get(t) or (8 if size_of(t) == 8 else None)


class Check:
    def __init__(s, ctx):
        s.ctx = ctx; s.P = ctx.P; s.calls = 0; s.convs = 0; s.templates = 0

    # -- which functions take templates
    def formatters(s):
        """fn usr -> (index of the template, scan?) for functions with own variable arguments or a va_list"""
        P = s.P; F = {}
        changed = True
        def vapar(f): return f.va or any('va_list' in f.ptype(k) for k in range(len(f.p)))
        while changed:
            changed = False
            for f in P.daemon_fns():
                if f.u in F or not vapar(f): continue
                for i in f.calls():
                    n = f.N[i]; a = n.get('a', ())
                    if not any('va_list' in f.typ(x) or 'va_list' in f.typ(f.N[x].get('x', x)) for x in a if isinstance(f.N[x].get('x', x), int)): continue
                    r = None
                    if base(n) in VLIBC: r = (VLIBC[base(n)], 'scan' in base(n))
                    else:
                        for g in P.targets(f, i):
                            if g.u in F: r = F[g.u]
                    if not r or r[0] >= len(a): continue
                    # the template comes from a parameter
                    for k in range(len(f.p)):
                        if 'char' in f.ptype(k) and s.comes(f, a[r[0]], f.p[k]['vi']):
                            F[f.u] = (k, r[1]); changed = True
        return F

    def comes(s, f, i, vi):
        n = f.N[i]
        if n['k'] == 'ref': return n.get('vi') == vi and n['dk'] == 'par'
        if n['k'] == 'cast': return s.comes(f, n['x'], vi)
        if n['k'] == 'cond': return s.comes(f, n['y'], vi) or s.comes(f, n['z'], vi)
        return False

    # -- the templates a call may use
    def templates_of(s, f, i):
        P = s.P; out = {}
        def judge(prov, g, j, c, via):
            n = g.N[j]
            if n['k'] == 'str': out[n['v']] = (g, j); return True
            if n['k'] in ('null', 'nullptr') or n.get('cv') == 0: return True
            if n['k'] == 'ref' and n['dk'] == 'glob':
                gl = P.globals.get(n.get('d'))
                if gl is not None and gl.get('i', -1) >= 0 and gl.get('N'):
                    ss = [x['v'] for x in gl['N'] if isinstance(x, dict) and x.get('k') == 'str']
                    if ss:
                        for x in ss: out[x] = (g, j)
                        return True
                return 'global data'
            if provmod.STR.match(bare(g.typ(j))): return 'text built at run time'
            if n['k'] in ('call', 'ctor') and n.get('o', -1) >= 0 and provmod.STR.match(bare(g.typ(n['o']))): return 'text built at run time'
            return None
        pr = provmod.Prov(P, judge, unknown_call=True)
        pr.trace(f, i)
        return out, pr.bad

    def run(s):
        ctx, P = s.ctx, s.P
        F = s.F = s.formatters()
        ctx.floor('functions that format text', len(F), 20)
        for f in sorted(P.daemon_fns(), key=lambda f: (f.file, f.l, f.u)):
            for i in f.calls():
                n = f.N[i]; a = n.get('a', ())
                if base(n) in LIBC and not [g for g in P.targets(f, i) if g.B]: s.call(f, i, LIBC[base(n)], 'scan' in base(n))
                elif base(n) in VLIBC:
                    if f.u not in F: s.forward(f, i, VLIBC[base(n)])
                else:
                    hit = [(F[g.u], g) for g in P.targets(f, i) if g.u in F]
                    if not hit: continue
                    (k, scan), g = hit[0]
                    if g.va: s.call(f, i, k, scan, len(g.p))
                    elif f.u not in F: s.forward(f, i, k)
        ctx.floor('calls of formatting functions', s.calls, 600)
        ctx.count('templates compared', s.templates); ctx.count('conversions compared', s.convs)

    def forward(s, f, i, k):
        """variable arguments are passed on with a template of one's own"""
        a = f.N[i].get('a', ())
        t, bad = s.templates_of(f, a[k]) if k < len(a) else ({}, [])
        s.badtemplates(f, i, bad)

    def badtemplates(s, f, i, bad):
        for g, j, why, via in bad[:3]:
            s.ctx.violation('template', f.loc(i), '%s: the template of the formatted text is not a constant: %s' % (f.n, "%s (%s)" % (why or g.N[j]["k"], g.loc(j) if j is not None else g.n)), '%s: %s' % (f.n, base(f.N[i])))

    def call(s, f, i, k, scan, first=None):
        n = f.N[i]; a = n.get('a', ())
        if k >= len(a): return
        s.calls += 1
        T, bad = s.templates_of(f, a[k])
        s.badtemplates(f, i, bad)
        args = a[first if first is not None else k + 1:]
        for t in sorted(T):
            s.templates += 1
            m = s.fits(f, t, args, scan)
            if m: s.ctx.violation('arguments', f.loc(i), '%s: %s: "%s"' % (f.n, m, t.replace('\n', '\\n')[:300]), '%s: %s' % (f.n, m))

    # -- one template and the arguments
    def under(s, f, i):
        while f.N[i]['k'] == 'cast' and 'x' in f.N[i]:
            x = f.N[i]['x']
            if '[' in f.typ(x): return x
            if f.typ(x) != f.typ(i): break
            i = x
        return i

    def fits(s, f, t, args, scan):
        p = 0; k = 0
        def nxt():
            nonlocal k
            if k >= len(args): return None
            k += 1; return args[k - 1]
        while True:
            p = t.find('%', p)
            if p < 0: break
            m = CONV.match(t, p)
            if not m: return 'unknown conversion %s' % t[p:p + 6]
            p = m.end(); s.convs += 1
            flags, width, prec, ln, c = m.groups()
            if c == '%': continue
            if scan and width == '*':
                continue
            if not scan:
                for w in (width, prec):
                    if w == '*':
                        x = nxt()
                        if x is None: return 'no argument for the width in %s' % m.group(0)
                        if size_of(f.typ(x)) != 4: return 'the width in %s is given as %s' % (m.group(0), f.typ(x))
            x = nxt()
            if x is None: return 'no argument for %s (number %i)' % (m.group(0), k + 1)
            r = s.scanfit(f, x, c, width, ln) if scan else s.fit(f, x, c, ln)
            if r: return 'argument %i for %s is %s' % (k, m.group(0), r)
        # superfluous arguments are evaluated and ignored
        return None

    def fit(s, f, x, c, ln):
        t = f.typ(x); b = bare(t).strip(); n = f.N[x]
        isenum = t.split()[-1] in s.P.enums or b in s.P.enums
        if c in 'diuxXo':
            z = size_of(t) if not isenum else 4
            want = 8 if ln in ('l', 'll', 'q', 'j', 'z', 't') else 4
            if z is None: return 'of type ' + t
            if z != want: return '%i bytes wide (%s)' % (z, t)
            return None
        if c == 'c': return None if size_of(t) == 4 or isenum else 'of type ' + t
        if c == 's':
            if ln: return 'a wide text'
            if re.match(r'^(const )?(unsigned |signed )?char( const)? ?(\*( ?const)?|\[\d*\])$', t.strip()): return None
            return 'of type ' + t
        if c in 'fFeEgGaA': return None if b in ('double', 'float') and not ln or b == 'long double' and ln == 'L' or b == 'double' and ln == 'l' else 'of type ' + t
        if c == 'p': return None if '*' in t else 'of type ' + t
        return 'for an unknown conversion'

    def scanfit(s, f, x, c, width, ln):
        x = s.under(f, x); t = f.typ(x).strip()
        if c == 's' or c[0] == '[' or c == 'c':
            m = re.match(r'^(?:unsigned |signed )?char ?\[(\d+)\]$', t)
            need = int(width) if width and width.isdigit() else None
            if c == 'c': need = (need or 1) - 1
            if m:
                if need is None: return 'a buffer of %s bytes, the length of the text is not limited' % m.group(1)
                if need + 1 > int(m.group(1)): return 'a buffer of %s bytes for a text of up to %i' % (m.group(1), need)
                return None
            if c == 'c' and need == 0 and t in ('char *', 'unsigned char *'): return None
            if need is None and '*' in t: return 'a buffer, the length of the text is not limited'
            return None if '*' in t else 'of type ' + t
        if not t.endswith('*'): return 'of type ' + t
        el = t[:-1].strip()
        z = exact(el)
        if z is None and (el in s.P.enums): z = 4
        if c in 'diuxXo':
            want = {'hh': 1, 'h': 2, None: 4, '': 4}.get(ln, 8)
            return None if z == want else 'a pointer to ' + el
        if c in 'fFeEgG':
            want = {'l': 'd', 'L': 'D'}.get(ln, 'f')
            return None if z == want else 'a pointer to ' + el
        if c == 'n': return None if z == 4 else 'a pointer to ' + el
        return None


def run(ctx):
    Check(ctx).run()
