"""Replacement of state files.  Two typestate analyses over all paths (path-sensitive, with the values of conditions): (1) the methods of
StateFile: which of its two names is opened for writing, and under which circumstances the old file is deleted or replaced - the new one must
be closed, and a failed write or flush must have been excluded on that path; (2) every function that saves a state file: begin, finish and
discard of each file in order, failures not reported as success, and no discarding of older data after a failed replacement."""
from common import *
import sim as simmod

LEVEL = 'other'
TECHNIQUE = 'path-sensitive typestate analysis of the state file protocol'
NOTE = ('Decides the order of file operations and the checks between them on every path of the code; that rename replaces a file atomically and that a '
        'successful flush without stream error means complete content are properties of the system and are assumed. '
        'The records of single files (written once, when an item is added) and message logs are not transactional.')
ASSUMPTIONS = ['rename(2) replaces the destination atomically', 'fflush and ferror report every failed write of the stream']
CLS = 'StateFile'
WRITES = ('Write', 'Print', 'PrintLine', 'Seek')


def kind_of(fr, i, t, names):
    """which member of StateFile an argument names"""
    for x in subterms(t):
        if x[0] == 'f' and len(x) == 4 and x[2] == CLS and x[3] in names: return names[x[3]]
    for j in fr.fn.subtree(i):
        n = fr.fn.N[j]
        if n['k'] == 'mem' and n['cl'] == CLS and n['m'] in names: return names[n['m']]
    return None


class File(simmod.Client):
    """client state: (file state, frozenset of flush results, frozenset of error results, frozenset of (name, FileExists result), pending delete)"""
    def __init__(s, ctx, names, who): s.ctx = ctx; s.names = names; s.who = who; s.n = 0

    def should_inline(s, sim, g): return g.cl == CLS

    def ops(s, st): return st.client

    def on_call(s, sim, st, fr, i, n, obj, args):
        if n['k'] != 'call' or n.get('cl') not in s.files and not n.get('fn', '').startswith('FileSystem::') and n.get('fn') not in ('rename', 'remove', 'unlink'): return None
        # results of file operations are unknown values
        ret = sim.fresh(st, (fr.fn.u, i))
        out = s.step(sim, st, fr, i, n, obj, args, ret) or [st]
        return [(x, ret) for x in out]

    def after_call(s, sim, st, fr, i, n, obj, args, ret):
        if n.get('fn') == 'Options::GetFlushQueue':
            c = st.client
            return [st.with_client(c[:3] + (c[3] | {('flushqueue', ret)},) + c[4:])]

    def step(s, sim, st, fr, i, n, obj, args, ret):
        ph, fl, er, ex, pend = st.client
        fn = n.get('fn', ''); last = lastname(n)
        if n['k'] != 'call': return None
        isfile = n.get('cl') in s.files
        if isfile:
            if last == 'Open': ph = 'open'; fl = er = frozenset()
            elif last == 'Close': ph = 'closed'
            elif last == 'Flush': fl = fl | {ret}
            elif last == 'Error': er = er | {ret}
            elif last == 'Sync': ex = ex | {('sync', ret)}
            elif last in WRITES: fl = er = frozenset()
            else: return None
            return [st.with_client((ph, fl, er, ex, pend))]
        if fn == 'FileSystem::FileExists' and n['a']:
            k = kind_of(fr, n['a'][0], args[0], s.names)
            return [st.with_client((ph, fl, er, frozenset(x for x in ex if x[0] != k) | {(k, ret)}, pend))]
        if fn in ('FileSystem::DeleteFile', 'remove', 'unlink') and n['a'] and kind_of(fr, n['a'][0], args[0], s.names) == 'dest':
            return [st.with_client((ph, fl, er, ex, i))]
        if fn in ('FileSystem::MoveFile', 'rename') and len(n['a']) > 1:
            a, b = (kind_of(fr, n['a'][k], args[k], s.names) for k in (0, 1))
            s.n += 1
            key = '%s %s' % (fr.stack()[-1].n, last)
            if (a, b) != ('temp', 'dest'):
                if a or b: s.ctx.violation('names', fr.fn.loc(i), '%s renames %s to %s' % (fr.fn.n, a, b), key + ' names')
                return None
            if s.who == 'write':
                if ph != 'closed': s.ctx.violation('open', fr.fn.loc(i), '%s replaces the state file while its successor is still open (path %s)' % (fr.fn.n, st.path()), key + ' open')
                elif not (any(sim.truth(st, r) is True for r in fl) and any(sim.truth(st, r) is False for r in er)):
                    s.ctx.violation('unchecked', fr.fn.loc(i), '%s replaces the state file although writing of its successor may have failed (path %s)' % (fr.fn.n, st.path()), key + ' unchecked')
                if not any(k == 'sync' for k, r in ex) and not any(k == 'flushqueue' and sim.truth(st, r) is False for k, r in ex):
                    s.ctx.violation('unsynced', fr.fn.loc(i), '%s replaces the state file by one that has not been passed to the disk although option FlushQueue may be active (path %s)' % (fr.fn.n, st.path()), key + ' unsynced')
            else:
                if not any(k == 'dest' and sim.truth(st, r) is False for k, r in ex):
                    s.ctx.violation('restore', fr.fn.loc(i), '%s replaces a state file by an unfinished successor although the state file exists (path %s)' % (fr.fn.n, st.path()), key + ' restore')
            return [st.with_client((ph, fl, er, ex, None))]
        return None

    def on_exit(s, sim, st, fr, val):
        if st.client[4] is not None and s.who == 'write':
            s.ctx.violation('lost', fr.fn.loc(), '%s deletes the state file without putting its successor into place (path %s)' % (fr.fn.n, st.path()), fr.fn.n + ' lost')


def statefile(ctx):
    P = ctx.P
    ms = [f for f in P.fns.values() if f.cl == CLS and f.B]
    ctx.need('class ' + CLS, ms)
    files = {c for c in P.records if 'DiskFile' in P.bases(c)} | {'DiskFile'}
    modes = dict(P.enums['DiskFile::EOpenMode']['v']) if 'DiskFile::EOpenMode' in P.enums else {}
    ctx.need('modes of DiskFile', modes)
    omRead = modes.get('DiskFile::omRead')
    omWrite = set(modes.values()) - {omRead}
    # the names: what is opened for writing, what for reading
    w, r = {}, {}
    for f in ms:
        for i in f.calls():
            c = f.N[i]
            if c['k'] == 'call' and c.get('cl') in files and lastname(c) == 'Open':
                mems = [f.N[j]['m'] for j in f.subtree(c['a'][0]) if f.N[j]['k'] == 'mem' and f.N[j]['cl'] == CLS]
                mode = f.N[c['a'][1]].get('v', f.N[c['a'][1]].get('cv'))
                for m in mems: (w if mode in omWrite else r).setdefault(m, (f, i))
    ctx.need('files opened by StateFile', w and r)
    for m in w:
        if m in r:
            f, i = w[m]
            ctx.violation('in-place', f.loc(i), '%s opens the state file itself (%s) for writing' % (f.n, m), f.n + ' in-place')
    names = {m: 'temp' for m in w}; names.update({m: 'dest' for m in r})
    n = 0
    for f in ms:
        if f.kind == 'ctor': continue
        reads = any(f.N[i].get('fn') == 'DiskFile::Open' and f.N[f.N[i]['a'][1]].get('v') == omRead for i in f.calls())
        c = File(ctx, names, 'read' if reads else 'write'); c.files = files
        if not any(f.N[i].get('fn') in ('FileSystem::MoveFile', 'FileSystem::DeleteFile', 'rename', 'remove', 'unlink') for i in f.calls()): continue
        if not any(f.N[i].get('fn') in ('FileSystem::MoveFile', 'rename') for i in f.calls()): continue
        s = simmod.Sim(P, ctx.eff, c); s.run(f, client=('open' if not reads else 'closed', frozenset(), frozenset(), frozenset(), None))
        n += c.n
    ctx.floor('replacements of state files', n, 2)
    distinct(ctx, ms, names)
    # nobody else touches the names
    for f in P.daemon_fns():
        if f.cl == CLS or f.encl and (P.fns.get(f.encl) or f).cl == CLS: continue
        for i in f.reach_nodes() if f.B else ():
            m = f.N[i]
            if m['k'] == 'mem' and m['cl'] == CLS and m['m'] in names: ctx.violation('foreign', f.loc(i), '%s uses a file name of %s' % (f.n, CLS), f.n + ' foreign')
    return names


def distinct(ctx, ms, names):
    """the constructor gives transactional files two different names"""
    n = 0
    for f in ms:
        if f.kind != 'ctor' or not f.p: continue
        ti = [k for k in range(len(f.p)) if f.ptype(k) == 'bool']
        if not ti: continue

        class D(simmod.Client):
            def after_call(s, sim, st, fr, i, c, obj, args, ret):
                if c['k'] != 'call' or obj is None or c.get('o', -1) < 0: return None
                m = fr.fn.N[c['o']]
                if m['k'] != 'mem' or m['cl'] != CLS or m['m'] not in names: return None
                src = []
                for a in c['a']:
                    for j in fr.fn.subtree(a):
                        x = fr.fn.N[j]
                        if x['k'] == 'str': src.append(x['v'])
                        if x['k'] == 'mem' and x['cl'] == CLS and x['m'] in names: src.append(dict(st.client).get(x['m'], x['m']))
                return [st.with_client(tuple(sorted(dict(st.client, **{m['m']: tuple(src)}).items(), key=str)))]

            def on_exit(s, sim, st, fr, val):
                d = dict(st.client); t = [d.get(m) for m in names]
                if sim.truth(st, ('v', fr.fn.tu, fr.fn.p[ti[0]]['vi'])) is not False:
                    for a in [m for m in names if names[m] == 'temp']:
                        for b in [m for m in names if names[m] == 'dest']:
                            flat = lambda v: ''.join(y if isinstance(y, str) else flat(y) for y in v or ())
                            if a == b or flat(d.get(a)) == flat(d.get(b)):
                                ctx.violation('same-name', fr.fn.loc(), 'a transactional state file and its successor get the same name', 'same-name')
        n += 1
        simmod.Sim(ctx.P, ctx.eff, D()).run(f, client=())
    ctx.floor('constructors of state files', n, 1)


class Saver(simmod.Client):
    """client state: frozenset of (variable, name, transactional, phase, result)"""
    def __init__(s, ctx): s.ctx = ctx; s.n = 0; s.files = set(); s.ctors = {}

    def get(s, st, obj):
        for x in st.client:
            if x[0] == obj: return x
        return (obj, None, None, 'new', None)

    def put(s, st, old, **k):
        d = dict(zip(('obj', 'name', 'trans', 'phase', 'res'), old)); d.update(k)
        return st.with_client(frozenset(x for x in st.client if x[0] != old[0]) | {tuple(d.values())})

    def on_call(s, sim, st, fr, i, n, obj, args):
        if n['k'] == 'ctor' and n.get('cl') == CLS and len(args) == 3:
            s.ctors[(fr.fn.u, i)] = (args[0][1] if args[0][0] == 's' else None, args[2][1] if args[2][0] == 'c' else None)
        if n['k'] != 'call' or n.get('cl') != CLS or obj is None: return None
        last = lastname(n); e = s.get(st, obj); s.n += 1
        nm = e[1] or 'state file'; f = fr.fn
        if last == 'BeginWrite':
            if e[1] is not None and e[2] == 0: s.ctx.violation('transactional', f.loc(i), '%s writes the state file "%s" in place' % (f.n, nm), '%s %s transactional' % (f.n, nm))
            r = sim.fresh(st, (f.u, i)); x = s.put(st, e, phase='begun', res=r); s.files.add(nm)
            return [(x, r)]
        if last == 'FinishWrite':
            if e[3] != 'begun' or sim.truth(st, e[4]) is not True:
                s.ctx.violation('finish', f.loc(i), '%s finishes the state file "%s" without having started to write it (path %s)' % (f.n, nm, st.path()), '%s %s finish' % (f.n, nm))
            r = sim.fresh(st, (f.u, i))
            return [(s.put(st, e, phase='done', res=r), r)]
        if last == 'Discard':
            if e[3] == 'begun' and sim.truth(st, e[4]) is not False:
                s.ctx.violation('discard', f.loc(i), '%s discards the state file "%s" while writing it' % (f.n, nm), '%s %s discard' % (f.n, nm))
            for o in st.client:
                if o[0] != obj and o[3] == 'done' and sim.truth(st, o[4]) is not True and not s.written(f, nm):
                    s.ctx.violation('discard-after-failure', f.loc(i), '%s discards "%s" although the data it complements, "%s", may not have been saved (path %s)' % (f.n, nm, o[1], st.path()),
                                    '%s %s discard-after' % (f.n, nm))
            return [(s.put(st, e, phase='gone', res=None), None)]
        return None

    def written(s, f, nm):
        """the function writes that file as well (it is discarded when there is nothing to save)"""
        if nm not in s.ctx._written.setdefault(f.u, {}): s.ctx._written[f.u][nm] = any(x['k'] == 'ctor' and x.get('cl') == CLS and x['a'] and f.N[x['a'][0]].get('v') == nm for x in f.N) and \
            nm in s.writes
        return s.ctx._written[f.u][nm]

    def on_assign(s, sim, st, fr, i, lv, val):
        c = s.ctors.get((fr.fn.u, i))
        if c is None: return None
        e = s.get(st, lv)
        st.client = frozenset(x for x in st.client if x[0] != lv) | {(lv, c[0], c[1], 'new', None)}
        return None

    def on_deref(s, sim, st, fr, i, obj):
        for x in st.client:
            if x[3] == 'begun' and x[4] == obj and sim.truth(st, obj) is not True:
                s.ctx.violation('null', fr.fn.loc(i), '%s writes the state file "%s" although it may not have been created (path %s)' % (fr.fn.n, x[1], st.path()), '%s %s null' % (fr.fn.n, x[1]))
        return None

    def on_exit(s, sim, st, fr, val):
        f = fr.fn
        for x in st.client:
            if x[3] not in ('begun', 'done'): continue
            if val is None: continue
            for y in sim.assume(st, val, True):
                # does "success" follow from the result of the file operation?
                if x[3] == 'begun':
                    if sim.truth(y, x[4]) is False:
                        s.ctx.violation('success', f.loc(), '%s reports success although the state file "%s" could not be created (path %s)' % (f.n, x[1], st.path()), '%s %s success' % (f.n, x[1]))
                    elif x[2]: s.ctx.violation('unfinished', f.loc(), '%s ends without finishing the state file "%s" (path %s)' % (f.n, x[1], st.path()), '%s %s unfinished' % (f.n, x[1]))
                elif sim.assume(y, x[4], False):
                    s.ctx.violation('success', f.loc(), '%s reports success although "%s" may not have been replaced (path %s)' % (f.n, x[1], st.path()), '%s %s success' % (f.n, x[1]))


def savers(ctx):
    P = ctx.P; n = 0; files = set(); fns = 0
    ctx._written = {}
    for f in P.daemon_fns():
        if f.cl == CLS or not f.B: continue
        if not any(x['k'] == 'ctor' and x.get('cl') == CLS for x in f.N): continue
        if not any(f.N[i].get('cl') == CLS and lastname(f.N[i]) in ('BeginWrite', 'Discard', 'FinishWrite') for i in f.calls()): continue
        c = Saver(ctx); c.writes = writes(f)
        s = simmod.Sim(P, ctx.eff, c); s.run(f, client=frozenset()); n += c.n; files |= c.files; fns += 1
    ctx.floor('operations on state files', n, 12)
    ctx.count('functions that save state', fns)
    ctx.count('state files written', len(files))
    ctx.samples = sorted(x for x in files if x)


def writes(f):
    """names of the files the function writes"""
    vs = {}
    for x in f.N:
        if x['k'] == 'decl':
            for d in x['vars']:
                i = d.get('i', -1)
                if i >= 0 and f.N[i]['k'] == 'ctor' and f.N[i].get('cl') == CLS and f.N[i]['a']: vs[d['vi']] = f.N[f.N[i]['a'][0]].get('v')
    out = set()
    for i in f.calls():
        c = f.N[i]
        if c.get('cl') == CLS and lastname(c) == 'BeginWrite' and c.get('o', -1) >= 0: out.add(vs.get(f.N[c['o']].get('vi')))
    return out


def run(ctx):
    statefile(ctx)
    savers(ctx)
