"""Jobs report their end.  Typestate over all paths of the thread function of every job, with summaries of what it calls: the job is handed to a thread
(PostInfo::SetPostThread, NzbInfo::SetUnpackThread, Subject::Attach); the thread has to give it back on every path - PostInfo::SetWorking(false) and a status that is
not the one which starts the same step again, a final status and a notification for downloads, CheckQueue for queue-scripts."""
from common import *
import sim as simmod
from typestate import Typestate

LEVEL = 'other'
TECHNIQUE = 'interprocedural typestate analysis of job threads (completion reported on every path), with path-sensitive summaries'
NOTE = ('Decided: that the end of a job is reported on every path on which its thread function ends. Whether the function ends at all (loops, blocking system calls, external programs) is not decided, '
        'that a job which throws an exception ends the program is assumed.')
ASSUMPTIONS = ['functions called by a job return', 'virtual functions are those of the job\'s class and of its parts']
NOTIFIED, WORK, STATUS, FREED, FINAL = 1, 2, 4, 8, 16
NAMES = {NOTIFIED: 'notifying the observers that wait for it', WORK: 'PostInfo::SetWorking(false)', STATUS: 'recording a status of the step', FREED: 'removing itself from the item (SetUnpackThread)', FINAL: 'setting a final status'}
#  setters that record the result of a step: those whose getter decides in PrePostProcessor::StartJob which step is next
MARKS = {('SetRequestParCheck', 1), ('SetStage', 'ptFinished')}


def outer(cl): return (cl or '').split('::')[0]


class Job(Typestate):
    def __init__(s, ctx, run, kind, K=12):
        Typestate.__init__(s, ctx, K); s.root = run; s.kind = kind; P = ctx.P
        s.own = {run.cl} | set(P.bases(run.cl)) | {outer(run.cl)}

    def observers(s): s.ntf = {}; s.up = {}; s.att = []
    def targets(s, f, i):
        out = []
        for g in s.P.targets(f, i):
            c = g.cl or ''
            if s.f_virtual(f, i) and c and outer(c) not in s.own and c not in s.own and not any(b in s.own for b in s.P.bases(c)): continue     # the function of another job
            out.append(g)
        return out
    def f_virtual(s, f, i): return f.N[i].get('vm') or f.N[i].get('cm')

    def mine(s, f):
        c = f.cl or (f.encl.cl if getattr(f, 'encl', None) else '') or ''
        return c in s.own or outer(c) in s.own

    def event1(s, f, i, n):
        if n['k'] != 'call': return None
        fn = n.get('fn') or ''; cl, _, last = fn.rpartition('::')
        if fn == 'Subject::Notify' and s.mine(f): return 'notify' if s.kind == 'subject' else None
        if s.kind == 'subject' and last == 'SetStatus' and cl in s.own: return 'setstatus'
        if s.kind in ('post', 'direct') and s.mine(f):
            if fn == 'PostInfo::SetWorking': return 'working'
            if cl == 'NzbInfo' and re.fullmatch(r'Set\w+Status', last) and last in s.setters: return 'status'
            if fn in ('PostInfo::SetRequestParCheck', 'PostInfo::SetStage'): return 'mark'
        if s.kind == 'direct' and s.mine(f):
            if fn == 'NzbInfo::SetUnpackThread': return 'thread'
            if fn == 'NzbInfo::GetUnpackThread': return 'which'
            if fn == 'NzbInfo::GetPostInfo': return 'post'
            if last == 'Find' and bare(f.typ(i)) == 'NzbInfo': return 'find'
        if s.kind == 'script' and fn == 'QueueScriptCoordinator::CheckQueue': return 'notify'
        return None

    def step(s, k, x, st, f, i, args):
        a = args[0] if args else ('u',)
        if k == 'notify': return x | NOTIFIED
        if k == 'setstatus':
            x &= ~(NOTIFIED | FINAL)
            if s.final(st, a): x |= FINAL
            if s.notifying: x |= NOTIFIED
            return x
        if k == 'working': return x | WORK if a == ('c', 0) else x & ~WORK if a == ('c', 1) else x
        if k == 'status': return x if a == ('c', s.running if s.kind == 'direct' else 0) else x | STATUS
        if k == 'mark':
            if a[0] == 'c' and a[1] == 0: return x
            last = f.N[i]['fn'].rpartition('::')[2]
            return x if last == 'SetStage' and a != ('c', s.finished) else x | STATUS
        if k == 'thread': return x | FREED if a == ('c', 0) else x & ~FREED
        ALL = WORK | STATUS | FREED
        new = ('u', ('answer', f.u, i))
        if k == 'find': return [(st.with_client(ALL), ('c', 0)), (st.with_client(x), ('addr', new))]
        if k == 'which': return [(st.with_client(x), ('this',)), (st.with_client(ALL), ('addr', new))] if not x & FREED else None
        if k == 'post': return [(st.with_client(x | WORK), ('c', 0)), (st.with_client(x), ('addr', ('u', ('post',))))]
        return x

    def final(s, st, a):
        if a[0] == 'c': return a[1] in s.finals
        return all(s.sim.truth(st, ('eq', a, ('c', v))) is False for v in s.values if v not in s.finals)


def updates(P):
    """values of the status at which observers take a download for ended: per class of the enumeration"""
    out = {}
    for f in P.daemon_fns():
        if f.n.split('::')[-1] != 'Update' or 'Observer' not in P.bases(f.cl or ''): continue
        for i in f.reach_nodes():
            n = f.N[i]
            if n['k'] != 'bin' or n['op'] not in ('==', '!='): continue
            xs = [f.N[y] for y in (n['x'], n['y'])]
            t = bare(f.typ(n['x'])) if 'EStatus' in f.typ(n['x']) else bare(f.typ(n['y']))
            for y in (n['x'], n['y']):
                z = y
                while f.N[z]['k'] == 'cast' and 'cv' not in f.N[z]: z = f.N[z]['x']
                v = f.N[z].get('cv', f.N[z].get('v') if f.N[z]['k'] == 'int' else None)
                e = f.N[z]
                while e['k'] == 'cast': e = f.N[e['x']]
                if v is not None and e['k'] == 'ref' and e.get('dk') == 'enum': out.setdefault(bare(f.T[e['t']]) if 't' in e else t, set()).add(v)
    return out


class Enter(Typestate):
    """a job is marked as being worked on before its thread is started"""
    def __init__(s, ctx, starters, K): Typestate.__init__(s, ctx, K); s.starters = starters; s.bad = {}
    def observers(s): s.ntf = {}; s.up = {}; s.att = []
    def event1(s, f, i, n):
        if n['k'] != 'call': return None
        if n.get('fn') == 'PostInfo::SetWorking': return 'working'
        if n.get('f') in s.starters: return 'start'
        return None
    def step(s, k, x, st, f, i, args):
        if k == 'working': return WORK if args and args[0] == ('c', 1) else 0 if args and args[0] == ('c', 0) else x
        if not x: s.bad[(f.u, i)] = st.path()
        return x


class Started(simmod.Client):
    """a thread that was handed a job is started"""
    def __init__(s, P, f): s.P = P; s.f = f; s.n = 0; s.reg = {}
    def should_inline(s, sim, g): return False
    def on_call(s, sim, st, fr, i, n, obj, args):
        f = fr.fn; last = (n.get('fn') or '').rpartition('::')[2]
        if last in ('SetPostThread', 'SetUnpackThread') and args and args[0] != ('c', 0):
            s.n += 1; s.reg[i] = last; st.client = st.client | {i}
        elif last == 'Attach' and n.get('o', -1) >= 0:
            o = n['o']
            while f.N[o]['k'] == 'cast' and bare(f.typ(o)) == 'Subject': o = f.N[o]['x']
            if 'Thread' in s.P.bases(bare(f.typ(o))) and f.N[o]['k'] != 'this': s.n += 1; s.reg[i] = 'Attach'; st.client = st.client | {i}
        elif last == 'Start' and 'Thread' in s.P.bases((n.get('fn') or '').rpartition('::')[0]) | {(n.get('fn') or '').rpartition('::')[0]}: st.client = frozenset()
        return None


def run(ctx):
    P = ctx.P
    isrun = {f.cl: f for f in P.daemon_fns() if f.n.split('::')[-1] == 'Run' and f.cl and 'Thread' in P.bases(f.cl)}
    fn = lambda c: next((isrun[b] for b in [c] + list(P.bases(c)) if b in isrun), None)
    jobs = {}; starters = {}
    for f in P.daemon_fns():
        for i in f.calls():
            n = f.N[i]; name = n.get('fn') or ''; last = name.rpartition('::')[2]
            if name in ('PostInfo::SetPostThread', 'NzbInfo::SetUnpackThread') and n.get('a'):
                a = n['a'][0]
                while f.N[a]['k'] == 'cast' and bare(f.typ(a)) in ('Thread', ''): a = f.N[a]['x']
                c = bare(f.typ(a))
                if c in P.records and 'Thread' in P.bases(c):
                    jobs[c] = 'post' if last == 'SetPostThread' else 'direct'; starters[f.u] = f
            if name == 'Subject::Attach' and n.get('o', -1) >= 0:
                o = n['o']
                while f.N[o]['k'] == 'cast' and bare(f.typ(o)) == 'Subject': o = f.N[o]['x']
                c = bare(f.typ(o))
                if c in P.records and 'Thread' in P.bases(c) and f.N[o]['k'] != 'this': jobs.setdefault(c, 'subject'); starters[f.u] = f
    for c in P.records:
        if c.endswith('QueueScriptController') and c in isrun: jobs[c] = 'script'
    ctx.floor('kinds of jobs', len(jobs), 6)
    fin = updates(P)
    # status of NzbInfo that decide about the next step
    sj = P.fn('PrePostProcessor::StartJob'); setters = set()
    if sj:
        for u in {sj.u}:
            for i in P.fns[u].calls():
                m = re.fullmatch(r'NzbInfo::Get(\w+Status)', P.fns[u].N[i].get('fn') or '')
                if m: setters.add('Set' + m.group(1))
    setters = {x for x in setters if x != 'SetDeleteStatus'}
    if not setters: setters = {'SetParRenameStatus', 'SetRarRenameStatus', 'SetParStatus', 'SetUnpackStatus', 'SetCleanupStatus', 'SetMoveStatus'}
    finished = next((v for x, v in P.enums.get('PostInfo::EStage', {'v': []})['v'] if x.endswith('ptFinished')), None)
    running = next((v for x, v in P.enums.get('NzbInfo::EDirectUnpackStatus', {'v': []})['v'] if x.endswith('nsRunning')), 1)
    done = {}
    for c, kind in sorted(jobs.items()):
        f = fn(c)
        if not f or f.cl == 'Thread': continue
        if (f.u, kind) in done: continue
        done[(f.u, kind)] = c; ctx.src(f.file)
        for K in (12, 80):
            J = Job(ctx, f, kind, K); J.root_cl = c; J.own |= {c} | set(P.bases(c))
            J.finished = finished; J.running = running; own = {x for x in setters if related(x, f.cl)} or setters
            J.setters = own if kind != 'direct' else {'SetDirectUnpackStatus'}
            J.finals, J.values, J.notifying = set(), set(), False
            if kind == 'subject':
                for b in [f.cl] + list(P.bases(f.cl)):
                    e = b + '::EStatus'
                    if e in P.enums: J.values = {v for x, v in P.enums[e]['v']}; J.finals = fin.get(e, set())
                for g in P.daemon_fns():
                    if g.n.split('::')[-1] == 'SetStatus' and g.cl in J.own and any((g.N[i].get('fn') or '') == 'Subject::Notify' for i in g.calls()): J.notifying = True
            need = {'post': WORK | STATUS, 'direct': FREED | STATUS | WORK, 'script': NOTIFIED, 'subject': NOTIFIED | (FINAL if J.finals else 0)}[kind]
            J.run(roots=[(f.u, 0)])
            outs = J.sum.get((f.u, 0, ()), {})
            bad = {o: p for (o, t), p in outs.items() if need & ~o}
            if not bad: break
        ctx.count('jobs', 1); ctx.count('summaries', len(J.sum)); ctx.count('events on paths', J.ev)
        ctx.samples.setdefault('jobs', []).append('%s (%s): %s' % (c, kind, ', '.join(NAMES[b] for b in NAMES if need & b)))
        for o, p in sorted(bad.items()):
            for b in sorted(NAMES):
                if need & b and not o & b: ctx.violation('end', f.loc(), '%s may end without %s (path %s)' % (f.n, NAMES[b], p), '%s %s' % (f.n, NAMES[b]))
        for n in sorted(J.trunc): ctx.notes.append('not all paths of %s were followed' % n)
    ctx.floor('jobs', len(done), 6)
    for u, f in sorted(starters.items()):
        c = Started(P, f); m = simmod.Sim(P, ctx.eff, c, K=20, budget=40000)
        for st, v in m.run_fn(simmod.Frame(f, ('this',)), [simmod.State(client=frozenset())]):
            for i in sorted(st.client): ctx.violation('start', f.loc(i), '%s hands a job to a thread (%s) that may not be started (path %s)' % (f.n, c.reg.get(i), st.path()), f.n)
        ctx.count('functions that start jobs', 1)
    posts = {u for u, f in starters.items() if any(f.N[i].get('fn') == 'PostInfo::SetPostThread' for i in f.calls())}
    callers = {g for u in posts for g, i, how in P.callers().get(u, ())}
    for g in sorted(callers, key=lambda g: g.u):
        for K in (12, 80):
            E = Enter(ctx, posts, K); E.run(roots=[(g.u, 0)])
            if not E.bad: break
        ctx.count('functions that hand over jobs', 1); ctx.src(g.file)
        for (u, i), p in sorted(E.bad.items()):
            f = P.fns[u]; ctx.violation('enter', f.loc(i), '%s starts a job that is not marked as being worked on (path %s)' % (f.n, p), f.n)


def related(setter, cl):
    words = {'Rename': ('ParRename', 'RarRename'), 'Repair': ('ParStatus',), 'Unpack': ('Unpack',), 'Cleanup': ('Cleanup',), 'Move': ('Move',)}
    for w, ks in words.items():
        if cl.startswith(w): return any(k in setter for k in ks)
    return False
