#!/usr/bin/env python3
"""check runner: run.py ID [quick|thorough] | run.py all
Rebuilds the program model from the source tree (default /repo) and runs rules/<ID>.py on it."""
import sys, os, json, time, hashlib, subprocess, glob, importlib, shutil, traceback
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CACHE = os.environ.get('VERIF_CACHE', os.path.join(V, '.cache'))
sys.path.insert(0, os.path.join(V, 'engine')); sys.path.insert(0, os.path.join(V, 'rules'))
sys.setrecursionlimit(20000)
import ir, effects


class Broken(Exception): pass


def sh(h, *files):
    for f in files:
        with open(f, 'rb') as x: h.update(f.encode()); h.update(x.read())


def build_tool():
    h = hashlib.sha256(); sh(h, os.path.join(V, 'tool', 'extract.cpp'))
    out = os.path.join(CACHE, 'extract-' + h.hexdigest()[:16])
    if not os.path.exists(out):
        os.makedirs(CACHE, exist_ok=True)
        tmp = out + '.%d' % os.getpid()
        libs = sorted(glob.glob('/usr/lib/llvm-18/lib/libclang-cpp.so*'))
        if not libs: raise Broken('libclang-cpp not found')
        r = subprocess.run(['clang++', '-O0', '-fno-rtti', '-w', '-std=c++17', '-I/usr/lib/llvm-18/include', os.path.join(V, 'tool', 'extract.cpp'), '-o', tmp, libs[0],
                            '-L/usr/lib/llvm-18/lib', '-lLLVM-18'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode: raise Broken('extractor does not build: ' + r.stdout.decode()[:2000])
        os.rename(tmp, out)
    return out


def flags(repo):
    inc = ['-I' + os.path.join(V, 'tool', 'config')]
    for d in ('connect', 'extension', 'feed', 'frontend', 'main', 'nntp', 'nserv', 'postprocess', 'queue', 'remote', 'util'): inc.append('-I%s/daemon/%s' % (repo, d))
    return ['-std=c++14', '-w', '-DHAVE_CONFIG_H'] + inc + ['-I%s/lib/par2' % repo, '-I%s/lib/yencode' % repo, '-I/usr/include/libxml2', '-D_DEFAULT_SOURCE', '-D_XOPEN_SOURCE=600']


def extract(tool, root, files, fl, outs):
    """outs: file -> result path"""
    from concurrent.futures import ThreadPoolExecutor
    # big files first, one process per file: parsing is the cost
    files = sorted(files, key=lambda f: -os.path.getsize(f))
    def one(f):
        tmp = outs[f] + '.%d.d' % os.getpid(); os.makedirs(tmp)
        try:
            r = subprocess.run([tool, root, tmp, f, '--'] + fl, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            j = os.path.join(tmp, f[len(root) + 1:].replace('/', '_') + '.json')
            if r.returncode or not os.path.exists(j): return '%s: %s' % (f, r.stdout.decode(errors='replace')[-1500:])
            os.rename(j, outs[f])
        finally: shutil.rmtree(tmp)
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        err = [e for e in ex.map(one, files) if e]
    if err: raise Broken('source does not parse: ' + err[0])


def sources(repo):
    out = []
    for d, _, fs in os.walk(os.path.join(repo, 'daemon')):
        if '/windows' in d: continue
        out += [os.path.join(d, f) for f in fs if f.endswith('.cpp')]
    return sorted(out)


def load(repo=REPO):
    tool = build_tool()
    h = hashlib.sha256(tool.encode())
    hf = []
    for top in ('daemon', 'lib'):
        for d, _, fs in os.walk(os.path.join(repo, top)): hf += [os.path.join(d, f) for f in fs if f.endswith(('.h', '.hpp')) or top == 'lib' and f.endswith('.cpp')]
    for f in sorted(hf):
        with open(f, 'rb') as x: h.update(f[len(repo):].encode()); h.update(x.read())
    sh(h, os.path.join(V, 'tool', 'config', 'config.h'))
    base = h.digest()
    out = os.path.join(CACHE, 'tu'); os.makedirs(out, exist_ok=True)
    outs = {}
    for f in sources(repo):
        k = hashlib.sha256(base + f[len(repo):].encode())
        with open(f, 'rb') as x: k.update(x.read())
        outs[f] = os.path.join(out, '%s-%s.json' % (os.path.basename(f), k.hexdigest()[:24]))
    miss = [f for f in outs if not os.path.exists(outs[f])]
    if miss: extract(tool, repo, miss, flags(repo), outs)
    use = set(outs.values())
    for f in use: os.utime(f)
    for o in glob.glob(os.path.join(out, '*.json')):
        if o not in use and time.time() - os.path.getmtime(o) > 3 * 3600: os.unlink(o)
    return ir.Program([outs[f] for f in sorted(outs)])


def load_selftest(name, repo=REPO):
    """model of a small example file of /verif/selftest (parsed with the real headers)"""
    tool = build_tool()
    src = os.path.join(V, 'selftest', name)
    out = os.path.join(CACHE, 'self-%s-%d.json' % (name, os.getpid()))
    try:
        extract(tool, V, [src], flags(repo), {src: out})
        # functions of the headers are outside of the root and are not needed
        return ir.Program([out])
    finally:
        if os.path.exists(out): os.unlink(out)


class Ctx:
    def __init__(s, pid, tier, P, eff, repo):
        s.id = pid; s.tier = tier; s.P = P; s.eff = eff; s.repo = repo
        s.viol = []; s.counts = {}; s.notes = []; s.assume = []; s.explain = ''; s.samples = {}

    def violation(s, rule, where, msg, key):
        """key identifies the construct without line numbers"""
        s.viol.append(dict(rule=rule, where=where, msg=msg, key='%s|%s' % (rule, key)))

    def count(s, name, n): s.counts[name] = s.counts.get(name, 0) + n

    def floor(s, name, n, least):
        s.counts[name] = n
        if n < least: raise Broken('%s: only %d instances of "%s" found, at least %d expected; the analysis lost its subject' % (s.id, n, name, least))

    def need(s, what, ok):
        if not ok: raise Broken('%s: anchor not found: %s' % (s.id, what))

    def fn(s, name):
        f = s.P.fn(name)
        if f is None: raise Broken('%s: anchor function not found: %s' % (s.id, name))
        return f

    def src(s, path):
        with open(os.path.join(s.repo, path), encoding='utf-8', errors='replace') as h: return h.read()


def known():
    out = []
    p = os.path.join(V, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: property='):
                rest = l[len('finding: property='):]
                pid, rest = rest.split(' ', 1)
                key, desc = rest.split(' :: ', 1)
                assert key.startswith('key=')
                out.append((pid, key[4:], desc))
    return out


def run_one(pid, tier, P, eff, repo):
    t0 = time.time()
    mod = importlib.import_module(pid.lower())
    ctx = Ctx(pid, tier, P, eff, repo)
    rc = 0
    try: mod.run(ctx)
    except Broken as e:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, e)); return 2
    kn = [(k, d) for p, k, d in known() if p == pid]
    new = []; seen = set()
    for v in ctx.viol:
        if v['key'] in seen: continue
        seen.add(v['key'])
        hit = [d for k, d in kn if k == v['key']]
        if hit: print('KNOWN-FINDING: property=%s %s [%s]' % (pid, hit[0], v['where']))
        else: new.append(v)
    ev = os.path.join(V, 'evidence'); os.makedirs(ev, exist_ok=True)
    rep = os.path.join(ev, '%s.violations.txt' % pid)
    if os.path.exists(rep): os.unlink(rep)
    if new:
        with open(rep, 'w') as h:
            for v in new: h.write('%s: [%s] %s\n    key: %s\n' % (v['where'], v['rule'], v['msg'], v['key']))
        for v in new: print('%s: [%s] %s' % (v['where'], v['rule'], v['msg']))
        print('VIOLATION property=%s replay=%s' % (pid, rep))
        rc = 1
    cov = {'explanation': ctx.explain or (mod.__doc__ or '').strip(),
           'translation_units': len(P.tus), 'functions': len([f for f in P.fns.values() if f.file.startswith('daemon/')])}
    cov.update({k: v for k, v in ctx.counts.items()})
    if ctx.samples: cov['samples'] = ctx.samples
    d = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1')), level=getattr(mod, 'LEVEL', 'other'), coverage=cov,
             assumptions=ctx.assume or getattr(mod, 'ASSUMPTIONS', []), wall_s=round(time.time() - T0, 1), violations=len(new))
    with open(os.path.join(ev, pid + '.json'), 'w') as h: json.dump(d, h, indent=1)
    print('%s %s: %s in %.1fs (%s)' % (pid, tier, 'held' if rc == 0 else 'VIOLATED', time.time() - t0, ', '.join('%s=%s' % x for x in list(ctx.counts.items())[:8])))
    return rc


T0 = time.time()


def main():
    if sys.argv[1] == 'setup':
        build_tool(); load(); return 0
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    try:
        P = load()
        eff = effects.Effects(P)
    except Broken as e:
        print('ANALYSIS-BROKEN %s' % e); return 2
    ids = [os.path.basename(f)[:-3].upper() for f in sorted(glob.glob(os.path.join(V, 'rules', 'c[0-9][0-9].py')))] if pid == 'all' else [pid]
    rc = 0
    for p in ids:
        try: r = run_one(p, tier, P, eff, REPO)
        except Exception:
            traceback.print_exc(); r = 3
        rc = max(rc, r)
    return rc


if __name__ == '__main__': sys.exit(main())
