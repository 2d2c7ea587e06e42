"""What is protected by what (names that no longer exist are ignored; rules demand a minimum number of obligations instead)."""
import locks
from ir import bare
DQ = ('DownloadQueue', 'm_lockMutex')


def model(ctx):
    L = getattr(ctx.P, '_locks', None)
    if L is None: L = ctx.P._locks = locks.Locks(ctx.P)
    return L


# functions that run before the threads of the program are started (or while the program is being stopped and they have ended)
STARTUP = {'Log::InitOptions', 'StatMeter::Init', 'ServerPool::AddServer', 'QueueCoordinator::Load', 'PrePostProcessor::SanitisePostQueue', 'Options::Init',
           'FeedCoordinator::AddFeed', 'Scheduler::FirstCheck', 'NServMain', 'FeedCoordinator::InitOptions'}

# (class, member): lock, 'rw' every access / 'w' every modification / 'x' accesses of other threads and releases only
FIELDS = {}
def t(lock, mode, names):
    lock = tuple(lock.rsplit('::', 1))
    for n in names.split():
        c, m = n.rsplit('::', 1)
        FIELDS[(c, m)] = (lock, mode)


t('Log::m_logMutex', 'rw', 'Log::m_messages Log::m_logFile Log::m_idMessageGen')
t('Log::m_debugMutex', 'rw', 'Log::m_debuggables')
t('ArticleCache::m_allocMutex', 'w', 'ArticleCache::m_allocated')
t('ArticleCache::m_contentMutex', 'rw', 'FileInfo::m_flushLocked')
t('CommandScriptLog::m_logMutex', 'rw', 'CommandScriptLog::m_messages CommandScriptLog::m_idMessageGen CommandScriptLog::m_idScriptGen')
t('DirectUnpack::m_volumeMutex', 'rw', 'DirectUnpack::m_archives DirectUnpack::m_waitingFile')
t('DirectUnpack::m_volumeMutex', 'w', 'DirectUnpack::m_nzbCompleted')
t('FeedCoordinator::m_downloadsMutex', 'rw', 'FeedCoordinator::m_activeDownloads FeedCoordinator::m_feedCache FeedCoordinator::m_feedHistory FeedCoordinator::m_save')
t('Maintenance::m_logMutex', 'rw', 'Maintenance::m_messages Maintenance::m_idMessageGen')
t('Maintenance::m_controllerMutex', 'w', 'Maintenance::m_updateScriptController')
t('NzbInfo::m_logMutex', 'rw', 'NzbInfo::m_messages NzbInfo::m_idMessageGen')
t('NntpCache::m_lock', 'rw', 'NntpCache::m_items')
t('ParChecker::m_queuedParFilesMutex', 'rw', 'ParChecker::m_queuedParFiles ParChecker::m_queuedParFilesChanged')
t('ParChecker::m_repairerMutex', 'x', 'ParChecker::m_repairer')
t('QueueScriptCoordinator::m_queueMutex', 'rw', 'QueueScriptCoordinator::m_queue QueueScriptCoordinator::m_curItem')
t('RemoteServer::m_processorsMutex', 'rw', 'RemoteServer::m_activeProcessors')
t('Scanner::m_scanMutex', 'rw', 'Scanner::m_fileList Scanner::m_queueList')
t('Scanner::m_scanMutex', 'w', 'Scanner::m_requestedNzbDirScan Scanner::m_scanning')
t('Scheduler::m_taskListMutex', 'rw', 'Scheduler::m_taskList Scheduler::m_lastCheck')
t('ServerPool::m_connectionsMutex', 'rw', 'ServerPool::m_connections ServerPool::m_levels PooledConnection::m_inUse ServerPool::PooledConnection::m_inUse ServerPool::PooledConnection::m_freeTime')
t('ServerPool::m_connectionsMutex', 'w', 'ServerPool::m_sortedServers ServerPool::m_generation ServerPool::m_maxNormLevel NewsServer::m_blockTime')
t('ServiceCoordinator::m_waitMutex', 'rw', 'ServiceCoordinator::m_workenUp')
t('StatMeter::m_statMutex', 'rw', 'StatMeter::m_pausedFrom')
t('StatMeter::m_statMutex', 'w', 'StatMeter::m_standBy')
t('StatMeter::m_volumeMutex', 'rw', 'StatMeter::m_serverVolumes')
t('StatMeter::m_volumeMutex', 'w', 'StatMeter::m_statChanged')
t('ScriptController::m_runningMutex', 'rw', 'ScriptController::m_runningScripts')
t('Thread::m_threadMutex', 'rw', 'Thread::m_threadCount')
t('NZBGet::m_waitMutex', 'w', 'NZBGet::m_stopped')
t('ArticleDownloader::m_connectionMutex', 'x', 'ArticleDownloader::m_connection')
t('WebDownloader::m_connectionMutex', 'x', 'WebDownloader::m_connection')

# protected by the queue lock
QFIELDS = {}
def q(mode, names):
    for n in names.split():
        c, m = n.rsplit('::', 1)
        QFIELDS[(c, m)] = (DQ, mode)


q('rw', 'DownloadQueue::m_queue DownloadQueue::m_history PrePostProcessor::m_activeJobs QueueCoordinator::m_activeDownloads UrlCoordinator::m_activeDownloads '
        'QueueCoordinator::m_historyChanged QueueCoordinator::CoordinatorDownloadQueue::m_massEdit QueueCoordinator::CoordinatorDownloadQueue::m_wantSave '
        'QueueCoordinator::CoordinatorDownloadQueue::m_historyChanged')
q('w', 'NzbInfo::m_currentServerStats NzbInfo::m_currentSuccessArticles NzbInfo::m_currentSuccessSize NzbInfo::m_currentFailedSize NzbInfo::m_deleting '
       'NzbInfo::m_downloadedSize NzbInfo::m_extraPriority NzbInfo::m_healthPaused NzbInfo::m_parCurrentSuccessSize NzbInfo::m_parSuccessSize NzbInfo::m_parkedFileCount '
       'NzbInfo::m_postInfo NzbInfo::m_serverStats NzbInfo::m_successArticles NzbInfo::m_successSize NzbInfo::m_unpackThread NzbInfo::m_avoidHistory NzbInfo::m_cleanupDisk '
       'FileInfo::m_activeDownloads FileInfo::m_partialState FileInfo::m_dupeDeleted PostInfo::m_deleted PostInfo::m_needParCheck PostInfo::m_postThread '
       'HistoryInfo::m_kind HistoryInfo::m_info')
q('rw', 'NzbInfo::m_finalDir NzbInfo::m_scriptStatuses NzbInfo::m_completedFiles PostInfo::m_progressLabel')

MUTATORS = ('push', 'pop', 'emplace', 'insert', 'erase', 'clear', 'reset', 'resize', 'swap', 'assign', 'sort', 'splice', 'Set', 'Add', 'Remove', 'Append', 'operator=', 'reserve', 'release', 'Bind', 'Format')


def accesses(ctx, table):
    """(fn, node, (class, member), mode, access is a modification)"""
    P = ctx.P
    for f in P.daemon_fns():
        if not f.B: continue
        for i in f.reach_nodes():
            n = f.N[i]
            if n['k'] == 'mem': k = (n['cl'], n['m'])
            elif n['k'] == 'ref' and n.get('dk') == 'glob' and '::' in (n.get('d') or ''): k = tuple(n['d'].rsplit('::', 1))
            else: continue
            e = table.get(k)
            if e is None: continue
            # construction and destruction of the owner
            if f.kind in ('ctor', 'dtor') and f.cl and n['k'] == 'mem' and k[0] in P.bases(f.cl): continue
            if f.n.endswith('::operator=') and f.cl == k[0]: continue
            yield f, i, k, e, modifies(f, i)


def modifies(f, i):
    for p in f.parents()[i]:
        m = f.N[p]
        if m['k'] == 'bin' and m['op'].endswith('=') and m['op'] not in ('==', '!=', '<=', '>=') and m['x'] == i: return True
        if m['k'] == 'un' and m['op'] in ('++', '--', '++p', '--p'): return True
        if m['k'] == 'un' and m['op'] == '&': return True
        if m['k'] == 'call' and m.get('o') == i and (m.get('fn', '').split('::')[-1].startswith(MUTATORS) or m.get('op') in ('=', '+=', '-=', '++', '--')): return True
    return False


def exempt(ctx, f, i, lock):
    """a member handed to the guard that locks it: GuardedX(&m_messages, &m_logMutex)"""
    st = [i]; seen = set()
    while st:
        x = st.pop()
        for p in f.parents()[x]:
            if p in seen: continue
            seen.add(p); m = f.N[p]
            if m['k'] in ('un', 'cast'): st.append(p)
            if m['k'] == 'ctor' and m.get('cl', '').startswith('GuardedPtr<') and len(m['a']) == 2:
                L = model(ctx)
                if L.mutex(f, m['a'][1]) == lock: return True
    return False


def check_fields(ctx, table, rule, skip=()):
    L = model(ctx); P = ctx.P; n = 0; seen = set()
    start = startup_entries(ctx)
    for f, i, k, (lock, mode), w in accesses(ctx, table):
        if f.n in STARTUP or f.u in skip: continue
        if mode == 'w' and not w: continue
        if mode == 'x':
            rel = w and releases(f, i)
            other = f.n.split('::')[-1] in ('Stop', 'Cancel', 'Terminate') or f.kind not in ('ctor', 'dtor') and f.cl and k[0] not in P.bases(f.cl)
            if not rel and not other: continue
        m = start.get(f.u)
        if m is None: continue         # only reached while starting up
        h = m | L.snap[f.u].get(i, (frozenset(), frozenset()))[0]
        n += 1; seen.add(k)
        if lock in h or exempt(ctx, f, i, lock): continue
        why = L.why(f, lock)
        ctx.violation(rule, f.loc(i), '%s::%s is %s by %s without holding %s::%s%s' % (k[0], k[1], 'modified' if w else 'accessed', f.n, lock[0], lock[1],
                      ', reached through ' + ' <- '.join(why[:6]) if why else ''), '%s::%s in %s' % (k[0], k[1], f.n))
    return n, seen


def releases(f, i):
    for p in f.parents()[i]:
        m = f.N[p]
        if m['k'] == 'bin' and m['op'] == '=':
            y = m['y']
            while f.N[y]['k'] == 'cast': y = f.N[y]['x']
            if f.N[y]['k'] in ('null', 'nullptr') or f.N[y]['k'] == 'int' and f.N[y].get('v') == 0: return True
        if m['k'] == 'call' and m.get('o') == i and m.get('fn', '').endswith(('::reset', '::operator=')): return not wascreated(f, p)
    return False


def wascreated(f, p):
    """m_x = make_unique<...>: creation"""
    m = f.N[p]
    return any(f.N[j].get('fn', '').startswith('std::make_unique') or f.N[j]['k'] == 'new' for a in m.get('a', ()) if a >= 0 for j in f.subtree(a))


def startup_entries(ctx):
    """must-hold lock sets at function entries when calls made by start-up code are left out"""
    L = model(ctx)
    r = getattr(L, '_start', None)
    if r is not None: return r
    E = frozenset()
    must = {x: None for x in L.edges}
    # functions reached from start-up code only never get a lock set
    work = []
    for x in L.roots:
        if L.fns[x[0]].n not in STARTUP: must[x] = E; work.append(x)
    while work:
        x = work.pop()
        sn = L.snap.get(x[0], {})
        # the parser fills objects that are not part of the queue yet
        if L.fns[x[0]].n in STARTUP or L.fns[x[0]].cl == 'NzbFile': continue
        for i, t in L.edges[x]:
            lm = sn.get(i, (E, E))[0] if i is not None else E
            nm = lm | must[x]; o = must[t]
            m2 = nm if o is None else o & nm
            if m2 != o: must[t] = m2; work.append(t)
    r = {}
    for x in L.edges:
        if must[x] is None: continue
        o = r.get(x[0]); r[x[0]] = must[x] if o is None else o & must[x]
    L._start = r
    return r
