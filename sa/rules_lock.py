"""L01-L03: what is locked, in which order, and what is touched under it."""
import ts
from ir import Broken, show, walk
from locks import ACCESS, SERVICE, THREADS, LockMonitor, cycles, run_all
from report import rule
from rules_basic import primitives

CONTROL = 'Main.lock'
X = CONTROL + '!'
ENGINE = 'Engine.lock'

# what is touched -> one of these sets must be held
GUARDS = {
    ('store', 'Ref', 'part'): ([{ENGINE, ACCESS}, {X}], 'the partition of a range is replaced'),
    ('load', 'Ref', 'part'): ([{ACCESS}, {SERVICE}, {ENGINE}, {X}], 'the partition of a range is read'),
    ('store', 'Part', 'state'): ([{ACCESS}, {X}], 'which files a partition has is changed'),
    ('load', 'Part', 'state'): ([{ACCESS}, {SERVICE}, {ENGINE}, {X}], 'which files a partition has is read'),
    ('store', 'Part', 'memtable'): ([{ACCESS}, {X}], 'the active memory table is switched'),
    ('load', 'Part', 'memtable'): ([{ACCESS}, {SERVICE}, {ENGINE}, {X}], 'the active memory table is read'),
    ('store', 'Part', 'cloud'): ([{ENGINE}, {X}], 'the cloud of a partition is changed'),
    ('store', 'Storage', 'list_count'): ([{ENGINE}, {X}], 'partitions of a storage are listed'),
    ('store', 'StorageMgr', 'list_count'): ([{X}], 'storages are listed'),
    ('store', 'CloudMgr', 'list_count'): ([{X}], 'clouds are listed'),
    ('store', 'Service', 'list_count'): ([{'Service.lock'}], 'the service queue is changed'),
    ('store', 'MemoryMgr', 'free_list'): ([{'MemoryMgr.lock'}], 'the list of free pages is changed'),
    ('store', 'MemoryMgr', 'free_list_count'): ([{'MemoryMgr.lock'}], 'the list of free pages is changed'),
    ('store', 'MemoryMgr', 'count'): ([{'MemoryMgr.lock'}], 'the number of pages is changed'),
    ('store', 'Cache', 'list_count'): ([{'Cache.lock'}], 'a list of cached contexts is changed'),
    ('store', 'Wal', 'current'): ([{'Wal.lock'}], 'the current wal file is switched'),
    ('store', 'WalId', 'list_count'): ([{'WalId.lock'}], 'the list of wal files is changed'),
    ('call', 'mapping_add'): ([{ENGINE}, {X}], 'a range is added'),
    ('call', 'mapping_remove'): ([{X}], 'a range is removed'),
    ('call', 'mapping_match'): ([{ENGINE}, {X}], 'ranges are searched'),
    ('call', 'mapping_gte'): ([{ENGINE}, {X}], 'ranges are searched'),
    ('call', 'mapping_next'): ([{ENGINE}, {X}], 'ranges are walked'),
    ('call', 'memtable_set'): ([{ACCESS}], 'an event is written to memory'),
    ('call', 'memtable_unset'): ([{ACCESS}], 'an event is removed from memory'),
    ('call', 'memtable_move'): ([{ACCESS}], 'a memory table is moved'),
    ('call', 'part_cursor_open'): ([{ACCESS}], 'a partition is opened for reading'),
    ('call', 'part_cursor_next'): ([{ACCESS}], 'a partition is read'),
    ('call', 'part_delete'): ([{SERVICE}], 'a partition file is deleted'),
    ('call', 'part_rename'): ([{SERVICE}], 'a partition file is renamed'),
    ('call', 'part_create'): ([{SERVICE}], 'a partition file is created'),
    ('call', 'part_upload'): ([{SERVICE}], 'a partition is uploaded'),
    ('call', 'part_download'): ([{SERVICE}], 'a partition is downloaded'),
    ('call', 'part_offload'): ([{SERVICE, ACCESS}], 'a partition is removed from storage or cloud'),
    ('call', 'wal_file_write'): ([{'Wal.lock'}], 'the wal is written'),
    ('call', 'storage_mgr_create'): ([{X}], 'storages are changed'),
    ('call', 'storage_mgr_drop'): ([{X}], 'storages are changed'),
    ('call', 'storage_mgr_alter'): ([{X}], 'storages are changed'),
    ('call', 'storage_mgr_rename'): ([{X}], 'storages are changed'),
    ('call', 'cloud_mgr_create'): ([{X}], 'clouds are changed'),
    ('call', 'cloud_mgr_drop'): ([{X}], 'clouds are changed'),
    ('call', 'cloud_mgr_alter'): ([{X}], 'clouds are changed'),
    ('call', 'cloud_mgr_rename'): ([{X}], 'clouds are changed'),
    ('call', 'pipeline_alter'): ([{X}], 'the pipeline is changed'),
    ('call', 'control_save_config'): ([{X}], 'the configuration is saved'),
    ('list', 'Cache', 'list'): ([{'Cache.lock'}], 'a list of cached contexts is changed'),
    ('list', 'Service', 'list'): ([{'Service.lock'}], 'the service queue is changed'),
    ('list', 'ServiceReq', 'link'): ([{'Service.lock'}], 'the service queue is changed'),
    ('list', 'Storage', 'list'): ([{ENGINE}, {X}], 'partitions of a storage are listed'),
    ('list', 'Part', 'link'): ([{ENGINE}, {X}], 'partitions of a storage are listed'),
    ('list', 'StorageMgr', 'list'): ([{X}], 'storages are listed'),
    ('list', 'Storage', 'link'): ([{X}], 'storages are listed'),
    ('list', 'CloudMgr', 'list'): ([{X}], 'clouds are listed'),
    ('list', 'Cloud', 'link'): ([{X}], 'clouds are listed'),
    ('call', 'lockage_lock'): ([{ENGINE}], 'a partition lock is taken'),
    ('call', 'lockage_unlock'): ([{ENGINE}], 'a partition lock is released'),
}

_run = {}


def lock_run(prog, watch=False):
    if watch in _run:
        return _run[watch]
    m = LockMonitor(prog)
    if watch:
        m.private_from = {'part_allocate', 'ref_allocate', 'mn_malloc'}
        m.private_fields = {('Merger', 'part')}
        m.watch = {k[1:] for k in GUARDS if k[0] == 'store'}
        m.watch_loads = {k[1:] for k in GUARDS if k[0] == 'load'}
        m.watch_calls = {k[1] for k in GUARDS if k[0] == 'call' and not k[1].startswith('lockage')
                         and prog.has(k[1])}
        m.want_loads = True
        m.watch_lists = {k[1:] for k in GUARDS if k[0] == 'list'}
        m.list_calls = {n for n in ('list_append', 'list_pop', 'list_unlink') if prog.has(n)}
    r = run_all(prog, m)
    _run[watch] = (m, r)
    return m, r


def common(prog, res, m, runs):
    for name, f, st, ex, eng in runs:
        res.count('entry_points')
        res.count('path_states', eng.steps)
        for k in eng.fns:
            res.fn(k)
    res.need('entry_points', 30)
    res.counts['lock_operations'] = m.obligations
    res.counts['lock_classes'] = len(m.acquisitions)
    res.need('lock_operations', 300)
    res.need('lock_classes', 8)


@rule('L01')
def locks_released(prog, res):
    m, runs = lock_run(prog)
    common(prog, res, m, runs)
    for key, r in m.reports.items():
        if key[0] in ('unheld', 'double', 'iter', 'log', 'wait', 'nolock', 'logref'):
            res.ob(False, '%s:%s' % (key[0], key[1]), r['where'], r['message'], detail(r))
    for name, f, st, ex, eng in runs:
        for kind, q, rv in sorted(ex, key=repr):
            held, cref, log = q
            held = tuple(x for x in held if x[0] != THREADS)
            how = 'throws out of the library' if kind == 'T' else 'returns %s' % (rv[1] if rv and rv[0] == '=' else '')
            okheld = held == () and log in (None, 'iter', 'done')
            if cref == 'set' and log in (None, 'iter', 'done'):
                # an open cursor keeps its partition until it is closed
                okheld = dict(held) == {ACCESS: 1, CONTROL: 1}
            res.ob(okheld, 'exit:%s:%s' % (name, ','.join(x[0] for x in held) or log), f.where(),
                   '%s %s while it holds %s' % (name, how, ', '.join('%s x%d' % x for x in held)
                                                or 'partition locks of the batch'))
            if cref == 'set' and f.name == 'monotone_free':
                res.ob(False, 'cursor:' + name, f.where(), 'the cursor is freed with its partition locked')


@rule('L02')
def lock_order(prog, res):
    m, runs = lock_run(prog)
    common(prog, res, m, runs)
    for key, r in m.reports.items():
        if key[0] == 'self':
            res.ob(False, 'self:%s:%s' % key[1:3], r['where'], r['message'], detail(r))
    edges = {}
    for e, by in m.edges.items():
        res.count('order_edges')
        edges[e] = by
    res.need('order_edges', 10)
    cyc = cycles(edges)
    for e in sorted(edges):
        for entry, (where, chain) in sorted(edges[e].items()):
            res.ob(e not in cyc, '%s->%s:%s' % (e[0], e[1], entry), where,
                   '%s is acquired while %s is held, and somewhere the other way round: %s'
                   % (e[1], e[0], ' -> '.join(cyc.get(e, []) + [cyc.get(e, [''])[0]])), chain)


@rule('L03')
def guarded_by(prog, res):
    m, runs = lock_run(prog, True)
    common(prog, res, m, runs)
    seen = {}
    for (what, fk, where), d in sorted(m.access.items(), key=repr):
        g = GUARDS.get(what if isinstance(what, tuple) else (what,))
        if g is None:
            continue
        for (held, alone), chain in sorted(d.items(), key=repr):
            seen[what] = seen.get(what, 0) + 1
            if alone:
                res.count('accesses_single_threaded_or_private')
                continue
            ok = any(all(h in held or (h != X and h + '!' in held) for h in s) for s in g[0])
            res.ob(ok, '%s:%s:%s' % ('.'.join(what[1:]), what[0], fk), where,
                   '%s while only {%s} is held; needed: %s' % (
                       g[1], ', '.join(sorted(held)), ' or '.join('{%s}' % ', '.join(sorted(s)) for s in g[0])),
                   chain)
    for r in m.reports.items():
        if r[0][0] == 'nolock':
            res.ob(False, 'lockage:' + r[0][1], r[1]['where'], r[1]['message'], detail(r[1]))
    lost = [k for k in GUARDS if k not in seen and not k[1].startswith('lockage')]
    res.notes.append('guarded objects seen: %d of %d' % (len(seen), len(GUARDS)))
    res.counts['guarded_objects'] = len(seen)
    if lost:
        res.notes.append('not seen: %s' % lost)
    res.need('guarded_objects', 30)
    # loads of the reference before it is locked are covered by Ref.part above
    primitives(prog, res)


def detail(r):
    return 'call chain: %s\nstate: %s\npath: %s' % (r['chain'], r.get('state'), '\n      '.join(r['path'][-12:]))
