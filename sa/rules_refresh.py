"""D03: log files are kept as long as they are needed.
D04: a refresh replaces the file of a partition so that no crash loses data.
D05: the state of the files at restart decides what happens to them."""
from cond import gates, plain, root
from ir import walk
import rules_basic as basic
from report import parts, rule
from rules_cursor import merge_next
from rules_read import part_walk, table_walk
from rules_write import same_call
from spec import Spec, apath, base_of, has_path, is_call, is_path, ladd, lin, strip, loop_range


# ------------------------------------------------------------------ D03
def gc(prog, res):
    s = Spec(prog, res, 'engine_gc', interest=['wal_gc', 'mapping_min', 'mapping_next', 'mutex_lock', 'mutex_unlock'])
    v = s.v
    gcs = v.calls('wal_gc')
    if not s.one(gcs, 'gc', 'log files are collected'):
        return
    s.only_if(gcs, s.nz('Config.wal'), 'wal', 'the log is collected only when it is in use')
    for g in gcs:
        bound_of_all(s, g)


def bound_of_all(s, g):
    """the value passed is a lower bound of lsn_min over both memory tables of all partitions"""
    v = s.v
    x = strip(g.args[1])
    ok, why = False, 'the limit is not computed over all partitions'
    if x[0] == 'phi':
        init, _ = v.phi(x)
        F = v.frameobj[x[2]]
        key = (x[2], F.fn.insts[x[1]].block)
        steps = v.phi_steps(x)
        mins = [t for t in s.terms(lambda t: is_path(t, 'Memtable.lsn_min'))]
        a = [t for t in mins if has_path(t, 'Part.memtable_a')]
        b = [t for t in mins if has_path(t, 'Part.memtable_b')]
        ok = bool(steps) and len(a) == 1 and len(b) == 1
        for c, y in steps:
            y = strip(y)
            if y not in (x, a[0] if a else None, b[0] if b else None):
                ok, why = False, 'the limit takes another value'
                continue
            for m in a + b:
                if m != y and v.possible(s.and_(c, v.cmp('ult', m, y))):
                    ok, why = False, 'the limit may be greater than the lsn of an event in memory'
        # the first value: not above the next lsn
        for y in init:
            d = lin(y)
            ok = ok and len([t for t in d if t != ()]) == 1 and d.get((), 0) <= 1 \
                and all(is_path(t, 'Config.lsn') for t in d if t != ())
        # all partitions
        slot = [i for i in F.fn.blocks[key[1]] if i.op == 'phi']
        walk_ok = False
        for i in slot:
            p = ('phi', i.id, x[2])
            ini, st = v.phi(p)
            if len(ini) == 1 and is_call(ini[0], 'mapping_min') and len(st) == 1 and is_call(st[0], 'mapping_next') \
                    and v.equal(v.body(key), s.and_(v.entry(key), s.not_(v.eq(p, ('i', 0))))):
                walk_ok = walk(st[0]) is not None and any(y == p for y in walk(st[0]))
        if ok and not walk_ok:
            ok, why = False, 'not all partitions are visited'
    s.ob(ok, 'limit', 'only log files below the lsn of every event in memory, of every partition, are collected (%s)'
         % (why if not ok else 'both memory tables'), g.where())


def gc_between(prog, res):
    s = Spec(prog, res, 'wal_id_gc_between', interest=['buf_write', 'memmove', 'memcpy'], stores=[('WalId', 'list_count')])
    v = s.v
    w = v.calls('buf_write')
    if not s.one(w, 'copy', 'the ids of the files to remove are returned'):
        return
    for e in w:
        d = lin(e.args[2])
        t = [k for k in d if k != ()]
        ok = len(t) == 1 and t[0][0] == 'phi' and d == {t[0]: 8} and is_path(e.args[1], 'WalId.list', 'Buf.start')
        s.ob(ok, 'prefix', 'the files removed are the first ones of the list', e.where())
        if not ok:
            continue
        n = t[0]
        init, _ = v.phi(n)
        steps = v.phi_steps(n)
        s.ob(init == [('i', 0)] and bool(steps) and all(ladd(lin(y), lin(n), -1) == {(): 1} for _, y in steps),
             'count', 'they are counted one by one', e.where())
        nxt = lambda x: is_path(x, 'WalId.list', 'Buf.start') and any(y == n for y in walk(x)) and x[0] == 'ld' \
            and x[1][0] == 'idx' and lin(x[1]).get((), 0) * x[1][3] == 8
        below = s.rel('uge', lambda x: x == ('a', 2), nxt)
        for c, y in steps:
            s.ob(v.implies(c, below), 'below', 'a file is removed only if the one after it starts at or below the limit '
                 '(so all of its records are below)', e.where())
        cnt = lambda x: is_path(x, 'WalId.list_count')
        for c, y in steps:
            s.ob(v.implies(c, s.lrel('lt', [(n, 1), (cnt, -1)], 1)), 'last', 'the last file is never removed', e.where())
        st = v.stores_of('WalId', 'list_count')
        s.after([e], st, 'list', 'the ids are removed from the list')
        for x in st:
            dd = lin(x.args[1])
            s.ob(dd.get(n) == -1 and len(dd) == 2, 'list-count', 'as many ids as are returned leave the list', x.where())
    for c, y in gates(v.ret):
        ok = strip(y) == ('i', 0) or any(v.implies(c, e.cond) and lin(y) == {k: q // 8 for k, q in lin(e.args[2]).items()}
                                         for e in w)
        s.ob(ok, 'result', 'their number is returned')


def gc_files(prog, res):
    s = Spec(prog, res, 'wal_gc', interest=['fs_unlink', 'vfs_unlink', 'wal_id_gc_between', 'snprintf'])
    v = s.v
    u, g, f = v.calls('fs_unlink', 'vfs_unlink'), v.calls('wal_id_gc_between'), v.calls('snprintf')
    s.one(u, 'remove', 'files are removed')
    for e in g:
        s.ob(strip(e.args[2]) == ('a', 1), 'limit', 'files below the given lsn are selected', e.where())
    for e in u:
        paths = [x for x in f if x.order < e.order and x.loops == e.loops
                 and any(plain(a) == plain(x.args[0]) for a in e.args)]
        ok = bool(paths)
        for x in paths:
            r = loop_range(v, x.loops[-1], x.args[-1][1]) if x.loops and x.args[-1][0] == 'ld' else None
            n = [t for t in r[1] if t != () and is_call(t, 'wal_id_gc_between')] if r else []
            base = [t for t in r[0] if t != ()] if r else []
            ok = ok and bool(r) and len(n) == 1 and len(base) == 1 and is_path(base[0], 'Buf.start') \
                and r[0] == {base[0]: 1} and r[1].get(n[0]) == r[2] and r[1].get(()) == -r[2] and r[2] in (1, 8)
        s.ob(ok, 'which', 'exactly the selected files are removed', e.where())


def follow(prog, res):
    for name, hi in (('memtable_follow', True), ('memtable_follow_min', False)):
        s = Spec(prog, res, name, stores=[('Memtable', 'lsn_min'), ('Memtable', 'lsn_max')])
        v = s.v
        lo = v.stores_of('Memtable', 'lsn_min')
        lsn = ('a', 1)
        s.must(s.lrel('lt', [(lsn, 1), (lambda t: is_path(t, 'Memtable.lsn_min'), -1)]), lo, 'min',
               'the lowest lsn of the memory table follows a lower one')
        s.only_if(lo, s.lrel('le', [(lsn, 1), (lambda t: is_path(t, 'Memtable.lsn_min'), -1)]), 'min-only',
                  'and only a lower one')
        if hi:
            up = v.stores_of('Memtable', 'lsn_max')
            s.must(s.lrel('gt', [(lsn, 1), (lambda t: is_path(t, 'Memtable.lsn_max'), -1)]), up, 'max',
                   'the highest lsn of the memory table follows a higher one')
            s.only_if(up, s.lrel('ge', [(lsn, 1), (lambda t: is_path(t, 'Memtable.lsn_max'), -1)]), 'max-only',
                      'and only a higher one')
            lo = lo + up
        for e in lo:
            s.ob(strip(e.args[1]) == lsn, 'value', 'it becomes the given lsn', e.where())


def write_keeps(prog, res):
    s = Spec(prog, res, 'engine_write', interest=['memtable_set', 'wal_write', 'memtable_follow_min', 'engine_lock',
                                                  'event_allocate', 'log_add_event', 'engine_rollback', 'engine_commit'])
    v = s.v
    fol = v.calls('memtable_follow_min', 'memtable_follow')
    for e in v.calls('memtable_set'):
        mine = [x for x in fol if plain(x.args[0]) == plain(e.args[0]) and x.loops == e.loops]
        s.must(e.cond, mine, 'keep', 'the memory table keeps the log file of an event from before it is logged')
        for x in mine:
            d = lin(x.args[1])
            t = [k for k in d if k != ()]
            s.ob(len(t) == 1 and is_path(t[0], 'Config.lsn') and d[t[0]] == 1 and d.get((), 0) <= 1, 'keep-lsn',
                 'with an lsn not above the one its record gets', x.where())
            s.ob(all(x.order < w.order for w in v.calls('wal_write')), 'keep-first', 'before the record is written',
                 x.where())


def refresh_keeps(prog, res):
    s = refresh_view(prog, res)
    v = s.v
    dele = v.calls('part_delete')
    low = [e for e in v.stores_of('Memtable', 'lsn_min') if strip(e.args[1]) == ('i', -1)]
    fol = v.calls('memtable_follow_min')
    ref = v.stores_of('Ref', 'part')
    s.after(ref, [e for e in fol if is_path(e.args[1], 'Refresh.memtable', 'Memtable.lsn_min')], 'keep',
            'the log files of the merged events are kept when the new partition takes over')
    for e in fol:
        s.ob(s.each(e.args[0], lambda x: has_path(x, 'Part.memtable_a') or has_path(x, 'Part.memtable_b')
                    or is_path(x, 'Part.memtable')), 'keep-in', 'in a memory table of the new partition', e.where())
    for e in low:
        s.ob(any(d.order < e.order for d in dele) and all(d.order < e.order for d in v.calls('part_rename')
                                                           if strip(d.args[1]) == ('i', 2)), 'release',
             'they may be removed only after the new file is complete', e.where())
    s.before(v.calls('part_rename'), v.calls('memtable_free') and low, 'release-after', 'they may be removed only after '
             'the new file is complete')


def keeps_locked(prog, res):
    """log files are collected under the lock of the engine: the new partition must not be seen without the events it still keeps"""
    s = Spec(prog, res, 'refresh_run', interest=['memtable_follow_min', 'mutex_lock', 'mutex_unlock', 'cond_var_wait'], stores=[('Ref', 'part')])
    v = s.v
    mine = lambda e: is_path(e.args[-1], 'Engine.lock')
    ref, fol = v.stores_of('Ref', 'part'), v.calls('memtable_follow_min')
    open_ = [e for e in v.calls('mutex_unlock', 'cond_var_wait') if mine(e)]
    for r in ref:
        for f in fol:
            a, b = sorted((r.order, f.order))
            gap = [u for u in open_ if a < u.order < b and v.possible(s.and_(u.cond, s.and_(r.cond, f.cond)))]
            s.ob(not gap, 'keep-locked', 'the new partition takes over together with the log files of the merged events', (gap[0] if gap else f).where())
        s.before([e for e in v.calls('mutex_lock') if mine(e)], [r], 'keep-lock', 'the new partition takes over under the lock of the engine')


def moves(prog, res):
    s = Spec(prog, res, 'memtable_move', interest=['memcpy', 'llvm.memcpy'],
             stores=[('Memtable', 'lsn_min'), ('Memtable', 'lsn_max')])
    v = s.v
    cp = [e for e in v.events if e.kind == 'call' and 'memcpy' in str(e.name)]
    for f in ('lsn_min', 'lsn_max'):
        st = [e for e in v.stores_of('Memtable', f)]
        into = [e for e in st if root(e.args[0]) == ('a', 0)]
        frm = [e for e in st if root(e.args[0]) == ('a', 1)]
        ok = any(is_path(e.args[1], 'Memtable.' + f) and root(strip(e.args[1])[1]) == ('a', 1) for e in into) \
            or any(strip(e.args[0]) == ('a', 0) and strip(e.args[1]) == ('a', 1)
                   and lin(e.args[2]) == {(): prog.structs['Memtable']['size']} for e in cp)
        s.ob(ok, 'keep-' + f, 'the lsn range of the events moves with them')
        for e in frm:
            s.ob(all(x.order < e.order for x in (cp or into)), 'keep-order', 'before it is reset', e.where())


def rotation(prog, res):
    s = Spec(prog, res, 'wal_rotate', interest=['wal_file_allocate', 'wal_id_add', 'mutex_lock', 'mutex_unlock',
                                                'wal_file_create'], stores=[('Wal', 'current')])
    v = s.v
    mk, add = v.calls('wal_file_allocate'), v.calls('wal_id_add')
    s.one(mk, 'file', 'a new file is created')
    for e in mk + add:
        d = lin(e.args[1] if e in add else e.args[0])
        t = [k for k in d if k != ()]
        s.ob(len(t) == 1 and is_path(t[0], 'Config.lsn') and d[t[0]] == 1 and d.get(()) == 1, 'id',
             'a log file is named after the lsn of the first record written to it', e.where())
        s.ob(any(x.order < e.order for x in v.calls('mutex_lock')), 'locked', 'with the log locked', e.where())
    cur = v.stores_of('Wal', 'current')
    s.after(cur, add, 'list', 'every log file which is written to is in the list')


@rule('D03')
def d03(prog, res):
    parts(prog, res, rotation, gc, gc_between, gc_files, follow, write_keeps, refresh_keeps, keeps_locked, moves)
    res.need('obligations', 25)


# ------------------------------------------------------------------ D04
def refresh_view(prog, res):
    return Spec(prog, res, 'refresh_run',
                interest=['engine_lock', 'engine_unlock', 'merger_execute', 'part_rename', 'part_delete', 'part_free',
                          'memtable_free', 'memtable_move', 'memtable_follow_min', 'storage_add', 'storage_remove',
                          'file_close', 'part_memtable_rotate', 'storage_mgr_find'],
                stores=[('Memtable', 'lsn_min'), ('Part', 'state'), ('Ref', 'part'), ('Part', 'refresh')], throws=True)


def new_part(x):
    return has_path(x, 'Merger.part') or is_path(x, 'Refresh.part') or is_path(x, 'Merger.part')


def old_part(x):
    return is_path(x, 'Refresh.origin') or is_path(x, 'Ref.part')


def state_const(prog, *names):
    n = 0
    for k in names:
        n |= prog.enum(k)
    return n


def order(prog, res):
    s = refresh_view(prog, res)
    v = s.v
    C = lambda n: ('i', prog.enum(n))
    merge = v.calls('merger_execute')
    ren, dele = v.calls('part_rename'), v.calls('part_delete')
    done = [e for e in ren if strip(e.args[2]) == C('ID_COMPLETE')]
    fin = [e for e in ren if strip(e.args[2]) == C('ID')]
    old = [e for e in dele if strip(e.args[1]) == C('ID')]
    s.one(merge, 'merge', 'a new file is written')
    s.one(done, 'complete', 'the new file is marked as complete')
    s.one(fin, 'final', 'the new file gets its final name')
    s.one(old, 'delete', 'the old file is removed')
    for e in ren:
        ok = (strip(e.args[1]), strip(e.args[2])) in ((C('ID_INCOMPLETE'), C('ID_COMPLETE')), (C('ID_COMPLETE'), C('ID')))
        s.ob(ok, 'names', 'incomplete becomes complete, complete becomes final', e.where())
        s.ob(new_part(e.args[0]), 'names-of', 'the file renamed is the new one', e.where())
    for e in dele:
        s.ob(strip(e.args[1]) == C('ID') and old_part(e.args[0]), 'delete-of', 'the file removed is the old one', e.where())
    s.before(merge, done, 'merge-first', 'the new file is complete only after it is written')
    s.before(done, old, 'complete-first', 'the old file is removed only after the new one is complete')
    s.before(old, fin, 'delete-first', 'the new file gets its final name only after the old one is removed')
    s.before(merge, v.stores_of('Ref', 'part'), 'switch', 'operations use the new partition only after it is written')
    for e in v.stores_of('Ref', 'part'):
        s.ob(new_part(e.args[1]), 'switch-to', 'operations are switched to the new partition', e.where())
    for e in merge:
        for f, p in (('origin', 'Refresh.origin'), ('memtable', 'Refresh.memtable')):
            s.ob(strip(s.content(e, e.args[1], 'MergerReq', f)) != ('i', 0), 'merge-' + f,
                 'the file and the rotated memory table of the partition are merged', e.where())
        x = s.content(e, e.args[1], 'MergerReq', 'source')
        asked = s.not_(v.eq(('a', 2), ('i', 0)))
        s.ob(all(is_path(y, 'Storage.source') and not has_path(y, 'Refresh.storage_origin')
                 and not (has_path(y, 'Part.source') and v.possible(s.and_(c, asked))) for c, y in gates(x)),
             'merge-source', 'into the storage the partition moves to', e.where())
    # the merged events are readable until the new file is in place
    for e in v.calls('memtable_free'):
        s.ob(all(x.order < e.order for x in v.stores_of('Ref', 'part')), 'memory', 'the merged events stay in memory until '
             'the new partition has taken over', e.where())
    # complete on success
    failed = v.failed()
    ok = s.and_(v.any(merge), s.not_(failed))
    for evs, key in ((done, 'complete'), (old, 'delete'), (fin, 'final')):
        s.must(ok, evs, key + ':always', 'a refresh which succeeds leaves only the new file, with its final name')
    add, rem = v.calls('storage_add'), v.calls('storage_remove')
    s.must(v.any(v.stores_of('Ref', 'part')), add, 'storage-add', 'the new partition is in the list of its storage')
    s.must(v.any(v.stores_of('Ref', 'part')), rem, 'storage-remove', 'the old one is not')
    for e in add:
        s.ob(new_part(e.args[1]), 'storage-add:part', 'the new partition is added to the storage', e.where())
        s.ob(not has_path(e.args[0], 'Refresh.storage_origin'), 'storage-add:to', 'the new partition is added to the '
             'storage it is written to', e.where())
    for e in rem:
        s.ob(old_part(e.args[1]), 'storage-remove:part', 'the old partition is removed from the storage', e.where())
        s.ob(not is_path(e.args[0], 'Refresh.storage'), 'storage-remove:from', 'the old partition is removed from its '
             'own storage', e.where())
    mv = v.calls('memtable_move')
    s.must(v.any(v.stores_of('Ref', 'part')), mv, 'events', 'events written during the refresh move to the new partition')
    for e in mv:
        s.ob(new_part(e.args[0]) and old_part(strip(e.args[1])[1][1] if strip(e.args[1])[0] == 'ld' else e.args[1])
             and is_path(e.args[1], 'Part.memtable'), 'events-of', 'from the active memory table of the old one', e.where())
    # after an error the refresh can be scheduled again
    again = [e for e in v.stores_of('Part', 'refresh') if strip(e.args[1]) == ('i', 0)]
    s.must(failed, again, 'again', 'after an error the partition can be refreshed again')
    s.must(failed, [e for e in v.events if e.kind == 'throw'], 'report', 'and the error is reported')
    # state seen by other operations
    sts = v.stores_of('Part', 'state')
    s.must(v.any(v.stores_of('Ref', 'part')), sts, 'state', 'the new partition is marked as having a file')
    for k, x in s.final(sts):
        s.ob(has_bit(x, prog.enum('ID'), True) and has_bit(x, prog.enum('ID_INCOMPLETE'), False), 'state-id',
             'the new partition is marked as having a file')
    cloud = s.and_(v.any(merge), bit(s, lambda x: is_path(x, 'Part.state'), prog.enum('ID_CLOUD')))
    s.ob(not v.possible(cloud), 'cloud', 'a partition which is on the cloud is not refreshed')


def bit(s, pred, mask):
    """condition 'term & mask is not zero'"""
    ts = s.terms(lambda x: strip(x)[0] == 'bin' and strip(x)[1] == 'and' and strip(x)[3] == ('i', mask) and pred(strip(x)[2]))
    if not ts:
        return s.fresh()
    return s.b.or_(*[s.b.not_(s.v.eq(t, ('i', 0))) for t in ts])


def has_bit(x, mask, want):
    """is the bit of the value known to be set (or clear)"""
    x = strip(x)
    if x[0] == 'i':
        return ((x[1] & mask) != 0) == want
    if x[0] == 'bin' and x[1] in ('or', 'and'):
        one = (x[1] == 'or') == want
        f = any if one else all
        return f(has_bit(y, mask, want) for y in x[2:4])
    return False


def rotate(prog, res):
    """the table rotated away is the active one, unless the other still has events"""
    s = Spec(prog, res, 'part_memtable_rotate', stores=[('Part', 'memtable')])
    v = s.v
    st = v.stores_of('Part', 'memtable')
    isa = s.test_eq(lambda x: is_path(x, 'Part.memtable'), lambda x: x[0] == 'fld' and x[3] == 'memtable_a')

    def other(x, c):
        x = strip(x)
        return x[0] == 'fld' and v.implies(c, isa if x[3] == 'memtable_b' else s.not_(isa) if x[3] == 'memtable_a' else 0)

    def active(x, c):
        x = strip(x)
        return (x[0] == 'ld' and x[1][0] == 'fld' and x[1][3] == 'memtable') or (
            x[0] == 'fld' and v.implies(c, isa if x[3] == 'memtable_a' else s.not_(isa) if x[3] == 'memtable_b' else 0))
    rotated = v.any(st)
    for e in st:
        for c, x in gates(e.args[1]):
            s.ob(other(x, s.and_(c, e.cond)), 'other', 'new events go to the other memory table', e.where())
    full = 0
    for f in ('memtable_a', 'memtable_b'):
        n = s.positive(lambda x: is_path(x, 'Part.' + f, 'Memtable.count_pages'))
        full = s.or_(full, s.and_(n, s.not_(isa) if f == 'memtable_a' else isa))
    s.exactly(st, s.not_(full), 'when', 'the tables are rotated unless the other one has events of a refresh that failed')
    for c, x in gates(v.ret):
        ok = active(x, s.and_(c, rotated)) if not v.possible(s.and_(c, s.not_(rotated))) else \
            other(x, c) if not v.possible(s.and_(c, rotated)) else False
        s.ob(ok, 'result', 'the rotated table is merged, or the one left by a refresh that failed (older events first)')
    p = Spec(prog, res, 'part_memtable', outs=[1])
    v = p.v
    isa = p.test_eq(lambda x: is_path(x, 'Part.memtable'), lambda x: x[0] == 'fld' and x[3] == 'memtable_a')
    outs = [e for e in v.events if e.kind == 'store' and strip(e.args[0]) == ('a', 1)]
    p.must(1, outs, 'both', 'the other table is returned')
    for e in outs:
        for c, x in gates(e.args[1]):
            c = p.and_(c, e.cond)
            x = strip(x)
            p.ob(x[0] == 'fld' and v.implies(c, isa if x[3] == 'memtable_b' else p.not_(isa)), 'both-other',
                 'it is the one which is not active', e.where())
    for c, x in gates(v.ret):
        p.ob(is_path(x, 'Part.memtable'), 'active', 'the active one is the result')


def merge(prog, res):
    s = Spec(prog, res, 'merger_execute',
             interest=['part_delete', 'part_create', 'writer_start', 'writer_add', 'writer_stop', 'merge_iterator_add',
                       'merge_iterator_open', 'merge_iterator_next', 'merge_iterator_at', 'index_writer_copy',
                       'memtable_iterator_open', 'part_iterator_open', 'part_allocate'],
             stores=[('Part', 'state')])
    v = s.v
    C = lambda n: ('i', prog.enum(n))
    mk, rm = v.calls('part_create'), v.calls('part_delete')
    st, add, stop = v.calls('writer_start'), v.calls('writer_add'), v.calls('writer_stop')
    its = v.calls('merge_iterator_add')
    s.one(mk, 'create', 'a new file is created')
    s.before([e for e in rm if strip(e.args[1]) == C('ID_INCOMPLETE')], mk, 'leftover',
             'what a failed refresh left is removed before')
    for e in mk:
        s.ob(strip(e.args[1]) == C('ID_INCOMPLETE'), 'incomplete', 'the new file is marked as incomplete', e.where())
    for e in rm:
        s.ob(strip(e.args[1]) == C('ID_INCOMPLETE'), 'leftover-only', 'no other file is removed', e.where())
    s.before(mk, st, 'create-first', 'before it is written')
    # newest first
    mem = [e for e in its if has_path(e.args[1], 'Merger.memtable_iterator')]
    par = [e for e in its if has_path(e.args[1], 'Merger.part_iterator')]
    s.must(1, mem, 'memory', 'the events in memory are merged')
    s.must(1, par, 'file', 'the events of the file are merged')
    for a in mem:
        for b in par:
            s.ob(a.order < b.order, 'newest', 'an event in memory replaces the one in the file', b.where())
    for e in v.calls('memtable_iterator_open'):
        s.ob(is_path(e.args[1], 'MergerReq.memtable') and strip(e.args[2]) == ('i', 0), 'memory-all', 'all events of the '
             'rotated memory table are merged', e.where())
    for e in v.calls('part_iterator_open'):
        s.ob(is_path(e.args[1], 'MergerReq.origin') and strip(e.args[2]) == ('i', 0), 'file-all', 'all events of the old '
             'file are merged', e.where())
    # every event which is not a delete is written
    at = v.calls('merge_iterator_at')
    some = s.test(lambda x: is_call(x, 'merge_iterator_at'))
    dead = bit(s, lambda x: is_path(x, 'Event.flags'), prog.enum('LOG_DELETE')) if False else \
        s.test(lambda x: strip(x)[0] == 'bin' and strip(x)[1] == 'and' and is_path(strip(x)[2], 'Event.flags'))
    for e in add:
        B = v.any(at)
        s.exactly(add, s.and_(B, some, s.not_(dead)), 'event', 'every event which is not a delete is written')
        s.ob(is_call(e.args[1], 'merge_iterator_at'), 'event-of', 'as it is', e.where())
    s.one(add, 'event', 'every event which is not a delete is written')
    nx = v.calls('merge_iterator_next')
    s.must(s.and_(v.any(at), some), nx, 'next', 'and the next one follows')
    for e in stop:
        a = e.args
        s.ob(not e.loops, 'stop', 'the file is finished after all events', e.where())
        s.ob(is_path(a[1], 'Part.id'), 'stop-id', 'with the range of the partition', e.where())
        lsn_ok = True
        omax = lambda t: is_path(t, 'Index.lsn')
        mmax = lambda t: is_path(t, 'Memtable.lsn_max')
        none = s.not_(s.nz('Part.state'))
        for c, x in gates(a[5]):
            c = s.and_(c, e.cond)
            if not v.possible(c):
                continue
            if omax(strip(x)):
                lsn_ok = lsn_ok and v.implies(c, s.and_(s.not_(none), s.lrel('ge', [(omax, 1), (mmax, -1)])))
            elif mmax(strip(x)):
                lsn_ok = lsn_ok and v.implies(c, s.or_(none, s.lrel('ge', [(mmax, 1), (omax, -1)])))
            else:
                lsn_ok = False
        s.ob(lsn_ok, 'stop-lsn', 'and the highest lsn of its events', e.where())
        s.ob(v.equal(v.bool(a[6]), s.nz('MergerReq.source', 'Source.sync')), 'stop-sync',
             'and synced as configured', e.where())
    s.before(st, add, 'start', 'the writer is started before')
    s.must(1, stop, 'stop', 'the file is finished after all events')
    s.must(1, v.calls('index_writer_copy'), 'index', 'the partition gets the index of the file')
    for e in v.calls('index_writer_copy'):
        s.ob(all(x.order < e.order for x in stop), 'index-after', 'after it is finished', e.where())


def writer(prog, res):
    s = Spec(prog, res, 'writer_stop', interest=['file_writev', 'file_write', 'file_sync', 'vfs_sync', 'index_writer_stop',
                                                 'region_writer_stop', 'index_writer_add', 'index_writer_add_to_iov',
                                                 'region_writer_add_to_iov'])
    v = s.v
    started = v.calls('index_writer_stop')
    w = v.calls('file_writev', 'file_write')
    sync = v.calls('file_sync', 'vfs_sync')
    s.one(w, 'write', 'the index is written')
    s.after(v.calls('index_writer_add_to_iov'), w, 'index', 'the index is written')
    regions = v.calls('region_writer_add_to_iov')
    s.after(regions, w, 'region', 'the last region is written')
    for r in regions:
        for i in v.calls('index_writer_add_to_iov'):
            s.ob(r.order < i.order, 'region-first', 'the last region is written before the index', r.where())
    s.after(v.calls('region_writer_stop'), v.calls('index_writer_add'), 'region-index', 'the last region is in the index')
    on = s.and_(v.any(started), s.nz('Config.sync'), s.test(lambda x: strip(x) == ('a', 6)))
    s.must(on, [x for x in sync if all(x.order > e.order for e in w)], 'sync',
           'the file is synced after everything is written, when configured')
    for x in sync:
        s.ob(has_path(x.args[0], 'Writer.file'), 'sync-file', 'the file synced is the one written', x.where())


@rule('D04')
def d04(prog, res):
    parts(prog, res, order, rotate, merge, writer, merge_next, part_walk, table_walk)
    res.need('obligations', 45)


# ------------------------------------------------------------------ D05
def fold(x, is_state, val, c=None, v=None):
    """value of an expression in which the state is the number val (under a condition, if it depends on one)"""
    if is_state(x):
        return val
    got = set()
    for k, y in gates(x):
        if v is not None and len(gates(x)) > 1 and not v.possible(v.b.and_(k, c)):
            continue
        y = strip(y)
        if y[0] == 'i':
            got.add(y[1])
        elif is_state(y):
            got.add(val)
        elif y[0] == 'bin':
            a, b = fold(y[2], is_state, val, c, v), fold(y[3], is_state, val, c, v)
            if a is None or b is None:
                return None
            got.add({'and': a & b, 'or': a | b, 'xor': a ^ b, 'add': a + b, 'sub': a - b}.get(y[1]))
        else:
            return None
    return got.pop() if len(got) == 1 else None


def assume(s, is_state, val):
    """condition 'the state is the number val': what the tests of the function find then"""
    b, out = s.v.b, 1
    for n, a in enumerate(list(b.vars)):
        x, y = a[-2:] if a[0] in ('eq', 'lt') else (None, None)
        if x is None or y[0] != 'i' or not has(x, is_state):
            continue
        f = fold(x, is_state, val)
        if f is None:
            continue
        hit = f == y[1] if a[0] == 'eq' else f < y[1]
        out = b.and_(out, b.mk(n, 0, 1) if hit else b.mk(n, 1, 0))
    return out


def has(x, pred):
    return any(isinstance(y, tuple) and y and pred(y) for y in walk(x))


def bits_of(prog, val):
    return '+'.join(n for n in ('ID', 'ID_INCOMPLETE', 'ID_COMPLETE', 'ID_CLOUD', 'ID_CLOUD_INCOMPLETE')
                    if val & prog.enum(n))


class Stage:
    """what one pass over the partitions does to each of them, by the files it has"""

    def __init__(self, prog, res, fn):
        self.prog = prog
        s = self.s = Spec(prog, res, fn, interest=['part_delete', 'part_rename', 'part_free', 'storage_remove',
                                                   'storage_mgr_find_part'], stores=[('Part', 'state')], throws=True)
        v = self.v = s.v
        self.dele, self.ren, self.free, self.rem = (v.calls(n) for n in ('part_delete', 'part_rename', 'part_free',
                                                                         'storage_remove'))
        self.sts = v.stores_of('Part', 'state')
        self.thr = [e for e in v.events if e.kind == 'throw']
        self.is_state = lambda x: strip(x)[0] == 'ld' and is_path(x, 'Part.state') \
            and not any(y[0] == 'call' for y in walk(strip(x)))
        self.known = bool(s.terms(self.is_state))
        s.ob(self.known, 'state', 'the state of every partition is looked at')
        vis = [e for e in self.dele + self.ren + self.sts if e.loops]
        # (the body of a loop is what comes around again: an error leaves it)
        judged = [e for e in self.thr if any(has(v.b.vars[a], self.is_state) for a in v.b.support(e.cond))]
        self.body = s.or_(v.body(vis[0].loops[0]), v.any(judged)) if vis else 0
        s.ob(bool(vis), 'every', 'the partitions are visited one after another')

    def at(self, val):
        return self.s.and_(self.body, assume(self.s, self.is_state, val))

    def during(self, c, es):
        return [e for e in es if self.v.possible(self.s.and_(e.cond, c))]

    def surely(self, c, es):
        return bool(es) and self.v.implies(c, self.v.any(es))

    def run(self, val, c=None):
        """(files removed, files which may be removed, state after, forgotten, may be an error) of these files"""
        s, v, prog = self.s, self.v, self.prog
        c = self.at(val) if c is None else c
        may = {strip(e.args[1])[1] for e in self.during(c, self.dele)}
        must = {m for m in may if self.surely(c, [e for e in self.dele if strip(e.args[1]) == ('i', m)])}
        after = val
        got = self.during(c, self.sts)
        if got:
            last = {fold(x, self.is_state, val, s.and_(k, c), v) for k, x in s.final(got) if v.possible(s.and_(k, c))}
            if not self.surely(c, got):
                last.add(val)
            after = last.pop() if len(last) == 1 else None
        gone = self.during(c, self.free + self.rem)
        forget = None
        if not gone:
            forget = False
        elif self.surely(c, self.free) and self.surely(c, self.rem):
            forget = True
        return must, may, after, forget, bool(self.during(c, self.thr))


def recover(prog, res):
    I, INC, COM, CLD, CINC = (prog.enum(n) for n in ('ID', 'ID_INCOMPLETE', 'ID_COMPLETE', 'ID_CLOUD',
                                                     'ID_CLOUD_INCOMPLETE'))
    stages = [Stage(prog, res, n) for n in ('engine_recover_incomplete', 'engine_recover_validate') if prog.has(n)]
    last = stages[-1]
    s, v = last.s, last.v
    if not all(x.known for x in stages):
        return
    for val in range(1, 32):
        key = bits_of(prog, val)
        clean = val & ~(INC | CINC)
        if clean == COM:
            continue
        # what the passes do one after another
        cur, must, may, forget, err = val, set(), set(), False, False
        for st in stages:
            a, b, cur, forget, e = st.run(cur)
            must, may, err = must | a, may | b, err or e
            if e or forget or cur is None:
                break
        gone = {f for f in (INC, CINC) if val & f}
        if clean & COM and clean & CLD:
            s.ob(err, 'other', 'any other combination of files is an error (%s)' % key)
            continue
        if clean & COM:
            gone.add(COM)
        what = '+'.join(bits_of(prog, g) for g in sorted(gone)) or 'nothing'
        s.ob(not err, key + ':error', 'files %s: is a state that a crash or a failed operation leaves, not an error' % key)
        if err:
            continue
        s.ob(must >= gone and may <= gone, key + ':delete', 'files %s: %s is removed' % (key, what))
        if clean:
            s.ob(forget is False, key + ':forget', 'files %s: the partition is kept' % key)
            s.ob(cur == clean & ~COM, key + ':value', 'files %s: the partition remains with %s'
                 % (key, bits_of(prog, clean & ~COM)))
        else:
            s.ob(forget is True, key + ':forget', 'files %s: the partition is forgotten' % key)
    # the new file is complete and the old one may be gone
    for val in (COM, COM | INC, COM | CINC, COM | INC | CINC):
        cur, err, bad = val, False, False
        for st in stages[:-1]:
            a, b, cur, forget, e = st.run(cur)
            err, bad = err or e, bad or forget is not False or COM in b
        s.ob(not err and not bad, 'ID_COMPLETE:kept', 'files %s: the complete file is kept' % bits_of(prog, val))
        if cur is None:
            s.ob(False, 'ID_COMPLETE:first', 'files %s: only the complete file remains' % bits_of(prog, val))
            continue
        complete(prog, last, cur, val)
    fin = [e for e in last.ren if strip(e.args[1]) == ('i', COM) and strip(e.args[2]) == ('i', I)]
    s.ob(len(fin) == len(last.ren) and not any(st.ren for st in stages[:-1]), 'rename-only', 'no other file is renamed')


def complete(prog, st, cur, val):
    s, v = st.s, st.v
    key = bits_of(prog, val)
    I, COM = prog.enum('ID'), prog.enum('ID_COMPLETE')
    c = st.at(cur)
    other = s.test(lambda x: is_call(x, 'storage_mgr_find_part'))
    fin = [e for e in st.ren if strip(e.args[1]) == ('i', COM) and strip(e.args[2]) == ('i', I)]
    s.must(s.and_(c, s.not_(other)), fin, 'ID_COMPLETE:rename', 'files %s: the refresh is finished if no other '
           'storage has the partition' % key)
    s.only_if(fin, s.and_(st.body, s.not_(other)), 'ID_COMPLETE:rename', 'files %s: the refresh is finished only if no '
              'other storage has the partition' % key)
    for x in [x for x in (I, I | prog.enum('ID_CLOUD'), prog.enum('ID_CLOUD'), I | COM)]:
        s.ob(not st.during(st.at(x), fin), 'ID_COMPLETE:only', 'files %s: nothing is renamed' % bits_of(prog, x))
    a, b, after, forget, err = st.run(cur, s.and_(c, s.not_(other)))
    s.ob(COM not in b and not err, 'ID_COMPLETE:delete', 'files %s: the new file is removed only if the old one is on '
         'another storage' % key)
    s.ob(after == I and forget is False, 'ID_COMPLETE:value', 'files %s: the partition remains with ID' % key)
    hits = st.during(s.and_(c, other), st.dele)
    for e in hits:
        s.ob(strip(e.args[1]) == ('i', COM), 'ID_COMPLETE:which', 'files %s: it is the new file which is removed' % key,
             e.where())
    s.must(s.and_(c, other), hits + st.thr, 'ID_COMPLETE:other', 'files %s: the new file is removed if the old one is on '
           'another storage' % key)
    s.must(s.and_(c, other), st.free + st.thr, 'ID_COMPLETE:forget', 'files %s: the partition of the new file is forgotten '
           'if the old one is on another storage' % key)


NAMES = {'ID': '', 'ID_INCOMPLETE': '.incomplete', 'ID_COMPLETE': '.complete', 'ID_CLOUD': '.cloud',
         'ID_CLOUD_INCOMPLETE': '.cloud.incomplete'}


def names(prog, res):
    """the name a file is written under is the name recovery reads its state from"""
    s = Spec(prog, res, 'id_path', interest=['source_pathfmt', 'snprintf'])
    v = s.v
    wr = {}
    for e in v.calls('source_pathfmt', 'snprintf'):
        fmt = next((text(prog, a) for a in e.args if text(prog, a) is not None), None)
        for st in NAMES:
            if v.possible(s.and_(e.cond, v.cmp('eq', ('a', 2), ('i', prog.enum(st))))):
                wr.setdefault(st, set()).add(fmt)
        s.ob(any(is_path(a, 'Id.min') for a in e.args), 'min', 'a partition file is named after the start of its range',
             e.where())
    r = Spec(prog, res, 'engine_recover_id', interest=['strcmp'])
    rv = r.v
    rd = {}
    for c, x in gates(rv.ret):
        if strip(x)[0] != 'i' or strip(x)[1] == -1:
            continue
        for a in rv.b.support(c):
            t = rv.b.vars[a]
            if t[0] == 'eq' and is_call(t[1], 'strcmp'):
                lit = next((text(prog, y) for y in strip(t[1])[2] if text(prog, y) is not None), None) \
                    if isinstance(strip(t[1])[2], tuple) else None
                if lit is not None and rv.implies(c, rv.b.mk(a, 0, 1)):
                    rd.setdefault(strip(x)[1], set()).add(lit)
    for st, suf in NAMES.items():
        s.ob(wr.get(st) is not None and len(wr[st]) == 1 and None not in wr[st], 'write-' + st,
             'files of state %s have one name' % st)
        got = {f.split('lu', 1)[1] for f in wr.get(st, ()) if f and 'lu' in f}
        s.ob(got == ({suf} if st == 'ID' else rd.get(prog.enum(st), {None})), 'read-' + st,
             'recovery reads the state of a file from the name it was written under (%s)' % st)
    al = [x for x in wr.values()]
    s.ob(len({frozenset(x) for x in al}) == len(NAMES), 'distinct', 'the names of the states differ')


def text(prog, a):
    x = strip(a)
    return x[1] if x[0] == 's' else None


def load(prog, res):
    s = Spec(prog, res, 'engine_recover', interest=['engine_recover_storage', 'engine_recover_validate', 'engine_recover_incomplete', 'part_open',
                                                    'config_lsn_follow', 'ref_allocate', 'ref_prepare', 'mapping_add',
                                                    'storage_add_metrics'],
             stores=[('Part', 'id')])
    v = s.v
    inc = v.calls('engine_recover_incomplete')
    for a in inc:
        for b in v.calls('engine_recover_storage'):
            s.ob(b.order < a.order and a.loops != b.loops, 'read-first', 'the files of all storages are read before any is '
                 'judged', a.where())
        for b in v.calls('engine_recover_validate'):
            s.ob(a.order < b.order and a.loops != b.loops, 'incomplete-first', 'incomplete files of all storages are removed '
                 'before the rest is judged', b.where())
    if prog.has('engine_recover_incomplete'):
        s.ob(bool(inc), 'incomplete-all', 'incomplete files are removed on every storage')
    op = v.calls('part_open')
    C = lambda n: ('i', prog.enum(n))
    loc = bit(s, lambda x: is_path(x, 'Part.state'), prog.enum('ID'))
    for a in v.calls('engine_recover_storage'):
        for b in v.calls('engine_recover_validate'):
            s.ob(a.order < b.order and a.loops != b.loops, 'read-first', 'the files of all storages are read before any is '
                 'judged', b.where())
    for a in v.calls('engine_recover_validate'):
        for b in op:
            s.ob(a.order < b.order and a.loops[-1:] != b.loops[:1], 'validate-first', 'files are judged before any is '
                 'opened', b.where())
    for e in op:
        s.ob(strip(e.args[2]) != ('i', 0), 'index', 'the index is read', e.where())
        if strip(e.args[1]) == C('ID'):
            s.only_if([e], loc, 'open-local', 'the local file is opened if there is one')
        else:
            s.only_if([e], s.not_(loc), 'open-cloud', 'the cloud file is opened only if there is no local one')
    s.one(op, 'open', 'every partition is opened')
    for n, key in (('config_lsn_follow', 'lsn'), ('mapping_add', 'mapping'), ('storage_add_metrics', 'metrics')):
        es = v.calls(n)
        s.after(op, es, key, 'every partition is registered (%s)' % n)
    for e in v.calls('config_lsn_follow'):
        s.ob(is_path(e.args[0], 'Index.lsn'), 'lsn-of', 'the lsn is not below the one of any file', e.where())


@rule('D05')
def d05(prog, res):
    parts(prog, res, recover, names, load, basic.by_ids)
    res.need('obligations', 50)
