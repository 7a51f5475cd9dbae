"""D01: a write is all or nothing and in the log before it is acknowledged.
D02: what recovery replays is what was logged."""
from cond import plain, widen
import rules_basic as basic
from report import parts, rule
from spec import Spec, apath, base_of, has_path, is_call, is_path, ladd, lin, loop_range, strip


def all_ops(s, e, ptr, key, msg, order=None):
    """the loop around effect e visits every entry of the batch exactly once"""
    r = loop_range(s.v, e.loops[-1], ptr) if e.loops and ptr is not None else None
    ok = False
    if r:
        lo, hi, st = r if r[2] > 0 else (r[1], r[0], r[2])
        count = [t for t in hi if t != () and is_path(t, 'Log.write', 'LogWrite.count')]
        start = [t for t in lo if t != () and is_path(t, 'Log.op', 'Buf.start')]
        ok = (abs(st) == 1 and len(count) == 1 and len(start) == 1 and lo == {start[0]: 1}
              and hi == ladd({start[0]: 1, count[0]: 1}, {(): 1}, -1))
        if order and ok:
            ok = (st > 0) == (order > 0)
    s.ob(ok, key, msg, e.where())
    return ok


def op_atoms(s):
    return s.nz('LogOp.ref'), s.nz('LogOp.prev'), s.nz('LogOp.event')


def rollback(prog, res):
    s = Spec(prog, res, 'engine_rollback', interest=['memtable_set', 'memtable_unset', 'engine_unlock'])
    v = s.v
    ref, prev, ev = op_atoms(s)
    sets, unsets, unl = v.calls('memtable_set'), v.calls('memtable_unset'), v.calls('engine_unlock')
    for evs, cond, key, field, msg in (
            (sets, s.and_(ref, prev), 'restore', 'LogOp.prev', 'puts back the replaced version of every event'),
            (unsets, s.and_(ref, s.not_(prev), ev), 'remove', 'LogOp.event', 'removes every event that replaced none')):
        if not s.one(evs, key, msg):
            continue
        for e in evs:
            if not e.loops:
                s.ob(False, key + ':each', msg + ' (outside of a loop over the batch)', e.where())
                continue
            B = v.body(e.loops[-1])
            s.exactly([e], s.and_(B, cond), key, msg)
            s.ob(is_path(e.args[1], field), key + ':event', 'rollback uses the entry of this event', e.where())
            s.ob(is_path(e.args[0], 'LogOp.ref', 'Ref.part', 'Part.memtable'), key + ':table',
                 'rollback changes the memory table of the partition of this event', e.where())
            all_ops(s, e, base_of(e.args[1], 'LogOp'), key + ':order',
                    'rollback undoes all events of the batch, the last one first', -1)
    for e in sets + unsets:
        for u in unl:
            s.ob(u.order > e.order, 'unlock', 'the partition is unlocked after the event is undone', u.where())


def commit(prog, res):
    s = Spec(prog, res, 'engine_commit', interest=['memtable_follow', 'engine_unlock'])
    v = s.v
    ref, prev, ev = op_atoms(s)
    fol, unl = v.calls('memtable_follow'), v.calls('engine_unlock')
    if s.one(fol, 'follow', 'every committed event makes its memory table follow the lsn of the batch'):
        for e in fol:
            B = v.body(e.loops[-1]) if e.loops else 0
            s.exactly([e], s.and_(B, ref), 'follow', 'every committed event makes its memory table follow the lsn')
            s.ob(is_path(e.args[0], 'LogOp.ref', 'Ref.part', 'Part.memtable')
                 and is_path(e.args[1], 'Log.write', 'LogWrite.lsn'), 'follow:args',
                 'the memory table of the event follows the lsn of the batch', e.where())
            all_ops(s, e, base_of(e.args[0], 'LogOp'), 'follow:all', 'commit visits every event of the batch')
            for u in unl:
                s.ob(u.order > e.order, 'follow:unlock', 'the partition is unlocked after that', u.where())


def whole(prog, res):
    s = Spec(prog, res, 'monotone_write', interest=['engine_write'], opaque=['engine_write'])
    c = s.v.calls('engine_write')
    s.ob(len(c) == 1 and c[0].cond == 1 and not c[0].loops and [plain(x) for x in c[0].args[1:3]] == [('a', 1), ('a', 2)], 'batch',
         'the events passed to one write are written as one batch', c[0].where() if c else None)


def write(prog, res):
    inner = ['memtable_set', 'memtable_unset', 'memtable_follow', 'wal_write', 'engine_lock', 'event_allocate',
             'log_add', 'log_add_event', 'engine_rollback', 'engine_commit', 'log_free', 'memtable_follow_min']
    s = Spec(prog, res, 'engine_write', interest=inner, stores=[('LogOp', 'prev'), ('LogOp', 'ref'), ('LogWrite', 'lsn')],
             throws=False)
    v = s.v
    walon = s.nz('Config.wal')
    ww = v.calls('wal_write')
    done = v.calls('engine_commit')
    sets = v.calls('memtable_set')
    thr = [e for e in v.events if e.kind == 'throw']
    rb = v.calls('engine_rollback')
    failed = v.failed()
    s.one(ww, 'log', 'a batch is written to the log')
    s.one(done, 'commit', 'a batch is committed')
    s.one(sets, 'apply', 'events are written to memory')
    if ww and done:
        s.before(ww, done, 'log-first', 'with the log enabled a batch is committed (visible to other operations) only '
                 'after it is in the log', within=walon)
    for e in sets:
        for w in ww:
            s.ob(e.order < w.order, 'apply-first', 'the log is written after all events are applied, so nothing can '
                 'fail after the batch is in the log', w.where())
    for d in done:
        s.ob(not v.possible(s.and_(d.cond, failed)), 'commit-failed', 'a failed batch is never committed', d.where())
    s.must(failed, rb, 'rollback', 'a failed batch is rolled back')
    s.only_if(rb, failed, 'rollback-only', 'only a failed batch is rolled back')
    s.must(failed, [e for e in v.events if e.kind in ('throw',)] + v.calls('exception_mgr_throw'), 'report',
           'the error of a failed batch is reported to the caller')
    # each event: locked, allocated, logged, applied, with what it replaced remembered
    for e in sets:
        B = v.body(e.loops[-1]) if e.loops else 0
        prev = [x for x in v.stores_of('LogOp', 'prev') if same_call(x.args[1], e)]
        s.after([e], prev, 'prev', 'the version an event replaces is remembered for rollback')
        alloc = [x for x in v.calls('event_allocate') if x.loops == e.loops and plain(x.value) == plain(e.args[1])]
        s.before(alloc, [e], 'event', 'the event applied is the one allocated for this argument')
        logged = [x for x in v.calls('log_add_event') if plain(x.args[2]) == plain(e.args[1])]
        s.must(e.cond, logged, 'logged', 'every event applied is part of the log record')
        lk = [x for x in v.calls('engine_lock')]
        s.before(lk, [e], 'lock', 'the partition is locked before the event is applied')
        refs = [x for x in v.stores_of('LogOp', 'ref')]
        s.before([x for x in refs if any(same_call(x.args[1], l) for l in lk)], [e], 'ref',
                 'the locked partition is remembered before the event is applied')
        s.before([x for x in logged], [e], 'event-first', 'an event is registered in the batch before it is applied')
    for l in v.calls('engine_lock'):
        s.ob(s.each(l.args[1], lambda x: is_path(x, 'EventArg.id') or has_path(x, 'Config.ssn'), l.cond), 'lock-id',
             'the partition is the one of the id of the event', l.where())
        arg = base_of(l.args[1], 'EventArg')
        for a in v.calls('event_allocate'):
            s.ob(plain(a.args[1]) == plain(arg), 'arg', 'the event is made of the argument its partition was found '
                 'for', a.where())
        r = loop_range(v, l.loops[-1], arg) if l.loops else None
        ok = bool(r) and r[2] == 1 and r[0] == {('a', 1): 1} and r[1] == {('a', 1): 1, ('a', 2): 1, (): -1}
        s.ob(ok, 'all', 'every event of the batch is written, in order', l.where())
    # without the log the batch still gets the next lsn
    lsn = [e for e in v.stores_of('LogWrite', 'lsn')]
    s.must(s.not_(walon) if not lsn else s.and_(s.not_(walon), 1), ww + lsn, 'lsn', 'every batch gets an lsn')


def same_call(val, e):
    """is the value the result of call effect e"""
    from cond import gates
    return all(strip(x) == strip(e.value) for _, x in gates(val)) if e.value is not None else False


def wal(prog, res, name, payload):
    s = Spec(prog, res, name, interest=['file_writev', 'file_write', 'file_truncate', 'crc32', 'config_lsn_set',
                                        'config_lsn_follow', 'vfs_sync', 'file_sync'],
             stores=[('LogWrite', 'lsn'), ('LogWrite', 'crc')])
    v = s.v
    w = v.calls('file_writev', 'file_write')
    s.one(w, 'write', 'a record is appended to the current log file')
    lsn = v.stores_of('LogWrite', 'lsn')
    seal = v.stores_of('LogWrite', 'crc')
    s.before(lsn, w, 'lsn', 'the record has its lsn before it is written')
    for e in lsn:
        t = {k: c for k, c in lin(e.args[1]).items()}
        ok = t.get((), 0) == 1 and len(t) == 2 and any(k != () and is_path(k, 'Config.lsn') for k in t)
        s.ob(ok, 'lsn-next', 'the lsn of a record is the one after the last', e.where())
    crc = s.nz('Config.wal_crc')
    s.before(seal, w, 'crc', 'the crc covers the header when the record is written', within=crc)
    for e in seal:
        s.ob(any(l.order < e.order for l in lsn), 'crc-lsn', 'the crc is computed after the lsn is set', e.where())
    sync = v.calls('file_sync', 'vfs_sync')
    for e in w:
        on = s.and_(e.cond, s.nz('Config.wal_sync_on_write'), s.nz('Config.sync'))
        s.must(on, [x for x in sync if x.order > e.order], 'sync',
               'with wal_sync_on_write the record is synced before the write returns')
        for x in sync:
            s.ob(base_eq(x.args[0], e.args[0]), 'sync-file', 'the file written is the one synced', x.where())
    failed = v.failed()
    adv = v.calls('config_lsn_set', 'config_lsn_follow')
    s.must(s.not_(failed), adv, 'advance', 'the lsn advances after a successful write')
    s.before(w, adv, 'advance-after', 'the lsn advances only after the record is written')
    for e in adv:
        s.ob(not v.possible(s.and_(e.cond, failed)), 'advance-failed', 'the lsn of a record which was not written is '
             'used again', e.where())
        own = [plain(strip(x.args[1])) for x in lsn]
        s.ob(s.each(e.args[-1], lambda x: plain(strip(x)) in own or is_path(x, 'LogWrite.lsn'), e.cond), 'advance-value', 'the lsn advances to the one of the record', e.where())
    tr = v.calls('file_truncate')
    s.must(failed, tr, 'torn', 'a partially written record is removed, so that the next one does not follow it')
    for e in tr:
        s.ob(is_path(e.args[1], 'File.size') and all(v.loaded_before(e.args[1], x) for x in w), 'torn-size',
             'the file is cut back to its size before the write', e.where())
        s.ob(base_eq(e.args[0], w[0].args[0]) if w else False, 'torn-file', 'the file written is the one cut back',
             e.where())
    thr = [e for e in v.events if e.kind == 'throw']
    s.must(failed, thr, 'fail', 'a failed write is reported')


def base_eq(a, b):
    return apath(a)[:-1] == apath(b)[:-1] or apath(a) == apath(b) or apath(b) == apath(a)[:len(apath(b))]


def record(prog, res):
    """the record holds the header once and every event, and says so"""
    s = Spec(prog, res, 'log_add_event', interest=['iov_add', 'crc32'], stores=[('LogWrite', 'size'), ('LogWrite', 'crc'),
                                                                                ('LogOp', 'event')])
    v = s.v
    iov = v.calls('iov_add')
    hdr = [e for e in iov if is_path(e.args[1], 'Log.write')]
    evt = [e for e in iov if strip(e.args[1]) == ('a', 2)]
    hsize = prog.structs['LogWrite']['size']
    first = s.rel('eq', lambda x: is_path(x, 'LogWrite.count'), 1)
    s.exactly(hdr, first, 'header', 'the header is added once, before the first event')
    s.exactly(evt, 1, 'event', 'the bytes of every event are added')
    for h in hdr:
        for e in evt:
            s.ob(h.order < e.order, 'header-first', 'the header precedes the events', h.where())
        s.ob(strip(h.args[2]) == ('i', hsize), 'header-size', 'the whole header is added', h.where())
    # the size of the record is the sum of what was added
    sizes = v.stores_of('LogWrite', 'size')
    s.must(1, sizes, 'size', 'the size of the record counts every event')
    want = [lin(e.args[2]) for e in evt]
    ok = bool(sizes) and bool(want)
    for c, x in s.final(sizes) if ok else ():
        d = lin(x)
        old = [t for t in d if t != () and is_path(t, 'LogWrite.size')]
        exp = dict(want[0])
        if v.implies(c, first):
            exp = ladd(exp, {(): hsize})
        elif not v.implies(c, s.not_(first)):
            ok = False
        d = ladd({plain(t) if t != () else t: k for t, k in d.items() if t not in old}, {})
        ok = ok and len(old) == 1 and d == {plain(t) if t != () else t: k for t, k in exp.items()}
    s.ob(ok, 'size-sum', 'the size of the record is the header plus every event', sizes[0].where() if sizes else None)
    on = s.nz('Config.wal_crc')
    crc = v.calls('crc32')
    s.exactly(crc, on, 'crc', 'the crc covers every event when it is enabled')
    for e in crc:
        s.ob(is_path(e.args[0], 'LogWrite.crc') and strip(e.args[1]) == ('a', 2)
             and bool(evt) and plain(e.args[2]) == plain(evt[0].args[2]), 'crc-bytes',
             'the crc is continued over the bytes of the event', e.where())
        s.after([e], [x for x in v.stores_of('LogWrite', 'crc') if same_call(x.args[1], e)], 'crc-kept', 'the crc is kept')
    s.must(1, [e for e in v.stores_of('LogOp', 'event') if strip(e.args[1]) == ('a', 2)], 'op',
           'the event is remembered for commit and rollback')


@rule('D01')
def d01(prog, res):
    parts(prog, res, rollback, commit, write, whole)
    wal(prog, res, 'wal_write', 'iov')
    wal(prog, res, 'wal_write_op', 'write')
    parts(prog, res, record, basic.log_buffers)
    res.need('obligations', 40)
