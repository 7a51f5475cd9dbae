"""D02: recovery replays what was logged, and nothing else."""
from cond import gates, plain
from ir import walk
import rules_basic as basic
from report import parts, rule
from rules_read import arg
from rules_write import all_ops, base_eq, same_call
from spec import Spec, apath, base_of, has_path, is_call, is_path, ladd, lin, strip


def is_lsn(x):
    """the lsn of the record being replayed"""
    return is_path(x, 'LogWrite.lsn') and not is_path(x, 'Log.write', 'LogWrite.lsn')


def newer(s):
    """the file of the partition already has this record"""
    return s.and_(s.nz('Part.state'), s.lrel('ge', [(lambda t: is_path(t, 'Part.index', 'Index.lsn')
                                                     or is_path(t, 'Index.lsn'), 1), (is_lsn, -1)]))


def replay_write(prog, res):
    s = Spec(prog, res, 'engine_write_replay',
             interest=['engine_lock', 'engine_unlock', 'log_add', 'log_pushback', 'log_add_event', 'memtable_set',
                       'engine_rollback', 'engine_commit', 'event_copy', 'config_lsn_follow', 'wal_write'],
             stores=[('LogOp', 'prev'), ('LogOp', 'ref'), ('LogWrite', 'lsn')])
    v = s.v
    skip = newer(s)
    sets, locks = v.calls('memtable_set'), v.calls('engine_lock')
    done, rb, failed = v.calls('engine_commit'), v.calls('engine_rollback'), v.failed()
    for l in locks:
        B = v.body(l.loops[-1]) if l.loops else 0
        s.ob(is_path(l.args[1], 'Event.id'), 'lock', 'the partition of the event in the record is locked', l.where())
        s.ob(strip(l.args[4]) != ('i', 0), 'create', 'a partition which does not exist is created', l.where())
        s.exactly(sets, s.and_(B, s.not_(skip)), 'apply', 'an event of the record is applied unless the file of its '
                  'partition already has it')
        s.only_if(v.calls('log_pushback'), skip, 'skip', 'only events which the file already has are skipped')
        s.only_if(v.calls('engine_unlock'), skip, 'unlock', 'only the partition of a skipped event is unlocked early')
        # every event of the record, from the first one
        ev = base_of(l.args[1], 'Event')
        ok = False
        if ev is not None and ev[0] == 'phi':
            init, step = v.phi(ev)
            hdr = prog.structs['LogWrite']['size']
            esize = [x for x in step if strip(x) != ('i', 0)]
            ok = len(init) == 1 and lin(init[0]) == {('a', 1): 1, (): hdr} and len(esize) == 1
            if ok:
                d = ladd(lin(esize[0]), lin(ev), -1)
                t = [k for k in d if k != ()]
                ok = len(t) == 1 and is_path(t[0], 'Event.data_size') and d.get(()) == prog.structs['Event']['size']
            ok = ok and v.equal(B, s.not_(v.eq(ev, ('i', 0))))
        s.ob(ok, 'all', 'every event of the record is visited, from the first to the last', l.where())
    s.one(locks, 'lock', 'the partition of the event in the record is locked')
    for e in sets:
        s.ob(is_call(e.args[1], 'event_copy'), 'copy', 'a copy of the event is applied', e.where())
        s.ob(all(same_call(e.args[1], c) and is_path(c.args[0], 'Memtable.heap') and plain(c.args[1]) ==
                 plain(base_of(locks[0].args[1], 'Event')) for c in v.calls('event_copy')) if locks else False,
             'copy-of', 'the copy is made of the event of the record in the heap of the memory table', e.where())
        s.before([x for x in v.calls('log_add_event') if plain(x.args[2]) == plain(e.args[1])], [e], 'event',
                 'the event is registered for rollback before it is applied')
        s.before([x for x in v.stores_of('LogOp', 'ref') if any(same_call(x.args[1], l) for l in locks)], [e], 'ref',
                 'the locked partition is remembered')
        s.after([e], [x for x in v.stores_of('LogOp', 'prev') if same_call(x.args[1], e)], 'prev',
                'the version an event replaces is remembered')
    s.must(s.not_(failed), done, 'commit', 'a replayed record is committed')
    s.must(failed, rb, 'rollback', 'a record that fails to replay is rolled back')
    s.must(failed, [e for e in v.events if e.kind == 'throw'], 'report', 'and the error is reported')
    s.before([x for x in v.stores_of('LogWrite', 'lsn') if s.each(x.args[1], is_lsn)], done, 'lsn',
             'the memory tables follow the lsn of the record')
    s.must(s.not_(failed), [x for x in v.calls('config_lsn_follow') if s.each(x.args[0], is_lsn)], 'follow',
           'the lsn follows the replayed record')
    s.ob(not v.calls('wal_write'), 'relog', 'a replayed record is not logged again')


def record_walk(prog, res):
    s = Spec(prog, res, 'log_write_next')
    v = s.v
    hdr = prog.structs['Event']['size']
    end = s.lrel('ge', [(('a', 1), 1), (lambda t: is_path(t, 'Event.data_size'), 1), (('a', 0), -1),
                        (lambda t: is_path(t, 'LogWrite.size'), -1)], hdr)
    ok = True
    for c, x in gates(v.ret):
        d = lin(x)
        if not d:
            ok = ok and v.implies(c, end)
        else:
            ok = ok and v.implies(c, s.not_(end))
    s.ob(ok, 'end', 'the events of a record end where the record ends')


def replay_drop(prog, res):
    s = Spec(prog, res, 'engine_drop_replay', interest=['engine_lock', 'engine_unlock', 'engine_drop_file',
                                                        'engine_drop_reference', 'config_lsn_follow', 'wal_write_op'])
    v = s.v
    drop, ref = v.calls('engine_drop_file'), v.calls('engine_drop_reference')
    skip = newer(s)
    found = s.test(lambda x: is_call(x, 'engine_lock'))
    for evs, key in ((drop, 'file'), (ref, 'reference')):
        s.exactly(evs, s.and_(found, s.not_(skip)), key, 'a logged drop is replayed unless the partition was created '
                  'again after it')
        for e in evs:
            s.ob(is_path(e.args[1], 'LogDrop.id'), key + ':id', 'the partition dropped is the one in the record', e.where())
    for e in ref:
        s.ob(strip(e.args[2]) == ('i', 0), 'relog', 'a replayed drop is not logged again', e.where())
    for e in v.calls('engine_lock'):
        s.ob(strip(e.args[4]) == ('i', 0) and is_path(e.args[1], 'LogDrop.id'), 'lock',
             'the partition is looked up, not created', e.where())
    s.must(1, [x for x in v.calls('config_lsn_follow') if s.each(x.args[0], is_lsn)], 'follow',
           'the lsn follows the replayed record')
    for e in v.calls('config_lsn_follow'):
        s.ob(all(e.order > x.order for x in drop + ref), 'order', 'after it is replayed', e.where())


def read(prog, res):
    s = Spec(prog, res, 'wal_file_pread', interest=['file_pread_buf', 'crc32', 'buf_reset'], throws=True)
    v = s.v
    H = prog.structs['LogWrite']['size']
    rd = v.calls('file_pread_buf')
    off = ('a', 1)
    fsize = lambda t: is_path(t, 'File.size')
    rsize = lambda t: is_path(t, 'LogWrite.size')
    head = s.lrel('le', [(off, 1), (fsize, -1)], H)
    body = s.lrel('le', [(off, 1), (rsize, 1), (fsize, -1)])
    short = s.lrel('lt', [(rsize, 1)], -H)
    hr = [e for e in rd if lin(e.args[2]) == {(): H} and lin(e.args[3]) == {off: 1}]
    br = [e for e in rd if e not in hr]
    s.exactly(hr, head, 'header', 'a header is read if and only if the file holds all of it')
    s.exactly(br, s.and_(head, s.not_(short), body), 'body',
              'the events are read if and only if the file holds the whole record and its size is possible')
    for e in br:
        d, o = lin(e.args[2]), lin(e.args[3])
        t = [k for k in d if k != ()]
        s.ob(len(t) == 1 and rsize(t[0]) and d == {t[0]: 1, (): -H} and o == {off: 1, (): H}, 'body-range',
             'the body is what follows the header in the file, to the end of the record', e.where())
    on = s.nz('Config.wal_crc')
    crcs = v.calls('crc32')
    whole = s.and_(head, s.not_(short), body)
    s.exactly(crcs, s.and_(whole, on), 'crc', 'the crc of every complete record is computed')
    differ = s.not_(s.rel('eq', lambda x: is_call(x, 'crc32'), lambda x: is_path(x, 'LogWrite.crc')))
    thr = [e for e in v.events if e.kind == 'throw']
    s.must(s.and_(whole, on, differ), thr, 'crc-error', 'a record whose crc differs is an error')
    s.must(s.and_(head, short), thr, 'size-error', 'a record whose size is impossible is an error')
    good = s.and_(whole, s.or_(s.not_(on), s.not_(differ)))
    s.only_if(thr, s.not_(good), 'no-error', 'a good record is not an error')
    last = max(crcs, key=lambda e: e.order) if crcs else None
    if last:
        a = last.args
        first = [e for e in crcs if same_call(a[0], e)]
        ok = bool(first) and strip(first[0].args[0]) == ('i', 0)
        if ok:
            parts = [(lin(e.args[1]), lin(e.args[2])) for e in (first[0], last)]
            ok = covers(parts[0], H, None, rsize) and covers(parts[1], 4, H - 4, rsize)
        s.ob(ok, 'crc-range', 'the crc covers the events and then the header after the crc field, as it was computed '
             'when the record was written', last.where())
    # true exactly for a good record
    for c, x in gates(v.ret):
        t = strip(x)
        c2 = v.bool(x) if t[0] != 'i' else int(t[1] != 0)
        s.ob(v.implies(s.and_(c, c2), good) and v.implies(s.and_(c, s.not_(c2)), s.not_(good)), 'result',
             'true is returned for a complete record, false at the end of the file')


def covers(part, start, size, rsize):
    p, n = part
    base = {t: c for t, c in p.items() if t != ()}
    off = p.get((), 0)
    if off != start or not base:
        return False
    if size is not None:
        return n == {(): size}
    t = [k for k in n if k != ()]
    return len(t) == 1 and rsize(t[0]) and n.get((), 0) == -start


def seal(prog, res):
    s = Spec(prog, res, 'log_write_seal', interest=['crc32'], stores=[('LogWrite', 'crc')])
    v = s.v
    H = prog.structs['LogWrite']['size']
    st = v.stores_of('LogWrite', 'crc')
    s.exactly(st, s.nz('Config.wal_crc'), 'crc', 'the crc of the record is completed when it is enabled')
    for e in v.calls('crc32'):
        s.ob(is_path(e.args[0], 'LogWrite.crc') and lin(e.args[1]) == {('a', 0): 1, (): 4}
             and lin(e.args[2]) == {(): H - 4}, 'range', 'with the header after the crc field', e.where())
        s.after([e], [x for x in st if same_call(x.args[1], e)], 'kept', 'and kept')


def cursor(prog, res):
    s = Spec(prog, res, 'wal_cursor_next', interest=['wal_file_pread', 'wal_id_next', 'wal_file_open', 'wal_file_close',
                                                     'wal_file_free', 'wal_file_allocate'],
             stores=[('WalCursor', 'file_offset'), ('WalCursor', 'file')])
    v = s.v
    rd, nx, opn = v.calls('wal_file_pread'), v.calls('wal_id_next'), v.calls('wal_file_open')
    offs = v.stores_of('WalCursor', 'file_offset')
    got = s.test(lambda x: is_call(x, 'wal_file_pread'))
    s.one(rd, 'read', 'the next record is read')
    adv = [e for e in offs if strip(e.args[1]) != ('i', 0)]
    zero = [e for e in offs if strip(e.args[1]) == ('i', 0)]
    for e in rd:
        s.ob(is_path(e.args[0], 'WalCursor.file') or e.args[0][0] in ('phi', 'gate'), 'read-file',
             'from the current file', e.where())
        s.ob(is_path(e.args[1], 'WalCursor.file_offset') or e.args[1][0] in ('phi', 'gate'), 'read-offset',
             'at the current offset', e.where())
        s.must(s.and_(e.cond, got), adv, 'advance', 'the offset moves past a record which was read')
    s.only_if(adv, got, 'advance-only', 'the offset moves only past a record which was read')
    for e in adv:
        d = lin(e.args[1])
        s.ob(any(is_path(t, 'LogWrite.size') and c == 1 for t, c in d.items() if t != ()) and len(d) == 2
             and d.get((), 0) == 0, 'advance-size', 'by the size of the record', e.where())
    more = s.not_(s.rel('eq', lambda x: is_call(x, 'wal_id_next'), -1))
    for e in nx:
        s.ob(is_path(e.args[1], 'WalFile.id'), 'next-id', 'the next file follows the current one', e.where())
    s.only_if(nx, s.not_(got), 'next', 'the next file is opened only after the last record of this one')
    for e in opn:
        s.only_if([e], s.not_(got), 'open', 'the next file is opened only after the last record of this one')
        s.ob(any(z.order < e.order or z.order > e.order for z in zero), 'zero', 'and read from its start', e.where())
    s.must(s.and_(v.any(nx), more), opn, 'follow', 'the files of the log are read to the last one')
    s.must(v.any(opn), zero, 'zero', 'a file is read from its start')
    # true for a record, false at the end
    for c, x in gates(v.ret):
        c1 = v.bool(x) if strip(x)[0] != 'i' else int(strip(x)[1] != 0)
        s.ob(v.implies(s.and_(c, c1), got), 'result', 'true is returned only for a record')


def main(prog, res):
    s = Spec(prog, res, 'main_replay', interest=['wal_cursor_open', 'wal_cursor_next', 'engine_write_replay',
                                                 'engine_drop_replay', 'wal_truncate', 'wal_cursor_close'], throws=True)
    v = s.v
    w, d, t, nx = (v.calls(n) for n in ('engine_write_replay', 'engine_drop_replay', 'wal_truncate', 'wal_cursor_next'))
    got = s.test(lambda x: is_call(x, 'wal_cursor_next'))
    typ = lambda x: is_path(x, 'LogWrite.type')
    E = prog.enums
    for evs, name, key in ((w, 'LOG_WRITE', 'write'), (d, 'LOG_DROP', 'drop')):
        s.exactly(evs, s.and_(v.any(nx), got, s.rel('eq', typ, enum(prog, name))), key,
                  'a record of type %s is replayed as such' % name)
    thr = [e for e in v.events if e.kind == 'throw']
    s.must(s.and_(v.any(nx), got, s.not_(s.rel('eq', typ, enum(prog, 'LOG_WRITE'))),
                  s.not_(s.rel('eq', typ, enum(prog, 'LOG_DROP')))), thr, 'unknown', 'any other record is an error')
    for e in v.calls('wal_cursor_open'):
        s.ob(strip(e.args[2]) == ('i', 0), 'start', 'the log is replayed from its first record', e.where())
    opened = s.nz('WalCursor.file')
    if s.one(t, 'truncate', 'an incomplete record at the end of the log is cut off'):
        s.must(opened, t, 'truncate', 'an incomplete record at the end of the log is cut off')
        for e in t:
            s.ob(not e.loops and all(x.order < e.order for x in w + d) and is_path(e.args[1], 'WalFile.id')
                 and is_path(e.args[2], 'WalCursor.file_offset'), 'truncate-at',
                 'where the last complete record ends, after the replay', e.where())


def truncate(prog, res):
    s = Spec(prog, res, 'wal_truncate', interest=['file_truncate', 'mutex_lock', 'mutex_unlock'])
    v = s.v
    t = v.calls('file_truncate')
    same = s.rel('eq', lambda x: is_path(x, 'WalFile.id'), lambda x: x == ('a', 1))
    more = s.lrel('gt', [(lambda x: is_path(x, 'File.size'), 1), (('a', 2), -1)])
    s.exactly(t, s.and_(same, more), 'cut', 'the current file is cut back to the last complete record')
    for e in t:
        s.ob(strip(e.args[1]) == ('a', 2) and is_path(e.args[0], 'Wal.current', 'WalFile.file'), 'cut-at',
             'at the given offset', e.where())


def enum(prog, name):
    for vals in prog.enums.values():
        if name in vals:
            return vals[name]
    from ir import Broken
    raise Broken('no constant %s' % name)


# ------------------------------------------------------------------ the files of the log
def phis(v, k):
    return [('phi', i.id, k[0]) for i in v.frameobj[k[0]].fn.blocks[k[1]] if i.op == 'phi']


def start_of_list(x):
    return is_path(x, 'WalId.list', 'Buf.start')


def at_list(x):
    """linear form of n if x is list[n]"""
    x = plain(strip(x))
    if x[0] != 'ld':
        return None
    return at_addr(x[1])


def at_addr(x):
    x, n = strip(x), {}
    while x[0] == 'idx' and x[3] == 8:
        x, n = strip(x[1]), ladd(n, lin(x[2]))
    return n if start_of_list(x) else None


def count_of(x):
    return is_path(x, 'WalId.list_count')


def scans(s, p):
    """p runs over the list from its first element, one by one"""
    init, step = s.v.phi(p)
    return [strip(x) for x in init] == [('i', 0)] and all(ladd(lin(x), {p: 1}, -1) == {(): 1} for x in step) and bool(step)


def element(p):
    return lambda x: at_list(x) == {p: 1}


def walkers(s):
    out = []
    for k in s.v.loops:
        for p in phis(s.v, k):
            if scans(s, p):
                out.append((k, p))
    return out


def file_list(prog, res):
    """the list of files is in the order of their records"""
    # the first, the last
    for fn, at in (('wal_id_min', lambda d: d == {}), ('wal_id_max', lambda d: d.get(()) == -1 and len(d) == 2 and any(t != () and count_of(t) and c == 1 for t, c in d.items()))):
        s = Spec(prog, res, fn)
        v = s.v
        some = s.rel('gt', count_of, 0)
        sane = s.rel('ge', count_of, 0)
        got = [(c, x) for c, x in gates(v.ret) if at_list(x) is not None]
        s.ob(bool(got), 'element', 'a file of the list is returned')
        for c, x in gates(v.ret):
            d = at_list(x)
            if d is None:
                s.ob(strip(x) == ('i', -1) and not v.possible(s.and_(c, some)), 'none', 'none only if there is no file')
            else:
                s.ob(at(d) and v.implies(s.and_(c, sane), some), 'which', 'the %s one' % ('first' if fn == 'wal_id_min' else 'last'))
    # the next one
    s = Spec(prog, res, 'wal_id_next')
    v = s.v
    ws = walkers(s)
    if s.ob(len(ws) == 1, 'scan', 'the list is searched from its start'):
        k, p = ws[0]
        larger = s.rel('ugt', element(p), lambda x: x == ('a', 1))
        inside, agree = s.linked('lt', [(p, 1), (count_of, -1)])
        left = s.and_(agree, s.not_(v.body(k)))
        s.ob(s.made(larger) and s.made(inside), 'compare', 'the files are compared with the last one read')
        for c, y in v.phi_steps(p):
            s.ob(v.implies(s.and_(c, agree), s.and_(inside, s.not_(larger))), 'go-on', 'the search ends at the first file which is newer')
        for c, x in gates(v.ret):
            if strip(x) == ('i', -1):
                s.ob(v.implies(s.and_(c, left), s.not_(inside)), 'none', 'none only if there is no newer file')
            else:
                s.ob(at_list(x) == {p: 1} and v.implies(s.and_(c, left), s.and_(inside, larger)), 'next', 'the oldest file which is newer is returned')
    # a new one is put into its place
    s = Spec(prog, res, 'wal_id_add', interest=['buf_reserve', 'buf_advance', 'llvm.memmove', 'memmove'], stores=[('WalId', 'list_count')], outs=[('elem', 'Buf', 'start')], throws=True)
    v = s.v
    fin = s.v.any(v.rets())
    put = [e for e in v.events if e.kind == 'store' and e.name == ('elem', 'Buf', 'start')]
    ws = walkers(s)
    mv = v.calls('llvm.memmove', 'memmove')
    if s.ob(len(ws) == 1, 'scan', 'the place is searched from the start') and s.one(put, 'put', 'the file is put into the list'):
        k, p = ws[0]
        below = s.rel('ult', element(p), lambda x: x == ('a', 1))
        upto = s.rel('ule', element(p), lambda x: x == ('a', 1))
        inside, agree = s.linked('lt', [(p, 1), (count_of, -1)])
        left = s.and_(agree, s.not_(v.body(k)))
        s.ob(s.made(below) and s.made(inside), 'compare', 'the files are compared with the new one')
        for c, y in v.phi_steps(p):
            s.ob(v.implies(s.and_(c, agree), s.and_(inside, upto)), 'place', 'the files before it are older')
        s.ob(not v.possible(s.and_(v.any(put), left, inside, below)), 'place', 'the files behind it are newer')
        for e in put:
            s.ob(at_addr(e.args[0]) == {p: 1} and strip(e.args[1]) == ('a', 1), 'put-at', 'at its place', e.where())
        s.must(fin, put, 'put', 'the file is put into the list')
        s.must(s.and_(fin, left, inside), mv, 'move', 'the newer files move up')
        for e in mv:
            size = lin(e.args[2])
            n = strip(e.args[2])
            cnt = {t: c for t, c in size.items()}
            ok = moved(e.args[2], p)
            s.ob(at_addr(e.args[0]) == {p: 1, (): 1} and at_addr(e.args[1]) == {p: 1} and ok, 'move-all', 'all of them, by one', e.where())
            s.ob(all(e.order < x.order for x in put), 'move-first', 'before the new one takes their place', e.where())
        for e in v.calls('buf_reserve') + v.calls('buf_advance'):
            s.ob(lin(e.args[1]) == {(): 8}, 'room', 'room for one more', e.where())
        s.before(v.calls('buf_reserve'), put, 'room', 'there is room for one more')
        s.must(fin, v.calls('buf_advance'), 'size', 'the list has one more')
        ct = v.stores_of('WalId', 'list_count')
        s.must(fin, ct, 'size', 'the list has one more')
        for e in ct:
            d = lin(e.args[1])
            s.ob(len(d) == 2 and d.get(()) == 1 and any(t != () and count_of(t) and c == 1 for t, c in d.items()), 'size', 'the list has one more', e.where())


def moved(x, p):
    """(count - p) * 8"""
    d = lin(x)
    if len(d) == 1:
        t, c = next(iter(d.items()))
        t = strip(t) if t != () else ('i', 0)
        while t[0] == 'cast':
            t = strip(t[-1])
        if t[0] == 'bin' and t[1] in ('mul', 'shl'):
            k = strip(t[3])
            if k == ('i', 8 if t[1] == 'mul' else 3):
                d, c = lin(t[2]), c * 8
        else:
            d, c = lin(t), c
        d = {q: n * c for q, n in d.items()}
    flat = {}
    for q, n in d.items():
        y = strip(q) if q != () else ()
        while y and y[0] == 'cast':
            y = strip(y[-1])
        for a, b in (lin(y).items() if y else [((), 1)]):
            flat[a] = flat.get(a, 0) + b * n
    flat = {a: b for a, b in flat.items() if b}
    return len(flat) == 2 and flat.get(p) == -8 and any(a != () and count_of(a) and b == 8 for a, b in flat.items())


def files(prog, res):
    """every file of the log is found again, and new records follow the old ones"""
    # the name of a file is its id
    s = Spec(prog, res, 'wal_file_id_of')
    v = s.v
    num = [(k, p) for k in v.loops for p in phis(v, k) if any(strip(x)[0] in ('bin', 'cast') and any(c == 10 for c in lin(strip(x)).values()) for x in v.phi(p)[1])]
    if s.ob(len(num) == 1, 'digits', 'the id of a file is the number in its name'):
        k, p = num[0]
        s.ob([strip(x) for x in v.phi(p)[0]] == [('i', 0)], 'digits', 'the id of a file is the number in its name')
        for x in v.phi(p)[1]:
            if strip(x) == ('i', -1):
                continue
            d = dict(lin(strip(x)))
            s.ob(d.pop(p, 0) == 10 and d.pop((), 0) == -48 and list(d.values()) == [1], 'digits', 'all digits count', None)
        s.ob(any(p in [y for y in walk(strip(x))] for c, x in gates(v.ret)), 'number', 'it is returned')
    for c, x in gates(v.ret):
        s.ob(strip(x) == ('i', -1) or (len(num) == 1 and lin(strip(x)) == {num[0][1]: 1}), 'number', 'it is returned, or that there is none')
    # all files of the directory
    s = Spec(prog, res, 'wal_recover', interest=['wal_id_add', 'readdir', 'opendir'], opaque=['wal_file_id_of'], throws=True)
    v = s.v
    rd, add = v.calls('readdir'), v.calls('wal_id_add')
    if s.one(rd, 'read', 'the directory is read') and s.one(add, 'add', 'its files are added'):
        e = rd[0]
        some = s.not_(s.rel('eq', lambda x: is_call(x, 'readdir'), 0))
        hidden = s.rel('eq', lambda x: is_path(x, 'dirent.d_name') or has_path(x, 'dirent.d_name') and x[0] == 'ld', 46)
        ident = lambda x: is_call(x, 'wal_file_id_of')
        named = s.rel('ge', ident, 0)
        sane = s.rel('ge', ident, -1)
        s.ob(bool(e.loops) and add[0].loops == e.loops, 'all', 'entry by entry', e.where())
        s.must(s.and_(v.any(rd), some, s.not_(hidden), named, sane), add, 'add', 'every file whose name is a number is added')
        s.ob(all(v.implies(s.and_(a.cond, sane), s.and_(some, named)) for a in add), 'add-only', 'and no other')
        for a in add:
            s.ob(all(ident(x) and has_path(x, 'dirent.d_name') for x in s.leaves(a.args[1], a.cond)) and is_path(a.args[0], 'Wal.list'), 'id', 'under its number', a.where())
        s.ob(bool(e.loops) and (v.single_exit(e.loops[-1]) or v.implies(v.any(v.rets()), s.not_(some))) or not v.possible(s.and_(v.any(v.rets()), some)), 'end', 'up to the last entry')
    # the last one is continued
    s = Spec(prog, res, 'wal_open', interest=['wal_recover', 'wal_id_max', 'wal_file_allocate', 'wal_file_open', 'file_seek_to_end', 'wal_rotate'],
             opaque=['wal_recover', 'wal_rotate'], stores=[('Wal', 'current')], throws=True)
    v = s.v
    fin = v.any(v.rets())
    rc, op, sk, ro, cur = [v.calls(n) for n in ('wal_recover', 'wal_file_open', 'file_seek_to_end', 'wal_rotate')] + [v.stores_of('Wal', 'current')]
    some = s.rel('gt', count_of, 0)
    fin = s.and_(fin, s.rel('ge', count_of, 0))
    s.must(fin, rc, 'list', 'the files of the directory are read')
    for evs, key, msg in ((op, 'open', 'the last file is opened'), (cur, 'current', 'and is the current one'), (sk, 'end', 'new records follow the old ones')):
        s.must(s.and_(fin, some), evs, key, msg)
        s.before(rc, evs, 'list', 'the files of the directory are read first')
    last = lambda x: is_call(x, 'wal_file_allocate') and is_call(arg(x, 0), 'wal_id_max')
    for e in cur + op:
        x = e.args[1] if e in cur else e.args[0]
        s.ob(all(last(y) or (e in op and is_path(y, 'Wal.current')) for y in s.leaves(x, e.cond)), 'last', 'it is the newest one', e.where())
    for e in sk:
        s.ob(is_path(e.args[0], 'WalFile.file') and all(o.order < e.order for o in op), 'end-of', 'new records follow the old ones', e.where())
    s.must(s.and_(fin, s.not_(some)), ro, 'new', 'without files a new one is created')
    s.before(rc, ro, 'list', 'the files of the directory are read first')
    # the log is read from its first file, and its first record
    s = Spec(prog, res, 'wal_cursor_open', interest=['wal_id_min', 'wal_file_allocate', 'wal_file_open', 'wal_cursor_next', 'wal_id_find'],
             opaque=['wal_cursor_next', 'wal_id_find', 'wal_id_min', 'wal_file_open', 'wal_cursor_at'], stores=[('WalCursor', 'file'), ('WalCursor', 'file_offset')], throws=True)
    v = s.v
    whole = s.and_(v.any(v.rets()), s.rel('eq', lambda x: x == ('a', 2), 0))
    first = s.not_(s.rel('eq', lambda x: is_call(x, 'wal_id_min'), -1))
    mk, op, nx = [v.calls(n) for n in ('wal_file_allocate', 'wal_file_open', 'wal_cursor_next')]
    fl, of = v.stores_of('WalCursor', 'file'), v.stores_of('WalCursor', 'file_offset')
    s.must(s.and_(whole, first), op, 'open', 'the first file is opened')
    for e in mk:
        s.ob(all(is_call(x, 'wal_id_min') for x in s.leaves(e.args[0], s.and_(e.cond, whole))), 'first', 'the first file is opened', e.where())
    got = [e for e in fl if strip(e.args[1]) != ('i', 0)]
    s.must(s.and_(whole, first), got, 'file', 'and is the one read')
    for e in got:
        s.ob(is_call(e.args[1], 'wal_file_allocate'), 'file', 'and is the one read', e.where())
    set_, back = [e for e in of if lin(e.args[1]) == {}], [e for e in of if lin(e.args[1]) != {}]
    s.must(v.any(v.rets()), [e for e in set_ if not e.loops], 'start', 'from its start')
    s.ob(len(set_) + len(back) == len(of) and all(lin(e.args[1]).get(()) is None for e in back), 'start', 'from its start')
    for e in nx:
        read = s.and_(e.cond, s.not_(s.rel('eq', lambda x: is_call(x, 'wal_cursor_next'), 0)))
        enough = s.rel('uge', lambda x: is_path(x, 'LogWrite.lsn'), lambda x: x == ('a', 2))
        s.must(s.and_(read, enough if s.made(enough) else 1), back, 'rewind', 'a record which was read to find the start is read again')
    for e in back:
        d = lin(e.args[1])
        s.ob(any(t != () and is_path(strip(t), 'LogWrite.size') and c == -1 for t, c in d.items()) and len(d) == 2, 'rewind', 'a record which was read to find the start is read again', e.where())
    # the end of a file
    s = Spec(prog, res, 'file_seek_to_end', interest=['lseek', 'lseek64'], throws=True)
    sk = s.v.calls('lseek', 'lseek64')
    if s.one(sk, 'seek', 'the position is set'):
        s.must(s.v.any(s.v.rets()), sk, 'seek', 'the position is set')
        for e in sk:
            s.ob(is_path(e.args[0], 'File.fd') and is_path(e.args[1], 'File.size') and strip(e.args[2]) == ('i', 0), 'seek-to', 'to the end of the file', e.where())
    # one name for one file
    names = []
    for fn, idp in (('wal_file_open', 'WalFile.id'), ('wal_file_create', 'WalFile.id')):
        s = Spec(prog, res, fn, interest=['snprintf', 'file_open', 'file_create'], opaque=['file_open', 'file_create'])
        fm, op = s.v.calls('snprintf'), s.v.calls('file_open', 'file_create')
        if s.one(op, 'open', 'the file is opened') and s.one(fm, 'name', 'by its name'):
            e = fm[0]
            s.ob(strip(op[0].args[1]) == strip(e.args[0]) and is_path(op[0].args[0], 'WalFile.file'), 'name', 'by its name', e.where())
            s.ob(any(is_path(strip(x), idp) and lin(x) == {strip(x): 1} or is_path(strip(x), idp) for x in e.args[3:]), 'id', 'which has its id', e.where())
            names.append((strip(e.args[2]), s, e))
    s = Spec(prog, res, 'wal_gc', interest=['snprintf', 'fs_unlink', 'vfs_unlink'])
    for e in s.v.calls('snprintf'):
        names.append((strip(e.args[2]), s, e))
    for n, s, e in names:
        s.ob(n == names[0][0] and n[0] == 's' and str(n[1]).endswith('.wal') and '/wal/%' in str(n[1]), 'same-name', 'a log file has one name', e.where())


@rule('D02')
def d02(prog, res):
    parts(prog, res, replay_write, record_walk, replay_drop, read, seal, cursor, main, truncate, file_list, files, basic.accessors('lsn'))
    res.need('obligations', 40)
