"""C01: the last copy of a partition stays.
C02: what is sent to a cloud and fetched from it is complete."""
from ir import Broken, walk
from cond import gates, plain
from report import parts, rule
from rules_ddl import truth
from rules_file import done, errors
from rules_refresh import bit, has_bit
from spec import Spec, has_path, is_call, is_path, lin, origin, strip

LOCKS = ['engine_lock', 'engine_unlock', 'ref_lock', 'ref_unlock']
OPS = ['refresh_run', 'engine_download', 'engine_upload', 'engine_drop_file', 'engine_drop_reference', 'engine_drop', 'engine_refresh', 'engine_rebalance',
       'engine_drop_range', 'engine_download_range', 'engine_upload_range', 'engine_refresh_range']


def view(prog, res, fn, interest=(), stores=(), opaque=(), **kw):
    fs = prog.byname.get(fn)
    if not fs:
        raise Broken('no ' + fn)
    return Spec(prog, res, fs[0], interest=[n for n in list(interest) + LOCKS if prog.has(n)], stores=list(stores),
                opaque=[n for n in dict.fromkeys(list(opaque) + LOCKS + [o for o in OPS if o != fn]) if prog.has(n)], **kw)


def state(x):
    return is_path(x, 'Part.state')


def truthy(s, n):
    return s.not_(s.v.eq(('a', n), ('i', 0)))


def still(s, mask):
    """the partition has the file, whenever the code looks"""
    ts = s.terms(lambda x: strip(x)[0] == 'bin' and strip(x)[1] == 'and' and strip(x)[3] == ('i', mask) and state(strip(x)[2]))
    return s.and_(*[s.not_(s.v.eq(t, ('i', 0))) for t in ts]) if ts else s.fresh()


def the_part(x):
    """the partition which is locked"""
    return is_path(x, 'Ref.part') and is_call(origin(x), 'engine_lock')


METRICS = (('size', 'size_regions'), ('events', 'events'))


def moves_by(e, f, g, n):
    """a storage counts the size or events of the index of a partition once more, or no more"""
    d = lin(e.args[1])
    old = [t for t, c in d.items() if t != () and c == 1 and plain(t) == ('ld', plain(strip(e.args[0])))]
    by = [t for t, c in d.items() if t != () and c == n and is_path(t, 'Part.index', 'Index.' + g)]
    return d.get((), 0) == 0 and len([t for t in d if t != ()]) == 2 and bool(old) and bool(by)


def zero_state(s, e, part):
    """the partition has no file when the event happens"""
    return s.or_(*[s.and_(c, s.v.eq(x, ('i', 0))) for c, x in gates(s.content(e, part, 'Part', 'state'))])


# ------------------------------------------------------------------ moving a file
def transfer(prog, res, fn, work, have, need):
    s = view(prog, res, fn, ['part_download', 'part_upload'], [('Part', 'state')], ['part_download', 'part_upload'])
    v = s.v
    H, N = prog.enum(have), prog.enum(need)
    lk = v.calls('engine_lock')
    calls = s.one(v.calls(work), 'transfer', 'the file is transferred')
    for e in lk:
        s.ob(strip(e.args[1]) == ('a', 1), 'which', 'of the partition of the statement', e.where())
    found = s.not_(s.or_(*[v.eq(e.value, ('i', 0)) for e in lk])) if lk else s.fresh()
    cloud = s.nz('Part.cloud')
    has, new = bit(s, state, H), s.not_(bit(s, state, N))
    s.exactly(calls, s.and_(found, cloud, has, new), 'when', 'exactly when it has a cloud, the file is there and the copy is not')
    for e in calls:
        s.ob(the_part(e.args[0]), 'of', 'of the partition which is locked', e.where())
    st = s.one(v.stores_of('Part', 'state'), 'state', 'the partition is known to have the copy')
    for e in st:
        x = strip(e.args[1])
        ok = x[0] == 'bin' and x[1] == 'or' and strip(x[3]) == ('i', N) and state(x[2]) and the_part(strip(e.args[0])[1])
        s.ob(ok, 'state-of', 'the partition is known to have the copy, and what it had', e.where())
    s.before(calls, st, 'state-after', 'only after it is complete')
    bad = v.any(errors(s))
    s.must(s.and_(v.any(calls), s.not_(bad)), st, 'state-always', 'and always then')
    s.never(st, v.any([e for e in errors(s) if e.kind == 'throw']), 'state-failed', 'not if it failed')
    failed = v.failed()
    s.must(s.and_(v.any(calls), failed), errors(s), 'report', 'a failure is reported')
    # what cannot be done is an error, unless the statement allows it
    s.must(s.and_(s.not_(found), s.not_(truthy(s, 2))), errors(s), 'missing', 'a partition which does not exist is an error')
    s.must(s.and_(found, s.not_(cloud), s.not_(truthy(s, 3))), errors(s), 'no-cloud', 'a partition without a cloud is an error')
    if work == 'part_upload':
        s.must(s.and_(found, cloud, s.not_(has), new), errors(s), 'no-file', 'a partition without a file cannot be uploaded')


def transfers(prog, res):
    transfer(prog, res, 'engine_download', 'part_download', 'ID_CLOUD', 'ID')
    transfer(prog, res, 'engine_upload', 'part_upload', 'ID', 'ID_CLOUD')


# ------------------------------------------------------------------ removing a file
def removal(prog, res):
    s = view(prog, res, 'engine_drop_file', ['part_offload', 'index_init', 'buf_reset', 'storage_mgr_find'], [('Part', 'state'), ('Storage', 'size'), ('Storage', 'events')], ['part_offload', 'storage_mgr_find'])
    v = s.v
    L, C = prog.enum('ID'), prog.enum('ID_CLOUD')
    lk = v.calls('engine_lock')
    found = s.not_(s.or_(*[v.eq(e.value, ('i', 0)) for e in lk])) if lk else s.fresh()
    for e in lk:
        s.ob(strip(e.args[1]) == ('a', 1), 'which', 'of the partition of the statement', e.where())
    auto = truthy(s, 3)
    allowed = s.nz('Source.cloud_drop_local')
    go = s.and_(found, s.or_(s.not_(auto), s.and_(allowed, bit(s, state, C))))
    rm = s.one(v.calls('part_offload'), 'remove', 'files are removed')
    early = lambda e: v.any([x for x in errors(s) if x.order < e.order])
    st = v.stores_of('Part', 'state')
    for isl, B, key in ((True, L, 'local'), (False, C, 'cloud')):
        es = [e for e in rm if (strip(e.args[1]) != ('i', 0)) == isl]
        s.one(es, key, 'a %s file is removed' % key)
        ask = bit(s, lambda x: strip(x) == ('a', 4), B)
        for e in es:
            s.ob(the_part(e.args[0]) and strip(e.args[1])[0] == 'i', key + '-of', 'of the partition which is locked', e.where())
        s.only_if(es, s.and_(go, ask), key + '-asked', 'only if asked for, and automatically only if it is uploaded and the storage allows it')
        s.only_if(es, bit(s, state, B) if not isl else s.or_(bit(s, state, B), 0), key + '-there', 'if it is there')
        fail = v.failed()
        s.must(s.and_(go, ask, still(s, B), s.not_(fail)), es, key + '-always', 'whenever it is asked for')
        for e in es:
            un = [x for x in st if x.order > e.order and strip(x.args[1])[0] == 'bin' and strip(x.args[1])[1] == 'and' and strip(strip(x.args[1])[3]) == ('i', ~B)]
            s.must(s.and_(e.cond, s.not_(fail)), un, key + '-state', 'the partition is known not to have it any more')
        s.before(es, [x for x in st if has_bit(x.args[1], B, False)], key + '-state-after', 'only after it is removed')
    for x in st:
        y = strip(x.args[1])
        s.ob(y[0] == 'bin' and y[1] == 'and' and strip(y[3]) in (('i', ~L), ('i', ~C)) and state(y[2]) and the_part(strip(x.args[0])[1]), 'state-only', 'and nothing else about it changes', x.where())
    # a partition without files counts for nothing
    ii, br = v.calls('index_init'), v.calls('buf_reset')
    for e in ii:
        p = strip(e.args[0])
        s.ob(p[0] == 'fld' and p[2:4] == ('Part', 'index') and the_part(p[1]) and v.implies(e.cond, zero_state(s, e, p[1])), 'index', 'only the index of a partition without files is emptied', e.where())
    for e in br:
        s.ob(is_path(e.args[0], 'Part.index_data') and v.implies(e.cond, v.any(ii)), 'index-data', 'and its regions', e.where())
    s.one(ii, 'index', 'the index of a partition without files is emptied')
    for f, g in METRICS:
        es = s.one(v.stores_of('Storage', f), 'metrics-' + f, 'what it had is subtracted from its storage')
        s.before(es, ii, 'metrics-' + f, 'what it had is subtracted from its storage before')
        s.once(es, 'metrics-once', 'once')
        for e in es:
            s.ob(moves_by(e, f, g, -1) and is_call(origin(e.args[0]), 'storage_mgr_find') and any(the_part(y) for y in walk(e.args[1])), 'metrics-of', 'what it had is subtracted from its storage', e.where())
    ul = [e for e in v.calls('engine_unlock') if e.order > max([x.order for x in rm] or [0])]
    for e in ul:
        parts_ = [strip(x.args[0]) for x in rm]
        for p in parts_[:1]:
            z = s.and_(e.cond, zero_state(s, e, p), v.any(rm), s.not_(v.failed()))
            ok = v.implies(z, v.any(ii)) and v.implies(z, v.any(br))
            s.ob(ok, 'index-always', 'a partition without files has an empty index', e.where())
    s.must(s.and_(s.not_(found), s.not_(truthy(s, 2))), errors(s), 'missing', 'a partition which does not exist is an error')
    # the result: was there a partition to remove files of
    for c, x in gates(v.ret):
        t = truth(s, x)
        s.ob(v.implies(s.and_(c, t), found) and v.implies(s.and_(c, done(s), found, s.not_(auto)), t), 'result', 'the result says if the partition exists')
    s.must(s.and_(found, v.failed()), errors(s), 'report', 'a failure is reported')


def metrics(prog, res):
    """what a storage counts is what its partitions have"""
    for fn, n in (('storage_add', 1), ('storage_remove', -1)):
        s = view(prog, res, fn, (), [('Storage', 'size'), ('Storage', 'events')])
        v = s.v
        none = s.rel('eq', state, 0)
        for f, g in METRICS:
            es = s.one(v.stores_of('Storage', f), f, 'a storage counts what its partitions have')
            s.must(s.and_(done(s), s.not_(none) if s.made(none) else 1), es, f, 'a storage counts what its partitions have')
            s.once(es, f + '-once', 'once')
            for e in es:
                s.ob(moves_by(e, f, g, n) and origin(e.args[0]) == ('a', 0), f + '-of', 'a storage counts what its partitions have', e.where())
                # a partition which counts has an index: an empty one counts nothing
    ok = {f.key for n in ('storage_add', 'storage_remove', 'storage_add_metrics', 'storage_remove_metrics', 'storage_allocate') for f in prog.byname.get(n, ())}
    for k, fn in sorted(prog.functions.items()):
        for i in fn.all('store'):
            a = fn.expr(i.o[1])
            if a[0] == 'fld' and a[2] == 'Storage' and a[3] in ('size', 'events'):
                res.ob(k in ok, 'writer:%s:Storage.%s' % (k, a[3]), i.where(), '%s(): a storage counts what its partitions have' % fn.name)


def reference(prog, res):
    s = view(prog, res, 'engine_drop_reference', ['mapping_match', 'mapping_remove', 'storage_remove', 'ref_free', 'wal_write_op', 'log_drop_init', 'service_rotate', 'storage_mgr_find'],
             (), ['mapping_match', 'storage_mgr_find'])
    v = s.v
    mm = s.one(v.calls('mapping_match'), 'find', 'the partition is looked up')
    for e in mm:
        s.ob(strip(e.args[1]) == ('a', 1), 'find-which', 'by its id', e.where())
    found = s.not_(s.or_(*[v.eq(e.value, ('i', 0)) for e in mm]))
    empty = s.or_(s.rel('eq', state, 0), 0)
    rm, sr, fr, wr = [v.calls(n) for n in ('mapping_remove', 'storage_remove', 'ref_free', 'wal_write_op')]
    for evs, key, what in ((rm, 'unmap', 'is not in the map any more'), (sr, 'unlist', 'is not in its storage any more'), (fr, 'free', 'is released')):
        s.one(evs, key, 'the partition ' + what)
        s.only_if(evs, s.and_(found, empty), key + '-empty', 'only a partition without files is dropped')
        s.must(s.and_(done(s), found, empty), evs, key, 'a dropped partition ' + what)
        s.once(evs, key + '-once', 'once')
        for e in evs:
            x = e.args[1] if key != 'free' else e.args[0]
            s.ob(any(is_call(y, 'mapping_match') for y in walk(plain(strip(x)))), key + '-of', 'the partition found ' + what, e.where())
    wal = s.and_(truthy(s, 2), s.nz('Config.wal'))
    s.exactly(wr, s.and_(v.any(rm), wal), 'log', 'the drop is logged')
    s.before(wr, rm, 'log-first', 'before the partition can be created again', within=wal)
    for e in v.calls('log_drop_init'):
        s.ob(strip(e.args[1]) == ('a', 1), 'log-which', 'with its id', e.where())
    s.before(v.calls('log_drop_init'), wr, 'log-made', 'with its id')
    ready = s.or_(*[s.not_(v.eq(e.value, ('i', 0))) for e in wr]) if wr else s.fresh()
    s.exactly(v.calls('service_rotate'), s.and_(v.any(wr), ready), 'rotate', 'a full log file is rotated')
    for c, x in gates(v.ret):
        t = truth(s, x)
        s.ob(v.implies(s.and_(c, done(s), s.not_(t)), s.and_(found, s.not_(empty))) and v.implies(s.and_(c, done(s), found, s.not_(empty)), s.not_(t)), 'result',
             'the result says if files have to be removed again')


def drop(prog, res):
    s = view(prog, res, 'engine_drop', ['engine_drop_file', 'engine_drop_reference'])
    v = s.v
    B = prog.enum('ID') | prog.enum('ID_CLOUD')
    f, r = [[e for e in v.events if e.kind == 'call' and isinstance(e.name, str) and e.name.split('@')[0] == n] for n in ('engine_drop_file', 'engine_drop_reference')]
    both = s.rel('eq', lambda x: strip(x) == ('a', 3), B)
    s.must(1, f, 'files', 'files are removed')
    for e in f:
        a = e.args
        s.ob([strip(x) for x in a[1:3]] == [('a', 1), ('a', 2)] and strip(a[3]) == ('i', 0) and s.each(a[4], lambda x: strip(x) == ('a', 3) or strip(x) == ('i', B) and v.implies(e.cond, both), e.cond),
             'files-of', 'those which are asked for', e.where())
    s.one(r, 'reference', 'the partition is dropped')
    s.only_if(r, both, 'reference-both', 'the partition itself is dropped only if both files are')
    for e in r:
        s.ob(strip(e.args[1]) == ('a', 1) and strip(e.args[2]) not in (('i', 0),), 'reference-of', 'and this is logged', e.where())
        s.before([x for x in f if x.loops == e.loops], [e], 'reference-after', 'after its files')
    there = s.or_(*[s.not_(v.eq(e.value, ('i', 0))) for e in f if v.possible(s.and_(e.cond, both))])
    ok = s.or_(*[s.not_(v.eq(e.value, ('i', 0))) for e in r]) if r else s.fresh()
    s.ob(v.implies(s.and_(done(s), both), s.or_(s.not_(there), ok)), 'complete', 'a drop ends when the partition is gone')
    s.ob(v.implies(s.and_(done(s), both, there), v.any(r)), 'complete-reference', 'a drop ends when the partition is gone')


# ------------------------------------------------------------------ refresh and the background
def last_copy(s, key):
    """no cloud copy is removed unless the file is here"""
    v, prog = s.v, s.prog
    L, C = prog.enum('ID'), prog.enum('ID_CLOUD')
    for e in v.calls('part_offload'):
        x = strip(e.args[1])
        if x == ('i', 0):
            c = s.or_(s.not_(bit(s, state, C)), bit(s, state, L), s.not_(s.nz('Part.cloud')))
            ok = s.made(s.or_(bit(s, state, C), bit(s, state, L))) and v.implies(e.cond, c)
        else:
            c = bit(s, state, C)
            ok = x[0] == 'i' and s.made(c) and v.implies(e.cond, c)
        s.ob(ok, key + ':copy', 'a copy is removed only while the other one exists', e.where())
    for e in v.events:
        n = e.name.split('@')[0] if e.kind == 'call' and isinstance(e.name, str) else ''
        if n == 'engine_drop_file':
            a = [strip(x) for x in e.args]
            s.ob(a[3] not in (('i', 0),) and a[3][0] == 'i' and a[4] == ('i', L), key + ':local', 'only a local file which is uploaded is removed automatically', e.where())
        elif n in ('engine_drop', 'engine_drop_range', 'engine_drop_reference'):
            s.ob(False, key + ':drop', 'a partition is not dropped', e.where())


def refreshing(prog, res):
    s = view(prog, res, 'engine_refresh', ['engine_download', 'engine_upload', 'engine_drop_file', 'engine_drop', 'refresh_run', 'refresh_reset', 'part_offload', 'engine_drop_reference'],
             [('Part', 'state')], ['part_offload', 'storage_mgr_find'])
    v = s.v
    last_copy(s, 'refresh')
    L, C = prog.enum('ID'), prog.enum('ID_CLOUD')
    dl, run, up, off, rs = [v.calls(n) for n in ('engine_download', 'refresh_run', 'engine_upload', 'part_offload', 'refresh_reset')]
    dr = [e for e in v.events if e.kind == 'call' and isinstance(e.name, str) and e.name.split('@')[0] == 'engine_drop_file']
    s.one(dl, 'download', 'the file is downloaded first')
    s.one(run, 'run', 'the partition is refreshed')
    cloud = [e for e in off if strip(e.args[1]) == ('i', 0)]
    s.one(cloud, 'offload', 'the copy in the cloud is removed')
    s.before(dl, off, 'download-first', 'after the file is downloaded')
    for e in run:
        s.ob([strip(a) for a in e.args[:4]] == [('a', 1), ('a', 2), ('a', 3), ('a', 4)], 'run-of', 'the partition is refreshed into the storage given', e.where())
        s.ob(all(x.order < e.order for x in off + dl) and all(x.order > e.order for x in up + dr), 'order', 'the cloud copy is removed before, and a new one is made after', e.where())
    s.must(done(s), run, 'run-always', 'the partition is refreshed')
    s.before(rs, run, 'reset', 'the refresh starts afresh')
    s.after(run, up, 'upload', 'the new file is uploaded')
    s.after(up, dr, 'drop', 'and removed, if the storage wants it')
    for e in dl:
        s.ob(strip(e.args[1]) == ('a', 2), 'download-of', 'the file is downloaded first', e.where())
    for e in up:
        s.ob(strip(e.args[1]) == ('a', 2) and strip(e.args[3]) not in (('i', 0),), 'upload-of', 'the new file is uploaded, if there is a cloud', e.where())
    for e in dr:
        s.ob(strip(e.args[1]) == ('a', 2), 'drop-of', 'of this partition', e.where())
    # it is on the cloud no more
    fail = v.failed()
    found = s.and_(*[s.not_(v.eq(e.value, ('i', 0))) for e in v.calls('engine_lock')])
    s.ob(v.implies(s.and_(v.any(run), found, still(s, C), s.not_(fail)), v.any(cloud)), 'offload-always', 'a partition in the cloud is removed from there before')


def background(prog, res):
    s = view(prog, res, 'engine_service', ['engine_download', 'engine_upload', 'engine_drop_file', 'engine_drop', 'part_offload', 'engine_drop_reference', 'engine_drop_range'],
             [('Part', 'state')], ['part_offload', 'storage_mgr_find', 'service_next', 'service_schedule', 'service_filter', 'service_req_free', 'engine_gc', 'wal_rotate'])
    last_copy(s, 'service')


# ------------------------------------------------------------------ files of a partition
def pl(x):
    return plain(strip(x))


def path_is(s, e, st, of=('a', 0)):
    """the path is made of the id, the storage and the kind"""
    return [pl(x) for x in e.args[:2]] == [('fld', of, 'Part', 'id'), ('ld', ('fld', of, 'Part', 'source'))] and s.each(e.args[2], lambda x: pl(x) == st, e.cond)


def files(prog, res):
    C = lambda n: ('i', prog.enum(n))
    P = ('a', 0)
    # upload
    s = view(prog, res, 'part_upload', ['part_delete', 'part_create', 'cloud_upload', 'part_rename'], (), ['part_delete', 'part_create', 'cloud_upload', 'part_rename'])
    v = s.v
    rm, mk, up, rn = [v.calls(n) for n in ('part_delete', 'part_create', 'cloud_upload', 'part_rename')]
    for evs, key, what in ((rm, 'leftover', 'what a failed upload left is removed'), (mk, 'dump', 'the index is copied'), (up, 'upload', 'the file is uploaded'), (rn, 'complete', 'the copy of the index is complete')):
        s.one(evs, key, what)
        s.must(done(s), evs, key, what)
    for e in rm + mk:
        s.ob(pl(e.args[0]) == P and pl(e.args[1]) == C('ID_CLOUD_INCOMPLETE'), 'incomplete', 'under a name which does not count yet', e.where())
    for e in rn:
        s.ob([pl(x) for x in e.args] == [P, C('ID_CLOUD_INCOMPLETE'), C('ID_CLOUD')], 'complete-name', 'it gets its final name', e.where())
    s.before(rm, mk, 'leftover-first', 'what a failed upload left is removed before')
    s.before(mk, rn, 'dump-first', 'the copy of the index is complete before it gets its final name')
    s.before(up, rn, 'upload-first', 'a partition is marked as uploaded only after the file is')
    for e in up:
        s.ob([pl(x) for x in e.args] == [('ld', ('fld', P, 'Part', 'cloud')), ('ld', ('fld', P, 'Part', 'source')), ('fld', P, 'Part', 'id')], 'upload-of', 'the file of the partition goes to its cloud', e.where())
    # download
    s = view(prog, res, 'part_download', ['cloud_download', 'part_open'], (), ['cloud_download', 'part_open'])
    v = s.v
    dl, op = v.calls('cloud_download'), v.calls('part_open')
    s.must(done(s), dl, 'download', 'the file is downloaded')
    s.must(done(s), op, 'open', 'and checked')
    s.before(dl, op, 'open-after', 'after it is downloaded')
    for e in dl:
        s.ob([pl(x) for x in e.args] == [('ld', ('fld', P, 'Part', 'cloud')), ('ld', ('fld', P, 'Part', 'source')), ('fld', P, 'Part', 'id')], 'download-of', 'the file of the partition comes from its cloud', e.where())
    for e in op:
        s.ob([pl(x) for x in e.args[:2]] == [P, C('ID')], 'open-of', 'the local file is opened', e.where())
    # remove
    s = view(prog, res, 'part_offload', ['file_close', 'part_delete', 'cloud_remove'], (), ['part_delete', 'cloud_remove', 'file_close'])
    v = s.v
    rm, cr, fc = [v.calls(n) for n in ('part_delete', 'cloud_remove', 'file_close')]
    loc = truthy(s, 1)
    L = [e for e in rm if pl(e.args[1]) == C('ID')]
    M = [e for e in rm if pl(e.args[1]) == C('ID_CLOUD')]
    s.exactly(L, loc, 'local', 'the local file is removed')
    s.exactly(M, s.not_(loc), 'mark', 'the mark of a partition in the cloud is removed')
    s.exactly(cr, s.not_(loc), 'cloud', 'the file is removed from the cloud')
    s.before(M, cr, 'mark-first', 'after the mark is')
    s.must(loc, fc, 'close', 'a file which is removed is closed')
    s.ob(len(L) + len(M) == len(rm) and all(pl(e.args[0]) == P for e in rm), 'only', 'no other file is removed')
    for e in fc:
        s.ob(pl(e.args[0]) == ('fld', P, 'Part', 'file'), 'close-of', 'a file which is removed is closed', e.where())
    for e in cr:
        s.ob([pl(x) for x in e.args] == [('ld', ('fld', P, 'Part', 'cloud')), ('ld', ('fld', P, 'Part', 'source')), ('fld', P, 'Part', 'id')], 'cloud-of', 'from the cloud of the partition', e.where())
    # delete, rename
    for fn, work in (('part_delete', 'fs_unlink'), ('part_rename', 'fs_rename')):
        s = view(prog, res, fn, ['id_path', 'fs_exists', work], (), ['id_path', 'fs_exists', work])
        v = s.v
        pa, ex, wk = [v.calls(n) for n in ('id_path', 'fs_exists', work)]
        s.one(wk, 'do', 'the file is changed')
        for e in ex:
            s.ob(any(path_is(s, p, ('a', 1)) and pl(p.args[3]) == pl(e.args[-1]) and p.order < e.order for p in pa), 'test', 'if it exists', e.where())
        there = s.or_(*[s.not_(v.eq(e.value, ('i', 0))) for e in ex]) if ex else 1
        s.must(s.and_(done(s), there), wk, 'do', 'a file which exists is changed')
        for e in wk:
            ps = [pl(p.args[3]) for n in (('a', 1), ('a', 2)) for p in pa if path_is(s, p, n) and p.order < e.order]
            a = [pl(x) for x in e.args if pl(x) in ps]
            s.ob(a == ps and len(ps) == (1 if fn == 'part_delete' else 2), 'path', 'the path is made of the id, the storage and the kind of the file', e.where())
    # create
    s = view(prog, res, 'part_create', ['id_path', 'index_open', 'index_read', 'file_create', 'file_write', 'file_write_buf', 'file_sync'], (), ['id_path', 'index_open', 'index_read', 'file_create', 'file_write', 'file_write_buf', 'file_sync', 'file_close'])
    v = s.v
    inc, cld = s.rel('eq', lambda x: pl(x) == ('a', 1), prog.enum('ID_INCOMPLETE')), s.rel('eq', lambda x: pl(x) == ('a', 1), prog.enum('ID_CLOUD_INCOMPLETE'))
    pa, io, ir_, fc, fw, fb, fs = [v.calls(n) for n in ('id_path', 'index_open', 'index_read', 'file_create', 'file_write', 'file_write_buf', 'file_sync')]
    for e in fc:
        near = [p for p in pa if p.order < e.order and v.possible(s.and_(p.cond, e.cond))]
        s.ob(bool(near) and path_is(s, near[-1], ('a', 1)) and pl(near[-1].args[3]) == pl(e.args[1]), 'path', 'under the name of its kind', e.where())
        own = pl(e.args[0]) == ('fld', P, 'Part', 'file')
        s.ob(v.implies(e.cond, inc if own else cld), 'file', 'a new partition file is kept open, a copy of the index is not', e.where())
    s.must(s.and_(done(s), inc), [e for e in fc if pl(e.args[0]) == ('fld', P, 'Part', 'file')], 'create', 'the file of a new partition is created')
    dump = [e for e in fc if pl(e.args[0]) != ('fld', P, 'Part', 'file')]
    some = s.and_(done(s), cld)
    s.must(some, dump, 'dump', 'the copy of the index is created')
    s.must(some, io, 'dump-open', 'from the index of the file')
    s.must(some, ir_, 'dump-read', 'from the index of the file')
    for e in io:
        s.ob([pl(x) for x in e.args[1:4]] == [('ld', ('fld', P, 'Part', 'source')), ('fld', P, 'Part', 'id'), C('ID')], 'dump-of', 'from the index of the file', e.where())
    for e in ir_:
        s.ob(pl(e.args[4]) not in (('i', 0),) and any(pl(o.args[0]) == pl(e.args[0]) and pl(o.args[4]) == pl(e.args[2]) for o in io), 'dump-raw', 'as it is in the file', e.where())
    s.must(some, fw, 'dump-index', 'the index is in the copy')
    size = prog.structs['Index']['size']
    for e in fw:
        s.ob(any(pl(o.args[4]) == pl(e.args[1]) for o in io) and pl(e.args[2]) == ('i', size) and any(pl(d.args[0]) == pl(e.args[0]) for d in dump), 'dump-index-of', 'the index is in the copy', e.where())
        s.ob(all(x.order < e.order for x in fb) and all(x.order < e.order for x in dump), 'dump-order', 'after the regions', e.where())
    for e in fb:
        s.ob(any(pl(o.args[3]) == pl(e.args[1]) for o in ir_) and any(pl(d.args[0]) == pl(e.args[0]) for d in dump), 'dump-data-of', 'the regions are in the copy', e.where())
    got = s.rel('gt', lambda x: has_path(x, 'Buf.position') and has_path(x, 'Buf.start'), 0)
    s.one(fb, 'dump-data', 'the regions are in the copy')
    s.must(s.and_(some, got) if s.made(got) else some, fb, 'dump-data', 'the regions are in the copy')
    want = s.and_(s.nz('Source.sync'), s.nz('Config.sync'))
    s.must(s.and_(some, want), [e for e in fs if any(pl(d.args[0]) == pl(e.args[0]) for d in dump) and all(x.order < e.order for x in fw + fb)], 'dump-sync', 'the copy is on disk before it counts')
    # open
    s = view(prog, res, 'part_open', ['index_open', 'index_read'], (), ['index_open', 'index_read', 'file_close'])
    v = s.v
    loc, cl = s.rel('eq', lambda x: pl(x) == ('a', 1), prog.enum('ID')), s.rel('eq', lambda x: pl(x) == ('a', 1), prog.enum('ID_CLOUD'))
    io, ir_ = v.calls('index_open'), v.calls('index_read')
    s.must(s.and_(done(s), s.or_(loc, cl)), io, 'open', 'the file is checked')
    s.must(s.and_(done(s), s.or_(cl, s.and_(loc, truthy(s, 2)))), ir_, 'read', 'the regions are read')
    own = ('fld', P, 'Part', 'file')
    for e in io:
        a = [pl(x) for x in e.args]
        s.ob(a[1:3] == [('ld', ('fld', P, 'Part', 'source')), ('fld', P, 'Part', 'id')] and a[4] == ('fld', P, 'Part', 'index') and s.each(e.args[3], lambda x: pl(x) == ('a', 1) or pl(x) == C('ID') and v.implies(e.cond, loc)
             or pl(x) == C('ID_CLOUD') and v.implies(e.cond, cl), e.cond), 'open-of', 'the index is the one of the file', e.where())
        s.ob(v.implies(e.cond, loc if a[0] == own else s.not_(loc)), 'open-file', 'the local file is kept open, the copy of the index is not', e.where())
    for e in ir_:
        a = [pl(x) for x in e.args]
        s.ob(a[1] == ('ld', ('fld', P, 'Part', 'source')) and a[2] == ('fld', P, 'Part', 'index') and a[3] == ('fld', P, 'Part', 'index_data') and a[4] == ('i', 0) and any(pl(o.args[0]) == a[0] and o.order < e.order for o in io),
             'read-of', 'from the file which was checked', e.where())


@rule('C01')
def c01(prog, res):
    parts(prog, res, transfers, removal, metrics, reference, drop, refreshing, background, files)
