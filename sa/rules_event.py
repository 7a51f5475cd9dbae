"""W01: an event is kept and returned as it was passed."""
from cond import gates, plain
from ir import Broken, walk
import rules_basic as basic
from report import parts, rule
from rules_file import errors
from spec import Spec, has_path, is_call, is_path, ladd, lin, origin, strip

MASK = 0xff


def canon(e):
    """a sum of fields by name: {'key_size': 1, (): 14}"""
    out = {}
    for t, c in lin(strip(e)).items():
        n = ()
        if t != ():
            x = plain(strip(t))
            n = x
            y = x[1] if x[0] == 'ld' else x
            if y[0] == 'fld':
                n = (('*' if x[0] == 'ld' else '') + y[3], y[1])
        out[n] = out.get(n, 0) + c
    return {k: c for k, c in out.items() if c}


def whole(x):
    """without the narrowing to the type it is stored as"""
    while isinstance(x, tuple) and x[:2] == ('cast', 'trunc'):
        x = x[4]
    return x


def signed8(e):
    return any(isinstance(x, tuple) and x[:2] == ('cast', 'sext') and x[2] == 'i8' for x in walk(e))


def layout(prog, res):
    """what the caller passes is what the library reads"""
    A, B = prog.structs.get('EventArg'), prog.structs.get('monotone_event')
    if not A or not B:
        raise Broken('EventArg or monotone_event is gone')
    f = lambda S: [(x['name'], x['off'], x['size']) for x in S['fields']]
    res.ob(f(A) == f(B) and A['size'] == B['size'], 'layout', 'monotone/engine/io/event.h:%s' % A['line'],
           'the event of the interface and the one of the library have the same layout', '%s, %s' % (f(A), f(B)))


def record(prog, res):
    K, V, D = 'key_size', 'value_size', 'data_size'
    arg, me = ('a', 1), ('a', 0)
    s = Spec(prog, res, 'event_init', interest=['llvm.memcpy', 'llvm.memmove'], stores=['*'])
    v = s.v
    key, val = ('*' + K, arg), ('*' + V, arg)
    both = {key: 1, val: 1}
    want = {'id': ({('*id', arg): 1}, 64), 'flags': ({('*flags', arg): 1}, 8), K: ({key: 1}, 8), D: (both, 32)}
    # a key size which was accepted fits in the field
    own = lambda d: {key if t == ('*' + K, me) or isinstance(t, tuple) and t[:2] == ('cast', 'trunc') and canon(whole(t)) == {key: 1} else t: c for t, c in d.items()}
    for f in sorted(want):
        st = [e for e in v.stores_of('Event', f) if plain(strip(e.args[0])) == ('fld', me, 'Event', f)]
        ok = len(st) == 1 and st[0].cond == 1
        x = st[0].args[1] if ok else None
        bits = [int(y[3][1:]) for y in walk(x) if isinstance(y, tuple) and y[:1] == ('cast',) and y[1] == 'trunc'] if ok else []
        s.ob(ok and own(canon(whole(x))) == want[f][0] and all(b >= want[f][1] or f == D and canon(x) != own(canon(x)) for b in bits), f, 'the %s of the event is the one which was passed' % f, st[0].where() if st else None)
    cp = v.calls('llvm.memcpy', 'llvm.memmove')
    data = ('data', me)
    parts_ = {'key': ({data: 1}, {('*key', arg): 1}, {key: 1}), 'value': ({data: 1, key: 1}, {('*value', arg): 1}, {val: 1})}
    for n, (dst, src, size) in sorted(parts_.items()):
        es = [e for e in cp if canon(e.args[1]) == src]
        c = v.any(es)
        some = s.not_(s.rel('eq', lambda x: canon(x) == size, 0))
        nokey = s.rel('eq', lambda x: own(canon(x)) == {key: 1}, 0)
        at = lambda e: all(own(canon(x)) == dst or own(canon(x)) == {data: 1} and v.implies(s.and_(q, e.cond), nokey) for q, x in gates(e.args[0]))
        ok = bool(es) and (c == 1 or v.implies(some, c)) and all(at(e) and own(canon(e.args[2])) == size and not signed8(e.args[0]) for e in es)
        s.ob(ok and len(es) == 1, n + '-bytes', 'the %s is copied completely, to its place' % n, es[0].where() if es else None, '; '.join(str(canon(e.args[0])) for e in es))
    s.ob(len(cp) == 2, 'copies', 'nothing else is copied')
    # where the parts are
    H = prog.field_off('Event', 'data')
    for n, want in (('event_key', {data: 1}), ('event_value', {data: 1, ('*' + K, me): 1})):
        s = Spec(prog, res, n)
        g = gates(s.v.ret)
        s.ob(len(g) == 1 and canon(g[0][1]) == want and not signed8(g[0][1]), 'place', 'the %s of an event is where it was copied to' % n[6:])
    s = Spec(prog, res, 'event_size')
    g = gates(s.v.ret)
    s.ob(len(g) == 1 and canon(g[0][1]) == {('*' + D, me): 1, (): H} and H == prog.structs['Event']['size'], 'size', 'the size of an event is its header and its data')
    for n, alloc, a, src in (('event_allocate', 'heap_allocate', 1, ('a', 1)), ('event_malloc', 'mn_malloc', 0, ('a', 0))):
        s = Spec(prog, res, n, interest=[alloc, 'event_init'], opaque=[alloc, 'event_init'])
        v = s.v
        al, it = v.calls(alloc), v.calls('event_init')
        if not s.ob(len(al) == len(it) == 1 and al[0].cond == it[0].cond == 1 and al[0].order < it[0].order, 'one', 'an event is allocated and filled'):
            continue
        s.ob(canon(al[0].args[a]) == {('*' + K, src): 1, ('*' + V, src): 1, (): H} and not signed8(al[0].args[a]), 'room', 'there is room for the key and the value', al[0].where())
        s.ob(strip(it[0].args[0]) == strip(al[0].value) and plain(strip(it[0].args[1])) == src and strip(v.ret) == strip(al[0].value), 'filled',
             'the event which was allocated is filled and returned', it[0].where())
    s = Spec(prog, res, 'event_copy', interest=['heap_allocate', 'llvm.memcpy'], opaque=['heap_allocate'])
    v = s.v
    al, cp = v.calls('heap_allocate'), v.calls('llvm.memcpy')
    want = {('*' + D, ('a', 1)): 1, (): H}
    ok = len(al) == len(cp) == 1 and al[0].cond == cp[0].cond == 1 and strip(cp[0].args[0]) == strip(al[0].value) == strip(v.ret) \
        and plain(strip(cp[0].args[1])) == ('a', 1) and canon(al[0].args[1]) == want and canon(cp[0].args[2]) == want
    s.ob(ok, 'copy', 'a copy of an event has all of it')
    s = Spec(prog, res, 'event_is_delete')
    d = prog.enum('MN_DELETE')
    ok = all(y == ('i', 0) or is_path(y, 'Event.flags') or y[0] == 'bin' and y[1] == 'and' and ('i', 1) in y[2:] for c, y in [(c, strip(y)) for c, y in gates(s.v.ret)])
    s.ob(ok, 'delete', 'a delete is told by its flag')


def interface(prog, res):
    """the functions of the interface pass everything on, once"""
    for n, op, args in (('monotone_write', 'engine_write', {1: ('a', 1), 2: ('a', 2)}), ('monotone_execute', 'main_execute', {1: ('a', 1), 2: ('a', 2)}),
                        ('monotone_open', 'main_start', {1: ('a', 1)})):
        s = Spec(prog, res, n, interest=[op], opaque=[op])
        c = s.v.calls(op)
        s.ob(len(c) == 1 and c[0].cond == 1 and not c[0].loops and all(plain(strip(c[0].args[i])) == x for i, x in args.items()), 'once',
             'what was passed is done once, as a whole', c[0].where() if c else None)
    s = Spec(prog, res, 'monotone_cursor', interest=['event_malloc', 'engine_cursor_open'], opaque=['event_malloc', 'engine_cursor_open', 'engine_cursor_skip_deletes', 'engine_cursor_close'], throws=True)
    v = s.v
    big = s.rel('ugt', lambda x: canon(x) == {('*key_size', ('a', 2)): 1}, MASK)
    has = s.test(lambda x: plain(strip(x)) == ('a', 2))
    em, op = v.calls('event_malloc'), v.calls('engine_cursor_open')
    s.ob(bool(em) and not v.possible(s.and_(v.any(em), big)) and all(plain(strip(e.args[0])) == ('a', 2) for e in em), 'key', 'a key longer than a key can be is refused')
    for e in op:
        for c, x in gates(e.args[2]):
            c = s.and_(c, e.cond)
            x = strip(x)
            s.ob(x == ('i', 0) and not v.possible(s.and_(c, has)) or em and x == strip(em[0].value) and not v.possible(s.and_(c, s.not_(has))), 'from',
                 'the cursor is opened at the key which was passed, at the start without one', e.where())


def serials(prog, res):
    ops = ['config_ssn_next', 'log_add', 'engine_lock', 'event_allocate', 'log_add_event', 'memtable_set', 'memtable_follow_min', 'wal_write', 'engine_commit', 'engine_rollback',
           'log_free', 'service_rotate', 'log_init', 'config_lsn_next', 'config_lsn']
    s = Spec(prog, res, 'engine_write', interest=ops, opaque=ops, stores=[('EventArg', 'id')], throws=True)
    v = s.v
    al = v.calls('event_allocate')
    if not s.ob(len(al) == 1 and len(al[0].loops) == 1, 'each', 'each event of a batch is written'):
        return
    k = al[0].loops[0]
    ev = plain(strip(al[0].args[1]))
    fld = lambda f: (lambda x: plain(strip(x)) == ('ld', ('fld', ev, 'EventArg', f)))
    big = s.rel('ugt', fld('key_size'), MASK)
    s.ob(not v.possible(s.and_(al[0].cond, big)), 'key', 'an event with a key longer than a key can be is refused', al[0].where())
    first = [e for e in v.calls('engine_lock', 'config_ssn_next', 'log_add') if v.possible(s.and_(e.cond, big))]
    s.ob(not first, 'before', 'it is refused before anything is changed', first[0].where() if first else None)
    # every event, in order
    from spec import loop_range
    r = loop_range(v, k, al[0].args[1])
    s.ob(r is not None and r[2] == 1 and r[0] == {('a', 1): 1} and {plain(strip(t)) if t else t: c for t, c in r[1].items()} == {('a', 1): 1, ('a', 2): 1, (): -1}, 'range', 'all events of the batch, in their order', al[0].where())
    nx = v.calls('config_ssn_next')
    st = v.stores_of('EventArg', 'id')
    unset = s.rel('eq', fld('id'), -1)
    serial = s.nz('Config.serial')
    lk = v.calls('engine_lock')
    body = s.and_(v.body(k), s.not_(big))
    want = s.and_(body, unset, serial)
    ok = len(nx) == 1 and len(st) == 1 and nx[0].loops == st[0].loops == al[0].loops and st[0].order < al[0].order
    s.ob(ok and v.equal(nx[0].cond, want) and v.equal(st[0].cond, want), 'serial', 'an event without id gets the next serial number, and no other event', nx[0].where() if nx else None,
         v.show(nx[0].cond)[:300] if nx else None)
    if ok:
        s.ob(strip(st[0].args[1]) == strip(nx[0].value) and plain(strip(st[0].args[0])) == ('fld', ev, 'EventArg', 'id'), 'number', 'the number it gets is its id', st[0].where())
        for e in lk:
            for c, x in gates(e.args[1]):
                c = s.and_(c, e.cond)
                if v.possible(c):
                    x = strip(x)
                    s.ob(x == strip(nx[0].value) and v.implies(c, want) or fld('id')(x) and not v.possible(s.and_(c, want)), 'partition', 'its partition is the one of its id', e.where())
    # the counter
    s = Spec(prog, res, 'config_ssn_next', stores=['*'])
    v = s.v
    st = [e for e in v.events if e.kind == 'store' and has_path(e.args[0], 'Config.ssn')]
    cell = ('ld', st[0].args[0]) if st else None
    s.ob(len(st) == 1 and st[0].cond == 1 and strip(v.ret) == cell and lin(st[0].args[1]) == {cell: 1, (): 1}, 'next', 'every number is given out once, in order')
    s = Spec(prog, res, 'config_ssn_set', stores=['*'])
    st = [e for e in s.v.events if e.kind == 'store' and has_path(e.args[0], 'Config.ssn')]
    s.ob(len(st) == 1 and st[0].cond == 1 and strip(st[0].args[1]) == ('a', 0), 'set', 'the number which follows is set')
    restart(prog, res)


def restart(prog, res):
    """numbering continues after the largest id"""
    ops = ['mapping_max', 'mapping_prev', 'index_max', 'memtable_max', 'config_ssn_set']
    s = Spec(prog, res, 'engine_set_serial', interest=ops, opaque=ops)
    v, b = s.v, s.v.b
    mx, pv, im, mm, st = [v.calls(n) for n in ops]
    if not s.ob(len(mx) == 1 and len(im) == 1 and len(mm) == 1 and st and len(pv) == 1 and len(im[0].loops) == 1 == len(v.loops), 'form', 'the largest id of the partitions is looked for'):
        return
    k = im[0].loops[0]
    fn = v.frameobj[k[0]].fn
    ph = [('phi', i.id, k[0]) for i in fn.blocks[k[1]] if i.op == 'phi']
    walkers = [p for p in ph if [strip(x) for x in v.phi(p)[0]] == [strip(mx[0].value)]]
    if not s.ob(len(walkers) == 1, 'last', 'from the last partition on'):
        return
    w = walkers[0]
    s.ob([strip(x) for x in v.phi(w)[1]] == [strip(pv[0].value)] and strip(pv[0].args[1]) == w, 'backward', 'partition by partition', pv[0].where())
    B = v.body(k)
    more = s.not_(v.eq(w, ('i', 0)))
    part = lambda e: has_path(e, 'Part.memtable') or has_path(e, 'Part.index')
    file_ = s.and_(s.not_(s.rel('eq', lambda x: is_path(x, 'Part.state'), 0)), s.not_(s.rel('eq', lambda x: is_path(x, 'Index.regions'), 0)))
    s.ob(v.equal(im[0].cond, s.and_(B, file_)) and any(x == w for x in walk(im[0].args[0])) and has_path(im[0].args[0], 'Part.index') and has_path(im[0].args[1], 'Part.index_data'),
         'file', 'the largest id of its file, if it has one with events', im[0].where())
    s.ob(mm[0].cond == B and is_path(strip(mm[0].args[0]), 'Part.memtable') and any(x == w for x in walk(mm[0].args[0])), 'memory', 'and of its memory table', mm[0].where())
    mv, iv = strip(mm[0].value), strip(im[0].value)
    mid = lambda x: plain(strip(x))[0] == 'ld' and is_path(x, 'Event.id') and any(y == mv or plain(y) == plain(mv) for y in walk(x))
    inmem = s.and_(B, s.not_(v.eq(mm[0].value, ('i', 0))))
    found = s.or_(s.and_(B, file_), inmem)
    sets = [p for p in ph if any(strip(x) == iv for c, x in v.phi_steps(p)) and any(mid(x) for c, x in v.phi_steps(p))]
    flags = [p for p in ph if p != w and p not in sets]
    if not s.ob(len(sets) == 1 and len(flags) == 1 and v.phi(sets[0])[0] == [('i', 0)] and v.phi(flags[0])[0] == [('i', 0)], 'kept', 'the largest id is kept'):
        return
    n, f = sets[0], flags[0]
    fz = v.eq(f, ('i', 0))
    s.ob(v.equal(B, s.and_(more, fz)), 'until', 'until a partition with events was found', None, v.show(B)[:200])
    fs = 0
    for c, x in v.phi_steps(f):
        fs = s.or_(fs, s.and_(c, (1 if x[1] else 0) if x[0] == 'i' else s.not_(v.eq(x, ('i', 0)))))
    big = lambda op: s.or_(*([s.rel(op, mid, lambda x: strip(x) == iv)] + [s.rel(op, mid, lambda x: strip(x) == n)]))
    # in memory but smaller than the one of the file: found anyway
    s.ob(v.implies(s.and_(B, file_), fs) and v.implies(fs, found), 'found', 'the search ends with events', None, v.show(fs)[:300])
    okm = okf = True
    for c, x in v.phi_steps(n):
        x = strip(x)
        if mid(x):
            okm = okm and v.implies(c, inmem) and not v.possible(s.and_(c, file_, s.or_(*cmps(s, v, mid, iv, 'ult'))))
        elif x == iv:
            okf = okf and v.implies(c, s.and_(B, file_)) and not v.possible(s.and_(c, inmem, s.or_(*cmps(s, v, mid, iv, 'ugt'))))
        else:
            okf = okf and x == n and not v.possible(s.and_(c, file_)) and not v.possible(s.and_(c, inmem, s.not_(s.or_(0, *below(s, v, mid, n)))))
    s.ob(okm, 'memory-larger', 'the id in memory is taken if it is not smaller', mm[0].where())
    s.ob(okf, 'file-larger', 'the id of the file is taken if it is not smaller', im[0].where())
    for c, x in [(s.and_(c, e.cond), x) for e in st for c, x in gates(e.args[0])]:
        d = {strip(t) if t else t: q for t, q in lin(strip(x)).items()}
        s.ob(d == {n: 1, (): 1} and v.implies(c, s.not_(fz)) or d in ({n: 1}, {}) and v.implies(c, fz) or d == {n: 1, f: 1}, 'after', 'the next number follows the largest id, or is the first one', st[0].where(), str(d))
    s.ob(all(v.implies(e.cond, v.any(st)) for e in v.rets()) and not any(e.loops for e in st), 'set', 'the next number is set', st[0].where())
    s = Spec(prog, res, 'main_start', interest=['engine_set_serial', 'main_replay', 'engine_open', 'worker_mgr_start'],
             opaque=['engine_set_serial', 'main_replay', 'engine_open', 'worker_mgr_start', 'main_deploy', 'wal_open', 'engine_resume', 'cloud_mgr_open', 'config_print'])
    v = s.v
    se = v.calls('engine_set_serial')
    s.ob(bool(se) and any(v.equal(v.any(se), s.not_(v.eq(x, ('i', 0)))) for x in s.terms(lambda x: x[0] == 'ld' and is_path(x, 'Config.serial'))), 'start', 'numbering is restored at the start in serial mode')
    s.ob(all(e.order < x.order for e in v.calls('main_replay', 'engine_open') for x in se), 'start-after', 'after all events were restored')


def cmps(s, v, mid, other, op):
    it = lambda x: strip(x) == other
    return [s.and_(s.rel(op, mid, it), s.not_(s.rel('eq', mid, it)))]


def below(s, v, mid, n):
    """the id in memory is smaller than the number kept so far"""
    out = []
    it = lambda x: strip(x) == n
    for c in (s.rel('ult', mid, it), s.rel('eq', mid, it)):
        if s.made(c):
            out.append(c)
    return out


@rule('W01')
def w01(prog, res):
    parts(prog, res, layout, record, interface, serials, basic.accessors('ssn'))
