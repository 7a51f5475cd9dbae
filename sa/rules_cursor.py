"""R03: a cursor merges memory and files and visits the partitions in order.
R04: open cursors keep their position when events are inserted or removed.
R05: an id belongs to exactly one partition."""
from cond import gates, plain
from ir import walk
import rules_basic as basic
from report import parts, rule
from rules_read import arg, compare_order, header_phis, index_walk, page_index, part_walk, region_pos, region_walk, ret_true, same, seek, table_walk
from spec import Spec, base_of, has_path, is_call, is_path, ladd, lin, list_loop, loop_range, origin, strip


def true(x):
    x = strip(x)
    return x[0] == 'i' and x[1] != 0


def call_test(s, *names):
    """the result of a call is not zero"""
    ts = s.terms(lambda x: is_call(x, *names))
    return s.or_(*[s.not_(s.v.eq(t, ('i', 0))) for t in ts]) if ts else s.fresh()


# ------------------------------------------------------------------ R03
def merge_next(prog, res):
    s = Spec(prog, res, 'merge_iterator_next', interest=['iterator_next', 'iterator_at', 'compare'],
             stores=[('MergeIteratorRef', 'advance'), ('MergeIterator', 'current')])
    v = s.v
    nx, at, ad = v.calls('iterator_next'), v.calls('iterator_at'), v.stores_of('MergeIteratorRef', 'advance')
    if not s.one(nx, 'advance', 'the sources of the last event move on') or not s.one(at, 'at', 'the sources are compared'):
        return
    entry = lambda x: any(y[0] == 'idx' and is_path(y[1], 'Buf.start') for y in walk(x))
    slot = lambda x: next((plain(y[2]) for y in walk(x) if y[0] == 'idx' and is_path(y[1], 'Buf.start')), None)

    def covers(e, what, key, upto=None):
        """the loop of e visits every source"""
        ok = False
        if e.loops:
            n = slot(what)
            r = loop_range(v, e.loops[-1], n) if n is not None else None
            if r:
                first, last, st = r
                if st < 0:
                    first, last, st = last, first, -st
                full = len(last) == 2 and last.get(()) == -1 and any(t != () and is_path(t, 'MergeIterator.list_count') for t in last)
                part = upto is not None and (last == upto or last == ladd(upto, {(): 1}, -1))
                ok = first == {} and st == 1 and (full or part)
        s.ob(ok, key, 'all sources are visited', e.where())
    for e in nx:
        adv = s.test(lambda x: is_path(x, 'MergeIteratorRef.advance') and slot(x) == slot(e.args[0]))
        s.must(s.and_(v.body(e.loops[-1]) if e.loops else 1, adv), [e], 'advance-all', 'a source whose event was returned moves on')
        s.ob(v.implies(e.cond, adv), 'advance-only', 'the other sources stay where they are', e.where())
        covers(e, e.args[0], 'advance-cover')
        off = [x for x in ad if x.loops == e.loops and strip(x.args[1]) == ('i', 0) and slot(x.args[0]) == slot(e.args[0])]
        s.must(e.cond, off, 'advance-off', 'and are not moved again')
        s.ob(all(x.order > e.order or True for x in off) and all(e.order < a.order for a in at), 'advance-first', 'before the events are compared',
             e.where())
    row = strip(at[0].value)
    key = at[0].loops[-1] if at[0].loops else None
    n = slot(at[0].args[0])
    if not s.ob(key is not None and len(at) == 1 and n is not None, 'select', 'the sources are compared in a loop'):
        return
    covers(at[0], at[0].args[0], 'select-cover')
    r = loop_range(v, key, n)
    s.ob(bool(r) and r[2] == 1, 'newest', 'the newest source is looked at first: its event wins', at[0].where())
    # the loop variables: lowest event and its source
    cs = s.terms(lambda x: is_call(x, 'compare'))
    lo = src = None
    for p in header_phis(v, key):
        for _, y in v.phi_steps(p):
            y = strip(y)
            if y == row:
                lo = p
            elif y[0] == 'ld' and is_path(y, 'MergeIteratorRef.iterator') and slot(y) == n:
                src = p
    if not s.ob(lo is not None and src is not None and len(cs) == 1, 'lowest', 'the lowest event and its source are remembered'):
        return
    t = cs[0]
    a, b = strip(arg(t, 1)), strip(arg(t, 2))
    s.ob({a, b} == {lo, row}, 'compare', 'the lowest event so far is compared with the one of the source')
    LT, EQ = v.cmp('slt', t, ('i', 0)), v.eq(t, ('i', 0))
    GT = v.cmp('sgt', t, ('i', 0))
    if a == row:
        LT, GT = GT, LT
    none = v.eq(lo, ('i', 0))
    has = s.not_(v.eq(row, ('i', 0)))
    B = v.body(key)
    lower = s.and_(B, s.and_(has, s.or_(none, GT)))
    for p in (lo, src):
        s.ob(all(strip(x) == ('i', 0) for x in v.phi(p)[0]), 'start', 'the selection starts without an event')
        for c, y in v.phi_steps(p):
            y = strip(y)
            if y == p:
                s.ob(not v.possible(s.and_(c, lower)), 'take', 'a lower event is taken', None, v.show(c))
            else:
                ok = y == row if p == lo else y[0] == 'ld' and is_path(y, 'MergeIteratorRef.iterator') and slot(y) == n
                s.ob(ok and v.implies(c, lower), 'take-only', 'only a lower event is taken: of equal keys the newest one stays', None, v.show(c))
    on = [e for e in ad if true(e.args[1]) and e.loops == at[0].loops]
    want = s.and_(B, s.and_(has, s.or_(none, s.or_(EQ, GT))))
    s.exactly(on, want, 'mark', 'every source at the lowest key moves on next time')
    for e in on:
        s.ob(slot(e.args[0]) == n, 'mark-slot', 'the source itself', e.where())
    off = [e for e in ad if strip(e.args[1]) == ('i', 0) and len(e.loops) > len(at[0].loops)]
    c = s.and_(B, s.and_(has, s.and_(s.not_(none), GT)))
    entered = s.or_(*[v.entry(e.loops[-1]) for e in off] or [0])
    s.ob(v.implies(c, entered), 'unmark', 'sources at a key which is not the lowest do not move')
    for e in off:
        s.ob(v.implies(v.entry(e.loops[-1]), c), 'unmark-only', 'the marks are dropped only for a lower key', e.where())
        covers(e, e.args[0], 'unmark-cover', lin(n))
        s.ob(all(x.order > e.order for x in on if v.possible(s.and_(x.cond, c))), 'unmark-first', 'before the new one is marked', e.where())
    fin = s.final(v.stores_of('MergeIterator', 'current'))
    s.ob(bool(fin) and all(strip(x) == src for _, x in fin), 'current', 'the source of the lowest event is the current one')
    s.must(1, v.stores_of('MergeIterator', 'current'), 'current-set', 'the current source is set')


def merge_add(prog, res):
    s = Spec(prog, res, 'merge_iterator_add', interest=['buf_write'], stores=[('MergeIteratorRef', 'advance'), ('MergeIteratorRef', 'iterator'),
                                                                              ('MergeIterator', 'list_count')])
    v = s.v
    s.must(1, v.calls('buf_write'), 'add', 'a source is appended')
    s.must(1, v.stores_of('MergeIterator', 'list_count'), 'count', 'and counted')
    for e in v.stores_of('MergeIterator', 'list_count'):
        s.ob(lin(e.args[1]).get(()) == 1, 'count-one', 'once', e.where())
    for e in v.stores_of('MergeIteratorRef', 'advance'):
        s.ob(strip(e.args[1]) == ('i', 0), 'stay', 'a new source does not move before it is read', e.where())
    for e in v.stores_of('MergeIteratorRef', 'iterator'):
        s.ob(strip(e.args[1]) == ('a', 1), 'source', 'the source given', e.where())
    s = Spec(prog, res, 'merge_iterator_at', interest=['iterator_at'])
    for c, x in gates(s.v.ret):
        x = strip(x)
        none = s.rel('eq', lambda t: is_path(t, 'MergeIterator.current'), 0)
        if x == ('i', 0):
            s.ob(s.v.implies(c, none), 'at', 'the event of the current source is returned', None, s.v.show(c))
        else:
            s.ob(is_call(x, 'iterator_at') and is_path(arg(x, 0), 'MergeIterator.current'), 'at', 'the event of the current source is returned')


def part_open(prog, res):
    s = Spec(prog, res, 'part_cursor_open', interest=['memtable_iterator_open', 'merge_iterator_add', 'part_iterator_open', 'merge_iterator_open',
                                                      'part_memtable'])
    v = s.v
    mo, ma, po, go = [v.calls(n) for n in ('memtable_iterator_open', 'merge_iterator_add', 'part_iterator_open', 'merge_iterator_open')]
    pm = v.calls('part_memtable')
    if not s.one(pm, 'tables', 'both memory tables are asked for') or not s.one(mo, 'open', 'memory tables are opened'):
        return
    cur = strip(pm[0].value)
    prev = lambda x: strip(x)[0] == 'ld' and strip(strip(x)[1]) == strip(pm[0].args[1])
    A = [e for e in mo if strip(e.args[1]) == cur]
    Bs = [e for e in mo if prev(e.args[1])]
    s.ob(len(A) + len(Bs) == len(mo), 'open-which', 'only memory tables of the partition are opened')
    s.must(s.positive(lambda x: is_path(x, 'Memtable.count') and origin(x) == cur), A, 'open-a', 'the memory table is read')
    s.must(s.positive(lambda x: is_path(x, 'Memtable.count') and has_origin(x, pm[0])), Bs, 'open-b',
           'the memory table which is being written to a file is read')
    s.must(s.nz('Part.state'), po, 'open-file', 'the file of the partition is read, if it has one')
    s.must(1, go, 'open-merge', 'the first event is looked for')

    def added(e, field):
        return [x for x in ma if is_path(x.args[1], field, field_it(field)) and x.order > e.order]
    its = {}
    for e in mo:
        its.setdefault(tuple(x for x in apath_last(e.args[0])), []).append(e)
    s.ob(len(its) == 2 or not (A and Bs), 'separate', 'by iterators of their own')
    srcs = []
    for e in A + Bs + po:
        f = apath_last(e.args[0])
        x = [m for m in ma if apath_last(m.args[1])[:1] == f[:1] or f and f[-1] in [p for p in path_all(m.args[1])]]
        s.ob(bool(x), 'add', 'every source which is opened is merged', e.where())
        if x:
            ok = v.implies(e.cond, v.any(x)) and all(m.order > e.order and v.implies(m.cond, e.cond) for m in x)
            s.ob(ok, 'add-if', 'every source which is opened is merged', e.where())
            srcs.append((e, x[0]))
        s.ob(strip(e.args[2]) == ('a', 2), 'key', 'at the key', e.where())
    o = [m.order for _, m in srcs]
    s.ob(o == sorted(o), 'newest', 'newer sources are added first: of equal keys the newest event wins')
    for e in go:
        s.ob(all(m.order < e.order for m in ma), 'merge-last', 'after all sources have been added', e.where())
    s = Spec(prog, res, 'part_memtable', outs=[1])
    v = s.v
    for c, x in gates(v.ret):
        s.ob(is_path(x, 'Part.memtable') and strip(x)[0] == 'ld', 'current', 'the memory table in use is the first one')
    isa = s.or_(s.test_eq(lambda x: is_path(x, 'Part.memtable_a'), lambda x: is_path(x, 'Part.memtable') and x[0] == 'ld'), 0)
    isb = s.or_(s.test_eq(lambda x: is_path(x, 'Part.memtable_b'), lambda x: is_path(x, 'Part.memtable') and x[0] == 'ld'), 0)
    useb = any('fresh' in str(s.b.vars[n]) for n in s.b.support(isa))
    for c, x in s.final([e for e in v.events if e.kind == 'store' and e.name == ('arg', 1)]):
        x = strip(x)
        if is_path(x, 'Part.memtable_b'):
            s.ob(v.implies(c, isa) or useb and v.implies(c, s.not_(isb)), 'other', 'the other one is the second one')
        else:
            s.ob(is_path(x, 'Part.memtable_a') and (not v.possible(s.and_(c, isa)) or useb and v.implies(c, isb)), 'other',
                 'the other one is the second one')


def has_origin(x, call):
    return any(y[0] == 'ld' and strip(y[1]) == strip(call.args[1]) for y in walk(x))


def path_all(e):
    from spec import apath
    return apath(e)


def apath_last(e):
    p = path_all(e)
    return p[-1:]


def field_it(f):
    return f


CUR = ['engine_lock', 'engine_unlock', 'part_cursor_open', 'part_cursor_next', 'part_cursor_has', 'part_cursor_at', 'part_cursor_close',
       'engine_cursor_next']


def partitions(prog, res):
    s = Spec(prog, res, 'engine_cursor_open', interest=CUR, stores=[('EngineCursor', 'ref'), ('EngineCursor', 'engine')])
    v = s.v
    lk, po, nx = v.calls('engine_lock'), v.calls('part_cursor_open'), v.calls('engine_cursor_next')
    access = prog.enum('LOCK_ACCESS')
    locked(s, lk, access)
    nokey = s.rel('eq', lambda x: x == ('a', 2), 0)
    for e in lk:
        for c, x in gates(e.args[1]):
            k = s.and_(c, e.cond)
            x = strip(x)
            ok = x == ('i', 0) and v.implies(k, nokey) or is_path(x, 'Event.id') and origin(x) == ('a', 2) and not v.possible(s.and_(k, nokey))
            s.ob(ok, 'from', 'a cursor starts with the partition of the key, or with the first one', e.where(), v.show(k))
    got = s.or_(*[s.not_(v.eq(e.value, ('i', 0))) for e in lk] or [0])
    s.exactly(po, got, 'open', 'the partition found is opened')
    for e in po:
        s.ob(is_path(e.args[1], 'Ref.part') and strip(e.args[2]) == ('a', 2), 'open-key', 'at the key', e.where())
    has = call_test(s, 'part_cursor_has')
    ref = s.nz('EngineCursor.ref')
    s.must(s.and_(got, s.and_(ref, s.not_(has))), nx, 'empty', 'a partition without events at or behind the key is skipped')
    s.never(nx, s.and_(got, has), 'empty-only', 'the first event is not skipped')

    s = Spec(prog, res, 'engine_cursor_next', interest=[x for x in CUR if x != 'engine_cursor_next'], stores=[('EngineCursor', 'ref')])
    v = s.v
    ref = s.nz('EngineCursor.ref')
    nx, cl, ul, lk, po = [v.calls(n) for n in ('part_cursor_next', 'part_cursor_close', 'engine_unlock', 'engine_lock', 'part_cursor_open')]
    has = call_test(s, 'part_cursor_has')
    s.exactly(nx, ref, 'step', 'the cursor moves on in its partition')
    done = s.and_(ref, s.not_(has))
    s.exactly(ul, done, 'unlock', 'the partition is left exactly when it has no more events')
    s.exactly(cl, done, 'close', 'its sources are closed')
    s.before(cl, ul, 'close-first', 'before it is unlocked')
    for e in ul:
        s.ob(strip(e.args[2]) == ('i', access) and is_path(e.args[1], 'EngineCursor.ref'), 'unlock-mode', 'with the lock taken', e.where())
    last = s.rel('eq', lambda x: is_path(x, 'Slice.max'), -1)
    if any('fresh' in str(s.b.vars[n]) for n in s.b.support(last)):
        last = s.rel('eq', lambda x: is_path(x, 'Slice.max'), 2 ** 64 - 1)
    s.exactly(lk, s.and_(done, s.not_(last)), 'next', 'then the next partition is looked for, unless the last id has been reached')
    locked(s, lk, access)
    for e in lk:
        d = lin(e.args[1])
        s.ob(len(d) == 2 and d.get(()) == 1 and any(t != () and is_path(t, 'Slice.max') and has_path(t, 'EngineCursor.ref') for t in d), 'next-from',
             'behind the partition left', e.where())
    s.before(ul, lk, 'one', 'a cursor holds one partition at a time')
    got = s.or_(*[s.not_(v.eq(e.value, ('i', 0))) for e in lk] or [0])
    s.exactly(po, s.and_(s.and_(done, s.not_(last)), got), 'open', 'it is opened')
    for e in po:
        s.ob(is_path(e.args[1], 'Ref.part') and strip(e.args[2]) == ('i', 0), 'open-first', 'at its first event', e.where())
    rs = v.stores_of('EngineCursor', 'ref')
    s.must(done, rs, 'forget', 'the partition left is forgotten')
    for c, x in s.final(rs):
        s.ob(strip(x) == ('i', 0) or is_call(x, 'engine_lock'), 'forget-ref', 'the partition left is forgotten')

    s = Spec(prog, res, 'engine_cursor_skip_deletes', interest=['engine_cursor_at', 'engine_cursor_next', 'engine_cursor_has', 'event_is_delete'])
    v = s.v
    has, at, dl = call_test(s, 'engine_cursor_has'), call_test(s, 'engine_cursor_at'), call_test(s, 'event_is_delete')
    s.exactly(v.calls('engine_cursor_next'), s.and_(has, s.or_(s.not_(at), dl)), 'skip', 'deleted events are skipped, and no other ones')
    for e in v.calls('engine_cursor_next'):
        s.ob(bool(e.loops), 'skip-all', 'as many as there are', e.where())
    s.once(v.calls('engine_cursor_next'), 'skip-one', 'one by one')
    for c, x in [(e.cond, e) for e in v.events if e.kind == 'ret']:
        s.ob(not v.possible(s.and_(c, s.and_(has, s.or_(s.not_(at), dl)))), 'skip-end', 'until an event is not deleted', None, v.show(c))


def locked(s, lk, access):
    for e in lk:
        s.ob(strip(e.args[2]) == ('i', access), 'lock', 'the partition is locked for access', e.where())
        s.ob(true(e.args[3]), 'lock-gte', 'the next partition is found if there is none for the id', e.where())
        s.ob(strip(e.args[4]) == ('i', 0), 'lock-read', 'reading creates no partition', e.where())


def api(prog, res):
    for name, op in (('monotone_cursor', 'engine_cursor_open'), ('monotone_next', 'engine_cursor_next')):
        s = Spec(prog, res, name, interest=[op, 'engine_cursor_skip_deletes', 'event_malloc', 'engine_cursor_has', 'engine_cursor_close'],
                 throws=True)
        v = s.v
        ops, sk = v.calls(op), v.calls('engine_cursor_skip_deletes')
        s.one(ops, 'op', 'the cursor is positioned')
        for e in ops:
            later = v.any([x for x in sk if x.order > e.order])
            s.ob(v.implies(s.and_(e.cond, s.not_(v.failed())), later), 'deletes', 'deleted events are skipped', e.where())
        if name == 'monotone_cursor':
            nokey = s.rel('eq', lambda x: x == ('a', 2), 0)
            for e in ops:
                for c, x in gates(e.args[2]):
                    k = s.and_(c, e.cond)
                    x = strip(x)
                    s.ob(x == ('i', 0) and v.implies(k, nokey) or is_call(x, 'event_malloc') and strip(arg(x, 0)) == ('a', 2)
                         and not v.possible(s.and_(k, nokey)), 'key', 'at the key given', e.where())
            s.must(s.not_(v.failed()), ops, 'opens', 'the cursor is positioned') if False else None
        else:
            for c, x in gates(v.ret):
                x = strip(x)
                if x[0] == 'i':
                    s.ob(x[1] in (-1, 2 ** 32 - 1) and v.implies(c, v.failed()) or not v.possible(s.and_(c, s.not_(v.failed()))), 'result',
                         'the cursor tells whether it has an event', None, v.show(c))
                else:
                    s.ob(any(is_call(y, 'engine_cursor_has') for y in walk(x)) or x[0] in ('bdd', 'b2i'), 'result',
                         'the cursor tells whether it has an event')
    s = Spec(prog, res, 'monotone_read', interest=['engine_cursor_at'], stores=[('monotone_event', f) for f in EV] +
             [('monotone_event_t', f) for f in EV], throws=True)
    v = s.v
    at = s.terms(lambda x: is_call(x, 'engine_cursor_at'))
    if not s.ob(len(at) == 1, 'at', 'the event of the cursor is read'):
        return
    a = at[0]
    got = s.not_(v.eq(a, ('i', 0)))
    S = 'monotone_event' if v.stores_of('monotone_event', 'id') else 'monotone_event_t'
    H = prog.structs['Event']
    for f in EV:
        st = v.stores_of(S, f)
        s.must(s.and_(got, s.not_(v.failed())), st, f, 'the %s of the event is returned' % f)
        for e in st:
            x = strip(e.args[1])
            d = lin_b(x)
            E = lambda n: [t for t in d if t != () and is_path(t, 'Event.' + n) and origin(t) == a]
            if f in ('id', 'flags', 'key_size'):
                ok = x[0] == 'ld' and is_path(x, 'Event.' + f) and origin(x) == a
            elif f == 'value_size':
                ok = len(d) == 2 and [d[t] for t in E('data_size')] == [1] and [d[t] for t in E('key_size')] == [-1]
            elif f == 'key':
                ok = is_path(x, 'Event.data') and origin(x) == a and x[0] == 'fld'
            else:
                ok = len(d) == 2 and [d[t] for t in E('key_size')] == [1] and any(t != () and t[0] == 'fld' and is_path(t, 'Event.data') for t in d)
            s.ob(ok, f + '-value', 'the %s of the event is returned' % f, e.where(), str(x)[:200])
    for c, x in gates(v.ret):
        x = strip(x)
        if x == ('i', 1):
            s.ob(v.implies(c, got), 'one', 'an event is reported only if there is one')
    s = Spec(prog, res, 'monotone_read', interest=['engine_cursor_at', 'event_is_delete'], throws=True)
    v = s.v
    dl = call_test(s, 'event_is_delete')
    for c, x in gates(v.ret):
        if strip(x) == ('i', 1):
            s.ob(not v.possible(s.and_(c, dl)), 'deleted', 'a deleted event is not reported', None, v.show(c))


def reset(prog, res):
    s = Spec(prog, res, 'part_cursor_close', interest=['reader_reset'], stores=[('MergeIterator', 'list_count'), ('Buf', 'position')])
    v = s.v
    n, b = v.stores_of('MergeIterator', 'list_count'), [e for e in v.stores_of('Buf', 'position') if is_path(e.args[0], 'MergeIterator.list', 'Buf.position')]
    s.must(1, n, 'sources', 'a closed partition leaves no sources behind')
    s.must(1, b, 'sources-list', 'a closed partition leaves no sources behind')
    for _, x in s.final(n):
        s.ob(strip(x) == ('i', 0), 'sources-none', 'a closed partition leaves no sources behind')
    for _, x in s.final(b):
        s.ob(is_path(x, 'MergeIterator.list', 'Buf.start'), 'sources-empty', 'a closed partition leaves no sources behind')
    s.must(1, v.calls('reader_reset'), 'reader', 'its file reader is reset')


EV = ('flags', 'id', 'key_size', 'key', 'value_size', 'value')


def lin_b(e):
    from rules_read import lin_bytes
    return lin_bytes(e)


@rule('R03')
def r03(prog, res):
    parts(prog, res, merge_next, merge_add, part_open, partitions, api, reset,
          compare_order, seek, table_walk, index_walk, region_walk, region_pos, part_walk)


# ------------------------------------------------------------------ R04
def sync(prog, res):
    s = Spec(prog, res, 'memtable_iterator_sync', stores=[('MemtableIterator', f) for f in ('page', 'page_pos', 'current')])
    v = s.v
    ip = lambda x: x[0] == 'ld' and is_path(x, 'MemtableIterator.page')
    pp = lambda x: x[0] == 'ld' and is_path(x, 'MemtableIterator.page_pos')
    sp = lambda x: x[0] == 'ld' and is_path(x, 'Memtable.size_split')
    A = lambda n: (lambda x: x == ('a', n))
    mine = s.and_(s.rel('eq', ip, A(1)), s.not_(s.rel('eq', lambda x: is_path(x, 'MemtableIterator.current'), 0)))
    split = s.not_(s.rel('eq', A(2), 0))
    right = s.lrel('ge', [(pp, 1), (sp, -1)])
    moved = s.and_(mine, s.and_(split, right))
    stay = s.and_(mine, s.not_(s.and_(split, right)))
    hit_m = s.and_(s.rel('eq', A(2), A(3)), s.lrel('le', [(A(4), 1), (pp, -1), (sp, 1)]))
    mine3 = [c for c in (s.test_eq(ip, A(3)), s.test_eq(A(1), A(3))) if s.made(c)]
    hit_s = s.and_(s.or_(*mine3) if mine3 else s.fresh(), s.lrel('le', [(A(4), 1), (pp, -1)]))
    pos = v.stores_of('MemtableIterator', 'page_pos')
    pg = v.stores_of('MemtableIterator', 'page')
    cur = v.stores_of('MemtableIterator', 'current')
    s.never(pos + pg + cur, s.not_(mine), 'other', 'iterators at other pages stay as they are')
    left = s.or_(0, *[s.and_(e.cond, c) for e in pg for c, x in gates(e.args[1]) if not ip(strip(x)) and strip(x) != ('a', 1)])
    s.ob(v.equal(left, moved), 'page', 'an event which moved to the right half takes the iterator along', None, v.show(left))
    for e in pg:
        s.ob(all(strip(x) == ('a', 2) for x in s.leaves(e.args[1], s.and_(e.cond, moved))), 'page-right', 'to the right half', e.where())

    def shape(x):
        """(moved, incremented) of a position"""
        d = lin(x)
        p = [t for t in d if t != () and pp(t)]
        q = [t for t in d if t != () and sp(t)]
        if len(p) != 1 or d[p[0]] != 1 or len(d) != len(p) + len(q) + (1 if () in d else 0) or any(d[t] != -1 for t in q) or d.get((), 0) not in (0, 1):
            return None
        return bool(q), d.get((), 0)
    fin = s.final(pos)
    for name, K, hit, mv in (('moved', moved, hit_m, True), ('stay', stay, hit_s, False)):
        for inc, C in ((1, s.and_(K, hit)), (0, s.and_(K, s.not_(hit)))):
            left = C
            for c, x in fin:
                k = s.and_(c, C)
                left = s.and_(left, s.not_(c))
                if v.possible(k):
                    s.ob(shape(x) == (mv, inc), 'pos-%s-%d' % (name, inc), 'the position follows the event (%s%s)'
                         % ('right half' if mv else 'same page', ', event inserted at or before it' if inc else ''), None, v.show(k))
            if mv or inc:
                s.ob(not v.possible(left), 'pos-set-%s-%d' % (name, inc), 'the position follows the event (%s%s)'
                     % ('right half' if mv else 'same page', ', event inserted at or before it' if inc else ''), None, v.show(left))
            for e in cur:
                for x in s.leaves(e.args[1], s.and_(e.cond, C)):
                    pgi = page_index(lambda p: p == ('a', 2) if mv else ip(p) or p == ('a', 1))(x)
                    s.ob(pgi is not None and shape(pgi) == (mv, inc), 'event-%s-%d' % (name, inc), 'the event is read at the position', e.where(),
                         str(x)[:200])
    s.must(mine, cur, 'event', 'the event is read again')

    s = Spec(prog, res, 'memtable_iterator_sync_unset', stores=[('MemtableIterator', f) for f in ('page', 'page_pos', 'current')])
    v = s.v
    mine = s.and_(s.rel('eq', ip, A(1)), s.not_(s.rel('eq', lambda x: is_path(x, 'MemtableIterator.current'), 0)))
    pos = v.stores_of('MemtableIterator', 'page_pos')
    s.exactly(pos, s.and_(mine, s.lrel('lt', [(A(2), 1), (pp, -1)])), 'pos', 'the position follows when an event before it is removed')
    for e in pos:
        d = lin(e.args[1])
        s.ob(len(d) == 2 and d.get(()) == -1 and any(t != () and pp(t) for t in d), 'pos-one', 'by one', e.where())
    s.never(v.stores_of('MemtableIterator', 'page') + v.stores_of('MemtableIterator', 'current'), 1, 'keep', 'page and event stay')


def every(prog, res):
    for name, fn, n in (('memtable_sync', 'memtable_iterator_sync', 4), ('memtable_sync_unset', 'memtable_iterator_sync_unset', 2)):
        s = Spec(prog, res, name, interest=[fn])
        v = s.v
        cs = v.calls(fn)
        s.one(cs, 'call', 'iterators are told')
        for e in cs:
            ok = bool(e.loops)
            ll = list_loop(v, e.loops[-1]) if ok else None
            ok = ll is not None and is_path(ll[1], 'Memtable.iterators') and origin(ll[1]) == ('a', 0) and ll[2] == ('List', 'next')
            s.ob(ok, 'all', 'all attached iterators are told', e.where())
            if ok:
                B = v.body(e.loops[-1])
                s.ob(v.equal(B, s.and_(v.entry(e.loops[-1]), s.not_(v.eq(ll[0], ll[1])))) or
                     v.equal(B, s.and_(v.entry(e.loops[-1]), s.not_(s.rel('eq', lambda x: x == ll[0], lambda x: plain(x) == plain(ll[1]))))),
                     'all-of', 'to the end of the list', e.where())
                s.ob(v.equal(e.cond, B), 'each', 'each of them', e.where())
                off = prog.field_off('MemtableIterator', 'link')
                d = strip(e.args[0])
                from rules_read import lin_bytes
                s.ob(lin_bytes(d) == {plain(ll[0]): 1, (): -off} or (d[0] == 'fld' and False), 'it', 'the iterator of the link', e.where(), str(d)[:200])
            s.ob(all(strip(e.args[k]) == ('a', k) for k in range(1, n + 1)), 'args', 'about the same change', e.where())


def attach(prog, res):
    s = Spec(prog, res, 'memtable_iterator_open', interest=['memtable_seek', 'rbtree_next', 'list_append'],
             stores=[('MemtableIterator', 'current'), ('Memtable', 'iterators_count')])
    v = s.v
    ap, ct = v.calls('list_append'), v.stores_of('Memtable', 'iterators_count')
    want = s.not_(s.rel('eq', lambda x: x == ('a', 3), 0))
    cur = [e for e in v.stores_of('MemtableIterator', 'current') if any(strip(x) != ('i', 0) for _, x in gates(e.args[1]))]
    c = s.and_(want, v.any(cur))
    s.exactly(ap, c, 'attach', 'an iterator with an event is attached to the memory table')
    s.exactly(ct, c, 'attach-count', 'and counted')
    for e in ap:
        s.ob(is_path(e.args[0], 'Memtable.iterators') and origin(e.args[0]) == ('a', 1) and is_path(e.args[1], 'MemtableIterator.link'), 'attach-list',
             'to its list', e.where())
    for e in ct:
        s.ob(lin(e.args[1]).get(()) == 1, 'attach-one', 'once', e.where())
    s = Spec(prog, res, 'memtable_iterator_close', interest=['list_unlink'], stores=[('Memtable', 'iterators_count'), ('List', 'next'), ('List', 'prev')],
             expand=['list_empty'])
    v = s.v
    ul, ct = v.calls('list_unlink'), v.stores_of('Memtable', 'iterators_count')
    s.one(ul, 'detach', 'a closed iterator is detached')
    s.one(ct, 'detach-count', 'and not counted any more')
    for e in ct:
        s.ob(v.equal(e.cond, v.any(ul)), 'detach-both', 'exactly if it was attached', e.where())
        s.ob(lin(e.args[1]).get(()) == -1, 'detach-one', 'once', e.where())
    linked = [e for e in s.terms(lambda x: is_path(x, 'List.next') or is_path(x, 'List.prev'))]
    alone = s.and_(*[s.test_eq(lambda x, f=f: x[0] == 'ld' and is_path(x, 'MemtableIterator.link', 'List.' + f),
                               lambda x: x[0] == 'fld' and is_path(x, 'MemtableIterator.link')) for f in ('next',)])
    s.ob(v.implies(s.not_(alone), v.any(ul)), 'detach-if', 'whenever it was attached')
    for e in ul:
        s.ob(is_path(e.args[0], 'MemtableIterator.link'), 'detach-link', 'its own link', e.where())
    s = Spec(prog, res, 'part_cursor_open', interest=['memtable_iterator_open', 'part_memtable'])
    v = s.v
    for e in v.calls('memtable_iterator_open'):
        if is_call(e.args[1], 'part_memtable'):
            s.ob(true(e.args[3]), 'active', 'the iterator of the memory table which is written to is attached', e.where())
    s = Spec(prog, res, 'part_cursor_close', interest=['memtable_iterator_close', 'memtable_iterator_init'])
    v = s.v
    cl = v.calls('memtable_iterator_close')
    for f in ('memtable_iterator_a', 'memtable_iterator_b'):
        s.must(1, [e for e in cl if is_path(e.args[0], 'PartCursor.' + f)], 'close-' + f, 'both iterators are closed with the cursor')
    s.before(cl, v.calls('memtable_iterator_init'), 'close-first', 'before they are initialised again')


@rule('R04')
def r04(prog, res):
    parts(prog, res, sync, every, attach)


# ------------------------------------------------------------------ R05
def in_slice(prog, res):
    s = Spec(prog, res, 'slice_in')
    v = s.v
    lo = s.rel('ule', lambda x: is_path(x, 'Slice.min'), ('a', 1).__eq__)
    hi = s.rel('ule', ('a', 1).__eq__, lambda x: is_path(x, 'Slice.max'))
    s.ob(v.equal(ret_true(s), s.and_(lo, hi)), 'in', 'a partition holds the ids from its first to its last one')
    s = Spec(prog, res, 'slice_init', stores=[('Slice', 'min'), ('Slice', 'max')])
    for f, n in (('min', 1), ('max', 2)):
        st = s.v.stores_of('Slice', f)
        s.must(1, st, f, 'the range is kept as given')
        s.ob(all(strip(e.args[1]) == ('a', n) for e in st), f + '-value', 'the range is kept as given')


def tree_find(prog, res):
    s = Spec(prog, res, 'mapping_find', interest=['compare_u64'], outs=[3])
    v = s.v
    cs = s.terms(lambda x: is_call(x, 'compare_u64'))
    node = None
    for k in v.loops:
        for p in header_phis(v, k):
            if any(strip(y)[0] == 'ld' and is_path(y, 'RbtreeNode.l') for _, y in v.phi_steps(p)):
                node = (k, p)
    if not s.ob(node is not None and len(cs) == 1, 'descend', 'the tree of partitions is descended'):
        return
    key, n = node
    t = cs[0]
    a, b = strip(arg(t, 0)), strip(arg(t, 1))
    iskey = lambda x: x[0] == 'ld' and strip(x[1]) == ('a', 2)
    flip = iskey(a)
    el, k = (b, a) if flip else (a, b)
    s.ob(is_path(el, 'Slice.min') and any(y == n for y in walk(el)) and iskey(k), 'first', 'the id is compared with the first id of a partition',
         None, str(t)[:200])
    LT, GT = v.cmp('slt', t, ('i', 0)), v.cmp('sgt', t, ('i', 0))
    if flip:
        LT, GT = GT, LT
    init = v.phi(n)[0]
    s.ob(len(init) == 1 and is_path(init[0], 'Rbtree.root') and origin(init[0]) == ('a', 0), 'root', 'from the root')
    s.ob(v.equal(v.body(key), s.and_(v.entry(key), s.not_(v.eq(n, ('i', 0))))), 'end', 'down to a leaf')
    for k, y in v.phi_steps(n):
        r, l = is_path(y, 'RbtreeNode.r'), is_path(y, 'RbtreeNode.l')
        s.ob(base_of(plain(y), 'RbtreeNode') == n and (r or l), 'child', 'by the children of the node')
        if r or l:
            s.ob(v.implies(k, LT if r else GT), 'side', 'to the right if the partition begins below the id, to the left if above', None, v.show(k))
    st = [e for e in v.events if e.kind == 'store' and e.name == ('arg', 3)]
    inl = [e for e in st if e.loops]
    s.ob(bool(inl) and all(strip(x) == n for e in inl for _, x in gates(e.args[1])), 'match', 'the last partition visited is returned')
    for e in inl:
        s.ob(v.equal(e.cond, v.body(key)), 'every', 'it is updated with every partition', e.where())
    for k, y in gates(v.ret):
        y = strip(y)
        if y == ('i', 0):
            s.ob(v.implies(k, v.eq(t, ('i', 0))), 'zero', 'zero means that the partition begins with the id')
        elif y == strip(t):
            s.ob(not flip, 'order', 'the order of the last partition and the id is returned')
        elif y[0] == 'phi':
            i, st_ = v.phi(y)
            s.ob(not flip and i == [('i', 0)] and all(strip(z) == strip(t) for z in st_), 'order', 'the order of the last partition and the id is returned')
        else:
            s.ob(False, 'order', 'the order of the last partition and the id is returned', None, str(y)[:200])
    s = Spec(prog, res, 'compare_u64')
    v = s.v
    lt, eq = s.rel('ult', ('a', 0).__eq__, ('a', 1).__eq__), s.rel('eq', ('a', 0).__eq__, ('a', 1).__eq__)
    for k, y in gates(v.ret):
        y = strip(y)
        if y[0] != 'i':
            s.ob(False, 'sign', 'ids are ordered as unsigned numbers', None, str(y)[:200])
            continue
        x = y[1] - 2 ** 32 if y[1] >= 2 ** 31 else y[1]
        want = lt if x < 0 else eq if x == 0 else s.not_(s.or_(lt, eq))
        s.ob(v.implies(k, want), 'sign', 'ids are ordered as unsigned numbers', None, v.show(k))


def node_of(x):
    """the tree node of a partition, from the partition or its address"""
    x = strip(x)
    if x[0] == 'fld' and x[2:] == ('Slice', 'node'):
        return strip(x[1])
    return None


def slice_of(prog, x):
    """the node a partition is computed from"""
    off = prog.field_off('Slice', 'node')
    from rules_read import lin_bytes
    d = lin_bytes(x)
    ts = [t for t in d if t != ()]
    if len(ts) == 1 and d[ts[0]] == 1 and d.get((), 0) == -off:
        return ts[0]
    return None


def neighbours(prog, res):
    for name, fn in (('mapping_next', 'rbtree_next'), ('mapping_prev', 'rbtree_prev'), ('mapping_min', 'rbtree_min'), ('mapping_max', 'rbtree_max')):
        s = Spec(prog, res, name, interest=[fn])
        v = s.v
        cs = v.calls(fn)
        if not s.one(cs, 'walk', 'the partition is found in the tree'):
            continue
        for e in cs:
            s.ob(is_path(e.args[0], 'Mapping.tree') and origin(e.args[0]) == ('a', 0), 'tree', 'in the tree of partitions', e.where())
            if len(e.args) > 1:
                s.ob(node_of(e.args[1]) == ('a', 1), 'from', 'from the partition given', e.where())
        for c, x in gates(v.ret):
            x = strip(x)
            if x == ('i', 0):
                none = s.rel('eq', lambda t: is_path(t, 'Mapping.tree_count'), 0)
                none = s.or_(none, *[v.eq(e.value, ('i', 0)) for e in cs])
                s.ob(v.implies(c, none), 'none', 'none only if there is none', None, v.show(c))
            else:
                n = slice_of(prog, x)
                s.ob(n is not None and is_call(n, fn), 'result', 'the partition of the node is returned', None, str(x)[:200])
    # changes of the tree
    for name, fn, ct in (('mapping_add', 'rbtree_set', 1), ('mapping_remove', 'rbtree_remove', -1)):
        s = Spec(prog, res, name, interest=['rbtree_set', 'rbtree_remove', 'rbtree_replace', 'mapping_find'], stores=[('Mapping', 'tree_count')])
        v = s.v
        cs = v.calls(fn)
        st = v.stores_of('Mapping', 'tree_count')
        s.must(1, cs, 'tree', 'the tree is changed')
        for e in cs:
            s.ob(is_path(e.args[0], 'Mapping.tree') and origin(e.args[0]) == ('a', 0), 'tree-of', 'the tree is changed', e.where())
            if fn == 'rbtree_set':
                fs = v.calls('mapping_find')
                ok = False
                for f in fs:
                    at, rc = strip(e.args[1]), strip(e.args[2])
                    ok = ok or (rc == strip(f.value) and at[0] == 'ld' and strip(at[1]) == strip(f.args[3])
                                and is_path(f.args[2], 'Slice.min') and origin(f.args[2]) == ('a', 1))
                s.ob(ok and node_of(e.args[3]) == ('a', 1), 'place', 'the partition is inserted where the search for its first id ends', e.where())
            else:
                s.ob(node_of(e.args[1]) == ('a', 1), 'node', 'the partition given', e.where())
                if ct == 0:
                    s.ob(node_of(e.args[2]) == ('a', 2), 'by', 'by the one given', e.where())
        if ct:
            s.must(1, st, 'count', 'partitions are counted')
        for e in st:
            s.ob(lin(e.args[1]).get(()) == ct, 'count-by', 'partitions are counted', e.where())
        s.once(st, 'count-once', 'once')


def lookups(prog, res):
    s = Spec(prog, res, 'mapping_seek', interest=['mapping_find', 'rbtree_prev'])
    v = s.v
    fs = v.calls('mapping_find')
    if s.one(fs, 'find', 'the id is searched in the tree'):
        f = fs[0]
        key = strip(f.args[2])
        s.ob(is_path(f.args[0], 'Mapping.tree') and strip(f.guard.get(key, ('u',))) == ('a', 1), 'find-id', 'the id is searched in the tree', f.where(),
             str(f.guard.get(key)))
        above = v.cmp('sgt', f.value, ('i', 0))
        isnode = lambda y: y is not None and strip(y)[0] == 'ld' and strip(strip(y)[1]) == strip(f.args[3])
        pv = s.terms(lambda x: is_call(x, 'rbtree_prev') and isnode(arg(x, 1)))
        none = s.or_(*[v.eq(x, ('i', 0)) for x in pv] or [0])
        for c, x in gates(v.ret):
            n = slice_of(prog, x)
            if n is not None and is_call(n, 'rbtree_prev'):
                s.ob(isnode(arg(n, 1)) and v.implies(c, s.and_(above, s.not_(none))), 'prev', 'a partition which begins above the id is replaced by the '
                     'one before it', None, v.show(c))
            else:
                s.ob(isnode(n) and v.implies(s.and_(c, above), none), 'here', 'the last partition which begins at or below the id is found', None, v.show(c))

    for name in ('mapping_gte', 'mapping_match'):
        s = Spec(prog, res, name, interest=['mapping_seek', 'mapping_next', 'slice_in'])
        v = s.v
        empty = s.rel('eq', lambda x: is_path(x, 'Mapping.tree_count'), 0)
        sk = v.calls('mapping_seek')
        if not s.one(sk, 'seek', 'the id is searched'):
            continue
        e = sk[0]
        s.ob(strip(e.args[1]) == ('a', 1), 'seek-id', 'the id is searched', e.where())
        got = lambda x: is_call(x, 'mapping_seek')
        inn = call_test(s, 'slice_in')
        le = s.rel('ule', ('a', 1).__eq__, lambda x: is_path(x, 'Slice.max') and any(got(y) for y in walk(x)))
        ge = s.rel('ule', lambda x: is_path(x, 'Slice.min') and any(got(y) for y in walk(x)), ('a', 1).__eq__)
        for i in v.calls('slice_in'):
            s.ob(got(i.args[0]) and strip(i.args[1]) == ('a', 1), 'in', 'the range found is compared with the id', i.where())
        for c, x in gates(v.ret):
            x = strip(x)
            if name == 'mapping_gte':
                if x == ('i', 0):
                    s.ob(v.implies(c, empty), 'none', 'no partition only if there is none', None, v.show(c))
                elif got(x):
                    s.ob(v.implies(c, le), 'here', 'the partition found ends at the id or behind it', None, v.show(c))
                else:
                    s.ob(is_call(x, 'mapping_next') and got(arg(x, 1)) and not v.possible(s.and_(c, le)), 'next',
                         'otherwise the next one is taken', None, v.show(c))
            else:
                hit = inn if v.calls('slice_in') else s.and_(le, ge)
                if x == ('i', 0):
                    s.ob(not v.possible(s.and_(c, s.and_(s.not_(empty), hit))), 'none', 'no partition only if none holds the id', None, v.show(c))
                else:
                    s.ob(got(x) and v.implies(c, hit), 'here', 'the partition which holds the id', None, v.show(c))


LK = ['mapping_max', 'mapping_match', 'mapping_gte', 'engine_fill_nolock', 'ref_lock', 'slice_in', 'config_interval_of', 'config_interval', 'mutex_lock',
      'mutex_unlock', 'service_refresh', 'control_lock_shared', 'control_unlock']


def lock_partition(prog, res):
    s = Spec(prog, res, 'engine_lock', interest=LK)
    v = s.v
    gte, create = s.not_(s.rel('eq', ('a', 3).__eq__, 0)), s.not_(s.rel('eq', ('a', 4).__eq__, 0))
    ID = ('a', 1)
    gs, ms, fl, rl, inn = [v.calls(n) for n in ('mapping_gte', 'mapping_match', 'engine_fill_nolock', 'ref_lock', 'slice_in')]
    s.exactly(gs, gte, 'gte', 'the next partition is taken only on request')
    for e in gs + ms:
        s.ob(is_path(e.args[0], 'Engine.mapping') and strip(e.args[1]) == ID, 'search-id', 'the id given is searched', e.where())
    for e in inn:
        s.ob(strip(e.args[1]) == ID, 'in-id', 'the id given is searched', e.where())
    off = prog.field_off('Ref', 'slice')
    from rules_read import lin_bytes

    def found(x):
        """the search which found a partition"""
        d = lin_bytes(x)
        ts = [t for t in d if t != ()]
        if len(ts) == 1 and d[ts[0]] == 1 and d.get((), 0) == -off:
            return ts[0]
        return None
    head = s.terms(lambda x: is_call(x, 'mapping_max'))
    inhead = call_test(s, 'slice_in')
    first = [e for e in ms if all(e.order < f.order for f in fl)]
    nomatch = s.and_(*[v.eq(e.value, ('i', 0)) for e in first])
    # a search after the creation finds the new partition (it covers the id)
    again = s.and_(*[s.not_(v.eq(e.value, ('i', 0))) for e in ms if e not in first])
    s.ob(bool(first) and all(v.implies(e.cond, s.not_(gte)) for e in first), 'match', 'otherwise the partition which holds the id')
    s.exactly(fl, s.and_(s.and_(v.any(first), nomatch), create), 'create', 'a partition is created only on request, and only if none holds the id')
    for e in fl:
        lo = strip(e.args[1])
        ok = is_call(lo, 'config_interval_of') and strip(arg(lo, 0)) == ID
        s.ob(ok, 'create-min', 'it begins at the interval of the id', e.where())
        for c, x in gates(e.args[2]):
            d = lin(x)
            if d == {(): -1} or d == {(): 2 ** 64 - 1}:
                wrap = s.rel('ult', lambda t: any(is_call(y, 'config_interval') for y in walk(t)), lambda t: t == lo)
                s.ob(v.implies(s.and_(c, e.cond), wrap), 'create-last', 'the last one ends at the last id', e.where(), v.show(c))
                continue
            ok = len(d) == 3 and d.get(()) == -1 and all(is_call(t, 'config_interval', 'config_interval_of') for t in d if t != ())
            s.ob(ok, 'create-max', 'and ends before the next interval', e.where(), str(d)[:200])
    for c, x in gates(v.ret):
        if strip(x) == ('i', 0):
            s.ob(not v.possible(s.and_(s.and_(c, again), s.and_(s.not_(gte), s.or_(create, s.not_(nomatch))))), 'none', 'no partition only if none holds the id and none is to be created',
                 None, v.show(c))
            continue
        t = found(x)
        if t is not None and is_call(t, 'mapping_gte'):
            s.ob(v.implies(c, s.and_(gte, s.not_(v.eq(t, ('i', 0))))), 'next', 'the next partition is returned on request', None, v.show(c))
        elif t is not None and is_call(t, 'mapping_max'):
            if inn:
                hit = s.or_(*[s.not_(v.eq(e.value, ('i', 0))) for e in inn if strip(e.args[0]) == strip(t)] or [0])
            else:
                hit = s.and_(s.rel('ule', lambda y: is_path(y, 'Slice.min') and origin(y) == strip(t), ID.__eq__),
                             s.rel('ule', ID.__eq__, lambda y: is_path(y, 'Slice.max') and origin(y) == strip(t)))
            s.ob(v.implies(c, s.and_(s.not_(gte), s.and_(hit, s.not_(v.eq(t, ('i', 0)))))), 'head', 'the last partition is returned if it holds the id', None, v.show(c))
        else:
            ok = t is not None and is_call(t, 'mapping_match')
            s.ob(ok, 'holds', 'the partition which holds the id is returned', None, str(x)[:200])
            if ok:
                firsts = [e for e in first if strip(e.value) == strip(t)]
                if firsts:
                    s.ob(v.implies(c, s.not_(v.eq(t, ('i', 0)))), 'holds-one', 'the partition which holds the id is returned', None, v.show(c))
                else:
                    s.ob(v.implies(c, v.any(fl)), 'holds-new', 'a second search follows the creation', None, v.show(c))
    # the partition returned is locked as asked before the engine lock is released
    for c, x in gates(v.ret):
        if strip(x) == ('i', 0):
            s.never(rl, c, 'none-unlocked', 'nothing is locked if nothing is returned')
            continue
        ok = [e for e in rl if strip(e.args[1]) == ('a', 2) and any(plain(y) == plain(x) and v.possible(s.and_(k, c)) for k, y in gates(e.args[0]))]
        s.must(c, ok, 'locked', 'the partition returned is locked as asked')
    ul = v.calls('mutex_unlock')
    for e in rl:
        s.before([m for m in v.calls('mutex_lock') if is_path(m.args[0], 'Engine.lock')], [e], 'under', 'under the lock of the engine')
        s.ob(all(not (u.order < e.order and v.possible(s.and_(u.cond, e.cond))) for u in ul), 'under-still', 'under the lock of the engine', e.where())


def fill(prog, res):
    s = Spec(prog, res, 'engine_fill_nolock', interest=['buf_write', 'engine_create', 'mapping_seek', 'mapping_next'], stores=[('Id', 'min'), ('Id', 'max')],
             throws=True)
    v = s.v
    LO, HI = ('a', 1), ('a', 2)
    bad = s.rel('ugt', LO.__eq__, HI.__eq__)
    empty = s.rel('eq', lambda x: is_path(x, 'Mapping.tree_count'), 0)
    cr, wr, sk, nx = [v.calls(n) for n in ('engine_create', 'buf_write', 'mapping_seek', 'mapping_next')]
    s.never(cr + wr, bad, 'valid', 'a range must not end before it begins')
    one = [e for e in cr if not e.loops]
    s.exactly(one, s.and_(empty, s.not_(bad)), 'first', 'the first partition takes the range given')
    for e in one:
        s.ob(strip(e.args[1]) == LO and strip(e.args[2]) == HI, 'first-range', 'the first partition takes the range given', e.where())
    if not s.one(sk, 'seek', 'the partitions in the range are visited'):
        return
    e = sk[0]
    s.ob(is_path(e.args[0], 'Engine.mapping') and strip(e.args[1]) == LO, 'seek-from', 'from the begin of the range', e.where())
    key = M = S = None
    for k in v.loops:
        for p in header_phis(v, k):
            i, st = v.phi(p)
            if any(is_call(x, 'mapping_seek') for x in i):
                key, S = k, p
    if key:
        for p in header_phis(v, key):
            if p != S and [strip(x) for x in v.phi(p)[0]] == [LO]:
                M = p
    if not s.ob(M is not None, 'walk', 'gaps are looked for from one partition to the next'):
        return
    isS = lambda f: (lambda x: x[0] == 'ld' and is_path(x, 'Slice.' + f) and origin(x) == S)
    ahead = s.rel('ult', M.__eq__, isS('min'))
    within = s.rel('ule', M.__eq__, isS('max'))
    have = s.not_(v.eq(S, ('i', 0)))
    short = s.rel('ult', HI.__eq__, isS('min'))
    short_e = s.rel('ule', HI.__eq__, isS('min'))
    last = s.or_(*[v.eq(t, ('i', k)) for t in s.terms(isS('max')) for k in (-1,)] or [0])
    done = s.rel('ugt', M.__eq__, HI.__eq__)
    R = s.and_(v.entry(key), s.not_(done))
    gap = s.and_(R, s.or_(s.not_(have), ahead))
    s.exactly(wr, gap, 'gap', 'a gap is noted exactly where no partition holds the ids')
    # an iteration at most one
    for a in wr:
        for b in wr:
            s.ob(a is b or not v.possible(s.and_(a.cond, b.cond)), 'gap-one', 'once', a.where())
    for e in wr:
        s.ob(strip(e.args[2]) == ('i', prog.structs['Id']['size']), 'gap-size', 'with both ends', e.where())
        src = strip(e.args[1])
        for x in s.leaves(s.content(e, src, 'Id', 'min'), e.cond):
            s.ob(strip(x) == M, 'gap-min', 'a gap begins at the first id not visited', e.where(), str(x)[:200])
        for c, x in gates(s.content(e, src, 'Id', 'max')):
            k = s.and_(c, e.cond)
            if not v.possible(k):
                continue
            x = strip(x)
            d = lin(x)
            before = len(d) == 2 and d.get(()) == -1 and any(t != () and isS('min')(t) for t in d)
            # the range ends before the partition: its end; else the id before the partition
            ok = x == HI and (v.implies(k, s.not_(have)) or v.implies(s.and_(k, have), short)) or before and v.implies(k, have) and not v.possible(s.and_(k, short))
            s.ob(ok, 'gap-max', 'and ends before the next partition or with the range', e.where(), v.show(k))
    for k, x in v.phi_steps(M):
        x = strip(x)
        d = lin(x)
        nextid = len(d) == 2 and d.get(()) == 1 and any(t != () and isS('max')(t) for t in d)
        ok = nextid and v.implies(k, s.and_(within, s.not_(last))) or x == M and not v.possible(s.and_(k, within))
        s.ob(ok, 'move', 'the search goes on behind the partition', None, v.show(k))
    for k, x in v.phi_steps(S):
        s.ob(is_call(x, 'mapping_next') and strip(arg(x, 1)) == S, 'next', 'with the next one')
    stop = s.or_(s.not_(have), last)
    # the walk goes on until the range, the partitions or the ids end
    back = s.or_(*[k for k, _ in v.phi_steps(M)])
    s.ob(v.implies(s.and_(R, s.not_(stop)), back), 'all', 'until the range, the partitions or the ids end', None, v.show(s.and_(s.and_(R, s.not_(stop)), s.not_(back))))
    lp = [e for e in cr if e.loops]
    if s.one(lp, 'create', 'a partition is created for every gap'):
        for e in lp:
            a, b = strip(e.args[1]), strip(e.args[2])
            ok = is_path(a, 'Id.min') and is_path(b, 'Id.max') and origin(a) == origin(b)
            s.ob(ok, 'create-range', 'with the range of the gap', e.where())
            r = loop_range(v, e.loops[-1], origin(a)) if ok else None
            if r is None and ok and strip(a)[1][1][0] == 'idx':
                r = loop_range(v, e.loops[-1], strip(a)[1][1])
            from rules_read import lin_bytes
            ok = False
            if r:
                first, lastv, st = r
                ok = st == 1 and any(is_path(t, 'Buf.start') for t in first if t != ())
            s.ob(ok, 'create-all', 'a partition is created for every gap', e.where(), str(r))


def create(prog, res):
    s = Spec(prog, res, 'engine_create', interest=['mapping_add', 'ref_allocate', 'part_allocate', 'ref_prepare', 'storage_add', 'slice_init'],
             stores=[('Id', 'min'), ('Id', 'max'), ('Part', 'source'), ('Ref', 'part')])
    v = s.v
    ra, pa, ad, sa, rp = [v.calls(n) for n in ('ref_allocate', 'part_allocate', 'mapping_add', 'storage_add', 'ref_prepare')]
    for e in s.one(ra, 'ref', 'the partition is entered'):
        s.ob(strip(e.args[0]) == ('a', 1) and strip(e.args[1]) == ('a', 2), 'ref-range', 'with the range given', e.where())
    for e in s.one(pa, 'part', 'the partition is created'):
        for f, n in (('min', 1), ('max', 2)):
            s.ob(s.each(s.content(e, e.args[2], 'Id', f), lambda x: strip(x) == ('a', n), e.cond), 'part-' + f, 'with the range given', e.where())
    for e in s.one(rp, 'set', 'both belong together'):
        s.ob(is_call(e.args[0], 'ref_allocate') and is_call(e.args[3], 'part_allocate'), 'set-part', 'both belong together', e.where())
    s.must(1, ad, 'add', 'the partition is entered')
    s.must(1, sa, 'storage', 'and belongs to a storage')
    for e in ad:
        s.ob(is_path(e.args[0], 'Engine.mapping') and is_path(e.args[1], 'Ref.slice') and is_call(origin(e.args[1]), 'ref_allocate'), 'add-range',
             'the partition is entered', e.where())
    for e in sa:
        s.ob(is_call(e.args[1], 'part_allocate'), 'storage-part', 'and belongs to a storage', e.where())
    s.once(ad, 'add-once', 'once')
    s = Spec(prog, res, 'ref_allocate', interest=['slice_init'])
    for e in s.one(s.v.calls('slice_init'), 'range', 'the range is kept as given'):
        s.ob(strip(e.args[1]) == ('a', 0) and strip(e.args[2]) == ('a', 1), 'range-value', 'the range is kept as given', e.where())
    s.must(1, s.v.calls('slice_init'), 'range-set', 'the range is kept as given')


def recovered(prog, res):
    s = Spec(prog, res, 'engine_recover', interest=['part_open', 'ref_allocate', 'ref_prepare', 'mapping_add', 'llvm.memcpy'], stores=[('Id', 'min'), ('Id', 'max')])
    v = s.v
    ra, ad, rp, po = [v.calls(n) for n in ('ref_allocate', 'mapping_add', 'ref_prepare', 'part_open')]
    if not s.one(ad, 'add', 'every partition found is entered') or not s.one(ra, 'ref', 'every partition found is entered') or not s.one(rp, 'set', 'with its partition'):
        return
    for e in ra:
        for n, f in ((0, 'min'), (1, 'max')):
            x = strip(e.args[n])
            s.ob(is_path(x, 'Part.id', 'Id.' + f) or is_path(x, 'Index.id', 'Id.' + f), f, 'with the range its file gives', e.where(), str(x)[:200])
            if is_path(x, 'Part.id', 'Id.' + f):
                part = origin(x)
                cp = [m for m in v.calls('llvm.memcpy') if is_path(m.args[0], 'Part.id') and is_path(m.args[1], 'Index.id')
                      and origin(m.args[0]) == origin(m.args[1]) == part and strip(m.args[2]) == ('i', prog.structs['Id']['size'])]
                cp += [m for m in v.stores_of('Id', f) if is_path(m.args[0], 'Part.id', 'Id.' + f) and is_path(m.args[1], 'Index.id', 'Id.' + f)]
                s.before(cp, [e], f + '-copied', 'which is taken from the index of its file')
                s.before(po, cp, f + '-read', 'after the file has been opened')
        s.before(po, [e], 'open', 'after the file has been opened')
    for e in ad:
        s.ob(is_path(e.args[1], 'Ref.slice') and is_call(origin(e.args[1]), 'ref_allocate'), 'add-ref', 'every partition found is entered', e.where())
        ll = [list_loop(v, k) for k in e.loops]
        s.ob(len(ll) == 2 and all(ll) and is_path(ll[0][1], 'StorageMgr.list') and is_path(ll[1][1], 'Storage.list'), 'all', 'of every storage', e.where(), str(ll)[:300])
        if e.loops:
            s.ob(v.equal(e.cond, v.body(e.loops[-1])), 'each', 'each of them', e.where(), v.show(e.cond))
    for e in rp:
        s.ob(is_call(e.args[0], 'ref_allocate'), 'set-ref', 'with its partition', e.where())


def id_copied(s, dst, src, key, msg):
    """the range is taken over as it is"""
    v = s.v
    n = s.prog.structs['Id']['size']
    cp = [e for e in v.calls('llvm.memcpy') if dst(e.args[0]) and strip(e.args[2]) == ('i', n)]
    for e in cp:
        s.ob(src(e.args[1]), key, msg, e.where())
    for f in ('min', 'max'):
        st = [e for e in v.stores_of('Id', f) if dst(e.args[0])]
        for e in st:
            s.ob(is_path(e.args[1], 'Id.' + f) and src(e.args[1]), key, msg, e.where())
        s.must(1, cp + st, key, msg)


def recorded(prog, res):
    s = Spec(prog, res, 'index_writer_stop', interest=['llvm.memcpy'], stores=[('Id', 'min'), ('Id', 'max')])
    id_copied(s, lambda x: has_path(x, 'IndexWriter.index', 'Index.id') and origin(x) == ('a', 0), lambda x: origin(x) == ('a', 1), 'file-range',
              'the file of a partition records its range')
    s = Spec(prog, res, 'part_allocate', interest=['llvm.memcpy'], stores=[('Id', 'min'), ('Id', 'max')])
    id_copied(s, lambda x: has_path(x, 'Part.id'), lambda x: origin(x) == ('a', 2), 'part-range', 'a partition has the range it is made for')


def merged(prog, res):
    from rules_refresh import merge
    merge(prog, res)


@rule('R05')
def r05(prog, res):
    parts(prog, res, in_slice, tree_find, neighbours, lookups, lock_partition, fill, create, recovered, recorded, merged, basic.interval_of, basic.accessors('interval'))
