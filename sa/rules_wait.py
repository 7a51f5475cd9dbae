"""L04: who waits is woken, partition locks are exclusive, pages have one user."""
from cond import gates
from ir import walk
import rules_basic as basic
from report import parts, rule
from rules_file import errors
from spec import Spec, has_path, is_path, is_call, lin, ladd, origin, strip

WAITS = ['cond_var_wait', 'cond_var_timedwait', 'cond_var_broadcast', 'cond_var_signal']
LOCK = [('Lock', 'locker'), ('Lock', 'locker_refs'), ('Lock', 'pending')]
MEM = [('MemoryMgr', f) for f in ('count', 'free_list', 'free_list_count', 'limit_hits')] + [('Page', 'next'), ('Page', 'used')]


def pl(x):
    from spec import plain
    return plain(strip(x))


def delta(val, path):
    """value - old content of the field, if that is a constant"""
    d = lin(pl(val))
    ts = [t for t in d if t != () and is_path(t, path)]
    if len(ts) != 1 or d[ts[0]] != 1 or len(set(d) - {()}) != 1:
        return None
    return d.get((), 0)


def the_lock(e):
    """the element of the lock type given, of the lockage given"""
    x = strip(e.args[0])
    x = x[1] if x[0] == 'fld' else x
    if x[0] != 'idx':
        return False
    return is_path(x[1], 'Lockage.locks') and origin(x[1]) == ('a', 0) and pl(x[2]) == ('a', 1)


def lockage(prog, res):
    """a partition lock has one owner, which may take it again"""
    s = Spec(prog, res, 'lockage_lock', interest=WAITS + ['pthread_equal', 'pthread_self'], opaque=WAITS, stores=LOCK)
    v = s.v
    for e in v.events:
        if e.kind == 'store':
            s.ob(the_lock(e), 'type:' + e.name[1], 'the lock of the type asked for is changed', e.where())
    free = s.test_eq(lambda x: is_path(x, 'Lock.locker'), lambda x: x == ('i', 0))
    mine = s.test(lambda x: is_call(x, 'pthread_equal') and any(is_path(a, 'Lock.locker') for a in x[2]) and any(is_call(a, 'pthread_self') for a in x[2]))
    if not s.made(mine):
        mine = s.test_eq(lambda x: is_call(x, 'pthread_self'), lambda x: is_path(x, 'Lock.locker'))
    if not s.made(mine):
        s.ob(False, 'nested', 'a thread which has the lock takes it again without waiting')
    waits = s.one(v.calls(*WAITS[:2]), 'waits', 'another thread waits')
    s.only_if(waits, s.and_(s.not_(mine), s.not_(free)), 'waits-if', 'it waits only for another thread')
    for e in waits:
        s.ob(is_path(e.args[0], 'Lockage.cond_var') and is_path(e.args[1], 'Lockage.mutex'), 'waits-for', 'it waits at the condition of the lock', e.where())
        s.ob(bool(e.loops), 'again', 'the lock is examined again after waiting', e.where())
        for k in e.loops[-1:]:
            s.ob(v.single_exit(k), 'ends', 'waiting ends only when the lock is free', e.where())
            s.ob(v.equal(v.body(k), s.and_(s.not_(mine), s.not_(free))), 'while', 'it waits while another thread has the lock', e.where())
    own = v.stores_of('Lock', 'locker')
    s.exactly(own, s.not_(mine), 'owner', 'the thread becomes the owner')
    for e in own:
        s.ob(s.each(e.args[1], lambda x: is_call(x, 'pthread_self'), e.cond), 'owner-is', 'the owner is the thread', e.where())
        s.ob(all(e.order > w.order for w in waits) and not e.loops, 'owner-after', 'after waiting', e.where())
    refs = v.stores_of('Lock', 'locker_refs')
    first = [e for e in refs if all(pl(x) == ('i', 1) for c, x in gates(e.args[1]))]
    more = [e for e in refs if all(delta(x, 'Lock.locker_refs') == 1 for c, x in gates(e.args[1]))]
    s.ob(len(first) + len(more) == len(refs), 'count', 'the count of the owner grows by one')
    s.exactly(first, s.not_(mine), 'first', 'a new owner counts once')
    s.exactly(more, mine, 'more', 'the owner counts once more')
    s.once(more, 'more-once', 'once')
    pend = v.stores_of('Lock', 'pending')
    up = [e for e in pend if any(w.order > e.order for w in waits)]
    down = [e for e in pend if e not in up]
    for e in up:
        s.ob(s.each(e.args[1], lambda x: delta(x, 'Lock.pending') == 1), 'pending', 'a waiting thread is counted', e.where())
    for e in down:
        s.ob(s.each(e.args[1], lambda x: delta(x, 'Lock.pending') in (0, -1)), 'pending-ends', 'a thread which stopped waiting is not', e.where())
    s.before(s.one(up, 'pending-up', 'a waiting thread is counted'), waits, 'pending-before', 'a thread is counted before it waits')
    s.after(waits, s.one(down, 'pending-down', 'a thread which stopped waiting is not counted'), 'pending-after', 'and not after')

    s = Spec(prog, res, 'lockage_unlock', interest=WAITS, opaque=WAITS, stores=LOCK)
    v = s.v
    for e in v.events:
        if e.kind == 'store':
            s.ob(the_lock(e), 'type:' + e.name[1], 'the lock of the type given is changed', e.where())
    refs = v.stores_of('Lock', 'locker_refs')
    less = [e for e in refs if any(delta(x, 'Lock.locker_refs') == -1 for c, x in gates(e.args[1]))]
    s.one(less, 'less', 'the count gets less')
    s.must(1, refs, 'less', 'the count gets one less')
    s.once(less, 'less-once', 'by one')
    last = s.lrel('le', [(lambda x: is_path(x, 'Lock.locker_refs'), 1)], -1)
    for e in refs:
        for c, x in gates(e.args[1]):
            s.ob(delta(x, 'Lock.locker_refs') == -1 or pl(x) == ('i', 0) and v.implies(s.and_(e.cond, c), last), 'refs', 'the count gets one less', e.where())
    own = v.stores_of('Lock', 'locker')
    s.exactly(own, last, 'free', 'the lock becomes free when the owner has released it as often as it took it')
    for e in own:
        s.ob(s.each(e.args[1], lambda x: pl(x) == ('i', 0)), 'free-is', 'and has no owner then', e.where())
    woken(s, own, 'Lockage.cond_var', s.and_(last, s.positive(lambda x: is_path(x, 'Lock.pending'))))


def woken(s, changes, path, cond=None):
    wake = [e for e in s.v.calls('cond_var_broadcast') if is_path(e.args[0], path)]
    for e in s.v.calls('cond_var_signal'):
        s.ob(False, 'all', 'every waiting thread is woken, they wait for different things', e.where())
    s.one(wake, 'wakes', 'waiting threads are woken')
    if cond is not None:
        s.must(cond, wake, 'wakes-if', 'waiting threads are woken')
    else:
        for c in changes:
            s.must(c.cond, wake, 'wakes-if', 'waiting threads are woken')
    return wake


def locked(s, evs):
    """between taking and releasing the lock of the memory manager"""
    v = s.v
    ops = [(e, e.name == 'mutex_lock') for e in v.calls('mutex_lock', 'mutex_unlock') if is_path(e.args[0], 'MemoryMgr.lock')]
    for e in evs:
        held = 0
        for o, take in ops:
            if o.order < e.order:
                held = s.or_(held, o.cond) if take else s.and_(held, s.not_(o.cond))
        s.ob(v.implies(e.cond, held), 'lock', 'the pages are examined and changed under the lock', e.where())


def pages(prog, res):
    """memory pages have one user at a time and the limit holds"""
    ops = WAITS + ['vfs_mmap', 'vfs_munmap', 'mutex_lock', 'mutex_unlock']
    s = Spec(prog, res, 'memory_mgr_pop', interest=ops, opaque=ops, stores=MEM, throws=True)
    v = s.v
    none = s.test_eq(lambda x: is_path(x, 'MemoryMgr.free_list'), lambda x: x == ('i', 0))
    limit = s.nz('MemoryMgr.limit')
    fails = s.nz('MemoryMgr.limit_error')
    used = s.rel('ge', lambda x: has_path(x, 'MemoryMgr.count') and has_path(x, 'MemoryMgr.page_size'), lambda x: is_path(x, 'MemoryMgr.limit_wm'))
    full = s.and_(none, limit, used)
    for c, n, m in ((none, 'cache', 'a free page is used first'), (limit, 'limit', 'the limit holds if it is set'), (used, 'used', 'the limit is compared with the memory which is used'), (fails, 'error', 'a write fails at the limit if that is wanted')):
        if not s.made(c):
            s.ob(False, n, m)
    waits = s.one(v.calls(*WAITS[:2]), 'waits', 'a write waits at the limit')
    s.only_if(waits, s.and_(full, s.not_(fails)), 'waits-if', 'a write waits only at the limit')
    for e in waits:
        s.ob(is_path(e.args[0], 'MemoryMgr.cond_var') and is_path(e.args[1], 'MemoryMgr.lock'), 'waits-for', 'it waits for a page', e.where())
        s.ob(bool(e.loops), 'again', 'the limit is examined again after waiting', e.where())
        for k in e.loops[-1:]:
            s.ob(v.equal(v.body(k), s.and_(full, s.not_(fails))), 'while', 'it waits while there is no free page and the limit is reached', e.where())
    maps = s.one(v.calls('vfs_mmap'), 'maps', 'a page is made')
    # a wait ends when there is a free page (see maps_last) or room for one
    waited = s.and_(full, s.not_(fails)) if waits else 0
    s.only_if(maps, s.and_(none, s.or_(s.not_(s.and_(limit, used)), waited)), 'maps-if', 'a page is made only if there is no free one and the limit allows it')
    grow = v.stores_of('MemoryMgr', 'count')
    got = s.not_(s.test_eq(lambda x: is_call(x, 'vfs_mmap'), lambda x: x == ('i', 0)))
    more = [e for e in grow if all(e.order < m.order for m in maps)]
    less = [e for e in grow if e not in more]
    s.before(more, maps, 'counted', 'a page is counted before it is made')
    for e in more:
        s.ob(s.each(e.args[1], lambda x: delta(x, 'MemoryMgr.count') == 1), 'counted', 'a page is counted', e.where())
        s.ob(v.implies(e.cond, v.any(maps)), 'counted-made', 'only pages which are made are counted', e.where())
    for e in less:
        s.ob(s.each(e.args[1], lambda x: delta(x, 'MemoryMgr.count') in (0, -1)), 'uncounted', 'a page which could not be made is not counted', e.where())
    bad = s.and_(v.any(maps), s.not_(got))
    s.exactly(less, bad, 'uncounted', 'a page which could not be made is not counted')
    woken(s, less, 'MemoryMgr.cond_var')
    th = errors(s)
    s.must(bad, th, 'failed', 'a page which could not be made is an error')
    s.must(s.and_(full, fails), th, 'limit-error', 'a write fails at the limit')
    s.only_if(th, s.or_(bad, s.and_(full, fails)), 'errors', 'nothing else is an error')
    for e in maps:
        s.ob(lin(pl(e.args[1])).get((), 0) == prog.structs['Page']['size'] and has_path(e.args[1], 'MemoryMgr.page_size'), 'size', 'a page has the size of the setting', e.where())
    for c, x in gates(v.ret):
        x = pl(x)
        s.ob(is_path(x, 'MemoryMgr.free_list') or is_call(x, 'vfs_mmap'), 'returns', 'a free page or a new one is returned')
        if is_path(x, 'MemoryMgr.free_list'):
            s.ob(v.implies(c, s.not_(none)), 'returns-free', 'a free page is returned only if there is one')
            head = [e for e in v.stores_of('MemoryMgr', 'free_list') if all(is_path(y, 'Page.next') and is_path(pl(y)[1][1], 'MemoryMgr.free_list') for d, y in gates(e.args[1]))]
            n = [e for e in v.stores_of('MemoryMgr', 'free_list_count') if all(delta(y, 'MemoryMgr.free_list_count') == -1 for d, y in gates(e.args[1]))]
            s.must(c, head, 'taken', 'a page which is returned is not free any more')
            s.must(c, n, 'taken-count', 'and not counted as free')
            s.only_if(head, s.not_(none), 'taken-if', 'a page is taken if there is one')
            s.only_if(n, s.not_(none), 'taken-if', 'a page is taken if there is one')
            s.once(head, 'taken-once', 'once')
            s.once(n, 'taken-once', 'once')
        for f in ('used', 'next'):
            z = [e for e in v.stores_of('Page', f) if all(pl(y) == ('i', 0) for d, y in gates(e.args[1])) and pl(strip(e.args[0])[1]) == x]
            s.must(c, z, 'empty:' + f, 'the page is empty')
    s.ob(len(v.stores_of('MemoryMgr', 'free_list')) == len([e for e in v.stores_of('MemoryMgr', 'free_list') if all(is_path(y, 'Page.next') for d, y in gates(e.args[1]))]), 'list', 'the other free pages stay')
    locked(s, [e for e in v.events if e.kind == 'store' and e.name[0] == 'MemoryMgr'] + waits + v.calls('cond_var_broadcast'))
    # what is waited for holds after waiting
    released(s, s.not_(s.and_(full, s.not_(fails))))

    s = Spec(prog, res, 'memory_mgr_push', interest=ops, opaque=ops, stores=MEM)
    v = s.v
    keep = v.stores_of('MemoryMgr', 'free_list')
    drop = v.stores_of('MemoryMgr', 'count')
    s.one(keep, 'keeps', 'pages are kept for the next user')
    s.one(drop, 'drops', 'pages which are given back are not counted')
    kc, dc = v.any(keep), v.any(drop)
    s.ob(v.equal(kc, s.not_(dc)), 'either', 'pages are either kept or given back to the system')
    room = s.rel('lt', lambda x: has_path(x, 'MemoryMgr.free_list_count') and has_path(x, 'MemoryMgr.page_size'), lambda x: is_path(x, 'MemoryMgr.cache'))
    s.ob(s.made(room) and v.equal(kc, room), 'cache', 'pages are kept as long as the cache is not full')
    for e in keep:
        s.ob(s.each(e.args[1], lambda x: pl(x) == ('a', 1)), 'keeps-first', 'the first page is the first free one', e.where())
    nx = [e for e in v.stores_of('Page', 'next') if pl(strip(e.args[0])[1]) == ('a', 2) and all(is_path(x, 'MemoryMgr.free_list') for c, x in gates(e.args[1]))]
    s.exactly(nx, kc, 'keeps-last', 'the free pages follow the last page')
    for e in nx:
        s.ob(all(e.order < k.order for k in keep), 'keeps-order', 'the free pages follow the last page', e.where())
    fc = v.stores_of('MemoryMgr', 'free_list_count')
    s.exactly(fc, kc, 'free-count', 'kept pages are counted as free')
    for e in fc + drop:
        path, sign = ('MemoryMgr.free_list_count', 1) if e in fc else ('MemoryMgr.count', -1)

        def by(x):
            d = lin(pl(x))
            return d.get(('a', 3)) == sign and len(d) == 2 and any(is_path(t, path) and d[t] == 1 for t in d if t != ())
        s.ob(s.each(e.args[1], by), 'count', 'as many pages as are given', e.where())
    woken(s, keep + drop, 'MemoryMgr.cond_var')
    unmapped(s, s.not_(kc), ('a', 1))
    locked(s, [e for e in v.events if e.kind == 'store' and e.name[0] == 'MemoryMgr'] + nx + v.calls('cond_var_broadcast'))
    released(s)

    s = Spec(prog, res, 'memory_mgr_reset', interest=ops, opaque=ops, stores=MEM)
    v = s.v
    for f, pred in (('free_list', lambda x: pl(x) == ('i', 0)), ('free_list_count', lambda x: pl(x) == ('i', 0)),
                    ('count', lambda x: {t[1][2:]: c for t, c in lin(pl(x)).items() if t and t[0] == 'ld' and t[1][0] == 'fld'} == {('MemoryMgr', 'count'): 1, ('MemoryMgr', 'free_list_count'): -1})):
        e = v.stores_of('MemoryMgr', f)
        s.must(1, s.one(e, f, 'free pages are given back'), f, 'free pages are given back')
        for x in e:
            s.ob(s.each(x.args[1], pred), f, 'exactly the free pages are given back', x.where())
    unmapped(s, 1, 'free')
    locked(s, [e for e in v.events if e.kind == 'store'])
    released(s)


def released(s, cond=1):
    """the lock of the memory manager is free at the end"""
    v = s.v
    ops = [(e, e.name == 'mutex_lock') for e in v.calls('mutex_lock', 'mutex_unlock') if is_path(e.args[0], 'MemoryMgr.lock')]
    held = 0
    for o, take in sorted(ops, key=lambda x: x[0].order):
        if take:
            s.ob(not v.possible(s.and_(held, o.cond)), 'lock-once', 'the lock is taken once', o.where())
            held = s.or_(held, o.cond)
        else:
            s.ob(v.implies(o.cond, held), 'lock-held', 'the lock is released once', o.where())
            held = s.and_(held, s.not_(o.cond))
    s.ob(not v.possible(s.and_(held, cond)), 'lock-released', 'the lock is released')


def unmapped(s, cond, first):
    """every page of the list is given back, its successor being read before"""
    v = s.v
    un = s.one(v.calls('vfs_munmap'), 'unmaps', 'pages are given back to the system')
    for e in un:
        s.ob(len(e.loops) == 1 and v.single_exit(e.loops[-1]), 'unmaps-all', 'all pages are given back', e.where())
        x = pl(e.args[0])
        s.ob(lin(pl(e.args[1])).get((), 0) == s.prog.structs['Page']['size'] and has_path(e.args[1], 'MemoryMgr.page_size'), 'unmaps-size', 'as a whole', e.where())
        if x[0] != 'phi':
            s.ob(False, 'unmaps-all', 'all pages are given back', e.where())
            continue
        step = v.phi(x)[1]
        some = 0
        for c, i in v.phi_steps(x, first=True):
            i = pl(i)
            if i == ('i', 0):
                continue
            s.ob(i == first or first == 'free' and is_path(i, 'MemoryMgr.free_list'), 'unmaps-first', 'from the first one on', e.where())
            s.ob(v.implies(c, cond), 'unmaps-if', 'pages which are kept are not given back to the system', e.where())
            some = s.or_(some, c)
        s.ob(v.implies(cond, some), 'unmaps-must', 'pages which are not kept are given back to the system', e.where())
        s.ob(all(is_path(y, 'Page.next') and pl(y)[1][1] == x for y in step), 'unmaps-next', 'one after the other', e.where())
        key = e.loops[-1]
        s.ob(v.implies(v.body(key), s.not_(v.eq(x, ('i', 0)))), 'unmaps-end', 'to the last one', e.where())
    for e in un:
        w = [o for o in v.calls('mutex_unlock')]
        s.ob(all(o.order < e.order for o in w[:1]) or first == 'free', 'unmaps-late', 'when they are not in the list any more', e.where())


def heap(prog, res):
    """what is allocated overlaps nothing and goes back as a whole"""
    st = [('Heap', f) for f in ('list', 'list_tail', 'list_count')] + [('Page', 'used'), ('Page', 'next')]
    ops = ['memory_mgr_pop', 'memory_mgr_push']
    s = Spec(prog, res, 'heap_allocate', interest=ops + ['atomic_u32_inc'], opaque=ops + ['atomic_u32_inc'], stores=st, throws=True)
    v = s.v
    big = s.rel('gt', lambda x: x == ('a', 1), lambda x: is_path(x, 'MemoryMgr.page_size'))
    th = errors(s)
    s.ob(s.made(big), 'size', 'an allocation which does not fit into a page is an error')
    s.exactly(th, big, 'size', 'an allocation which does not fit into a page is an error')
    empty = s.test_eq(lambda x: is_path(x, 'Heap.list'), lambda x: x == ('i', 0))
    room = s.lrel('ge', [(lambda x: is_path(x, 'MemoryMgr.page_size'), 1), (lambda x: is_path(x, 'Heap.list_tail', 'Page.used'), -1), (('a', 1), -1)])
    if not s.made(room):
        room = s.rel('ge', lambda x: has_path(x, 'MemoryMgr.page_size') and has_path(x, 'Page.used'), lambda x: x == ('a', 1))
    s.ob(s.made(room) and s.made(empty), 'room', 'a page is used as long as there is room')
    new = v.calls('memory_mgr_pop')
    s.exactly(new, s.and_(s.not_(big), s.or_(empty, s.not_(room))), 'new', 'a new page is taken if there is no room')
    first = v.stores_of('Heap', 'list')
    s.exactly(first, s.and_(s.not_(big), empty), 'first', 'the first page starts the list')
    link = v.stores_of('Page', 'next')
    s.exactly(link, s.and_(s.not_(big), s.not_(empty), s.not_(room)), 'link', 'further pages follow the last one')
    for e in link:
        s.ob(is_path(strip(e.args[0])[1], 'Heap.list_tail'), 'link-last', 'further pages follow the last one', e.where())
    tail = v.stores_of('Heap', 'list_tail')
    s.exactly(tail, v.any(new), 'tail', 'the new page is the last one')
    for e in first + link + tail:
        s.ob(s.each(e.args[1], lambda x: is_call(x, 'memory_mgr_pop')), 'page', 'the new page is added', e.where())
    for a in link:
        for b in tail:
            s.ob(a.order < b.order, 'order', 'further pages follow the page which was the last one', a.where())
    inc = v.calls('atomic_u32_inc')
    s.exactly(inc, v.any(new), 'count', 'the new page is counted')
    s.once(inc, 'count-once', 'once')
    u = v.stores_of('Page', 'used')
    s.exactly(u, s.not_(big), 'used', 'what is allocated is used')

    def at(x):
        """the page a value belongs to"""
        for y in walk(x):
            if y[0] == 'fld' and y[2] == 'Page':
                return pl(y[1])
        return None
    for e in u:
        pg = [pl(y) for c, y in gates(strip(e.args[0])[1])]
        s.ob(all(is_call(y, 'memory_mgr_pop') or is_path(y, 'Heap.list_tail') for y in pg), 'used-page', 'of the page', e.where())
        for c, x in gates(e.args[1]):
            d = lin(pl(x))
            s.ob(any('used' in str(t) and n == 1 for t, n in d.items()) and d.get(('a', 1)) == 1 and not d.get((), 0) and all(t == ('a', 1) or has_path(t, 'Page.used') or 'memory_mgr_pop' in str(t) for t in d), 'used-by', 'as much as was asked for', e.where())
    s.ob(bool(v.ret), 'returns', 'the memory is returned')
    for c, x in gates(v.ret):
        d = lin(pl(x))
        s.ob(any(has_path(t, 'Page.data') or 'Page' in str(t) for t in d) and ('a', 1) not in d, 'returns', 'after what was used before')
        s.ob(any('used' in str(t) for t in d), 'returns-after', 'after what was used before')

    s = Spec(prog, res, 'heap_reset', interest=ops, opaque=ops, stores=st, expand=[])
    v = s.v
    cnt = s.positive(lambda x: has_path(x, 'Heap.list_count'))
    push = v.calls('memory_mgr_push')
    s.exactly(push, cnt, 'given', 'all pages are given back')
    for e in push:
        a = e.args
        s.ob(is_path(a[0], 'Heap.memory_mgr') and is_path(a[1], 'Heap.list') and is_path(a[2], 'Heap.list_tail') and has_path(a[3], 'Heap.list_count'), 'given-all', 'from the first to the last one', e.where())
    for f in ('list', 'list_tail'):
        e = v.stores_of('Heap', f)
        s.must(1, s.one(e, f, 'nothing is left'), f, 'nothing is left')
        for x in e:
            s.ob(s.each(x.args[1], lambda y: pl(y) == ('i', 0)), f, 'nothing is left', x.where())
            s.ob(all(x.order > p.order for p in push), f + '-after', 'after that', x.where())
    z = v.stores_of('Heap', 'list_count')
    s.must(1, s.one(z, 'zero', 'no page is counted'), 'zero', 'no page is counted')


def leaves(f, o, inside, seen):
    """loads outside of a loop which a value inside of it depends on"""
    out = []
    if o[0] != 'v' or o[1] in seen:
        return out
    seen.add(o[1])
    i = f.insts[o[1]]
    if i.op == 'load':
        return [] if i.block in inside else [i]
    if i.op == 'call':
        return []
    for x in i.o or ():
        out += leaves(f, x, inside, seen)
    return out


def settled(prog):
    """fields which are only set when the object is made or opened"""
    out = {}
    for f in prog.functions.values():
        for i in f.all('store'):
            a = strip(f.expr(i.o[1]))
            if a[0] == 'fld':
                out.setdefault(a[2:], set()).add(f.name)
    return {k for k, fs in out.items() if all(n.endswith(('_init', '_set', '_create', '_allocate', '_free')) for n in fs)}


def rechecks(prog, res):
    """what is waited for is read again after waiting"""
    from locks import natural_loops
    fixed = settled(prog)
    sites = [i for n in WAITS[:2] for i in prog.calls_of(n)]
    res.count('waits', len(sites))
    res.need('waits', 3)
    for i in sites:
        f = i.fn
        res.fn(f)
        loops = [body for h, body in natural_loops(f) if i.block in body]
        res.ob(bool(loops), 'loop:' + f.key, i.where(), '%s() does not examine again what it waits for' % f.name)
        if not loops:
            continue
        body = min(loops, key=len)
        exits = 0
        for b in body:
            t = f.blocks[b][-1]
            if all(x in body for x in t.succ or ()) or t.op not in ('br', 'switch'):
                continue
            exits += 1
            old = leaves(f, t.o[0], body, set())
            old = [l for l in old if not (lambda a: a[0] == 'fld' and a[2:] in fixed or a[0] == 'fld' and (a[2], a[3]) in fixed)(strip(f.expr(l.o[0])))]
            res.ob(not old, 'read:%s' % f.key, t.where(), '%s() waits until a value changes which it read before it waited' % f.name)
        res.ob(exits > 0, 'exit:' + f.key, i.where(), '%s() waits forever' % f.name)


def maps_last(prog, res):
    """a page is made only after seeing, after the last wait, that there is no free one"""
    for i in prog.calls_of('vfs_mmap'):
        f = i.fn
        if f.name != 'memory_mgr_pop':
            continue
        state = {0: {'unknown'}}
        work = [0]
        at = set()
        while work:
            b = work.pop()
            q = set(state[b])
            for x in f.blocks[b]:
                if x.op == 'call' and x.callee[0] == 'f' and x.callee[1] in WAITS[:2]:
                    q = {'unknown'}
                if x is i:
                    at |= q
            t = f.blocks[b][-1]
            test = None
            if t.op == 'br' and t.o and len(set(t.succ)) == 2:
                e, neg = f.expr(t.o[0]), False
                while e[0] == 'not':
                    e, neg = e[1], not neg
                if e[0] == 'cmp' and e[1] in ('eq', 'ne') and is_path(e[2], 'MemoryMgr.free_list') and strip(e[3]) in (('i', 0), ('null',)):
                    test = (e[1] == 'eq') != neg
            for n, sx in enumerate(t.succ or ()):
                r = q
                if test is not None:
                    r = {'none' if (n == 0) == test else 'some'}
                if not r <= state.get(sx, set()):
                    state.setdefault(sx, set()).update(r)
                    work.append(sx)
        res.count('maps')
        res.ob(at == {'none'}, 'maps', i.where(), 'memory_mgr_pop() makes a page though there may be a free one')
    res.need('maps', 1)


@rule('L04')
def l04(prog, res):
    parts(prog, res, lockage, pages, heap, rechecks, maps_last, basic.cache)
