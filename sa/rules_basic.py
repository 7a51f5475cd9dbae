"""Small functions which much else is built on: settings, lookups, buffers of log records, checksums."""
from ir import Broken, walk
from cond import gates, show
from spec import Spec, strip, plain, is_path, is_call, origin, lin, list_loop


def setting(x, name):
    x = strip(x)
    return is_path(x, 'Config.' + name) and x[0] == 'ld' or is_call(x, 'config_' + name)


def accessors(*names):
    """what a setting is read and written as is the setting itself"""
    def f(prog, res):
        for n in names:
            for op in ('', '_set', '_next', '_follow'):
                fn = 'config_%s%s' % (n, op)
                if not prog.has(fn):
                    continue
                s = Spec(prog, res, fn, stores=[('Var', '')])
                v = s.v
                st = v.stores_of('Var', '')
                for e in st:
                    s.ob(is_path(e.args[0], 'Config.' + n), 'which', 'it is %s which changes' % n, e.where(), show(e.args[0], v))
                cur = lambda x: setting(x, n)
                if op == '':
                    s.ob(not st, 'read', 'reading does not change it')
                if op in ('', '_next'):
                    for c, x in gates(v.ret):
                        d = lin(x)
                        s.ob(len([t for t in d if t]) == 1 and all(cur(t) and d[t] == 1 for t in d if t) and d.get((), 0) in ((0,) if op == '' else (0, 1)),
                             'value', 'the value of %s is returned' % n, None, show(x, v))
                if op == '_set':
                    s.must(1, st, 'set', 'it is set')
                    for c, x in s.final(st):
                        s.ob(x == ('a', 0), 'set', 'it is set to the value given', None, show(x, v))
                if op == '_next':
                    s.must(1, st, 'next', 'it is counted up')
                    s.once(st, 'next', 'it is counted up')
                    for e in st:
                        d = lin(e.args[1])
                        s.ob(d.get(()) == 1 and len(d) == 2 and all(cur(t) and d[t] == 1 for t in d if t), 'next', 'it is counted up', e.where(), show(e.args[1], v))
                if op == '_follow':
                    more = s.rel('ult', cur, ('a', 0).__eq__)
                    s.exactly(st, more, 'follow', 'it follows the values given, and never goes back')
                    for c, x in s.final(st):
                        s.ob(x == ('a', 0), 'follow', 'it follows the values given', None, show(x, v))
    f.__name__ = 'accessors_' + '_'.join(names)
    return f


def interval_of(prog, res):
    """the first id of the interval an id lies in"""
    s = Spec(prog, res, 'config_interval_of')
    v = s.v
    a = ('a', 0)

    def iv(x):
        return setting(x, 'interval')

    def form(x):
        if x[0] == 'bin' and x[1] == 'sub' and x[2] == a:
            m = x[3]
            return m[0] == 'bin' and m[1] == 'urem' and m[2] == a and iv(m[3])
        if x[0] == 'bin' and x[1] == 'mul':
            for p, q in ((x[2], x[3]), (x[3], x[2])):
                if iv(q) and p[0] == 'bin' and p[1] == 'udiv' and p[2] == a and iv(p[3]):
                    return True
        return False
    for c, x in gates(v.ret):
        s.ob(form(x), 'interval', 'an id belongs to the interval which begins at or below it', None, show(x, v))


def by_id(prog, res, fn, arg):
    """a partition is found by its first id among all of a list"""
    s = Spec(prog, res, fn, interest=['storage_find'])
    v = s.v
    if v.calls('storage_find'):
        return s, through(s, arg)
    hit = s.test_eq(lambda x: is_path(x, 'Id.min'), ('a', arg).__eq__)
    s.ob(s.made(hit), 'id', 'partitions are compared by their first id')
    walks = {}
    for k in v.loops:
        lp = list_loop(v, k)
        if lp:
            walks[lp[0]] = (k, lp)
    parts = [w for w in walks.values() if plain(w[1][1])[0] == 'fld' and plain(w[1][1])[2:4] == ('Storage', 'list')]
    if not s.one(parts, 'walk', 'every partition is looked at'):
        return s, walks
    k, lp = parts[0]
    for c, x in v.phi_steps(lp[0]):
        s.ob(not v.possible(s.and_(c, hit)), 'hit', 'the search ends at the partition', None, v.show(c))
    for e in v.rets():
        for c, x in gates(e.args[0]):
            c = s.and_(c, e.cond)
            x = strip(x)
            if x == ('i', 0):
                continue
            s.ob(any(y == lp[0] for y in walk(x)) and v.implies(c, hit), 'found', 'the partition which begins at the id is returned', e.where(), v.show(c))
    nothing = s.or_(*[s.and_(c, e.cond) for e in v.rets() for c, x in gates(e.args[0]) if strip(x) == ('i', 0)] or [0])
    outer = [w for w in walks.values() if plain(w[1][1])[0] == 'fld' and plain(w[1][1])[2:4] == ('StorageMgr', 'list')]
    top = outer[0] if outer else parts[0]
    ends = s.test_eq(top[1][0].__eq__, lambda x: plain(x) == plain(top[1][1]))
    s.ob(v.implies(nothing, ends), 'all', 'nothing is found only after every one has been looked at', None, v.show(nothing))
    return s, (k, lp, top)


def through(s, arg):
    """every storage is searched by storage_find()"""
    v = s.v
    top = None
    for k in v.loops:
        lp = list_loop(v, k)
        if lp and plain(lp[1])[0] == 'fld' and plain(lp[1])[2:4] == ('StorageMgr', 'list'):
            top = (k, lp)
    fs = s.one(v.calls('storage_find'), 'walk', 'every partition is looked at')
    if not fs or not s.ob(top is not None, 'walk', 'every storage is looked at'):
        return None
    f = fs[0]
    s.ob(any(y == top[1][0] for y in walk(f.args[0])) and strip(f.args[1]) == ('a', arg), 'id', 'partitions are compared by their first id', f.where())
    hit = s.not_(v.eq(f.value, ('i', 0)))
    for c, x in v.phi_steps(top[1][0]):
        s.ob(not v.possible(s.and_(c, s.and_(f.cond, hit))), 'hit', 'the search ends at the partition', None, v.show(c))
    for e in v.rets():
        for c, x in gates(e.args[0]):
            c = s.and_(c, e.cond)
            if strip(x) == ('i', 0):
                s.ob(not v.possible(s.and_(c, s.and_(f.cond, hit))), 'all', 'nothing is found only after every one has been looked at')
            else:
                s.ob(strip(x) == strip(f.value) and v.implies(c, s.or_(hit, 0)), 'found', 'the partition which begins at the id is returned', e.where())
    skip = s.test_eq(lambda x: any(y == top[1][0] for y in walk(x)) and not is_path(x, 'List.next'), ('a', 1).__eq__)
    s.ob(s.made(skip), 'exclude', 'the storage to leave out is left out')
    s.ob(not v.possible(s.and_(f.cond, skip)), 'exclude', 'the storage to leave out is left out', f.where())
    s.ob(v.implies(s.and_(v.body(top[0]), s.not_(skip)), f.cond), 'others', 'every other storage is searched', f.where(), v.show(f.cond))
    return None


def by_ids(prog, res):
    by_id(prog, res, 'storage_find', 1)
    s, w = by_id(prog, res, 'storage_mgr_find_part', 2)
    v = s.v
    if isinstance(w, tuple):
        k, lp, top = w
        skip = s.test_eq(lambda x: any(y == top[1][0] for y in walk(x)) and not is_path(x, 'List.next'), ('a', 1).__eq__)
        s.ob(s.made(skip), 'exclude', 'the storage to leave out is left out')
        reach = s.and_(v.body(top[0]), v.entry(k))
        s.ob(not v.possible(s.and_(reach, skip)), 'exclude', 'the storage to leave out is left out', None, v.show(reach))
        s.ob(v.implies(s.and_(v.body(top[0]), s.not_(skip)), v.entry(k)), 'others', 'every other storage is searched', None, v.show(v.entry(k)))


def log_buffers(prog, res):
    """the records of a batch are kept and written as they were added"""
    s = Spec(prog, res, 'iov_add', interest=['buf_reserve', 'buf_advance'], opaque=['buf_reserve', 'buf_advance'],
             stores=[('iovec', 'iov_base'), ('iovec', 'iov_len'), ('Iov', 'iov_count'), ('Iov', 'size')])
    v = s.v
    rs, ad = v.calls('buf_reserve'), v.calls('buf_advance')
    ba, le, cn, sz = [v.stores_of(*x) for x in (('iovec', 'iov_base'), ('iovec', 'iov_len'), ('Iov', 'iov_count'), ('Iov', 'size'))]
    element(s, rs, ad, ba + le, 'Iov.iov', 'iovec')
    for evs, val, key in ((ba, ('a', 1), 'base'), (le, ('a', 2), 'len')):
        s.must(1, evs, key, 'the bytes given are added')
        for c, x in s.final(evs):
            s.ob(strip(x) == val, key, 'the bytes given are added', None, show(x, v))
    counted(s, cn, 'Iov.iov_count', {(): 1}, 'count')
    s.must(1, sz, 'size', 'the size is added')
    for e in sz:
        d = lin(e.args[1])
        s.ob(d.get((), 0) == 0 and len([t for t in d if t]) == 2 and all(d[t] == 1 and (strip(t) == ('a', 2) or is_path(t, 'Iov.size')) for t in d if t), 'size',
             'the size is added', e.where(), show(e.args[1], v))

    s = Spec(prog, res, 'log_add', interest=['buf_reserve', 'buf_advance', 'llvm.memset', 'llvm.memcpy'], opaque=['buf_reserve', 'buf_advance'],
             stores=[('LogOp', 'event'), ('LogOp', 'prev'), ('LogOp', 'ref'), ('LogWrite', 'count')])
    v = s.v
    rs, ad = v.calls('buf_reserve'), v.calls('buf_advance')
    fs = []
    # cleared as a whole, or a cleared local copied as a whole
    whole = strip(ad[0].args[1]) if ad else None
    zero = [e for e in v.calls('llvm.memset') if strip(e.args[1]) == ('i', 0) and strip(e.args[2]) == whole]
    clear = [e for e in zero if is_path(e.args[0], 'Log.op', 'Buf.position')]
    clear += [e for e in v.calls('llvm.memcpy') if is_path(e.args[0], 'Log.op', 'Buf.position') and strip(e.args[2]) == whole and any(
        strip(z.args[0]) == strip(e.args[1]) and z.order < e.order for z in zero)]
    for f in ('event', 'prev', 'ref'):
        st = v.stores_of('LogOp', f)
        fs += st
        s.must(1, st + clear, f, 'a new entry is empty')
        s.ob(all(c.order < e.order for c in clear for e in st), f, 'a new entry is empty')
        for c, x in s.final(st):
            s.ob(strip(x) == ('i', 0), f, 'a new entry is empty', None, show(x, v))
    element(s, rs, ad, fs, 'Log.op', 'LogOp')
    counted(s, v.stores_of('LogWrite', 'count'), 'LogWrite.count', {(): 1}, 'count')
    one = strip(ad[0].args[1]) if ad else None
    for c, x in gates(v.ret):
        s.ob(is_path(x, 'Log.op', 'Buf.position'), 'returned', 'the new entry is returned', None, show(x, v))

    s = Spec(prog, res, 'log_pushback', interest=['buf_truncate'], opaque=['buf_truncate'], stores=[('LogWrite', 'count')])
    v = s.v
    counted(s, v.stores_of('LogWrite', 'count'), 'LogWrite.count', {(): -1}, 'count')
    tr = s.one(v.calls('buf_truncate'), 'truncate', 'the last entry is removed')
    s.must(1, tr, 'truncate', 'the last entry is removed')
    for e in tr:
        s.ob(is_path(e.args[0], 'Log.op') and strip(e.args[1]) == one, 'truncate',
             'the last entry is removed', e.where(), show(e.args[1], v))


def counted(s, st, path, delta, key):
    v = s.v
    s.must(1, st, key, 'entries are counted')
    s.once(st, key, 'entries are counted once')
    for e in st:
        d = lin(e.args[1])
        s.ob(is_path(e.args[0], path) and d.get(()) == delta[()] and len(d) == 2 and all(is_path(t, path) and d[t] == 1 for t in d if t), key,
             'entries are counted', e.where(), show(e.args[1], v))


def element(s, rs, ad, stores, buf, S):
    """room is made for an element, it is written at the end, and the end moves behind it"""
    v = s.v
    s.must(1, rs, 'room', 'room is made')
    s.must(1, ad, 'advance', 'the end moves behind the element')
    for e in rs + ad:
        s.ob(is_path(e.args[0], buf), 'buf', 'it is the list of elements', e.where(), show(e.args[0], v))
    s.ob(len({strip(e.args[1]) for e in rs + ad}) == 1 and strip(rs[0].args[1])[0] == 'i' if rs and ad else False, 'step', 'the end moves by one element')
    s.once(ad, 'advance', 'once')
    for e in stores:
        s.ob(is_path(e.args[0][1], buf, 'Buf.position') and all(r.order < e.order for r in rs) and all(v.loaded_before(strip(e.args[0][1]), a) for a in ad), 'place',
             'the element is written behind the last one', e.where(), show(e.args[0], v))


def cache(prog, res):
    """free objects are counted as they come and go"""
    for fn, op, k in (('cache_pop', 'list_pop', -1), ('cache_push', 'list_append', 1)):
        s = Spec(prog, res, fn, interest=[op], opaque=[op], stores=[('Cache', 'list_count')])
        v = s.v
        ps = s.one(v.calls(op), 'list', 'objects are kept in a list')
        st = v.stores_of('Cache', 'list_count')
        for e in ps:
            s.ob(is_path(e.args[0], 'Cache.list') and (k < 0 or strip(e.args[1]) == ('a', 1)), 'list', 'objects are kept in a list', e.where())
            s.exactly(st, e.cond, 'count', 'objects are counted')
        s.once(st, 'count', 'objects are counted')
        for e in st:
            d = lin(e.args[1])
            s.ob(d.get(()) == k and len(d) == 2 and all(is_path(t, 'Cache.list_count') and d[t] == 1 for t in d if t), 'count', 'objects are counted', e.where(), show(e.args[1], v))
        if k > 0:
            s.must(1, ps, 'list', 'the object is kept')
            continue
        cnt = lambda x: is_path(x, 'Cache.list_count')
        some = s.positive(cnt)
        s.exactly(ps, some, 'some', 'an object is taken if there is one')
        for c, x in gates(v.ret):
            x = strip(x)
            if x == ('i', 0):
                s.ob(not v.possible(s.and_(c, some)), 'none', 'nothing is returned only if there is none')
            else:
                s.ob(is_call(x, op), 'taken', 'the object taken is returned')


def terminal(prog, res):
    """a tier without any limit is the last one"""
    s = Spec(prog, res, 'tier_config_terminal')
    v, b = s.v, s.b
    ret = 0
    for c, x in gates(v.ret):
        x = strip(x)
        ret = b.or_(ret, b.and_(c, x[1] if x[0] == 'bdd' else s.not_(v.eq(x, ('i', 0)))))
    all_ = []
    for f in ('partitions', 'size', 'events', 'duration'):
        ts = s.terms(lambda x: is_path(x, 'TierConfig.' + f))
        all_ += [v.eq(t, ('i', -1)) for t in ts] or [s.fresh()]
    s.ob(v.equal(ret, s.and_(*all_)), 'limits', 'a tier is terminal if it has no limit at all', None, v.show(ret))


def checksum(prog, res):
    """the checksum is that of all bytes, and goes on from the one given"""
    s = Spec(prog, res, 'crc32', interest=['crc32_sw', 'crc32_hw'], opaque=['crc32_sw', 'crc32_hw', 'crc32_hw_enabled'])
    v = s.v
    cs = [e for n in ('crc32_sw', 'crc32_hw') for e in v.events if e.kind == 'call' and isinstance(e.name, str) and e.name.split('@')[0] == n]
    s.must(1, cs, 'sum', 'the checksum is computed')
    for e in cs:
        s.ob([plain(a) for a in e.args] == [('a', 0), ('a', 1), ('a', 2)], 'all', 'of all bytes given', e.where(), str(e.args))
    for c, x in gates(v.ret):
        s.ob(is_call(x, 'crc32_sw', 'crc32_hw'), 'value', 'and returned')


def counter(v, key):
    """how often a counted loop goes round, or None"""
    F = v.frameobj[key[0]]
    for i in F.fn.blocks[key[1]]:
        if i.op != 'phi':
            continue
        ph = ('phi', i.id, key[0])
        init, _ = v.phi(ph)
        step = v.phi_steps(ph)
        if len(init) != 1 or not step:
            continue
        ds = [lin(x) for _, x in step]
        if any({t for t in d if t} != {ph} or d[ph] != 1 for d in ds) or len({d.get(()) for d in ds}) != 1:
            continue
        d = ds[0].get(())
        if d == -1 and v.equal(v.body(key), v.b.not_(v.eq(ph, ('i', 0)))):
            return strip(init[0])
        if d == 1 and strip(init[0]) == ('i', 0):
            for a in list(v.b.vars):
                if a[0] in ('eq', 'lt'):
                    for x in a[1:] if a[0] == 'eq' else a[2:]:
                        if isinstance(x, tuple) and strip(x) != ph and x and x[0] != 'i':
                            for op in ('ult', 'slt', 'ne'):
                                c = v.b.not_(v.eq(ph, x)) if op == 'ne' else v.cmp(op, ph, x)
                                if v.equal(v.body(key), c):
                                    return strip(x)
    return None


def words(prog, res):
    """the checksum made by the processor covers every byte once"""
    for fn in ('crc32_hw', 'crc32_hw_byte'):
        if not prog.has(fn):
            continue
        s = Spec(prog, res, fn, interest=['crc32_hw_byte'], opaque=['crc32_hw_byte'])
        v = s.v
        asm = [e for e in v.events if e.kind == 'call' and e.name == ('*', '?') and e.loops]
        if not s.one(asm, 'step', 'the checksum is made step by step'):
            continue
        e = asm[0]
        key = e.loops[-1]
        width = 8 if fn == 'crc32_hw' else 1
        n = counter(v, key)
        whole = n is not None and (n == ('a', 2) if width == 1 else n[0] == 'bin' and n[1] == 'udiv' and strip(n[2]) == ('a', 2) and n[3] == ('i', 8))
        s.ob(whole, 'all', 'every %s is covered' % ('byte' if width == 1 else 'whole word'), e.where(), n and show(n, v))
        s.ob(v.implies(v.body(key), e.cond), 'each', 'each is covered', e.where())
        crc, at = e.args[0], strip(e.args[1])
        s.ob(crc[0] == 'phi' and v.phi(crc)[0] == [('a', 0)] and [strip(x) for _, x in v.phi_steps(crc)] != [], 'on', 'the checksum given is gone on with', e.where())
        ptr = strip(at[1]) if at[0] == 'ld' else at
        ok = ptr[0] == 'phi' and [strip(x) for x in v.phi(ptr)[0]] == [('a', 1)]
        if ok:
            for c, x in v.phi_steps(ptr):
                x = strip(x)
                ok = ok and x[0] == 'idx' and x[1] == ptr and x[2] == ('i', 1)
        s.ob(ok, 'next', 'one after the other', e.where(), show(at, v))
        if width == 8:
            rest = [c for c in v.events if c.kind == 'call' and isinstance(c.name, str) and c.name.split('@')[0] == 'crc32_hw_byte']
            isrem = lambda x: strip(x)[0] == 'bin' and strip(x)[1] == 'urem' and strip(strip(x)[2]) == ('a', 2) and strip(x)[3] == ('i', 8)
            s.must(s.positive(isrem) if s.terms(isrem) else 1, rest, 'rest', 'and the bytes which are left')
            for c in rest:
                s.ob(c.args[0] == crc and strip(c.args[1]) == ptr and isrem(c.args[2]), 'rest', 'and the bytes which are left', c.where(), str(c.args))
            for c, x in gates(v.ret):
                s.ob(is_call(x, 'crc32_hw_byte') or x == crc, 'value', 'the checksum is returned')
        else:
            for c, x in gates(v.ret):
                s.ob(x == crc, 'value', 'the checksum is returned')


PRIMITIVES = [
    ('mutex_lock', 'pthread_mutex_lock', ['Mutex.lock']),
    ('mutex_unlock', 'pthread_mutex_unlock', ['Mutex.lock']),
    ('spinlock_lock', 'pthread_spin_lock', ['Spinlock.lock']),
    ('spinlock_unlock', 'pthread_spin_unlock', ['Spinlock.lock']),
    ('cond_var_signal', 'pthread_cond_signal', ['CondVar.var']),
    ('cond_var_broadcast', 'pthread_cond_broadcast', ['CondVar.var']),
    ('cond_var_wait', 'pthread_cond_wait', ['CondVar.var', 'Mutex.lock']),
    ('rwlock_rdlock', 'pthread_rwlock_rdlock', ['Rwlock.lock']),
    ('rwlock_wrlock', 'pthread_rwlock_wrlock', ['Rwlock.lock']),
    ('rwlock_unlock', 'pthread_rwlock_unlock', ['Rwlock.lock']),
]
THREADS = sorted({p for _, p, _ in PRIMITIVES} | {
    'pthread_mutex_trylock', 'pthread_spin_trylock', 'pthread_cond_timedwait', 'pthread_rwlock_tryrdlock', 'pthread_rwlock_trywrlock'})


def primitives(prog, res):
    """what the analysis of locks takes as locking does lock, and what it takes as waking does wake"""
    for fn, op, paths in PRIMITIVES:
        if not prog.has(fn):
            continue
        s = Spec(prog, res, fn, interest=THREADS)
        v = s.v
        cs = [e for n in THREADS for e in v.calls(n)]
        s.must(1, cs, 'does', '%s is done' % op)
        s.once(cs, 'does', 'once')
        for e in cs:
            s.ob(e.name == op and not e.loops, 'does', '%s is done' % op, e.where(), e.name)
            for i, p in enumerate(paths):
                s.ob(i < len(e.args) and is_path(e.args[i], p) and any(x == ('a', i) for x in walk(e.args[i])), 'of', 'on the object given', e.where(), show(e.args[i], v))

    # the lock of the instance is shared or exclusive as asked for
    ops = ['pthread_rwlock_rdlock', 'pthread_rwlock_wrlock', 'pthread_rwlock_unlock']
    def instance(fn, shared):
        s = Spec(prog, res, fn, interest=THREADS)
        v = s.v
        rd, wr, un = [v.calls(n) for n in ops]
        rest = [e for n in THREADS if n not in ops for e in v.calls(n)]
        s.ob(not rest, 'only', 'nothing else is locked')
        for e in rd + wr + un:
            s.ob(is_path(e.args[0], 'Main.lock', 'Rwlock.lock') or fn == 'rwlock_lock' and is_path(e.args[0], 'Rwlock.lock'), 'which', 'it is the lock of the instance', e.where(), show(e.args[0], v))
        c = shared(s) if callable(shared) else shared
        if c is None:
            s.ob(not rd and not wr, 'unlock', 'it is only unlocked')
            s.must(1, un, 'unlock', 'it is unlocked')
            s.once(un, 'unlock', 'once')
            return
        s.ob(not un, 'lock', 'it is only locked')
        if c in (0, 1):
            s.ob(not (wr if c else rd), 'kind', 'it is shared or exclusive as asked for')
            s.must(1, rd if c else wr, 'kind', 'it is shared or exclusive as asked for')
        else:
            s.exactly(rd, c, 'shared', 'it is shared if asked for')
            s.exactly(wr, s.not_(c), 'exclusive', 'and exclusive otherwise')
        s.once(rd + wr, 'lock', 'once')
    asked = lambda s: s.not_(s.v.eq(('a', 1), ('i', 0)))
    instance('rwlock_lock', asked)
    instance('control_lock_shared', 1)
    instance('control_lock_exclusive', 0)
    instance('control_unlock', None)
