"""I05: a failed or partial system call is never taken for success."""
from cond import gates, plain
from ir import walk
from report import parts, rule
from rules_codec import norm
from rules_file import at_byte, done, errors, impls
from rules_read import same
from spec import Spec, is_call, is_path, ladd, lin, origin, strip

MINUS = ('i', -1)
# system and library calls, and the value by which they report a failure ('!0': any other than zero)
FAIL = {n: -1 for n in ('open', 'unlink', 'rename', 'mkdir', 'rmdir', 'flock', 'fdatasync', 'fsync', 'ftruncate', 'fstat', 'lstat', 'stat', 'lseek', 'sync_file_range')}
FAIL.update({'mmap': -1, 'mremap': -1, 'opendir': 0, 'pthread_create': '!0', 'curl_easy_init': 0, 'curl_easy_perform': '!0',
             'malloc': 0, 'realloc': 0, 'calloc': 0, 'ZSTD_createCCtx': 0, 'EVP_CIPHER_CTX_new': 0,
             'LZ4F_createCompressionContext': '!0', 'LZ4F_createDecompressionContext': '!0'})
LOOPS = ('vfs_read', 'vfs_pread', 'vfs_write', 'vfs_pwrite', 'vfs_writev', 'vfs_pwritev')
FAIL.update({n: -1 for n in LOOPS})
# where a failure has no effect on what is stored: closing and unlocking, messages, one of several seeds; a file which cannot be found does not exist
IGNORE = {('file_unlock', 'vfs_flock_unlock'), ('logger_write', 'vfs_write'), ('random_open', 'vfs_read'), ('random_open', 'vfs_open'), ('fs_exists', 'vfs_size')}

# functions of which a failure is one of several answers
TOLD = {'file_lock'}


def pointer(F):
    return str(F.ret if hasattr(F, 'ret') else '').startswith('ptr')


def failed(s, e, how):
    is_it = lambda x: same(x, e.value)
    if how == '!0':
        return s.not_(s.rel('eq', is_it, 0))
    if how == -1:
        c = s.rel('eq', is_it, lambda x: x == ('ce', 'inttoptr'))
        if s.made(c):
            return c
    return s.rel('eq', is_it, how)


def outcomes(s, x, cond):
    """the alternatives of a value, with truth values as 0 and 1"""
    v = s.v
    for g, y in gates(x):
        g = s.and_(g, cond)
        if not v.possible(g):
            continue
        y = strip(y)
        if y[0] == 'bdd':
            if v.possible(s.and_(g, y[1])):
                yield ('i', 1)
            if v.possible(s.and_(g, s.not_(y[1]))):
                yield ('i', 0)
        else:
            yield y


def checked(prog, res):
    fail = dict(FAIL)
    work = sorted(fail)
    everything = {k.split('@')[0] for k in prog.functions}
    sites = 0
    while work:
        fn = work.pop(0)
        how = fail[fn]
        for k in sorted({i.fn.key for key in list(prog.callers) if key.split('@')[0] == fn for i in prog.callers[key]} |
                        {i.fn.key for i in prog.callers.get(fn, ())}):
            K = prog.functions[k]
            name = k.split('@')[0]
            if name in LOOPS or (name, fn) in IGNORE:
                continue
            s = Spec(prog, res, K, interest=[fn], stores=[('File', 'size')], throws=True, opaque=everything)
            v = s.v
            evs = s.one(v.calls(fn), 'call-' + fn, 'a result is checked')
            thrown = s.or_(*[x.cond for x in errors(s)])
            conveys = set()
            for e in evs:
                sites += 1
                c = s.and_(s.and_(e.cond, failed(s, e, how)), s.not_(thrown))
                bad = []
                for r in v.rets():
                    if not v.possible(s.and_(r.cond, c)):
                        continue
                    if not r.args or r.args[0] is None:
                        bad.append(r)
                        continue
                    for x in outcomes(s, r.args[0], s.and_(r.cond, c)):
                        if same(x, e.value) and how != '!0':
                            conveys.add(how)
                        elif x[0] == 'i':
                            conveys.add(x[1])
                        else:
                            bad.append(r)
                s.ob(not bad, 'failed-' + fn, 'a failure of %s is not taken for success' % fn, e.where())
                c = s.and_(e.cond, failed(s, e, how))
                s.ob(not any(v.possible(s.and_(x.cond, c)) for x in v.stores_of('File', 'size') if x.order > e.order), 'size-' + fn,
                     'a failure of %s does not change the size of a file' % fn, e.where())
            if conveys and fn in ('vfs_read',) and name in impls(prog, 'S3Request', 'on_read'):
                s.ob(conveys == {0x10000000}, 'abort', 'an upload fails if the file cannot be read')
            if conveys:
                s.ob(len(conveys) == 1, 'result-' + fn, 'a failure is told from success', None, str(conveys))
                x = min(conveys)
                if name not in TOLD and prog.callers.get(k):
                    lost = s.or_(*[s.and_(e.cond, failed(s, e, how)) for e in evs])
                    ys = [y for r in v.rets() for y in outcomes(s, r.args[0], s.and_(r.cond, s.not_(lost)))]
                    s.ob(all(y != ('i', x) and (y[0] == 'i' or x == (0 if pointer(K) else -1)) for y in ys), 'told-' + fn,
                         'a failure is told from success', None, str(ys)[:200])
                if name not in fail:
                    fail[name] = x
                    work.append(name)
    res.count('checked calls', sites)
    return fail


def moved(s, e):
    """{loop variable: (first value, bytes per byte transferred)} of what moves with the result of a call in a loop"""
    v = s.v
    out = {}
    r = strip(e.value)
    for key in e.loops:
        for i in v.frameobj[key[0]].fn.blocks[key[1]]:
            if i.op != 'phi':
                continue
            p = ('phi', i.id, key[0])
            init, step = v.phi(p)
            if len(init) != 1:
                continue
            ds = [norm(ladd(at_byte(x), at_byte(p), -1)) for x in step if strip(x) != p]
            if len(ds) == 1 and set(ds[0]) <= {plain(r)}:
                out[p] = (init[0], ds[0].get(plain(r), 0))
    return out


def transferred(s, d, mv):
    """(linear form without loop variables, how often the bytes transferred so far are in it)"""
    out, k = {}, 0
    for t, c in d.items():
        p = strip(t) if t != () else t
        if p in mv:
            out = ladd(out, {x: y * c for x, y in at_byte(mv[p][0]).items()})
            k += c * mv[p][1]
        else:
            out = ladd(out, {t: c})
    return norm(out), k


def whole(prog, res):
    """a read or write goes on until everything was transferred"""
    for fn, raw, FD, BUF, SIZE, OFF in (('vfs_read', 'read', 0, 1, 2, None), ('vfs_write', 'write', 0, 1, 2, None),
                                        ('vfs_pread', 'pread', 0, 2, 3, 1), ('vfs_pwrite', 'pwrite', 0, 1, 2, 3)):
        s = Spec(prog, res, fn, interest=[raw])
        v = s.v
        for e in s.one(v.calls(raw), 'call', 'data is transferred'):
            mv = moved(s, e)
            R = plain(strip(e.value))
            s.ob(strip(e.args[0]) == ('a', FD), 'file', 'of the file', e.where())
            s.ob(transferred(s, at_byte(e.args[1]), mv) == ({('a', BUF): 1}, 1), 'data', 'behind what was transferred before', e.where())
            s.ob(transferred(s, lin(e.args[2]), mv) == ({('a', SIZE): 1}, -1), 'size', 'up to the end', e.where())
            if OFF is not None:
                s.ob(transferred(s, lin(e.args[3]), mv) == ({('a', OFF): 1}, 1), 'offset', 'behind what was transferred before', e.where())
            some = s.not_(s.rel('le', lambda x: same(x, e.value), 0))
            # what is left after this call
            full = []
            for a in v.b.vars:
                x, y, neg = (a[1], a[2], False) if a[0] == 'eq' else (a[2], a[3], True) if a[0] == 'lt' else (0, 0, 0)
                if not isinstance(x, tuple):
                    continue
                d = ladd(at_byte(x), at_byte(y), -1)
                rest = {t: c for t, c in norm(d).items() if t != R}
                n = norm(d).get(R, 0)
                f, k = transferred(s, rest, mv)
                if a[0] == 'eq' and f in ({('a', SIZE): 1}, {('a', SIZE): -1}) and (k, n) in ((-f[('a', SIZE)], -f[('a', SIZE)]),):
                    full.append(v.eq(x, y))
                elif a[0] == 'lt' and f == {('a', SIZE): -1} and k == 1 and n in (0, 1):
                    full.append(s.not_(v.cmp(a[1] + 'lt', x, y)))
                elif a[0] == 'lt' and f == {('a', SIZE): 1} and k == -1 and n in (0, -1):
                    full.append(v.cmp(a[1] + 'lt', x, y))
                elif a[0] == 'eq' and f in ({('a', SIZE): 1}, {('a', SIZE): -1}) and k == -f[('a', SIZE)] and n == 0:
                    full.append(v.eq(x, y))
            full = s.or_(*full) if full else s.fresh()
            for r in s.one(v.rets(), 'ret', 'all of it is transferred'):
                for g, x in gates(r.args[0]):
                    g = s.and_(g, r.cond)
                    if not v.possible(g) or strip(x) == MINUS:
                        continue
                    s.ob(v.implies(g, full), 'all', 'success means that all of it was transferred', r.where(), v.show(g)[:300])
                    f, k = transferred(s, {t: c for t, c in norm(lin(x)).items() if t != R}, mv)
                    s.ob((f, k) == ({}, 1) or norm(lin(x)) == {('a', SIZE): 1}, 'count', 'the result is the number of bytes', r.where(), str(lin(x))[:200])
            for p, (i, k) in mv.items():
                for c, x in v.phi_steps(p):
                    if k:
                        s.ob(v.implies(c, s.not_(some) if strip(x) == p else some), 'progress', 'a failed call transfers nothing', e.where(), v.show(c)[:200])


def vector(prog, res):
    fn = 'vfs_writev'
    s = Spec(prog, res, fn, interest=['writev'], stores=[('iovec', 'iov_base'), ('iovec', 'iov_len')])
    v = s.v
    V, N = ('a', 1), ('a', 2)
    elem = {('a', 1): 1}
    for e in s.one(v.calls('writev'), 'call', 'data is written'):
        R = plain(strip(e.value))
        s.ob(strip(e.args[0]) == ('a', 0), 'file', 'to the file', e.where())
        P, C = strip(e.args[1]), strip(e.args[2])
        ok = P[0] == 'phi' and C[0] == 'phi' and v.phi(P)[0] == [V] and v.phi(C)[0] == [N]
        s.ob(ok, 'what', 'the buffers which are left are written', e.where())
        if not ok:
            continue
        # the loop over the buffers written
        def inner(init):
            return {x for x in v.steady_phis(init)} if hasattr(v, 'steady_phis') else set()
        ph = {}
        for key in v.loops:
            for i in v.frameobj[key[0]].fn.blocks[key[1]]:
                if i.op == 'phi':
                    p = ('phi', i.id, key[0])
                    init, step = v.phi(p)
                    if len(init) == 1 and p not in (P, C):
                        for nm, t in (('P', P), ('C', C), ('R', R)):
                            if plain(strip(init[0])) == plain(t):
                                ph[nm] = (p, step, key)
        if not s.ob(len(ph) == 3, 'step', 'what was written is skipped', e.where(), str(sorted(ph))):
            continue
        p, c, r = ph['P'][0], ph['C'][0], ph['R'][0]
        ln = ('ld', ('fld', p, 'iovec', 'iov_len'))
        plain_len = lambda x: plain(strip(x)) == ln
        s.ob(v.phi(P)[1] == [p] and v.phi(C)[1] == [c], 'step', 'what was written is skipped', e.where())
        s.ob([norm(ladd(lin(x), lin(c), -1)) for x in ph['C'][1]] == [{(): -1}], 'step-count', 'one buffer at a time', e.where())
        s.ob([plain(strip(x)) for x in ph['P'][1]] == [('idx', p, ('i', 1), 16)] or
             [norm(ladd(at_byte(x), at_byte(p), -1)) for x in ph['P'][1]] in ([{(): 16}], [{(): 1}]), 'step-next', 'one buffer at a time', e.where(),
             str(ph['P'][1]))
        s.ob([norm(ladd(lin(x), lin(r), -1)) for x in ph['R'][1]] == [{ln: -1}], 'step-size', 'with its size', e.where(), str(ph['R'][1])[:300])
        less = s.lrel('gt', [(plain_len, 1), (lambda x: strip(x) == r, -1)])
        for g, x in v.phi_steps(p):
            s.ob(v.implies(g, s.not_(less)), 'step-whole', 'if all of it was written', e.where(), v.show(g)[:200])
        for f, want in (('iov_base', None), ('iov_len', {ln: 1, r: -1})):
            st = v.stores_of('iovec', f)
            s.one(st, 'part-' + f, 'a buffer written in part is written from there')
            for x in st:
                s.ob(strip(x.args[0])[1] == p and v.implies(x.cond, less), 'part-' + f, 'a buffer written in part is written from there', x.where())
                got = norm(at_byte(x.args[1]))
                s.ob(got == (want or {('ld', ('fld', p, 'iovec', 'iov_base')): 1, r: 1}), 'part-' + f, 'a buffer written in part is written from there', x.where(), str(got)[:200])
            left = s.not_(s.rel('le', lambda x: strip(x) == c, 0))
            s.must(s.and_(v.entry(ph['P'][2]), s.and_(less, left)), st, 'part-' + f, 'a buffer written in part is written from there')
        ok = s.or_(s.not_(s.rel('lt', lambda x: same(x, e.value), 0)), s.not_(s.rel('eq', lambda x: same(x, e.value), -1)))
        for q in v.rets():
            for g, x in gates(q.args[0]):
                g = s.and_(g, q.cond)
                if v.possible(g) and strip(x) != MINUS:
                    s.ob(v.implies(g, s.and_(ok, s.rel('le', lambda x: strip(x) == c, 0))), 'all', 'success means that all of it was written', q.where(),
                         v.show(g)[:200])


def sizes(prog, res):
    """the recorded size of a file follows what happened to it"""
    n = 0
    old = lambda x: plain(strip(x)) == ('ld', ('fld', ('a', 0), 'File', 'size'))
    for k in sorted(prog.functions):
        F = prog.functions[k]
        mine = [i for i in F.all('store') if (lambda a: a[0] == 'fld' and a[2:4] == ('File', 'size'))(F.expr(i.o[1]))]
        call = [i for i in F.all('call') for t in prog.targets(i) if t in ('vfs_write', 'vfs_writev', 'vfs_truncate') and F.args]
        if not mine and not call or F.name in ('file_init', 'file_close', 'logger_write'):
            continue
        calls = ['vfs_write', 'vfs_writev', 'vfs_truncate', 'vfs_size', 'vfs_size_fd']
        s = Spec(prog, res, F, interest=calls, stores=[('File', 'size')], opaque=['logger_write', 'file_error'])
        v = s.v
        st = v.stores_of('File', 'size')
        for e in v.calls(*calls):
            kind = e.name.split('@')[0]
            good = s.and_(e.cond, s.not_(failed(s, e, -1)))
            mine = []
            for x in st:
                if x.order < e.order:
                    continue
                d = norm(lin(x.args[1]))
                r = plain(strip(e.value))
                own = ('ld', ('fld', ('a', 0), 'File', 'size'))
                if kind.startswith('vfs_size') and d == {r: 1} or kind == 'vfs_truncate' and d == {strip(e.args[1]): 1} or \
                        kind.startswith('vfs_write') and d == {own: 1, r: 1}:
                    mine.append(x)
            n += 1
            s.ob(bool(mine) and (v.implies(good, s.or_(*[s.or_(x.cond, *[y.cond for y in errors(s)]) for x in mine]))) and all(x.loops == e.loops for x in mine), kind,
                 'the size of a file follows what happened to it', e.where(), v.show(good)[:200])
            st = [x for x in st if x not in mine]
        for x in st:
            s.ob(False, 'other', 'the size of a file follows what happened to it', x.where(), str(x.args[1])[:200])
    res.count('file size updates', n)


def buffers(prog, res):
    """what is read into a buffer is read behind what it has, and kept"""
    for fn, raw in (('file_read_buf', 'vfs_read'), ('file_pread_buf', 'vfs_pread')):
        if fn == 'file_read_buf' and fn not in prog.byname:
            continue
        s = Spec(prog, res, fn, interest=[raw, 'buf_reserve'], stores=[('Buf', 'position')])
        v = s.v
        rd, rv, st = v.calls(raw), v.calls('buf_reserve'), v.stores_of('Buf', 'position')
        P = ('ld', ('fld', ('a', 1), 'Buf', 'position'))
        s.must(done(s), rd, 'read', 'the data is read')
        s.before(rv, rd, 'room', 'room is made for it')
        for e in rv:
            s.ob(strip(e.args[1]) == ('a', 2), 'room', 'room is made for it', e.where())
        for e in rd:
            o = 1 if raw == 'vfs_read' else 2
            s.ob(norm(at_byte(e.args[o])) == {P: 1} and strip(e.args[o + 1]) == ('a', 2), 'where', 'behind what was there', e.where())
            if o == 2:
                s.ob(strip(e.args[1]) == ('a', 3), 'offset', 'from its place', e.where())
        s.must(done(s), st, 'kept', 'and kept')
        for e in st:
            s.ob(norm(at_byte(e.args[1])) == {P: 1, ('a', 2): 1} and all(e.order > x.order for x in rd), 'kept', 'and kept', e.where())


@rule('I05')
def i05(prog, res):
    parts(prog, res, checked, whole, vector, sizes, buffers)
