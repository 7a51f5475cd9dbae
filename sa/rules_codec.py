"""I03: what is compressed or encrypted can be restored.
I04: encrypted data stays secret."""
from cond import gates, plain
from ir import walk
from report import parts, rule
from rules_file import at_byte, decoders, done, errors, impls, index_data, ok_only, region, size_of, start_of, writer_agrees
from rules_read import arg, same
from spec import Spec, has_path, is_call, is_path, ladd, lin, loop_range, match_lin, origin, strip


def elem(x, argv):
    """index i if x is argv[i]"""
    x = plain(strip(x))
    if x[0] == 'ld' and x[1][0] == 'idx' and x[1][1] == argv and x[1][3:] in ((8,), ()):
        return x[1][2]
    if x[0] == 'ld' and x[1] == argv:
        return ('i', 0)
    if x[0] == 'ld' and x[1][0] == 'phi':
        return x[1]
    return None


def whole_loop(s, key, i, argc, argv=None, any_order=False):
    """the loop runs over all indexes (or elements), from the first to the last, and ends only there"""
    r = loop_range(s.v, key, i)
    if r is None or not s.v.single_exit(key):
        return False
    first, last, step = r
    base = {argv: 1} if argv and first.get(argv) else {}
    end = ladd(base, {argc: 1, (): -1})
    return step == 1 and (first, last) == (base, end) or any_order and step == -1 and (first, last) == (end, base)


def total(s, x, argc, argv, per):
    """the constant part (linear) of x if x = constant + sum of per(argv[i]) over all i"""
    v = s.v
    d = lin(strip(x))
    ps = [t for t in d if t != () and strip(t)[0] == 'phi']
    if len(ps) != 1 or d[ps[0]] != 1:
        return None
    rest = {t: c for t, c in d.items() if t != ps[0]}
    p = strip(ps[0])
    init, step = v.phi(p)
    if len(init) != 1 or len(step) != 1:
        return None
    key = (p[2], v.frameobj[p[2]].fn.insts[p[1]].block)
    add = ladd(lin(step[0]), {p: 1}, -1)
    i = per(add)
    if i is None or not whole_loop(s, key, i, argc, argv, True):
        return None
    return ladd(lin(init[0]), rest)


def elem_of_size(d, argv):
    """index i if the linear form is buf_size(argv[i])"""
    ts = [t for t in d if t != ()]
    for t in ts:
        t = strip(t)
        if t[0] == 'ld' and t[1][0] == 'fld' and t[1][2:4] == ('Buf', 'position'):
            b = t[1][1]
            i = elem(b, argv)
            want = {('ld', ('fld', plain(b), 'Buf', 'position')): 1, ('ld', ('fld', plain(b), 'Buf', 'start')): -1}
            if i is not None and norm(d) == want:
                return i
    return None


def each_elem(s, e, data, size, argc, argv, key, msg):
    """the call is made for every buffer in order, with all of its bytes"""
    v = s.v
    ok = False
    x = plain(strip(data))
    if x[0] == 'ld' and x[1][0] == 'fld' and x[1][2:4] == ('Buf', 'start') and e.loops:
        i = elem(x[1][1], argv)
        k = e.loops[-1]
        ok = i is not None and size_of(size, x[1][1]) and whole_loop(s, k, i, argc, argv) and v.implies(s.and_(v.entry(k), v.body(k)), e.cond)
    s.ob(ok, key, msg, e.where(), '%s %s %s' % (data, size, e.loops))


def no_error(s, evs, test, key, msg):
    """the function does not return normally if one of these failed"""
    v = s.v
    for e in evs:
        c = test(e)
        s.ob(s.made(c), key, msg, e.where())
        s.must(s.and_(e.cond, c), errors(s), key, msg)
        s.ob(all(not v.possible(s.and_(x.cond, s.and_(e.cond, c))) for x in v.stores_of('Buf', 'position') if x.order > e.order and x.loops == e.loops),
             key, msg, e.where())


def zero(s):
    return lambda e: s.or_(*[s.v.eq(t, ('i', 0)) for t in s.terms(lambda x: same(x, e.value))] or [s.fresh()])


def bad(s, fn):
    return lambda e: s.test(lambda x: is_call(x, fn) and same(arg(x, 0), e.value))


def aes(prog, res):
    for name in impls(prog, 'EncryptionIf', 'encrypt'):
        s = Spec(prog, res, name, interest=['EVP_CipherInit_ex2', 'EVP_CIPHER_CTX_ctrl', 'EVP_CipherUpdate', 'EVP_CipherFinal_ex', 'buf_reserve', 'random_generate'],
                 stores=[('Buf', 'position')])
        v = s.v
        SELF, RND, KEY, BUF, ARGC, ARGV = [('a', n) for n in range(6)]
        it, ct, up, fi, rv, rg = [v.calls(n) for n in ('EVP_CipherInit_ex2', 'EVP_CIPHER_CTX_ctrl', 'EVP_CipherUpdate', 'EVP_CipherFinal_ex',
                                                        'buf_reserve', 'random_generate')]
        if not (s.one(it, 'init', 'the key is set') and s.one(up, 'update', 'the data is encrypted') and s.one(fi, 'final', 'the data is completed')
                and s.one(rv, 'room', 'room is made for it')):
            continue
        full = s.rel('eq', lambda x: lin(x) == {('ld', ('fld', KEY, 'Str', 'end')): 1, ('ld', ('fld', KEY, 'Str', 'pos')): -1}, 32)
        ok_only(s, full, 'key', 'a key which does not have 256 bits is refused')
        B = ('ld', ('fld', BUF, 'Buf', 'start'))
        P = ('ld', ('fld', BUF, 'Buf', 'position'))
        # room
        for e in rv:
            c = total(s, e.args[1], ARGC, ARGV, lambda d: elem_of_size(d, ARGV))
            s.ob(strip(e.args[0]) == BUF and c is not None and set(c) <= {()} and c.get((), 0) >= 32 + 16, 'room-all',
                 'for the header and all of the data', e.where(), str(c))
        adv = v.stores_of('Buf', 'position')
        head = [e for e in adv if at_byte(e.args[1]) == {P: 1, (): 32}]
        for e in it:
            a = e.args
            s.ob(is_path(a[2], 'Str.pos') and origin(a[2]) == KEY, 'init-key', 'the key of the storage is used', e.where())
            s.ob(strip(a[4]) in (('i', 1), ('i', -1)) and strip(a[1]) == ('i', 0), 'init-mode', 'to encrypt', e.where())
            s.ob(plain(strip(a[3])) == B, 'init-iv', 'with an iv in front of the data', e.where())
            s.before(rv, [e], 'init-room', 'after room was made')
            # both halves of the iv come from the generator, and are not the same call
            halves = [content(e, a[3], k) for k in (0, 8)]
            s.ob(all(h is not None and is_call(h, 'random_generate') for h in halves) and not same(halves[0], halves[1]), 'init-random',
                 'which is different every time', e.where(), str(halves)[:300])
        for e in rg:
            s.ob(strip(e.args[0]) == RND, 'random', 'which is different every time', e.where())
        for e in up:
            s.ob(plain(strip(e.args[1])) == P, 'update-to', 'behind what was encrypted before', e.where())
            each_elem(s, e, e.args[3], e.args[4], ARGC, ARGV, 'update-all', 'all buffers are encrypted in order')
        s.before(head, up, 'header', 'behind the iv and the tag')
        s.before(it, up + fi, 'order', 'after the key is set')
        for e in fi:
            s.ob(plain(strip(e.args[1])) == P, 'final-to', 'the data is completed', e.where())
            s.ob(all(e.order > u.order for u in up), 'final-last', 'the data is completed', e.where())
        for e, k in [(e, 'update') for e in up] + [(e, 'final') for e in fi]:
            n = ('ld', strip(e.args[2]))
            moved = [x for x in adv if x.order > e.order and norm(at_byte(x.args[1])) == {P: 1, plain(n): 1}]
            nx = [x for x in adv if x.order > e.order]
            s.ob(bool(moved) and moved[0] is nx[0] and moved[0].loops == e.loops and v.implies(s.and_(e.cond, s.not_(zero(s)(e))), moved[0].cond),
                 k + '-size', 'what was encrypted is kept', e.where())
        for evs, k in ((it, 'init'), (up, 'update'), (fi, 'final')):
            s.must(done(s), [e for e in evs if not e.loops], k, 'the data is encrypted') if k != 'update' else None
            no_error(s, evs, zero(s), k + '-error', 'a failure is an error')
        tag = [e for e in ct if strip(e.args[1]) == ('i', 16) and strip(e.args[2]) == ('i', 16) and at_byte(e.args[3]) == {B: 1, (): 16} and not e.loops]
        s.must(done(s), tag, 'tag', 'the tag is stored in front of the data')
        for e in tag:
            s.ob(all(e.order > f.order for f in fi), 'tag-last', 'of all of the data', e.where())


def norm(d):
    """a linear form without memory versions and conversions"""
    def un(t):
        t = strip(t)
        while t[0] == 'cast':
            t = strip(t[4])
        return plain(t)
    return {un(t) if t else t: c for t, c in d.items()}


def content(e, addr, off):
    """what memory at this address holds when the event happens"""
    want = ladd(at_byte(addr), {(): off} if off else {})
    want = norm(want)
    for a, x in e.guard.items():
        try:
            d = at_byte(a)
        except Exception:
            continue
        if norm(d) == want:
            return x
    return None


def lz4(prog, res):
    for name in impls(prog, 'CompressionIf', 'compress'):
        s = Spec(prog, res, name, interest=['LZ4F_compressBegin', 'LZ4F_compressBound', 'LZ4F_compressUpdate', 'LZ4F_compressEnd', 'buf_reserve',
                                            'ZSTD_compressBound', 'ZSTD_compressStream2', 'ZSTD_CCtx_reset', 'ZSTD_CCtx_setParameter'],
                 stores=[('Buf', 'position')] + [('ZSTD_outBuffer_s', f) for f in ('dst', 'size', 'pos')])
        if s.v.calls('ZSTD_compressStream2'):
            zstd(s)
        else:
            lz4_frame(s)


def lz4_frame(s):
    v = s.v
    BUF, LEVEL, ARGC, ARGV = [('a', n) for n in range(1, 5)]
    P = ('ld', ('fld', BUF, 'Buf', 'position'))
    bg, up, en, rv = [v.calls(n) for n in ('LZ4F_compressBegin', 'LZ4F_compressUpdate', 'LZ4F_compressEnd', 'buf_reserve')]
    if not (s.one(bg, 'begin', 'a frame is started') and s.one(up, 'update', 'the data is compressed') and s.one(en, 'end', 'the frame is completed')
            and s.one(rv, 'room', 'room is made for it')):
        return
    bound = lambda x: is_call(x, 'LZ4F_compressBound')

    def per(d):
        if len(d) == 1:
            (t, c), = d.items()
            if t != () and c == 1 and bound(t):
                return elem_of_size(lin(arg(t, 0)), ARGV)
        return None
    prefs = None
    for e in bg:
        prefs = strip(e.args[3])
    for e in rv:
        c = total(s, e.args[1], ARGC, ARGV, per)
        ok = c is not None and c.get((), 0) >= 19 and any(t != () and bound(t) and strip(arg(t, 0)) == ('i', 0) and strip(arg(t, 1)) == prefs for t in c)
        s.ob(strip(e.args[0]) == BUF and ok, 'room-all', 'for the worst case', e.where(), str(c)[:300])
    for e in v.calls('LZ4F_compressBound'):
        s.ob(strip(e.args[1]) == prefs, 'room-prefs', 'with the settings used', e.where())
    s.before(rv, bg, 'room-first', 'before it is used')
    s.before(bg, up + en, 'order', 'after the frame is started')
    for e in up:
        each_elem(s, e, e.args[3], e.args[4], ARGC, ARGV, 'update-all', 'all buffers are compressed in order')
    for e in en:
        s.ob(all(e.order > u.order for u in up), 'end-last', 'the frame is completed', e.where())
    s.must(done(s), bg, 'begin', 'a frame is started')
    s.must(done(s), en, 'end', 'the frame is completed')
    adv = v.stores_of('Buf', 'position')
    for evs, k in ((bg, 'begin'), (up, 'update'), (en, 'end')):
        no_error(s, evs, bad(s, 'LZ4F_isError'), k + '-error', 'a failure is an error')
        for e in evs:
            s.ob(plain(strip(e.args[1])) == P, k + '-to', 'behind what was compressed before', e.where())
            nx = [x for x in adv if x.order > e.order]
            ok = bool(nx) and nx[0].loops == e.loops and norm(at_byte(nx[0].args[1])) == {P: 1, plain(strip(e.value)): 1}
            s.ob(ok, k + '-size', 'what was compressed is kept', e.where(), str(nx and at_byte(nx[0].args[1]))[:300])


def zstd(s):
    v = s.v
    BUF, LEVEL, ARGC, ARGV = [('a', n) for n in range(1, 5)]
    P = ('ld', ('fld', BUF, 'Buf', 'position'))
    st, rv, rs = v.calls('ZSTD_compressStream2'), v.calls('buf_reserve'), v.calls('ZSTD_CCtx_reset')
    if not s.one(rv, 'room', 'room is made for it'):
        return
    for e in rv:
        x = strip(e.args[1])
        c = total(s, arg(x, 0), ARGC, ARGV, lambda d: elem_of_size(d, ARGV)) if is_call(x, 'ZSTD_compressBound') else None
        s.ob(strip(e.args[0]) == BUF and c is not None and not [t for t, k in c.items() if t != () or k < 0], 'room-all', 'for the worst case', e.where(), str(c)[:300])
    up = [e for e in st if strip(e.args[3]) == ('i', 0)]
    en = [e for e in st if strip(e.args[3]) == ('i', 2)]
    s.ob(len(up) + len(en) == len(st), 'modes', 'the data is compressed')
    s.must(done(s), en, 'end', 'the frame is completed')
    s.before(rs, st, 'start', 'a frame is started')
    s.before(rv, st, 'room-first', 'after room was made')
    out = {strip(e.args[1]) for e in st}
    s.ob(len(out) == 1, 'to', 'into one buffer')
    O = out.pop()
    left = {('ld', ('fld', BUF, 'Buf', 'end')): 1, P: -1}
    for f, ok in (('dst', lambda x: plain(strip(x)) == P), ('pos', lambda x: strip(x) == ('i', 0)),
                  ('size', lambda x: norm(lin(x)) == left)):
        es = [e for e in v.stores_of('ZSTD_outBuffer_s', f) if plain(e.args[0])[1] == O]
        s.before(es, st, 'to-' + f, 'which is the room that is left')
        for e in es:
            s.ob(ok(e.args[1]) and all(e.order < x.order for x in st) and all(e.order > x.order for x in rv), 'to-' + f, 'which is the room that is left', e.where())
    for e in up:
        I = strip(e.args[2])
        g = lambda f: e.guard.get(('fld', I, 'ZSTD_inBuffer_s', f), ('i', -9))
        each_elem(s, e, g('src'), g('size'), ARGC, ARGV, 'update-all', 'all buffers are compressed in order')
        s.ob(strip(g('pos')) == ('i', 0), 'update-from', 'all buffers are compressed in order', e.where())
    for e in en:
        I = strip(e.args[2])
        g = lambda f: e.guard.get(('fld', I, 'ZSTD_inBuffer_s', f), ('i', -9))
        s.ob(all(e.order > u.order for u in up) and strip(g('size')) == strip(g('pos')) == ('i', 0), 'end-last', 'the frame is completed', e.where())
    no_error(s, st, lambda e: s.not_(zero(s)(e)), 'error', 'a failure is an error')
    adv = v.stores_of('Buf', 'position')
    keep = [x for x in adv if norm(at_byte(x.args[1])) == {P: 1, plain(('ld', ('fld', O, 'ZSTD_outBuffer_s', 'pos'))): 1}]
    s.must(done(s), keep, 'size', 'what was compressed is kept')
    for x in adv:
        s.ob(x in keep and all(x.order > e.order for e in st), 'size-last', 'what was compressed is kept', x.where())


def tables(prog, S, ids):
    """{id: {function field: function}} of the implementations of an interface"""
    out = {}
    fields = [f['name'] for f in prog.structs[S]['fields']]
    for g, d in prog.globals.items():
        i = d['init']
        if isinstance(i, dict) and i.get('struct') == S:
            out[g] = dict(zip(fields, i['v']))
    return out


def contexts(prog, res):
    for S, M, pop, push, of in (('Compression', 'CompressionMgr', 'compression_mgr_pop', 'compression_mgr_push', 'compression_mgr_of'),
                                ('Encryption', 'EncryptionMgr', 'encryption_mgr_pop', 'encryption_mgr_push', 'encryption_mgr_of')):
        tb = tables(prog, S + 'If', None)
        ids = {g.split('@')[0]: d.get('id') for g, d in tb.items()}
        kinds = {n[1] if isinstance(n, (list, tuple)) else n for n in ids.values()}
        s = Spec(prog, res, push, interest=['cache_push'])
        v = s.v
        s.ob(len(kinds) == len(ids) and None not in kinds, 'ids', 'every kind has an id of its own', None, str(ids))
        cache = {}
        is_id = lambda x: is_path(x, S + 'If.id') and origin(x) == ('a', 1)
        some = 0
        for g, n in ids.items():
            n = n[1] if isinstance(n, (list, tuple)) else n
            # the cache this kind is put in
            c = s.rel('eq', is_id, n)
            other = [s.rel('eq', is_id, m) for m in kinds if m != n]
            k = s.and_(c, *[s.not_(o) for o in other]) if s.made(c) else s.and_(*[s.not_(o) for o in other]) if other else 1
            evs = [e for e in v.calls('cache_push') if v.possible(s.and_(k, e.cond))]
            s.must(k, evs, 'push-%s' % n, 'a context is returned')
            for e in evs:
                cache.setdefault(n, set()).add(plain(strip(e.args[0])))
                s.ob(is_path(e.args[1], S + '.link') and origin(e.args[1]) == ('a', 1), 'push-what', 'a context is returned', e.where())
        s.ob(all(len(x) == 1 for x in cache.values()) and len({list(x)[0] for x in cache.values()}) == len(kinds), 'push-own', 'to the cache of its kind', None, str(cache))
        s = Spec(prog, res, pop, interest=['cache_pop', S.lower() + '_create'])
        v = s.v
        ID = ('a', 1)
        for g, n in ids.items():
            n = n[1] if isinstance(n, (list, tuple)) else n
            c = s.rel('eq', lambda x: x == ID, n)
            k = s.and_(c, *[s.not_(s.rel('eq', lambda x: x == ID, m)) for m in kinds if m != n])
            s.ob(s.made(k), 'pop-%s' % n, 'a context of the kind asked for is used')
            for r in v.rets():
                for cc, x in gates(r.args[0]):
                    if not v.possible(s.and_(cc, k)):
                        continue
                    x = strip(x)
                    mine = cache.get(n, set())
                    got = []
                    for y in walk(x):
                        for e in v.calls('cache_pop', S.lower() + '_create') if is_call(y, 'cache_pop', S.lower() + '_create') else ():
                            if same(e.value, y):
                                got += [(e.name, z) for z in s.leaves(e.args[0], s.and_(e.cond, s.and_(cc, k)))]
                    ok = bool(got) and all(plain(strip(z)) in mine if fn.split('@')[0] == 'cache_pop' else str(strip(z)[1]).split('@')[0] == g for fn, z in got)
                    s.ob(ok, 'pop-%s' % n, 'a context of the kind asked for is used', r.where(), str(x)[:200])
        # the implementation sets its own table
        for g, d in tb.items():
            f = d['create']
            name = f[1].split('@')[0]
            s = Spec(prog, res, name, interest=[], stores=[(S, 'iface')])
            st = s.v.stores_of(S, 'iface')
            s.must(done(s), st, 'iface', 'a context belongs to its kind')
            for e in st:
                s.ob(strip(e.args[1]) == ('a', 0), 'iface-of', 'a context belongs to its kind', e.where())
        for f, n in ((('compress', 4), ('decompress', 4)) if S == 'Compression' else (('encrypt', 5), ('decrypt', 4))):
            pass


@rule('I03')
def i03(prog, res):
    parts(prog, res, aes, lz4, contexts, decoders, region, index_data, writer_agrees)
