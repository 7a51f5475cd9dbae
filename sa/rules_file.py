"""I01: damaged data is refused.
I02: a file describes exactly what was written to it.
I03: encrypted storages.
I04: failing system calls are noticed."""
import ir
from cond import gates, plain
from ir import walk
import rules_basic as basic
from report import parts, rule
from rules_read import arg, same
from spec import Spec, base_of, has_path, is_call, is_path, ladd, lin, origin, strip


def size_of(x, b):
    """x is buf_size(b): position - start of the buffer at address b"""
    b = plain(strip(b))
    return lin(x) == {('ld', ('fld', b, 'Buf', 'position')): 1, ('ld', ('fld', b, 'Buf', 'start')): -1}


def start_of(x, b):
    return plain(strip(x)) == ('ld', ('fld', plain(strip(b)), 'Buf', 'start'))


def buf_of(x):
    """the buffer whose start a value is"""
    x = plain(strip(x))
    return x[1][1] if x[0] == 'ld' and x[1][0] == 'fld' and x[1][2:4] == ('Buf', 'start') else None


def at_byte(e):
    """linear form of an address in bytes, fields included"""
    e = strip(e)
    if e[0] == 'idx' and len(e) > 3:
        return ladd(at_byte(e[1]), {t: c * e[3] for t, c in lin(e[2]).items()})
    if e[0] == 'fld':
        off = ir.program().field_off(e[2], e[3]) if e[3] else 0
        return ladd(at_byte(e[1]), {(): off} if off else {})
    if e[0] == 'bin' and e[1] in ('add', 'sub'):
        return ladd(at_byte(e[2]), at_byte(e[3]), 1 if e[1] == 'add' else -1)
    return lin(e)


def done(s):
    """the function returns normally"""
    return s.v.any(s.v.rets())


def ok_only(s, cond, key, msg):
    v = s.v
    d = done(s)
    bad = s.and_(d, s.not_(cond))
    s.ob(v.possible(d) and s.made(cond) and not v.possible(bad), key, msg, None, v.show(bad)[:600])


# ------------------------------------------------------------------ I01
def opened(prog, res):
    s = Spec(prog, res, 'index_open', interest=['file_open', 'file_pread', 'crc32', 'id_path'])
    v = s.v
    F, SRC, ID, T, IX = [('a', n) for n in range(5)]
    size = lambda x: is_path(x, 'File.size') and origin(x) == F
    ix = lambda f: (lambda x: x[0] in ('ld', 'cast') and is_path(x, 'Index.' + f) and origin(x) == IX)
    N = prog.structs['Index']['size']
    op, rd, pa = v.calls('file_open'), v.calls('file_pread'), v.calls('id_path')
    s.must(done(s), op, 'open', 'the file is opened')
    s.before(pa, op, 'path', 'the path is made of the id, the storage and the kind of the file')
    for e in pa:
        s.ob([strip(a) for a in e.args[:3]] == [ID, SRC, T] and all(strip(o.args[1]) == strip(e.args[3]) for o in op), 'path-of',
             'the path is made of the id, the storage and the kind of the file', e.where())
    s.must(done(s), rd, 'footer', 'the index at the end of the file is read')
    s.before(op, rd, 'footer-after', 'after it is opened')
    for e in rd:
        ok = strip(e.args[0]) == F and strip(e.args[1]) == IX and strip(e.args[2]) == ('i', N)
        d = lin(e.args[3])
        ok = ok and d.get(()) == -N and len(d) == 2 and all(size(t) and c == 1 for t, c in d.items() if t != ())
        s.ob(ok, 'footer-at', 'the index at the end of the file is read', e.where())
        big = s.rel('ge', size, N)
        s.ob(v.implies(e.cond, big), 'footer-fits', 'only if the file is large enough', e.where())
    magic = next((g for g in (s.rel('eq', ix('magic'), t[1]) for t in [x for a in list(s.b.vars) if a[0] == 'eq' and ix('magic')(a[1])
                                                                        for x in [a[2]] if x[0] == 'i'])), None)
    ok_only(s, magic if magic is not None else s.fresh(), 'magic', 'a file without the mark of a partition file is refused')
    off = prog.field_off('Index', 'crc')
    crcs = v.calls('crc32')
    s.ob(off == 0, 'crc-first', 'the checksum is the first field of the index')

    def whole(x):
        return is_call(x, 'crc32') and arg(x, 0) == ('i', 0) and at_byte(arg(x, 1)) == {IX: 1, (): 4} and arg(x, 2) == ('i', N - 4)
    ok_only(s, s.test_eq(whole, ix('crc')), 'crc', 'an index with a wrong checksum is refused')
    s.before(rd, crcs, 'crc-after', 'the checksum is computed from what was read')
    cloud = s.rel('eq', lambda x: x == T, prog.enum('ID_CLOUD'))
    d = done(s)
    full = s.test_eq(size, ix('size_total'))
    part = s.lrel('eq', [(ix('size'), 1), (size, -1)], N)
    s.ob(s.made(full) and not v.possible(s.and_(d, s.and_(s.not_(cloud), s.not_(full)))), 'size', 'a file which is not as large as its index says is refused')
    s.ob(s.made(part) and not v.possible(s.and_(d, s.and_(cloud, s.not_(part)))), 'size-cloud',
         'a cloud file which is not as large as its index says is refused')
    known = s.or_(s.rel('eq', ix('version'), 0), 0)
    s.ob(not v.possible(s.and_(d, s.not_(known))), 'version', 'a file of a newer format is refused')


def index_data(prog, res):
    s = Spec(prog, res, 'index_read', interest=['file_pread_buf', 'encryption_decrypt', 'compression_decompress', 'crc32', 'buf_write', 'buf_reset',
                                                'encryption_mgr_pop', 'compression_mgr_pop'])
    v = s.v
    F, SRC, IX, D, COPY = [('a', n) for n in range(5)]
    N = prog.structs['Index']['size']
    ix = lambda f: (lambda x: x[0] in ('ld', 'cast') and is_path(x, 'Index.' + f) and origin(x) == IX)
    rd, de, un, wr, cr = [v.calls(n) for n in ('file_pread_buf', 'encryption_decrypt', 'compression_decompress', 'buf_write', 'crc32')]
    empty = s.rel('eq', ix('size'), 0)
    some = s.and_(done(s), s.not_(empty))
    copy = s.test(lambda x: x == COPY)
    s.must(some, rd, 'read', 'the index data is read')
    for e in rd:
        d = lin(e.args[3])
        ok = strip(e.args[0]) == F and strip(e.args[1]) == D and ix('size')(strip(e.args[2]))
        ok = ok and len(d) == 3 and d.get(()) == -N and all(c == (1 if is_path(t, 'File.size') else -1 if ix('size')(t) else 0) for t, c in d.items() if t != ())
        s.ob(ok, 'read-at', 'from in front of the index', e.where())
    good = s.test_eq(lambda x: is_call(x, 'crc32') and arg(x, 0) == ('i', 0) and start_of(arg(x, 1), D)
                     and (size_of(arg(x, 2), D) or ix('size')(arg(x, 2))), ix('crc_data'))
    s.ob(s.made(good) and not v.possible(s.and_(some, s.not_(good))), 'crc', 'index data with a wrong checksum is refused')
    s.before(rd, cr, 'crc-after', 'the checksum is computed from what was read')
    for e in de + un + wr:
        s.ob(v.implies(e.cond, good), 'crc-before', 'before the index data is used', e.where())
    enc, com = s.not_(s.rel('eq', ix('encryption'), 0)), s.not_(s.rel('eq', ix('compression'), 0))
    use = s.and_(some, s.not_(copy))
    decode(s, D, use, enc, com, de, un, ix('size_origin'), lambda x: origin(x) == SRC)
    for e in v.calls('encryption_mgr_pop'):
        s.ob(ix('encryption')(strip(e.args[1])), 'encryption', 'by the algorithm of the file', e.where())
    for e in v.calls('compression_mgr_pop'):
        s.ob(ix('compression')(strip(e.args[1])), 'compression', 'by the algorithm of the file', e.where())
    for k, evs, who in (('decrypt', de, 'encryption_mgr_pop'), ('decompress', un, 'compression_mgr_pop')):
        for e in evs:
            s.ob(all(is_call(x, who) for x in s.leaves(e.args[0], e.cond) if strip(x) != ('i', 0)), k + '-context', 'by the algorithm of the file', e.where())
    dec = s.or_(enc, com)
    s.must(s.and_(use, dec), wr, 'result', 'the decoded index data is returned')
    rs = [e for e in v.calls('buf_reset') if strip(e.args[0]) == D]
    for e in wr:
        s.ob(strip(e.args[0]) == D, 'result-to', 'to the caller', e.where())
        last = lambda c: strip(un[0].args[1]) if c else strip(de[0].args[2])
        for c, k in ((1, s.and_(e.cond, com)), (0, s.and_(e.cond, s.and_(enc, s.not_(com))))):
            if not v.possible(k) or not un or not de:
                continue
            s.ob(all(start_of(x, last(c)) for x in s.leaves(e.args[1], k)) and all(size_of(x, last(c)) for x in s.leaves(e.args[2], k)),
                 'result-of', 'what the last step left', e.where())
        s.before([r for r in rs if r.order < e.order], [e], 'result-alone', 'instead of the encoded one')


def decode(s, D, use, enc, com, de, un, origin_size, is_source):
    """encrypted data in buffer D is decrypted, then decompressed"""
    v = s.v
    s.must(s.and_(use, enc), de, 'decrypt', 'encrypted data is decrypted')
    s.must(s.and_(use, com), un, 'decompress', 'compressed data is decompressed')
    for e in de:
        s.ob(v.implies(e.cond, enc), 'decrypt-if', 'only encrypted data is decrypted', e.where())
        s.ob(is_path(e.args[1], 'Source.encryption_key') and is_source(e.args[1]), 'decrypt-key', 'with the key of the storage', e.where())
        s.ob(start_of(e.args[3], D) and size_of(e.args[4], D), 'decrypt-from', 'all of what was read', e.where())
        s.ob(all(u.order > e.order for u in un), 'order', 'before it is decompressed', e.where())
    for e in un:
        s.ob(v.implies(e.cond, com), 'decompress-if', 'only compressed data is decompressed', e.where())
        k = s.and_(e.cond, enc)
        if de and v.possible(k):
            b = strip(de[0].args[2])
            s.ob(all(start_of(x, b) for x in s.leaves(e.args[2], k)) and all(size_of(x, b) for x in s.leaves(e.args[3], k)),
                 'decompress-from', 'all of what was decrypted', e.where())
        k = s.and_(e.cond, s.not_(enc))
        s.ob(all(start_of(x, D) for x in s.leaves(e.args[2], k)) and all(size_of(x, D) for x in s.leaves(e.args[3], k)),
             'decompress-read', 'all of what was read', e.where())
        s.ob(origin_size(strip(e.args[4])), 'decompress-size', 'to the size of the original data', e.where())


def region(prog, res):
    s = Spec(prog, res, 'reader_execute', interest=['file_pread_buf', 'cloud_read', 'crc32', 'encryption_decrypt', 'compression_decompress', 'buf_reset'])
    v = s.v
    R, IR = ('a', 0), ('a', 1)
    ix = lambda f: (lambda x: x[0] in ('ld', 'cast') and is_path(x, 'IndexRegion.' + f) and origin(x) == IR)
    rf, rc, cr, de, un, rs = [v.calls(n) for n in ('file_pread_buf', 'cloud_read', 'crc32', 'encryption_decrypt', 'compression_decompress', 'buf_reset')]
    bufs = {plain(strip(e.args[1 if e in rf else 3])) for e in rf + rc}
    if not s.ob(len(bufs) == 1, 'buffer', 'the region is read into one buffer'):
        return
    D = bufs.pop()
    s.must(done(s), rf + rc, 'read', 'the region is read')
    for e in rf + rc:
        n = 2 if e in rf else 4
        s.ob(ix('size')(strip(e.args[n])) and ix('offset')(strip(e.args[n + 1])), 'read-at', 'at its place in the file', e.where())
        s.before([r for r in rs if plain(strip(r.args[0])) == D], [e], 'fresh', 'into an empty buffer')
    for e in de + un:
        b = plain(strip(e.args[2 if e in de else 1]))
        s.before([r for r in rs if plain(strip(r.args[0])) == b], [e], 'fresh', 'into an empty buffer')
    none = s.rel('eq', ix('crc'), 0)
    good = s.test_eq(lambda x: is_call(x, 'crc32') and arg(x, 0) == ('i', 0) and start_of(arg(x, 1), D)
                     and (size_of(arg(x, 2), D) or ix('size')(arg(x, 2))), ix('crc'))
    pas = s.or_(none, good)
    ok_only(s, pas, 'crc', 'a region with a wrong checksum is refused')
    s.ob(s.made(good), 'crc', 'a region with a wrong checksum is refused')
    s.before(rf + rc, cr, 'crc-after', 'the checksum is computed from what was read')
    for e in de + un:
        s.ob(v.implies(e.cond, pas), 'crc-before', 'before the region is decoded', e.where())
    enc = s.nz('Reader.encryption')
    com = s.nz('Reader.compression')
    decode(s, D, done(s), enc, com, de, un, ix('size_origin'), lambda x: origin(x) == R)
    for e in un + de:
        s.ob(is_path(e.args[0], 'Reader.compression' if e in un else 'Reader.encryption'), 'context', 'with the algorithm of the file', e.where())
    ends = [(s.and_(done(s), com), un, 1), (s.and_(done(s), s.and_(enc, s.not_(com))), de, 2), (s.and_(done(s), s.not_(s.or_(enc, com))), None, 0)]
    for k, evs, n in ends:
        b = plain(strip(evs[0].args[n])) if evs else D
        s.ob(v.possible(k) and all(start_of(x, b) for x in s.leaves(v.ret, k)), 'result', 'what the last step left is returned')
        f = lambda name: s.test_eq(lambda x: plain(strip(x))[0] == 'ld' and is_path(x, 'Region.' + name) and buf_of(plain(strip(x))[1][1]) == b, ix(name if name == 'events' else 'size_origin'))
        for name, msg in (('size', 'size'), ('events', 'number of events')):
            c = f(name)
            s.ob(s.made(c) and not v.possible(s.and_(k, s.not_(c))), 'meta-' + name, 'a region whose %s differs from the index is refused' % msg)
    s = Spec(prog, res, 'reader_open', interest=['compression_mgr_pop', 'encryption_mgr_pop'], stores=[('Reader', 'compression'), ('Reader', 'encryption')])
    v = s.v
    for w in ('compression', 'encryption'):
        on = s.not_(s.rel('eq', lambda x: is_path(x, 'Index.' + w), 0))
        st = [e for e in v.stores_of('Reader', w)]
        s.must(on, st, w, 'the algorithm of the file is used')
        for e in st:
            s.ob(all(is_call(x, w + '_mgr_pop') and is_path(arg(x, 1), 'Part.index', 'Index.' + w) and origin(arg(x, 1)) == ('a', 1)
                     for x in s.leaves(e.args[1], s.and_(e.cond, on))), w + '-of', 'the algorithm of the file is used', e.where())


def left_at(d, addr):
    """the value a call has left at addr"""
    if len(d) != 1 or list(d.values()) != [1]:
        return False
    x = strip(next(iter(d)))
    while x[0] == 'cast':
        x = strip(x[-1])
    return plain(x) == ('ld', addr)


def walks(v, d, first, addr, sign):
    """the linear form d starts with first, and every round of the loop adds what the call has left at addr"""
    ps = [t for t in d if t != () and strip(t)[0] == 'phi']
    if not ps:
        return False
    init, step = dict(d), dict(d)
    for p in ps:
        i, st = v.phi(strip(p))
        if len(i) != 1 or len(st) != 1:
            return False
        init = ladd(ladd(init, {p: 1}, -d[p]), lin(i[0]), d[p])
        step = ladd(ladd(step, {p: 1}, -d[p]), lin(st[0]), d[p])
    more = ladd(step, d, -1)
    return init == first and left_at({t: c * sign for t, c in more.items()}, addr)


def decoders(prog, res):
    # decompression
    for name in impls(prog, 'CompressionIf', 'decompress'):
        s = Spec(prog, res, name, interest=['LZ4F_decompress', 'ZSTD_decompress', 'ZSTD_isError', 'LZ4F_isError', 'ZSTD_decompressDCtx',
                                            'buf_reserve', 'buf_advance'])
        v = s.v
        BUF, DATA, N, M = [('a', n) for n in range(1, 5)]
        dc = v.calls('LZ4F_decompress', 'ZSTD_decompress', 'ZSTD_decompressDCtx')
        adv = v.calls('buf_advance')
        if not s.one(dc, 'decode', 'the data is decompressed'):
            continue
        rv = v.calls('buf_reserve')
        s.before([e for e in rv if strip(e.args[0]) == BUF and strip(e.args[1]) == M], dc, 'room', 'room for the original data is reserved')
        loop = any(e.loops for e in dc)
        if loop:
            full = s.test_eq(lambda x: size_of(x, BUF), lambda x: x == M)
            ok_only(s, full, 'size', 'data which does not have its original size is refused')
            for e in dc:
                er = s.test(lambda x: is_call(x, 'LZ4F_isError') and same(arg(x, 0), e.value))
                s.ob(s.made(er) and all(not v.possible(s.and_(a.cond, er)) for a in adv), 'error', 'damaged data is refused', e.where())
                s.must(s.and_(e.cond, er), errors(s), 'error', 'damaged data is refused')
                # what may be written is what is left of the room
                out = e.guard.get(strip(e.args[2]))
                left = lambda x: lin(x) == {('ld', ('fld', BUF, 'Buf', 'end')): 1, ('ld', ('fld', BUF, 'Buf', 'position')): -1}
                s.ob(out is not None and all(left(x) for _, x in gates(out)), 'bound', 'not more than the room left is written', e.where())
                s.ob(plain(strip(e.args[1])) == ('ld', ('fld', BUF, 'Buf', 'position')), 'to', 'behind what is there', e.where())
                # it goes on where it has stopped, with what is left, and keeps what it was given
                src = e.guard.get(strip(e.args[4]))
                given = gates(src) if src is not None else []
                used, made = strip(e.args[4]), strip(e.args[2])
                s.ob(walks(v, lin(e.args[3]), {DATA: 1}, used, 1), 'from', 'it starts with the data and goes on behind what was read', e.where())
                s.ob(given and all(walks(v, lin(x), {N: 1}, used, -1) for _, x in given), 'left', 'all that is left is passed', e.where())
                keep = [a for a in adv if a.loops == e.loops and strip(a.args[0]) == BUF and left_at(lin(a.args[1]), made)]
                none = s.rel('eq', lambda x: left_at(lin(x), made), 0)
                s.ob(len(adv) == len(keep), 'keep', 'what is made is kept', e.where())
                s.ob(not v.possible(s.and_(v.body(e.loops[-1]), s.not_(s.or_(*[a.cond for a in keep], none, er)))), 'keep', 'what is made is kept', e.where())
        else:
            for e in dc:
                a = e.args[-4:]
                s.ob(strip(a[1]) == M and strip(a[2]) == DATA and strip(a[3]) == N, 'args', 'all of it, into the room for the original data', e.where())
                er = s.test(lambda x: is_call(x, 'ZSTD_isError') and same(arg(x, 0), e.value))
                sz = s.test_eq(lambda x: same(x, e.value), lambda x: x == M)
                ok_only(s, sz, 'size', 'data which does not have its original size is refused')
                s.ob(s.made(er) and not v.possible(s.and_(done(s), er)), 'error', 'damaged data is refused', e.where())
            s.must(done(s), [e for e in adv if strip(e.args[0]) == BUF and (strip(e.args[1]) == M or any(same(e.args[1], d.value) for d in dc))],
                   'advance', 'the decoded data is kept')
    # decryption
    for name in impls(prog, 'EncryptionIf', 'decrypt'):
        s = Spec(prog, res, name, interest=['EVP_CipherInit_ex2', 'EVP_CIPHER_CTX_ctrl', 'EVP_CipherUpdate', 'EVP_CipherFinal_ex', 'buf_reserve', 'buf_advance'])
        v = s.v
        KEY, BUF, DATA, N = [('a', n) for n in range(1, 5)]
        it, ct, up, fi, rv = [v.calls(n) for n in ('EVP_CipherInit_ex2', 'EVP_CIPHER_CTX_ctrl', 'EVP_CipherUpdate', 'EVP_CipherFinal_ex', 'buf_reserve')]
        if not (s.one(it, 'init', 'the key is set') and s.one(up, 'update', 'the data is decrypted') and s.one(fi, 'final', 'and authenticated')):
            continue
        ok_only(s, s.rel('ge', lambda x: x == N, 32), 'small', 'data without an iv and a tag is refused')
        for evs, key, msg in ((it, 'init', 'a key which can not be set is an error'), (up, 'update', 'data which can not be decrypted is refused'),
                              (fi, 'final', 'data which was changed is refused')):
            s.must(done(s), evs, key, msg)
            for e in evs:
                c = s.or_(*[v.eq(t, ('i', 0)) for t in s.terms(lambda x: same(x, e.value))] or [s.fresh()])
                s.ob(s.made(c) and not v.possible(s.and_(done(s), s.and_(e.cond, c))), key + '-error', msg, e.where())
        for e in it:
            s.ob(lin(e.args[3]) == {DATA: 1} and strip(e.args[4]) == ('i', 0), 'iv', 'with the iv in front of the data', e.where())
            s.ob(is_path(e.args[2], 'Str.pos') and origin(e.args[2]) == KEY, 'key', 'and the given key', e.where())
        tag = [e for e in ct if strip(e.args[1]) == ('i', 17) and strip(e.args[2]) == ('i', 16) and lin(e.args[3]) == {DATA: 1, (): 16}]
        s.before(tag, fi, 'tag', 'the tag of the data is checked')
        s.before(it, tag, 'tag-after', 'after the key is set')
        for e in up:
            s.ob(lin(e.args[3]) == {DATA: 1, (): 32} and lin(e.args[4]) == {N: 1, (): -32}, 'all', 'all of the data is decrypted', e.where())
            s.before([r for r in rv if strip(r.args[0]) == BUF and strip(r.args[1]) == N], [e], 'room', 'room for it is reserved')


def errors(s):
    """the effects which end the function with an error"""
    fs = s.v.p.functions
    return [e for e in s.v.events if e.kind == 'throw' or e.kind == 'call' and isinstance(e.name, str) and e.name in fs and fs[e.name].noreturn]


def impls(prog, S, f):
    """the functions a field of a table of functions points to"""
    return sorted(v[1].split('@')[0] for v in prog.pts.get(('cell', S, f), ()) if v[0] == 'f')


@rule('I01')
def i01(prog, res):
    parts(prog, res, opened, index_data, region, decoders, index_agrees, basic.checksum, basic.words)


# ------------------------------------------------------------------ I02
def which(s, x, k, bufs):
    """the value of buf_size() of a different buffer per case: {condition: buffer}"""
    return all(any(s.v.implies(s.and_(c, k), cc) and size_of(y, b) for cc, b in bufs) for c, y in gates(x) if s.v.possible(s.and_(c, k)))


def steady(s, *paths):
    """these fields do not change meanwhile: all their reads agree on being zero"""
    k = 1
    for p in paths:
        cs = [s.not_(s.v.eq(t, ('i', 0))) for t in s.terms(lambda x: x[0] in ('ld', 'cast') and is_path(x, p))]
        for c in cs[1:]:
            k = s.and_(k, s.or_(s.and_(c, cs[0]), s.and_(s.not_(c), s.not_(cs[0]))))
    return k


def encodings(s, S):
    """(assumption, encrypted, compressed)"""
    k = steady(s, S + '.encryption', S + '.compression')
    return k, s.and_(k, s.nz(S + '.encryption')), s.and_(k, s.nz(S + '.compression'))


def stages(s, obj, S, first):
    """[(condition, [buffers])] of what is written for an object: encrypted, compressed or raw"""
    k, enc, com = encodings(s, S)
    f = lambda n: ('fld', obj, S, n)
    return [(enc, [f('encrypted')]), (s.and_(s.not_(enc), com), [f('compressed')]),
            (s.and_(k, s.not_(enc), s.not_(com)), [f(n) for n in first])]


def array(e, a, n):
    """the elements of a local array at an event"""
    a = strip(a)
    return [e.guard.get(a if k == 0 else ('idx', a, ('i', k)), e.guard.get(('idx', a, ('i', k), 8))) for k in range(n)]


def encode(s, obj, S, raw, key):
    """data is compressed, then what is to be written is encrypted"""
    v = s.v
    k0, enc, com = encodings(s, S)
    co, en = v.calls('compression_compress'), v.calls('encryption_encrypt')
    f = lambda n: ('fld', obj, S, n)
    for evs, on, n in ((co, com, 'compress'), (en, enc, 'encrypt')):
        s.ob(s.made(on), key + n, 'data is %sed if the storage asks for it' % n)
        s.must(s.and_(done(s), on), evs, key + n, 'data is %sed if the storage asks for it' % n)
        s.never(evs, s.and_(k0, s.not_(on)), key + 'not-' + n, 'and not otherwise')

    def args(e, nx, ax, k, want):
        n = {strip(x) for x in s.leaves(e.args[nx], k)}
        if n != {('i', len(want))}:
            return False
        els = array(e, e.args[ax], len(want))
        return all(x is not None and all(plain(strip(y)) == w for y in s.leaves(x, k)) for x, w in zip(els, want))
    for e in co:
        s.ob(is_path(e.args[0], S + '.compression') and plain(strip(e.args[1])) == f('compressed') and is_path(e.args[2], S + '.compression_level'),
             key + 'compress-to', 'with the context and level of the storage', e.where())
        s.ob(args(e, 3, 4, e.cond, [f(n) for n in raw]), key + 'compress-all', 'all of the data is compressed', e.where())
    for e in en:
        s.ob(is_path(e.args[0], S + '.encryption') and plain(strip(e.args[3])) == f('encrypted') and is_path(e.args[2], S + '.encryption_key')
             and is_path(e.args[1], 'Global.random'), key + 'encrypt-to', 'with the context and key of the storage', e.where())
        for k, want in ((s.and_(e.cond, com), ['compressed']), (s.and_(e.cond, k0, s.not_(com)), raw)):
            s.ob(v.possible(k) and args(e, 4, 5, k, [f(n) for n in want]), key + 'encrypt-all', 'all of what is to be written is encrypted', e.where())
    s.before([e for e in co], en, key + 'order', 'after it was compressed', com)


def crc_over(s, x, k, bufs):
    """x is the checksum of these buffers in order"""
    def chain(y, n):
        y = strip(y)
        if not n:
            return y == ('i', 0)
        if not is_call(y, 'crc32'):
            return False
        b = bufs[n - 1]
        return all(buf_of(z) == b for z in s.leaves(arg(y, 1), k)) and all(size_of(z, b) for z in s.leaves(arg(y, 2), k)) \
            and all(chain(z, n - 1) for z in s.leaves(arg(y, 0), k))
    xs = s.leaves(x, k)
    return bool(xs) and all(chain(y, len(bufs)) for y in xs)


def iov(prog, res, name, S, raw, tail):
    s = Spec(prog, res, name, interest=['iov_add'])
    v = s.v
    W = ('a', 0)
    ad = v.calls('iov_add')
    for k, bufs in stages(s, W, S, raw):
        es = [e for e in ad if v.possible(s.and_(e.cond, k))]
        got = []
        for e in sorted(es, key=lambda e: e.order):
            s.ob(v.implies(k, e.cond) and strip(e.args[0]) == ('a', 1), 'always', 'it is always written', e.where())
            bs = {buf_of(x) for x in s.leaves(e.args[1], k)}
            b = bs.pop() if len(bs) == 1 else None
            if b is not None:
                s.ob(all(size_of(x, b) for x in s.leaves(e.args[2], k)), 'whole', 'the whole buffer is written', e.where())
                got.append(b)
            else:
                got.append((plain(strip(e.args[1])), plain(strip(e.args[2]))))
        s.ob(got == bufs + tail(W), 'what', 'the encrypted, else the compressed, else the original data is written, in order', None, str(got)[:300])


def writer_agrees(prog, res):
    # regions
    s = Spec(prog, res, 'region_writer_stop', interest=['compression_compress', 'encryption_encrypt'], stores=[('Region', 'size')])
    v = s.v
    W = ('a', 0)
    encode(s, W, 'RegionWriter', ['meta', 'data'], '')
    st = v.stores_of('Region', 'size')
    s.must(done(s), st, 'size', 'the size of the region is stored')
    m, d = ('fld', W, 'RegionWriter', 'meta'), ('fld', W, 'RegionWriter', 'data')
    P, B = lambda b: ('ld', ('fld', b, 'Buf', 'position')), lambda b: ('ld', ('fld', b, 'Buf', 'start'))
    both = {P(m): 1, B(m): -1, P(d): 1, B(d): -1}
    for e in st:
        s.ob(all(lin(x) == both for x in s.leaves(e.args[1], e.cond)) and base_of(plain(e.args[0]), 'Region') == B(m), 'size-of',
             'the size of its header, offsets and events', e.where())
        s.ob(all(o.order > e.order for o in v.calls('compression_compress', 'encryption_encrypt')), 'size-before', 'before the region is encoded', e.where())
    s = Spec(prog, res, 'region_writer_add', interest=['buf_write', 'event_size'], stores=[('Region', 'events')])
    v = s.v
    wr = v.calls('buf_write')
    wm, wd = [e for e in wr if plain(strip(e.args[0])) == m], [e for e in wr if plain(strip(e.args[0])) == d]
    s.must(1, wm, 'offset', 'the offset of an event is added to the header')
    s.must(1, wd, 'event', 'the event is added to the data')
    for e in wm:
        o = e.guard.get(strip(e.args[1]))
        s.ob(o is not None and size_of(o, d) and strip(e.args[2]) == ('i', 4), 'offset-of', 'the place where the event is going to be', e.where())
        from cond import root
    for e in wd:
        s.ob(strip(e.args[1]) == ('a', 1) and (is_call(e.args[2], 'event_size') and arg(e.args[2], 0) == ('a', 1) or
             lin(e.args[2]) == event_bytes(prog)), 'event-whole', 'all of it', e.where(), str(lin(e.args[2]))[:300])
    offs = [x for e in wm for x in [e.guard.get(strip(e.args[1]))] if x is not None]
    for e in wd:
        # the size was taken before the event was added
        s.ob(all(m.order < e.order for m in wm), 'offset-before', 'taken before the event is added', e.where())
    ct = v.stores_of('Region', 'events')
    s.must(1, ct, 'count', 'the event is counted')
    for e in ct:
        s.ob(lin(e.args[1]).get((), 0) == 1 and len(lin(e.args[1])) == 2 and has_path(e.args[1], 'Region.events'), 'count-one', 'once', e.where())
    iov(prog, res, 'region_writer_add_to_iov', 'RegionWriter', ['meta', 'data'], lambda W: [])
    N = prog.structs['Index']['size']
    iov(prog, res, 'index_writer_add_to_iov', 'IndexWriter', ['data'], lambda W: [(('fld', W, 'IndexWriter', 'index'), ('i', N))])


def event_bytes(prog):
    E = ('a', 1)
    return {('ld', ('fld', E, 'Event', 'key_size')): 1, ('ld', ('fld', E, 'Event', 'data_size')): 1, (): prog.structs['Event']['size']}


def index_agrees(prog, res):
    s = Spec(prog, res, 'index_writer_add', interest=['crc32', 'buf_reserve'], stores=['*'])
    v = s.v
    IW, RW = ('a', 0), ('a', 1)
    enc, com = s.nz('IndexWriter.encryption'), s.nz('IndexWriter.compression')
    r2 = s.nz('RegionWriter.encryption'), s.nz('RegionWriter.compression')
    # both writers work for one storage
    agree = 1
    for a, b in ((enc, r2[0]), (com, r2[1])):
        if s.made(a) and s.made(b):
            agree = s.and_(agree, s.or_(s.and_(a, b), s.and_(s.not_(a), s.not_(b))))
    if not s.made(enc):
        enc = r2[0]
    if not s.made(com):
        com = r2[1]
    f = lambda n: ('fld', RW, 'RegionWriter', n)
    cases = [(enc, [f('encrypted')]), (s.and_(s.not_(enc), com), [f('compressed')]), (s.and_(s.not_(enc), s.not_(com)), [f('meta'), f('data')])]
    rg = lambda n: (lambda x: x[0] in ('ld', 'cast') and is_path(x, 'Region.' + n) and has_path(x, 'RegionWriter.meta') and origin(x) == RW)
    st = lambda n: v.stores_of('IndexRegion', n)
    ixs = lambda n: v.stores_of('Index', n)

    def written(x, k, bufs):
        if len(bufs) == 1:
            return size_of(x, bufs[0])
        want = {}
        for b in bufs:
            want = ladd(want, {('ld', ('fld', b, 'Buf', 'position')): 1, ('ld', ('fld', b, 'Buf', 'start')): -1})
        return rg('size')(strip(x)) or lin(x) == want
    for e in s.one(st('offset'), 'offset', 'the place of the region is stored'):
        s.ob(strip(e.args[1])[0] == 'cast' and strip(e.args[1])[4] == ('a', 2) or strip(e.args[1]) == ('a', 2), 'offset-of', 'the place of the region is stored', e.where())
    for n, evs in (('size', st('size')),):
        s.must(1, evs, 'size', 'the size of what is written is stored')
        for e in evs:
            for k, bufs in cases:
                s.ob(all(written(x, k, bufs) for x in s.leaves(e.args[1], s.and_(agree, k))), 'size-of', 'the size of what is written is stored', e.where())
    crc = s.nz('IndexWriter.crc')
    s.must(1, st('crc'), 'crc', 'the checksum is stored')
    for e in st('crc'):
        for k, bufs in cases:
            s.ob(crc_over(s, e.args[1], s.and_(crc, s.and_(agree, k)), bufs), 'crc-of', 'the checksum of exactly what is written', e.where())
        s.ob(all(strip(x) == ('i', 0) for x in s.leaves(e.args[1], s.not_(crc))), 'crc-off', 'or zero if checksums are off', e.where())
    for n, w in (('size_origin', 'size'), ('events', 'events')):
        s.must(1, st(n), n, 'the %s of the region is stored' % w)
        for e in st(n):
            s.ob(s.each(e.args[1], lambda x: rg(w)(strip(x))), n + '-of', 'the %s of the region is stored' % w, e.where())
    for S, n in ((x, y) for x in ('IndexRegion',) for y in ('offset', 'crc', 'size', 'size_origin', 'events')):
        for e in v.stores_of(S, n):
            p = base_of(plain(e.args[0]), S)
            s.ob(p == ('ld', ('fld', ('fld', IW, 'IndexWriter', 'data'), 'Buf', 'position')), 'entry', 'in a new entry of the index', e.where())
    adv = [e for e in v.stores_of('Buf', 'position') if origin(e.args[0]) == IW and has_path(e.args[0], 'IndexWriter.data')]
    N = prog.structs['IndexRegion']['size']
    s.must(1, adv, 'entry-add', 'which is kept')
    for e in adv:
        s.ob(at_byte(e.args[1]).get(()) == N, 'entry-size', 'which is kept', e.where())
    s.before(v.calls('buf_reserve'), st('offset'), 'entry-room', 'after room was made for it')
    for e in v.calls('buf_reserve'):
        s.ob(strip(e.args[1])[0] == 'i' and strip(e.args[1])[1] >= N and is_path(e.args[0], 'IndexWriter.data'), 'entry-room', 'after room was made for it', e.where())

    def total(n, pred, msg):
        s.must(1, ixs(n), n, msg)
        for e in ixs(n):
            for k, bufs in cases:
                for x in s.leaves(e.args[1], s.and_(agree, k)):
                    d = lin(x)
                    me = [t for t in d if t != () and is_path(t, 'Index.' + n) and origin(t) == IW]
                    ok = len(me) == 1 and d[me[0]] == 1
                    if ok:
                        d = {t: c for t, c in d.items() if t != me[0]}
                        ok = pred(d, k, bufs)
                    s.ob(ok, n, msg, e.where(), str(x)[:200])

    def bytes_(d, k, bufs):
        want = {}
        for b in bufs:
            want = ladd(want, {('ld', ('fld', b, 'Buf', 'position')): 1, ('ld', ('fld', b, 'Buf', 'start')): -1})
        return d == want or len(bufs) > 1 and len(d) == 1 and all(rg('size')(t) and c == 1 for t, c in d.items())
    total('regions', lambda d, k, b: d == {(): 1}, 'every region is counted')
    total('events', lambda d, k, b: len(d) == 1 and all(rg('events')(t) and c == 1 for t, c in d.items()), 'its events are counted')
    total('size', lambda d, k, b: d == {(): N}, 'its entry is counted')
    total('size_regions', bytes_, 'what is written is counted')
    total('size_regions_origin', lambda d, k, b: len(d) == 1 and all(rg('size')(t) and c == 1 for t, c in d.items()), 'its original size is counted')

    # the index itself
    s = Spec(prog, res, 'index_writer_stop', interest=['compression_compress', 'encryption_encrypt', 'crc32'], stores=['*'])
    v = s.v
    encode(s, IW, 'IndexWriter', ['data'], 'index-')
    k0, enc, com = encodings(s, 'IndexWriter')
    cases = stages(s, IW, 'IndexWriter', ['data'])
    old = lambda n: (lambda t: t[0] in ('ld', 'cast') and is_path(t, 'Index.' + n) and origin(t) == IW)
    IN = prog.structs['Index']['size']
    sz = ixs2 = lambda n: v.stores_of('Index', n)

    def fin(n, k):
        s.must(s.and_(done(s), k), sz(n), 'index-' + n, 'the index is completed')
        return [strip(x) for c, x in s.final(sz(n)) if v.possible(s.and_(c, k))]

    def wrote(d, k, bufs):
        if bufs[0][3] == 'data' and len(d) == 1 and all(old('size')(t) and c == 1 for t, c in d.items()):
            return True
        return d == {('ld', ('fld', bufs[0], 'Buf', 'position')): 1, ('ld', ('fld', bufs[0], 'Buf', 'start')): -1}
    for k, bufs in cases:
        xs = fin('size', k)
        s.ob(bool(xs) and all(wrote(lin(x), k, bufs) for x in xs), 'index-size', 'the index says how large its data is as written', None, str(xs)[:200])
        xs = fin('size_total', k)
        for x in xs or [('i', 0)]:
            d = lin(x)
            me = [t for t in d if t != () and old('size_regions')(t)]
            ok = len(me) == 1 and d[me[0]] == 1 and d.get(()) == IN
            ok = ok and wrote({t: c for t, c in d.items() if t not in (me[0], ())}, k, bufs)
            s.ob(ok, 'index-total', 'and how large the file is', None, str(x)[:200])
        s.ob(bool(fin('crc_data', k)) and all(crc_over(s, x, k, bufs) for x in fin('crc_data', k)), 'index-crc', 'and the checksum of its data as written')
    xs = fin('size_origin', 1)
    s.ob(bool(xs) and all(old('size')(x) for x in xs), 'index-origin', 'and how large it is decoded')
    for n, a in (('refreshes', 2), ('time_create', 3), ('time_refresh', 4), ('lsn', 5)):
        xs = fin(n, 1)
        s.ob(xs == [('a', a)], 'index-' + n, 'and the %s of the partition' % n)
    for n, on in (('compression', com), ('encryption', enc)):
        xs = fin(n, on)
        s.ob(bool(xs) and all(is_path(x, '%sIf.id' % n.capitalize()) and has_path(x, 'IndexWriter.' + n) for x in xs), 'index-' + n, 'and how it was encoded')
        xs = fin(n, s.and_(k0, s.not_(on)))
        s.ob(xs == [('i', 0)], 'index-no-' + n, 'and how it was not')
    s.ob([x for x in fin('magic', 1)] == [('i', prog_const(prog))], 'index-magic', 'and the mark of a partition file')
    s.ob(fin('version', 1) == [('i', 0)], 'index-version', 'and its version')
    cr = [e for e in v.calls('crc32') if at_byte(e.args[1]) in (at_byte(('fld', IW, 'IndexWriter', 'index')),)]
    st = sz('crc')
    s.must(1, cr, 'own-crc', 'the checksum of the index is stored')
    for e in cr:
        zero = [x for x in st if x.order < e.order]
        s.ob(strip(e.args[0]) == ('i', 0) and strip(e.args[2]) == ('i', IN), 'own-crc-all', 'of all of the index', e.where())
        s.must(e.cond, [x for x in zero if all(strip(y) == ('i', 0) for _, y in gates(x.args[1]))], 'own-crc-zero', 'with an empty checksum')
        late = [x for x in v.events if x.kind == 'store' and x.name[0] == 'Index' and x.name[1] != 'crc' and x.order > e.order]
        s.ob(not late, 'own-crc-last', 'after everything else is set', e.where())
        fs = [x for c, x in s.final(st)]
        s.ob(bool(fs) and all(same(x, e.value) for x in fs), 'own-crc-kept', 'the checksum of the index is stored', e.where())


def prog_const(prog):
    return 0x20849615


def source_of(x):
    """what a value was read from, conversions ignored"""
    x = origin(x)
    while x[0] == 'cast':
        x = origin(x[4])
    return x


def zeroed(s, addr, S):
    """the object is cleared"""
    ms = [e for e in s.v.calls('llvm.memset') if plain(strip(e.args[0])) == addr and strip(e.args[1]) == ('i', 0)
          and strip(e.args[2]) == ('i', s.prog.structs[S]['size'])]
    s.must(done(s), ms, 'empty-' + S.lower(), 'it starts from nothing')


def keeps(s, x, n):
    """x is the argument, or its truth value"""
    x = strip(x)
    if x[0] == 'bdd':
        return s.v.equal(x[1], s.test(lambda t: t == ('a', n)))
    return x == ('a', n) or x[0] == 'bin' and x[1] == 'and' and x[2] == ('a', n) and x[3] == ('i', 1)


def writer_order(prog, res):
    # one region after the other, then the index
    names = ['region_writer_stop', 'index_writer_add', 'region_writer_add_to_iov', 'file_writev', 'iov_reset', 'index_writer_stop',
             'index_writer_add_to_iov', 'file_sync', 'compression_mgr_push', 'encryption_mgr_push', 'region_writer_reset', 'region_writer_start',
             'region_writer_add']
    s = Spec(prog, res, 'writer_stop', interest=names, expand=['writer_stop_region'])
    v = s.v
    W = ('a', 0)
    g = {n: v.calls(n) for n in names}
    active = s.test(lambda x: is_path(x, 'IndexWriter.active'))
    d = s.and_(done(s), active)
    region = ('fld', W, 'Writer', 'region_writer')
    meta = ('fld', region, 'RegionWriter', 'meta')
    some = s.lrel('gt', [(('ld', ('fld', meta, 'Buf', 'position')), 1), (('ld', ('fld', meta, 'Buf', 'start')), -1)])
    s.ob(s.made(some), 'open', 'the last region is written')
    s.must(s.and_(d, some), g['region_writer_stop'], 'region', 'the last region is completed')
    s.must(s.and_(d, some), g['index_writer_add'], 'region-index', 'and added to the index')
    flushed(s, g, some, d)
    s.must(d, g['index_writer_stop'], 'index', 'the index is completed')
    s.before(g['index_writer_add'], g['index_writer_stop'], 'index-after', 'after the last region was added', some)
    for e in g['index_writer_stop']:
        s.ob([strip(x) for x in e.args[1:6]] == [('a', n) for n in range(1, 6)], 'index-of', 'for the partition', e.where())
    last = [e for e in g['file_writev'] if any(a.order < e.order and a.order > i.order and v.implies(e.cond, a.cond)
                                               for a in g['index_writer_add_to_iov'] for i in g['index_writer_stop'])]
    s.must(d, last, 'index-write', 'the index is written')
    s.before(g['index_writer_stop'], g['index_writer_add_to_iov'], 'index-write-after', 'after it was completed')
    for e in last:
        adds = [a for a in g['index_writer_add_to_iov'] if a.order < e.order]
        rs = [r for r in g['iov_reset'] if adds and r.order < adds[-1].order and all(not (a.order > r.order and a.order < e.order)
                                                                                      for a in g['region_writer_add_to_iov'])]
        s.must(e.cond, rs, 'index-alone', 'without anything written before')
        whole(s, e, W)
    syn = s.and_(s.test(lambda x: x == ('a', 6)), s.nz('Config.sync'))
    s.must(s.and_(d, syn), [e for e in g['file_sync'] if all(e.order > w.order for w in last)], 'sync', 'a file is synced after it was written')
    for e in g['file_sync']:
        s.ob(is_path(e.args[0], 'Writer.file') and origin(e.args[0]) == W, 'sync-of', 'that file', e.where())

    s = Spec(prog, res, 'writer_add', interest=names, expand=['writer_stop_region', 'writer_start_region'])
    v = s.v
    g = {n: v.calls(n) for n in names}
    s.must(1, g['region_writer_add'], 'add', 'every event is added to a region')
    for e in g['region_writer_add']:
        s.ob(plain(strip(e.args[0])) == region and strip(e.args[1]) == ('a', 1), 'add-event', 'every event is added to a region', e.where())
        s.never([x for x in g['region_writer_reset'] + g['region_writer_start'] if x.order > e.order], 1, 'add-last', 'which is not dropped')
    some = s.lrel('gt', [(('ld', ('fld', meta, 'Buf', 'position')), 1), (('ld', ('fld', meta, 'Buf', 'start')), -1)])
    s.ob(s.made(some), 'started', 'the first event starts a region')
    rs = g['region_writer_reset']
    s.must(s.not_(some), g['region_writer_start'], 'start', 'the first event starts a region')
    k = s.and_(some, v.any(rs))
    # events with one id are never split
    same_id = s.test_eq(lambda x: is_path(x, 'Event.id') and has_path(x, 'RegionWriter.data'), lambda x: is_path(x, 'Event.id') and origin(x) == ('a', 1))
    s.ob(s.made(same_id), 'split', 'events which are equal are written to one region')
    s.never(rs, s.and_(some, same_id), 'split', 'events which are equal are written to one region')
    s.must(k, g['region_writer_stop'], 'full', 'a full region is completed')
    s.must(k, g['index_writer_add'], 'full-index', 'and added to the index')
    flushed(s, g, some, v.any(rs))
    s.after(rs, g['region_writer_start'], 'next', 'before the next one is started')
    for e in rs:
        s.ob(all(x.order < e.order for x in g['file_writev'] + g['index_writer_add'] + g['region_writer_stop'] if v.possible(s.and_(x.cond, e.cond))), 'next-after',
             'it is dropped only after it was written', e.where())
    for e in g['region_writer_start']:
        s.before(rs, [e], 'next-empty', 'with an empty region')
        ok = is_path(e.args[1], 'Writer.compression') and is_path(e.args[3], 'Writer.encryption') and has_path(e.args[2], 'Source.compression_level') \
            and is_path(e.args[4], 'Source.encryption_key') and all(source_of(x) == W for x in e.args[1:5])
        s.ob(ok, 'next-as', 'encoded as the storage says', e.where())
    s = Spec(prog, res, 'writer_start', interest=['compression_mgr_pop', 'encryption_mgr_pop', 'compression_mgr_of', 'encryption_mgr_of', 'index_writer_reset',
                                                  'index_writer_start'],
             stores=[('Writer', n) for n in ('source', 'file', 'compression', 'encryption')])
    v = s.v
    st = v.calls('index_writer_start')
    s.must(1, st, 'start', 'an index is started')
    s.before(v.calls('index_writer_reset'), st, 'start-empty', 'an empty one')
    for n in ('compression', 'encryption'):
        ev = v.stores_of('Writer', n)
        on = s.not_(s.rel('eq', lambda x: is_call(x, n + '_mgr_of') and is_path(arg(x, 1) or arg(x, 0), 'Source.' + n), 0))
        s.ob(s.made(on), n, 'the encoding of the storage is used')
        s.must(on, ev, n, 'the encoding of the storage is used')
        for e in ev:
            s.ob(all(is_call(x, n + '_mgr_pop') and is_call(arg(x, 1), n + '_mgr_of') for x in s.leaves(e.args[1], s.and_(on, e.cond))),
                 n + '-of', 'the encoding of the storage is used', e.where())
            s.ob(all(e.order < x.order for x in st), n + '-before', 'before the index is started', e.where())
    for e in st:
        for n, k in ((1, 'compression'), (3, 'encryption')):
            ok = all(is_path(x, 'Writer.' + k) or is_call(x, k + '_mgr_pop') for x in s.leaves(e.args[n], 1))
            s.ob(ok, 'start-' + k, 'the index is encoded as the storage says', e.where(), str(e.args[n])[:200])
        s.ob(is_path(e.args[2], 'Source.compression_level') and is_path(e.args[4], 'Source.encryption_key') \
            and all(source_of(e.args[n]) == ('a', 1) for n in (2, 4)), 'start-as', 'the index is encoded as the storage says', e.where())
        crc = s.nz('Source.crc')
        x = e.args[5]
        ok = all(is_path(y, 'Source.crc') for y in s.leaves(x, 1)) or x[0] == 'bdd' and s.made(crc) and v.equal(x[1], crc)
        s.ob(ok, 'start-crc', 'with checksums if the storage asks for them', e.where(), str(x))
    for e in v.stores_of('Writer', 'source') + v.stores_of('Writer', 'file'):
        s.ob(strip(e.args[1]) == ('a', {'source': 1, 'file': 2}[e.name[1]]), 'start-to', 'for the storage and file', e.where())
    for n in ('source', 'file'):
        s.must(done(s), v.stores_of('Writer', n), 'start-to', 'for the storage and file')
    # nothing is left of what was written before
    for fn, S, bufs in (('region_writer_reset', 'RegionWriter', ('meta', 'data', 'compressed', 'encrypted')),
                        ('index_writer_reset', 'IndexWriter', ('data', 'compressed', 'encrypted'))):
        s = Spec(prog, res, fn, interest=['llvm.memset'], stores=[('Buf', 'position')])
        for b in bufs:
            b = ('fld', ('a', 0), S, b)
            xs = [e for e in s.v.stores_of('Buf', 'position') if plain(e.args[0]) == ('fld', b, 'Buf', 'position') and start_of(e.args[1], b)]
            s.must(done(s), xs, 'reset-' + b[3], 'nothing is left of what was written before')
        if S == 'IndexWriter':
            zeroed(s, ('fld', ('a', 0), S, 'index'), 'Index')
    s = Spec(prog, res, 'region_writer_start', interest=['llvm.memset', 'buf_reserve'], stores=[('Buf', 'position')])
    m = ('fld', ('a', 0), 'RegionWriter', 'meta')
    zeroed(s, ('ld', ('fld', m, 'Buf', 'start')), 'Region')
    adv = [e for e in s.v.stores_of('Buf', 'position') if at_byte(e.args[1]) == ladd(lin(('ld', ('fld', m, 'Buf', 'position'))), {(): prog.structs['Region']['size']})]
    s.must(done(s), adv, 'header', 'a region starts with its header')
    for fn, S, ns in (('index_writer_start', 'IndexWriter', ('compression', 'compression_level', 'encryption', 'encryption_key', 'crc')),
                      ('region_writer_start', 'RegionWriter', ('compression', 'compression_level', 'encryption', 'encryption_key'))):
        s = Spec(prog, res, fn, stores=[(S, n) for n in ns] + [('Buf', 'position')])
        for k, n in enumerate(ns):
            xs = s.final(s.v.stores_of(S, n))
            s.ob(bool(xs) and all(keeps(s, x, k + 1) for _, x in xs), 'set-' + n, 'the encoding of the storage is used')


def whole(s, e, W):
    """all of the vector is written to the file"""
    io = ('fld', W, 'Writer', 'iov')
    ok = is_path(e.args[0], 'Writer.file') and origin(e.args[0]) == W
    ok = ok and plain(strip(e.args[1])) == ('ld', ('fld', ('fld', io, 'Iov', 'iov'), 'Buf', 'start'))
    ok = ok and plain(strip(e.args[2])) == ('ld', ('fld', io, 'Iov', 'iov_count'))
    s.ob(ok, 'write-all', 'all of it is written to the file', e.where())


def flushed(s, g, some, d):
    v = s.v
    W = ('a', 0)
    region = ('fld', W, 'Writer', 'region_writer')
    s.must(s.and_(d, some), g['region_writer_add_to_iov'], 'region-iov', 'and written')
    s.before(g['region_writer_stop'], g['index_writer_add'], 'region-order', 'after it was completed')
    s.before(g['region_writer_stop'], g['region_writer_add_to_iov'], 'region-order', 'after it was completed')
    for a in g['index_writer_add']:
        s.ob(is_path(a.args[2], 'Writer.file', 'File.size') and origin(a.args[2]) == W and plain(strip(a.args[1])) == region
             and plain(strip(a.args[0])) == ('fld', W, 'Writer', 'index_writer'), 'region-at', 'its place is the end of the file', a.where())
        s.ob(v.loaded_before(strip(a.args[2]), a), 'region-at', 'its place is the end of the file', a.where())
        early = [w for w in g['file_writev'] if w.order < a.order and v.possible(s.and_(w.cond, a.cond))]
        s.ob(not early, 'region-before', 'before it is written', a.where())
    for a in g['region_writer_add_to_iov']:
        s.ob(plain(strip(a.args[0])) == region and is_path(a.args[1], 'Writer.iov'), 'region-iov', 'and written', a.where())
        s.before([r for r in g['iov_reset'] if r.order < a.order], [a], 'region-alone', 'alone')
        nx = [w for w in g['file_writev'] if w.order > a.order]
        s.after([a], nx, 'region-write', 'and written')
        for w in nx[:1]:
            whole(s, w, W)


@rule('I02')
def i02(prog, res):
    parts(prog, res, writer_agrees, index_agrees, writer_order)
