"""C02: what is sent to a cloud and fetched from it is complete."""
import re

import bits
from ir import Broken, walk
from cond import gates, plain
from report import parts, rule
from rules_file import done, errors, impls
from rules_cloud import pl
from rules_refresh import text
from spec import Spec, is_call, is_path, ladd, lin, origin, strip

KEEP = ['id_path', 'mock_path', 'mock_mkdir', 'source_pathfmt', 's3_op_download', 's3_op_upload', 's3_op_delete', 's3_op_read', 's3_op_create_bucket', 's3_op_drop_bucket', 's3_request_execute',
        's3_request_prepare', 's3_request_encode_base64', 's3_io_allocate', 's3_io_free', 's3_get_io', 'cloud_config_copy', 'uuid_to_string', 'file_import', 'file_write_buf', 'file_write_nothrow',
        'file_pread_buf', 'file_open', 'file_create', 'file_sync', 'file_close', 'fs_exists', 'fs_unlink', 'fs_rename', 'vfs_read', 'buf_write', 'buf_reserve']
OPT = {'URL': 10002, 'CUSTOMREQUEST': 10036, 'FAILONERROR': 45, 'HTTPHEADER': 10023, 'UPLOAD': 46, 'INFILESIZE_LARGE': 30115, 'READFUNCTION': 20012, 'READDATA': 10009, 'WRITEFUNCTION': 20011, 'WRITEDATA': 10001}


def view(prog, res, fn, interest=(), stores=(), **kw):
    fs = prog.byname.get(fn.split('@')[0])
    if not fs:
        raise Broken('no ' + fn)
    return Spec(prog, res, fs[0], interest=[n for n in dict.fromkeys(list(interest) + KEEP) if prog.has(n) or n in interest], stores=list(stores),
                opaque=[n for n in KEEP if prog.has(n) and n != fn], **kw)


def kind(name):
    return 's3' if name.startswith('s3_') else 'mock'


def path_at(s, e, buf):
    """what the text in a buffer names when an event happens: a state of the partition file, or the object in the cloud"""
    buf = pl(buf)
    last = [p for p in s.v.calls('id_path', 'mock_path', 'source_pathfmt') if p.order < e.order and any(pl(a) == buf for a in p.args) and s.v.possible(s.and_(p.cond, e.cond))]
    if not last:
        return None
    p = last[-1]
    n = p.name.split('@')[0]
    if n == 'id_path':
        if [pl(a) for a in p.args[:2]] == [('a', 2), ('a', 1)] and pl(p.args[2])[0] == 'i':
            return pl(p.args[2])[1]
    elif n == 'mock_path':
        if [pl(a) for a in p.args[:2]] == [('a', 1), ('a', 2)]:
            return 'object'
    elif any(is_path(a, 'Id.min') for a in p.args) and any((text(s.prog, a) or '').startswith('mock/') for a in p.args):
        return 'object'
    return None


def named(s, e):
    """what the paths among the arguments of an event name"""
    out = []
    for a in e.args:
        if text(s.prog, a) is None:
            p = path_at(s, e, a)
            if p is not None:
                out.append(p)
    return out


# ------------------------------------------------------------------ the operations of every cloud
def table(prog, res):
    """a call of a cloud reaches the operation of that name"""
    for f, n in (('download', 3), ('upload', 3), ('remove', 3), ('read', 6), ('attach', 2), ('detach', 2)):
        name = 'cloud_' + f
        s = view(prog, res, name, impls(prog, 'CloudIf', f))
        v = s.v
        es = [e for e in v.events if e.kind in ('icall', 'call') and (e.name == ('*', 'CloudIf', f) or isinstance(e.name, str) and e.name.split('@')[0] in [x.split('@')[0] for x in impls(prog, 'CloudIf', f)])]
        s.one(es, f, 'the operation of the cloud is called')
        for e in es:
            s.ob([pl(a) for a in e.args[:n]] == [('a', k) for k in range(n)], f + '-args', 'with what it is called with', e.where())
        s.must(done(s), es, f, 'the operation of the cloud is called')


def downloads(prog, res):
    I, L = prog.enum('ID_INCOMPLETE'), prog.enum('ID')
    for fn in impls(prog, 'CloudIf', 'download'):
        s = view(prog, res, fn)
        v = s.v
        ex, un, cr, sy, rn = [v.calls(n) for n in ('fs_exists', 'fs_unlink', 'file_create', 'file_sync', 'fs_rename')]
        get = v.calls('s3_op_download') if kind(fn) == 's3' else v.calls('file_write_buf')
        for evs, key, what in ((cr, 'create', 'a file is created'), (get, 'fetch', 'and filled'), (rn, 'rename', 'and gets its final name')):
            s.one(evs, key, what)
            s.must(done(s), evs, key, what)
        for e in cr:
            s.ob(named(s, e) == [I], 'incomplete', 'a file which is being downloaded has a name which does not count', e.where())
        for e in un:
            s.ob(named(s, e) == [I], 'leftover-only', 'no other file is removed', e.where())
        there = s.or_(*[s.not_(v.eq(x.value, ('i', 0))) for x in ex if named(s, x) == [I]]) if ex else 1
        s.before(un, cr, 'leftover', 'what a failed download left is removed before', within=there)
        for e in rn:
            s.ob(named(s, e) == [I, L], 'rename-of', 'the downloaded file gets its final name', e.where())
        s.before(cr, get, 'create-first', 'the file is created before')
        s.before(get, rn, 'fetch-first', 'the file gets its final name only when it is complete')
        f = [pl(e.args[0]) for e in cr]
        for e in get:
            s.ob(any(pl(a) in f for a in e.args), 'fetch-to', 'into this file', e.where())
        if kind(fn) == 's3':
            for e in get:
                s.ob([pl(a) for a in e.args[1:3]] == [('a', 1), ('a', 2)], 'fetch-of', 'the partition asked for', e.where())
        else:
            im = v.calls('file_import')
            for e in get:
                s.ob(any(pl(x.args[0]) == pl(e.args[1]) and x.order < e.order and named(s, x) == ['object'] and v.implies(e.cond, x.cond) for x in im), 'fetch-of', 'the partition asked for', e.where())
        want = s.and_(s.nz('Source.sync'), s.nz('Config.sync'))
        s.ob(s.made(want), 'sync-asked', 'a file is on disk before it counts')
        ok = [e for e in sy if pl(e.args[0]) in f and all(x.order < e.order for x in get)]
        for e in rn:
            s.before([x for x in ok if x.order < e.order], [e], 'sync', 'a file is on disk before it counts', within=want)


def uploads(prog, res):
    L = prog.enum('ID')
    for fn in impls(prog, 'CloudIf', 'upload'):
        s = view(prog, res, fn)
        v = s.v
        if kind(fn) == 's3':
            op, put = v.calls('file_open'), v.calls('s3_op_upload')
            s.one(op, 'open', 'the file of the partition is opened')
            s.must(done(s), put, 'send', 'and sent')
            for e in op:
                s.ob(named(s, e) == [L], 'open-of', 'the file of the partition is opened', e.where())
            s.before(op, put, 'open-first', 'the file of the partition is opened before')
            for e in put:
                s.ob([pl(a) for a in e.args[1:3]] == [('a', 1), ('a', 2)] and any(pl(e.args[3]) == pl(x.args[0]) for x in op), 'send-of', 'and sent', e.where())
            continue
        im, cr, wr, un, ex = [v.calls(n) for n in ('file_import', 'file_create', 'file_write_buf', 'fs_unlink', 'fs_exists')]
        for evs, key, what in ((im, 'open', 'the file of the partition is read'), (cr, 'create', 'the object is created'), (wr, 'send', 'and filled')):
            s.one(evs, key, what)
            s.must(done(s), evs, key, what)
        for e in im:
            s.ob(named(s, e) == [L], 'open-of', 'the file of the partition is read', e.where())
        for e in cr + un:
            s.ob(named(s, e) == ['object'], 'create-of', 'the object of the partition is created', e.where())
        there = s.or_(*[s.not_(v.eq(x.value, ('i', 0))) for x in ex if named(s, x) == ['object']]) if ex else 1
        s.before(un, cr, 'leftover', 'what a failed upload left is removed before', within=there)
        for e in wr:
            s.ob(any(pl(e.args[0]) == pl(x.args[0]) for x in cr) and any(pl(e.args[1]) == pl(x.args[0]) for x in im), 'send-of', 'and filled', e.where())
        s.before(im, wr, 'open-first', 'the file of the partition is read before')


def removals(prog, res):
    for fn in impls(prog, 'CloudIf', 'remove'):
        s = view(prog, res, fn)
        v = s.v
        if kind(fn) == 's3':
            es = v.calls('s3_op_delete')
            s.one(es, 'remove', 'the object is removed')
            s.must(done(s), es, 'remove', 'the object is removed')
            for e in es:
                s.ob([pl(a) for a in e.args[1:3]] == [('a', 1), ('a', 2)], 'remove-of', 'the object of the partition', e.where())
            continue
        un, ex = v.calls('fs_unlink'), v.calls('fs_exists')
        there = s.or_(*[s.not_(v.eq(x.value, ('i', 0))) for x in ex if named(s, x) == ['object']]) if ex else 1
        s.one(un, 'remove', 'the object is removed')
        s.must(s.and_(done(s), there), un, 'remove', 'the object is removed')
        for e in un:
            s.ob(named(s, e) == ['object'], 'remove-of', 'the object of the partition', e.where())


def reads(prog, res):
    B, SZ, OFF = ('a', 3), ('a', 4), ('a', 5)
    for fn in impls(prog, 'CloudIf', 'read'):
        s = view(prog, res, fn)
        v = s.v
        if kind(fn) == 's3':
            es = v.calls('s3_op_read')
            for e in es:
                s.ob([pl(a) for a in e.args[1:6]] == [('a', 1), ('a', 2), B, SZ, OFF], 'read-of', 'of the partition, into the buffer', e.where())
        else:
            es = v.calls('file_pread_buf')
            op = v.calls('file_open')
            s.before(op, es, 'open', 'the object is opened')
            for e in op:
                s.ob(named(s, e) == ['object'], 'open-of', 'the object of the partition is opened', e.where())
            for e in es:
                s.ob([pl(a) for a in e.args[1:4]] == [B, SZ, OFF] and any(pl(e.args[0]) == pl(x.args[0]) for x in op), 'read-of', 'of the partition, into the buffer', e.where())
        s.one(es, 'read', 'the range is read')
        s.must(done(s), es, 'read', 'the range is read')


def buckets(prog, res):
    for f, op in (('attach', 's3_op_create_bucket'), ('detach', 's3_op_drop_bucket')):
        for fn in impls(prog, 'CloudIf', f):
            if kind(fn) != 's3':
                continue
            s = view(prog, res, fn)
            es = s.one(s.v.calls(op), f, 'the place of the storage is prepared or removed')
            s.must(done(s), es, f, 'the place of the storage is prepared or removed')
            for e in es:
                s.ob(pl(e.args[1]) == ('a', 1), f + '-of', 'of this storage', e.where())


# ------------------------------------------------------------------ requests
def field(s, e, f):
    x = s.content(e, e.args[0], 'S3Request', f)
    y = pl(x)
    if y == ('ld', ('fld', pl(e.args[0]), 'S3Request', f)):
        return ('i', 0)
    return y


def size(x):
    """the number of bytes in the buffer"""
    return lin(x) == {('ld', ('fld', ('a', 3), 'Buf', 'position')): 1, ('ld', ('fld', ('a', 3), 'Buf', 'start')): -1}


def requests(prog, res):
    I, SRC, ID = ('a', 0), ('a', 1), ('a', 2)
    for fn, method, ident in (('s3_op_download', 'GET', ID), ('s3_op_upload', 'PUT', ID), ('s3_op_delete', 'DELETE', ID), ('s3_op_read', 'GET', ID), ('s3_op_create_bucket', 'PUT', ('i', 0)),
                              ('s3_op_drop_bucket', 'DELETE', ('i', 0))):
        s = view(prog, res, fn, ['snprintf'], [('S3Upload', 'file_offset'), ('S3Upload', 'file')])
        v = s.v
        es = s.one(v.calls('s3_request_execute'), 'send', 'the request is sent')
        s.must(done(s), es, 'send', 'the request is sent')
        for e in es:
            g = lambda f: field(s, e, f)
            w = e.where()
            s.ob(text(prog, g('method')) == method, 'method', 'it asks for what is to be done', w)
            s.ob((g('io'), g('source'), g('id')) == (I, SRC, ident), 'object', 'with the object of the partition', w)
            rd, wr = g('on_read'), g('on_write')
            cb = lambda x, n: x[0] == 'f' and x[1].split('@')[0] == n
            if fn == 's3_op_download':
                ok = x_null(rd) and wr[0] == 'f' and g('arg') == ('a', 3) and x_null(g('range'))
                if wr[0] == 'f':
                    to_file(prog, res, wr[1])
                s.ob(ok, 'data', 'the whole object is written to the file', w)
            elif fn == 's3_op_upload':
                ok = x_null(wr) and rd[0] == 'f' and g('content_length') == ('ld', ('fld', ('a', 3), 'File', 'size')) and not x_null(g('content_type')) and g('arg')[0] == 'al'
                s.ob(ok, 'data', 'the whole file is sent', w)
                if ok:
                    s.ob(pl(s.content(e, g('arg'), 'S3Upload', 'file')) == ('a', 3) and pl(s.content(e, g('arg'), 'S3Upload', 'file_offset')) in (('i', 0), ('ld', ('fld', g('arg'), 'S3Upload', 'file_offset'))),
                         'data-start', 'from its start', w)
                    from_file(prog, res, rd[1])
            elif fn == 's3_op_read':
                ok = x_null(rd) and wr[0] == 'f' and g('arg') == ('a', 3)
                s.ob(ok, 'data', 'what is received is written to the buffer', w)
                if wr[0] == 'f':
                    to_buffer(prog, res, wr[1])
                r = g('range')
                fm = [x for x in v.calls('snprintf') if pl(x.args[0]) == r and x.order < e.order and v.implies(e.cond, x.cond)]
                ok = False
                for x in fm:
                    ok = text(prog, x.args[2]) == 'bytes=%lu-%lu' and lin(x.args[3]) == {('a', 5): 1} and ladd(lin(x.args[4]), {('a', 5): 1, ('a', 4): 1, (): -1}, -1) == {}
                s.ob(ok, 'range', 'the first and the last byte of the range are asked for', w)
                full = None
                for a in list(s.b.vars):
                    if a[0] == 'eq' and ('a', 4) in (pl(a[1]), pl(a[2])):
                        full = v.eq(a[1], a[2])
                s.ob(full is not None and v.implies(done(s), full) and not v.implies(1, full), 'complete', 'a range which is not complete is an error', w)
            else:
                s.ob(x_null(rd) and x_null(wr) and x_null(g('range')), 'data', 'nothing is sent or received', w)


def x_null(x):
    return x == ('i', 0)


def amount(x):
    """len * nmemb"""
    x = pl(x)
    if x[0] == 'cast':
        x = pl(x[4])
    return x[0] == 'bin' and x[1] == 'mul' and {pl(x[2]), pl(x[3])} == {('a', 1), ('a', 2)}


def failures(s, es):
    """one of the calls returned an error"""
    out = []
    for e in es:
        for a in list(s.b.vars):
            if a[0] == 'eq':
                for x, y in ((a[1], a[2]), (a[2], a[1])):
                    p = pl(x)
                    if p[0] == 'cast':
                        p = pl(p[4])
                    if p == pl(e.value) and y == ('i', -1):
                        out.append(s.v.eq(x, y))
    return s.or_(*out)


def to_file(prog, res, key):
    s = Spec(prog, res, prog.functions[key], interest=['file_write_nothrow'], opaque=['file_write_nothrow'])
    v = s.v
    es = s.one(v.calls('file_write_nothrow'), 'write', 'what is received is written')
    for e in es:
        s.ob(pl(e.args[0]) == ('a', 3) and pl(e.args[1]) == ('a', 0) and amount(e.args[2]) and v.equal(e.cond, 1), 'write-of', 'all of it', e.where())
    bad = failures(s, es)
    for c, x in gates(v.ret):
        x = pl(x)
        fail = s.and_(c, bad)
        s.ob(not v.possible(fail) or x in (('i', 0), ('i', -1)), 'write-failed', 'a failed write stops the transfer')
        good = s.and_(c, s.not_(bad))
        s.ob(not v.possible(good) or amount(x) or any(pl(e.value) == x or x[0] == 'cast' and pl(x[4]) == pl(e.value) for e in es), 'write-done', 'and a successful one does not')


def to_buffer(prog, res, key):
    s = Spec(prog, res, prog.functions[key], interest=['buf_write'], opaque=['buf_write'], throws=True)
    v = s.v
    es = s.one(v.calls('buf_write'), 'write', 'what is received is kept')
    for e in es:
        s.ob(pl(e.args[0]) == ('a', 3) and pl(e.args[1]) == ('a', 0) and amount(e.args[2]) and v.equal(e.cond, 1), 'write-of', 'all of it', e.where())
    bad = v.failed()
    s.ob(bad != 0, 'caught', 'an error does not pass through the transfer')
    for c, x in gates(v.ret):
        x = pl(x)
        s.ob(not v.possible(s.and_(c, bad)) or x == ('i', 0), 'write-failed', 'a failed write stops the transfer')
        s.ob(not v.possible(s.and_(c, s.not_(bad))) or amount(x), 'write-done', 'and a successful one does not')


def from_file(prog, res, key):
    s = Spec(prog, res, prog.functions[key], interest=['vfs_read'], opaque=['vfs_read'], stores=[('S3Upload', 'file_offset')])
    v = s.v
    U = ('a', 3)
    left = lambda x: lin(x) == {('ld', ('fld', ('ld', ('fld', U, 'S3Upload', 'file')), 'File', 'size')): 1, ('ld', ('fld', U, 'S3Upload', 'file_offset')): -1}
    es = s.one(v.calls('vfs_read'), 'read', 'the file is read')
    st = s.one(v.stores_of('S3Upload', 'file_offset'), 'offset', 'what was read is counted')
    for e in es:
        s.ob(is_path(e.args[0], 'S3Upload.file', 'File.fd') and pl(e.args[1]) == ('a', 0), 'read-of', 'the file is read', e.where())
        for c, x in gates(e.args[2]):
            c = s.and_(c, e.cond)
            if not v.possible(c):
                continue
            ok = (left(x) or amount(x))
            # not more than what is left, and not more than there is room for
            for a in list(s.b.vars):
                if a[0] == 'lt' and left(pl(a[2])) and amount(a[3]):
                    cond = v.cmp(a[1] + 'le', a[2], a[3]) if left(x) else v.cmp(a[1] + 'ge', a[2], a[3])
                    ok = ok and v.implies(c, cond)
                elif a[0] == 'lt' and amount(a[2]) and left(pl(a[3])):
                    cond = v.cmp(a[1] + 'ge', a[2], a[3]) if left(x) else v.cmp(a[1] + 'le', a[2], a[3])
                    ok = ok and v.implies(c, cond)
            s.ob(ok and any(a[0] == 'lt' for a in s.b.vars), 'read-size', 'as much as is left and there is room for', e.where())
    bad = failures(s, es)
    for e in st:
        ok = True
        for c, x in gates(e.args[1]):
            d = ladd(lin(x), {('ld', ('fld', U, 'S3Upload', 'file_offset')): 1}, -1)
            n = [y for r in es for c2, y in gates(r.args[2]) if v.possible(s.and_(c, c2, e.cond)) and ladd(lin(y), d, -1) == {}]
            ok = ok and (not v.possible(s.and_(c, e.cond)) or bool(n))
        s.ob(ok, 'offset-by', 'what was read is counted', e.where())
    s.must(s.and_(v.any(es), s.not_(bad)), st, 'offset', 'what was read is counted')
    for c, x in gates(v.ret):
        x = pl(x)
        s.ob(not v.possible(s.and_(c, v.any(es), bad)) or x == ('i', 0x10000000), 'failed', 'a failed read stops the transfer')
        s.ob(not v.possible(s.and_(c, v.any(es), s.not_(bad))) or left(x) or amount(x), 'result', 'the result is how much was read')
        s.ob(not v.possible(s.and_(c, s.not_(v.any(es)))) or x == ('i', 0), 'end', 'nothing is sent at the end')


# ------------------------------------------------------------------ signing and sending
def pieces(s, e, off=2, depth=0):
    """a text as a list of constant and variable pieces"""
    fmt = text(s.prog, e.args[off])
    if fmt is None or depth > 4:
        return None
    args = list(e.args[off + 1:])
    out = []
    lit = ''
    i = 0
    while i < len(fmt):
        ch = fmt[i]
        if ch != '%':
            lit += ch
            i += 1
            continue
        j = i + 1
        while j < len(fmt) and fmt[j] not in 'sdufxc%':
            j += 1
        conv = fmt[i:j + 1]
        i = j + 1
        if conv == '%%':
            lit += '%'
            continue
        if '*' in conv:
            if len(args) < 2:
                return None
            n, p = args[0], args[1]
            args = args[2:]
            P = pl(p)
            ok = P[0] == 'ld' and P[1][0] == 'fld' and P[1][2:] == ('Str', 'pos') and lin(n) == {('ld', ('fld', P[1][1], 'Str', 'end')): 1, P: -1}
            if not ok:
                return None
            if lit:
                out.append(lit)
                lit = ''
            out.append(('text', P[1][1]))
            continue
        if not args:
            return None
        a, args = args[0], args[1:]
        A = pl(a)
        src = [x for x in s.v.calls('snprintf') if A[0] == 'al' and pl(x.args[0]) == A and x.order < e.order and s.v.implies(e.cond, x.cond)]
        if conv == '%s' and src:
            sub = pieces(s, src[-1], 2, depth + 1)
            if sub is None:
                return None
            for x in sub:
                if isinstance(x, str):
                    lit += x
                else:
                    if lit:
                        out.append(lit)
                        lit = ''
                    out.append(x)
            continue
        if conv == '%s' and text(s.prog, A) is not None:
            lit += text(s.prog, A)
            continue
        if lit:
            out.append(lit)
            lit = ''
        out.append((conv, a))
    if lit:
        out.append(lit)
    return out


def describe(s, e, ps, uuid):
    """the pieces of a request by what they are"""
    out = []
    for x in ps or ():
        if isinstance(x, str):
            out.append(x)
        elif x[0] == 'text':
            out.append('url' if is_path(x[1], 'CloudConfig.url') else 'login' if is_path(x[1], 'CloudConfig.login') else '?')
        elif x[0] == '%s':
            a = x[1]
            if is_path(a, 'S3Request.method'):
                out.append('method')
            elif is_path(a, 'S3Request.date'):
                out.append('date')
            elif all(is_path(y, 'S3Request.content_type') and s.v.implies(s.and_(c, e.cond), s.nz('S3Request.content_type')) or text(s.prog, y) == '' and s.v.implies(s.and_(c, e.cond), s.not_(s.nz('S3Request.content_type')))
                     for c, y in gates(a)):
                out.append('type')
            elif pl(a) in uuid:
                out.append('uuid')
            else:
                out.append(('buffer', pl(a)))
        elif is_path(x[1], 'Id.min'):
            out.append('id:' + x[0])
        else:
            out.append('?')
    return out


def signing(prog, res):
    s = view(prog, res, 's3_request_prepare', ['snprintf', 'HMAC', 'strftime', 's3_request_encode_base64'])
    v = s.v
    uu = s.one(v.calls('uuid_to_string'), 'uuid', 'the object is in the place of its storage')
    for e in uu:
        s.ob(is_path(e.args[0], 'Source.uuid') and origin(e.args[0]) == ('a', 0), 'uuid-of', 'the object is in the place of its storage', e.where())
    uuid = [pl(e.args[1]) for e in uu]
    has = s.nz('S3Request.id')
    dates = v.calls('strftime')
    s.one(dates, 'date', 'the request has a date')
    for e in dates:
        s.ob(is_path(e.args[0], 'S3Request.date'), 'date-of', 'the request has a date', e.where())
    mac = s.one(v.calls('HMAC'), 'sign', 'the request is signed')
    b64 = v.calls('s3_request_encode_base64')
    for e in mac:
        a = e.args
        key = pl(a[1])
        ok = is_call(a[0], 'EVP_sha1') and is_path(a[1], 'CloudConfig.password', 'Str.pos') and lin(a[2]) == {('ld', ('fld', key[1][1], 'Str', 'end')): 1, key: -1}
        s.ob(ok, 'sign-key', 'with the secret key', e.where())
        for want, key, cond in ((['method', '\n\n', 'type', '\n', 'date', '\n/', 'uuid', '/', 'id:%020lu'], 'partition', has), (['method', '\n\n', 'type', '\n', 'date', '\n/', 'uuid'], 'storage', s.not_(has))):
            c = s.and_(e.cond, cond)
            hs = [x for x in v.calls('snprintf') if pl(x.args[0]) == pl(a[3]) and x.order < e.order and v.possible(s.and_(x.cond, c))]
            ok = bool(hs) and v.implies(c, v.any(hs))
            for x in hs:
                ok = ok and describe(s, x, pieces(s, x), uuid) == want and all(y.order < x.order for y in dates)
                ok = ok and any(pl(y) == pl(x.value) for k, y in gates(a[4]) if v.possible(s.and_(k, c, x.cond)))
            s.ob(ok, 'sign-' + key, 'what is asked for, when, and of which object is signed', e.where())
            # the same object is asked for
            us = [x for x in v.calls('snprintf') if is_path(x.args[0], 'S3Request.url') and v.possible(s.and_(x.cond, cond))]
            ok = bool(us) and v.implies(s.and_(done(s), cond), v.any(us))
            for x in us:
                ok = ok and describe(s, x, pieces(s, x), uuid) == ['url', '/', 'uuid'] + (['/', 'id:%020lu'] if key == 'partition' else [])
            s.ob(ok, 'url-' + key, 'the request goes to the object which is signed', us[0].where() if us else None)
        s.ob(any(pl(x.args[0]) == pl(a[5]) and x.order > e.order for x in b64), 'encode', 'the signature is sent', e.where())
    au = [x for x in v.calls('snprintf') if is_path(x.args[0], 'S3Request.authorization')]
    s.one(au, 'authorization', 'the signature is sent')
    s.must(done(s), au, 'authorization', 'the signature is sent')
    for x in au:
        d = describe(s, x, pieces(s, x), uuid)
        s.ob(d[:3] == ['AWS ', 'login', ':'] and len(d) == 4 and any(d[3] == ('buffer', pl(y.args[1])) and y.order < x.order for y in b64), 'authorization-of', 'the signature is sent with the access key', x.where())


TABLE = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'


def encoding(prog, res):
    """the text of the signature: every bit of the digest in its place"""
    fn = [f for f in prog.byname['s3_request_encode_base64']][0]
    try:
        out = bits.run(fn)
    except bits.Unknown as e:
        res.count('undecided', 1)
        return
    N = 20
    at0 = fn.blocks[0][0].where()
    src = [(('a', 0), b, k) for b in range(N) for k in range(7, -1, -1)]
    at = lambda k: out.get((('a', 1), k))
    bad = []
    for k in range((len(src) + 5) // 6):
        want = (src[6 * k:6 * k + 6] + [0] * 6)[:6][::-1]
        got = at(k)
        if not (got and got[0] == 'table' and got[1] == TABLE and list(got[2][:6]) == want and not any(got[2][6:])):
            bad.append(k)
    res.ob(not bad, 'encode:bits', at0, 'every character encodes its six bits of the digest', 'characters %s' % bad)
    res.ob(bits.number(at(27)) == ord('=') and bits.number(at(28)) == 0, 'encode:end', at0, 'the text is padded and ends with a zero')
    most = max(o for a, o in out) + 1
    res.ob(min(o for a, o in out) >= 0 and most == 29, 'encode:size', at0, 'nothing else is written')
    read = 0
    for c in prog.calls_of(fn.key):
        for n, need in ((0, N), (1, most)):
            o = c.o[n]
            i = c.fn.insts.get(o[1]) if o[0] == 'v' else None
            while i is not None and i.op == 'getelementptr' and all(x[0] in ('x', 'e') and x[1][:2] == ['i', 0] for x in i.path):
                i = c.fn.insts.get(i.o[0][1]) if i.o[0][0] == 'v' else None
            if i is not None and i.op == 'alloca':
                m = re.match(r'\[(\d+) x i8\]$', i.at or '')
                res.ob(bool(m) and int(m.group(1)) >= need, 'encode:room-%d' % n, c.where(), 'there is room for the text of the signature', i.at)
                read += 1
    res.count('buffers', read)


def validated(prog, res):
    """a cloud without an address or a key cannot be created"""
    for fn in impls(prog, 'CloudIf', 'create'):
        if kind(fn) != 's3':
            continue
        s = view(prog, res, fn, throws=True)
        v = s.v
        empty = {f: s.or_(*[v.eq(x[1], x[2]) for x in list(s.b.vars) if x[0] == 'eq' and named_str(x[1], x[2], f)]) for f in ('login', 'password', 'url')}
        for f in empty:
            s.ob(empty[f] != 0 and not v.possible(s.and_(done(s), empty[f])), 'defined-' + f, 'an s3 cloud has an address and keys')
        s.ob(v.possible(s.and_(done(s), *[s.not_(x) for x in empty.values()])), 'usable', 'and one which has them can be created')


def named_str(a, b, f):
    """comparison of both ends of a text, or of its length with zero"""
    for x, y in ((a, b), (b, a)):
        x, y = pl(x), pl(y)
        if is_path(x, 'CloudConfig.' + f, 'Str.end') and (is_path(y, 'CloudConfig.' + f, 'Str.pos')):
            return True
        if y == ('i', 0):
            if x[0] == 'cast':
                x = x[4]
            d = lin(x)
            ks = [k for k in d if k]
            if len(ks) == 2 and {is_path(k, 'CloudConfig.' + f, 'Str.end') - is_path(k, 'CloudConfig.' + f, 'Str.pos') for k in ks} == {1, -1}:
                return True
    return False


def sending(prog, res):
    s = view(prog, res, 's3_request_execute', ['snprintf', 'curl_slist_append', 'curl_easy_setopt', 'curl_easy_perform', 'curl_slist_free_all', 'curl_easy_reset'])
    v = s.v
    pf, ap, so, rs = [v.calls(n) for n in ('curl_easy_perform', 'curl_slist_append', 'curl_easy_setopt', 'curl_easy_reset')]
    s.one(pf, 'send', 'the request is sent')
    s.before(v.calls('s3_request_prepare'), pf, 'signed', 'after it is signed')
    s.ob(v.implies(done(s), v.any(pf)), 'send-always', 'a request ends normally only if it was sent')
    ok = s.or_(*[s.and_(e.cond, v.eq(e.value, ('i', 0))) for e in pf])
    s.ob(v.implies(done(s), ok) and v.possible(done(s)), 'error', 'a request which failed is an error')
    get = lambda o: [e for e in so if pl(e.args[1]) == ('i', OPT[o])]
    for e in so + pf:
        s.ob(is_path(e.args[0], 'S3Io.handle'), 'handle', 'on the connection of the request', e.where())
    for e in so:
        s.before(rs, [e], 'reset', 'a connection is used again without the options of the last request')
    last = lambda o, ok, cond, key, what: (
        s.before([e for e in get(o) if ok(pl(e.args[2]))], pf, key, what, within=cond),
        [s.ob(ok(pl(e.args[2])), key + '-of', what, e.where()) for e in get(o)])
    path = lambda f: (lambda x: is_path(x, 'S3Request.' + f) and origin(x) == ('a', 0))
    rd, wr = s.nz('S3Request.on_read'), s.nz('S3Request.on_write')
    last('CUSTOMREQUEST', path('method'), 1, 'method', 'the method of the request is used')
    last('URL', path('url'), 1, 'url', 'the address of the request is used')
    last('FAILONERROR', lambda x: x[0] == 'i' and x[1] != 0, 1, 'failed', 'an answer which says that it failed is an error')
    last('READFUNCTION', path('on_read'), rd, 'read', 'what the request sends is sent')
    last('READDATA', path('arg'), rd, 'read-arg', 'what the request sends is sent')
    last('WRITEFUNCTION', path('on_write'), wr, 'write', 'what is received goes where the request wants it')
    last('WRITEDATA', path('arg'), wr, 'write-arg', 'what is received goes where the request wants it')
    size = s.nz('S3Request.content_length')
    last('UPLOAD', lambda x: x[0] == 'i' and x[1] != 0, s.and_(rd, size), 'upload', 'data is sent')
    last('INFILESIZE_LARGE', path('content_length'), s.and_(rd, size), 'upload-size', 'with its size')
    s.only_if(get('UPLOAD'), rd, 'upload-only', 'a request which sends nothing does not upload')
    # headers
    hd = get('HTTPHEADER')
    s.before(hd, pf, 'headers', 'the headers of the request are sent')
    for h in hd:
        for pre, f, cond in (('Date: ', 'date', 1), ('Content-Type: ', 'content_type', s.nz('S3Request.content_type')), ('Content-Length: ', 'content_length', s.nz('S3Request.content_type')),
                             ('Range: ', 'range', s.nz('S3Request.range')), ('Authorization: ', 'authorization', 1)):
            got = []
            for e in ap:
                if e.order > h.order:
                    continue
                src = [x for x in v.calls('snprintf') if pl(x.args[0]) == pl(e.args[1]) and x.order < e.order and v.possible(s.and_(x.cond, e.cond))]
                if src and (text(prog, src[-1].args[2]) or '').startswith(pre) and is_path(src[-1].args[3], 'S3Request.' + f):
                    got.append(e)
            c = s.and_(h.cond, cond)
            ok = bool(got) and v.implies(c, v.any(got))
            s.ob(ok, 'header-' + f, 'the headers of the request are sent', h.where())
            if f == 'range':
                s.only_if(got, cond, 'header-range-only', 'a range is asked for only if it is wanted')
        # the list which is sent is the whole list
        chain = h.args[2]
        seen = [y for y in walk(chain) if y and y[0] == 'call' and y[1].split('@')[0] == 'curl_slist_append']
        s.ob(len({pl(y) for y in seen}) >= len([e for e in ap if e.order < h.order]), 'headers-all', 'all headers are in the list which is sent', h.where())


@rule('C02')
def c02(prog, res):
    parts(prog, res, table, downloads, uploads, removals, reads, buckets, requests, validated, signing, encoding, sending)
