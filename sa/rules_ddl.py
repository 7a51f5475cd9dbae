"""A01: what a statement names is what it changes (words, options, statements, managers)
A02: objects in use stay (drops, renames, changes of storages with partitions)

The words of the lexer, the options and the statements are tables of the program: they are taken out of the parser
(which token under which condition is stored where), the executors (which operation gets which part of the statement)
and the operations (which object is found and what is changed of it), and composed."""
from ir import Broken, walk
from cond import gates, show
from report import rule, parts
from spec import Spec, strip, plain, is_path, is_call, origin, lin, apath, list_loop, loop_range
from rules_file import errors, done
from rules_config import SAVED, table, text, walks, executors, bits, header

UNITS = {'us': 1, 'microsecond': 1, 'ms': 10**3, 'millisecond': 10**3, 'sec': 10**6, 'second': 10**6, 'min': 60 * 10**6, 'minute': 60 * 10**6,
         'hr': 3600 * 10**6, 'hour': 3600 * 10**6, 'day': 86400 * 10**6, 'week': 7 * 86400 * 10**6, 'month': 30 * 86400 * 10**6, 'year': (360 * 86400 * 10**6, 365 * 86400 * 10**6),
         'kb': 10**3, 'mb': 10**6, 'gb': 10**9, 'tb': 10**12, 'kib': 2**10, 'k': 2**10, 'mib': 2**20, 'm': 2**20, 'gib': 2**30, 'g': 2**30, 'tib': 2**40, 't': 2**40}

# words of the statement -> operations and what they are given
STATEMENTS = [
    (('KCREATE', 'KCLOUD'), [('cloud_mgr_create', {1: 'config', 2: 'if_not_exists'})]),
    (('KCREATE', 'KSTORAGE'), [('storage_mgr_create', {1: 'config', 2: 'if_not_exists'})]),
    (('KCREATE', 'KPARTITION'), [('engine_fill', {1: 'min', 2: 'max'})]),
    (('KDROP', 'KCLOUD'), [('cloud_mgr_drop', {1: 'name', 2: 'if_exists'})]),
    (('KDROP', 'KSTORAGE'), [('storage_mgr_drop', {1: 'name', 2: 'if_exists'})]),
    (('KDROP', 'KPARTITION'), [('engine_drop', {1: 'min', 2: 'if_exists', 3: 'mask'})]),
    (('KDROP', 'KPARTITIONS'), [('engine_drop_range', {1: 'min', 2: 'max', 3: 'mask'})]),
    (('KALTER', 'KCLOUD'), [('cloud_mgr_alter', {1: 'config', 2: 'config_mask', 3: 'if_exists'}), ('cloud_mgr_rename', {1: 'name', 2: 'name_new', 3: 'if_exists'})]),
    (('KALTER', 'KSTORAGE'), [('storage_mgr_alter', {1: 'config', 2: 'config_mask', 3: 'if_exists'}), ('storage_mgr_rename', {1: 'name', 2: 'name_new', 3: 'if_exists'})]),
    (('KALTER', 'KPIPELINE'), [('pipeline_alter', {1: 'list'})]),
    (('KMOVE', 'KPARTITION'), [('engine_refresh', {2: 'min', 3: 'storage', 4: 'if_exists'})]),
    (('KMOVE', 'KPARTITIONS'), [('engine_refresh_range', {2: 'min', 3: 'max', 4: 'storage'})]),
    (('KREFRESH', 'KPARTITION'), [('engine_refresh', {2: 'min', 3: None, 4: 'if_exists'})]),
    (('KREFRESH', 'KPARTITIONS'), [('engine_refresh_range', {2: 'min', 3: 'max', 4: None})]),
    (('KDOWNLOAD', 'KPARTITION'), [('engine_download', {1: 'min', 2: 'if_exists', 3: 'if_cloud'})]),
    (('KDOWNLOAD', 'KPARTITIONS'), [('engine_download_range', {1: 'min', 2: 'max', 3: 'if_cloud'})]),
    (('KUPLOAD', 'KPARTITION'), [('engine_upload', {1: 'min', 2: 'if_exists', 3: 'if_cloud'})]),
    (('KUPLOAD', 'KPARTITIONS'), [('engine_upload_range', {1: 'min', 2: 'max', 3: 'if_cloud'})]),
    (('KCHECKPOINT',), [('engine_checkpoint', {})]),
    (('KSERVICE',), [('engine_service', {})]),
    (('KREBALANCE',), [('engine_rebalance', {})]),
]
OPS = sorted({op for k, ops in STATEMENTS for op, a in ops})
FLAGS = {'if_exists': 'parse_if_exists', 'if_not_exists': 'parse_if_not_exists', 'if_cloud': 'parse_if_cloud'}
LEX = ['lex_if', 'lex_next', 'lex_push', 'str_compare_raw']
PARSE = {'STRING': 'parse_string', 'INT': 'parse_int', 'BOOL': 'parse_bool', 'UUID': 'parse_uuid'}
ALIAS = {'access_key': 'login', 'secret_key': 'password'}
OPTIONS = {'Source': ('parse_storage_options', 'source_copy', 'source_alter'), 'CloudConfig': ('parse_cloud_options', 'cloud_config_copy', 'cloud_config_alter'),
           'TierConfig': ('parse_pipeline_alter', 'tier_config_copy', None)}


def field(x, S=None):
    """the part of a statement this value is"""
    for y in walk(x):
        if y[0] == 'fld' and y[2].startswith('Cmd') and y[2] != 'Cmd' and y[3] != 'cmd':
            return y[3]
    return None


def truth(s, x):
    """a value used as a condition"""
    x = strip(x)
    if x[0] == 'i':
        return 1 if x[1] else 0
    if x[0] == 'gate':
        return s.or_(*[s.and_(c, truth(s, y)) for c, y in gates(x)])
    return x[1] if x[0] == 'bdd' else s.not_(s.v.eq(x, ('i', 0)))


def origin_obj(x):
    """the object a name is set of"""
    x = strip(x)
    if x[0] == 'fld' and x[2] in ('Source', 'CloudConfig'):
        return strip(x[1]) if x[3] == 'name' else None
    return x


def token_of(x):
    """the local token a value is part of"""
    x = strip(x)
    while x[0] in ('ld', 'fld', 'idx'):
        x = strip(x[1])
    return x


def leaves(s, x, c):
    """the operands of a product or shift, as constants where they are"""
    x = strip(x)
    return [(i, y) for i in (2, 3) if x[0] == 'bin' for y in s.leaves(x[i], c)] if x[0] == 'bin' else []


def multiplier(x, addr, ops):
    x = strip(x)
    if x[0] == 'ld' and plain(x)[1] == plain(strip(addr)):
        return 1
    if x[0] != 'bin' or x[1] not in ('mul', 'shl') or len(ops) != 2:
        return 0
    ops = [strip(y) for i, y in ops]
    n = [y[1] for y in ops if y[0] == 'i']
    ld = [y for y in ops if y[0] == 'ld' and plain(y)[1] == plain(strip(addr))]
    if len(n) != 1 or len(ld) != 1:
        return 0
    return n[0] if x[1] == 'mul' else 1 << n[0] if ops[1][0] == 'i' else 0


# ------------------------------------------------------------------ words
def same(prog, res):
    """names are compared with all of their letters"""
    size = lambda i: (lambda x: mentions_of(x, ('Str.pos', 'Str.end'), i))
    for fn, call, other in (('str_compare', 'memcmp', None), ('str_compare_raw', 'memcmp', 2),
                            ('str_compare_case', 'strncasecmp', 2)):
        s = Spec(prog, res, fn, interest=['memcmp', 'bcmp', 'strncasecmp'])
        v = s.v
        cs = s.one(v.calls('memcmp', 'bcmp') if call == 'memcmp' else v.calls(call), 'letters', 'the letters are compared')
        n = size(1) if other is None else (lambda x: strip(x) == ('a', 2))
        eq = s.rel('eq', size(0), n)
        for e in cs:
            args = [strip(x) for x in e.args]
            s.ob(sum(is_path(x, 'Str.pos') and base_arg(x) == 0 for x in args[:2]) == 1, 'letters', 'the letters are compared', e.where())
            s.ob(sum((is_path(x, 'Str.pos') and base_arg(x) == 1) if other is None else x == ('a', 1) for x in args[:2]) == 1,
                 'letters', 'the letters are compared', e.where())
            s.ob(n(args[2]) or size(0)(args[2]), 'all', 'all letters are compared', e.where())
        hit = s.rel('eq', lambda x, c=call: is_call(x, 'memcmp') or is_call(x, 'bcmp') or is_call(x, c), 0)
        for r in v.rets():
            s.ob(v.equal(s.and_(r.cond, truth(s, r.args[0])), s.and_(r.cond, eq, hit)), 'same',
                 'names are the same if they have the same length and letters', r.where(), v.show(truth(s, r.args[0]))[:200])


    s = Spec(prog, res, 'str_strndup', interest=['mn_malloc', 'llvm.memcpy', 'llvm.memmove'],
             stores=[('Str', 'pos'), ('Str', 'end'), ('Str', 'allocated')])
    v = s.v
    mk = s.one(v.calls('mn_malloc'), 'copy', 'a copied name has memory of its own')
    cp = s.one(v.calls('llvm.memcpy', 'llvm.memmove'), 'copy', 'a copied name has all of its letters')
    new = lambda x: is_call(strip(x), 'mn_malloc')
    s.must(1, cp, 'copy', 'a copied name has all of its letters')
    for e in mk:
        n = lin(e.args[0])
        s.ob(n.get(('a', 2)) == 1 and n.get((), 0) >= 1 and len(n) == 2,
             'room', 'there is room for all letters and a zero', e.where())
    for e in cp:
        s.ob(new(e.args[0]) and strip(e.args[1]) == ('a', 1) and strip(e.args[2]) == ('a', 2), 'copy',
             'a copied name has all of its letters', e.where())
    for f, ok in (('pos', new), ('end', lambda x: any(new(t) and n == 1 for t, n in lin(x).items() if t) and lin(x).get(('a', 2)) == 1 and len(lin(x)) == 2),
                  ('allocated', lambda x: strip(x) == ('i', 1))):
        fin = s.final(v.stores_of('Str', f))
        s.ob(bool(fin) and all(ok(y) for k, x in fin for c, y in gates(x)), 'copy-' + f, 'a copied name has all of its letters')
    # digits
    s = Spec(prog, res, 'lex_next', interest=['lex_integer_mod'], opaque=['lex_integer_mod', 'lex_push'], stores=[('Token', ''), ('Token', 'integer')])
    es = [e for e in s.v.stores_of('Token', '') + s.v.stores_of('Token', 'integer') if e.loops]
    s.ob(bool(es), 'digits', 'a number is all of its digits')
    good = []
    for e in es:
        k = dict(lin(strip(e.args[1])))
        c = k.pop((), 0)
        tens = [y for y, n in k.items() if n == 10]
        ones = [y for y, n in k.items() if n == 1]
        good.append(len(tens) == 1 and len(ones) == 1 and c == -48)
        s.ob(good[-1] or (len(tens) == 1 and not ones and not c), 'digits', 'a number is all of its digits', e.where(), repr((k, c))[:200])
    s.ob(any(good), 'digits', 'a number is all of its digits')


def mentions_of(x, paths, arg):
    """a difference of the two ends of the string which is argument arg"""
    x = strip(x)
    while x[0] == 'cast':
        x = strip(x[-1])
    if x[0] != 'bin' or x[1] != 'sub':
        return False
    a, b = strip(x[2]), strip(x[3])
    return is_path(a, paths[1]) and is_path(b, paths[0]) and base_arg(a) == arg == base_arg(b)


def base_arg(x):
    """the argument whose field this is"""
    for y in walk(strip(x)):
        if y[0] == 'a':
            return y[1]
    return None


def words(prog, res):
    g = [k for k in prog.globals if k.split('@')[0] == 'keywords']
    if not g:
        raise Broken('no table of keywords')
    rows = [r['v'] for r in prog.globals[g[0]]['init']['array'] if 'v' in r]
    names = {}
    for r in rows:
        w = [c[1] for c in r if c[0] == 's']
        n = [c[1] for c in r if c[0] == 'i']
        if not w:
            continue
        w = w[0]
        where = 'keyword %s' % w
        res.ob(len(n) == 2 and n[1] == len(w), 'word-size:%s' % w, where, 'a word is compared with all of its letters', str(r))
        res.ob(w not in names, 'word-once:%s' % w, where, 'every word has one meaning')
        names[w] = n[0]
    unit = {}
    for w, i in sorted(names.items()):
        base = w[:-1] if w not in UNITS and w.endswith('s') and w[:-1] in UNITS else w
        if base in UNITS:
            unit.setdefault(i, set()).add(base)
        else:
            res.ob(prog.enum('K' + w.upper()) == i, 'word:%s' % w, 'keyword %s' % w, 'every word has its own meaning', str(i))
    for w in UNITS:
        res.ob(w in names, 'unit:%s' % w, 'keyword %s' % w, 'the unit is known')
    # what they multiply
    s = Spec(prog, res, 'lex_integer_mod', interest=LEX, opaque=LEX, stores=[('Token', ''), ('Token', 'integer')])
    v = s.v
    nx = s.one(v.calls('lex_next'), 'next', 'the unit is read')
    tk = [strip(e.args[1]) for e in nx]
    ids = lambda x: is_path(x, 'Token.id') and token_of(x) in tk
    st = [e for e in v.events if e.kind == 'store' and token_of(e.args[0]) == ('a', 1)]
    known = 0
    for i, ws in sorted(unit.items()):
        c = s.rel('eq', ids, i)
        known = s.or_(known, c)
        f = {1}
        for w in ws:
            f = set(UNITS[w]) if isinstance(UNITS[w], tuple) else {UNITS[w]}
        s.ob(len({str(UNITS[w]) for w in ws}) == 1, 'unit', 'every unit has one meaning', None, str(ws))
        got = 1
        for e in st:
            if v.possible(s.and_(c, e.cond)):
                m = {multiplier(y, e.args[0], [(k, z) for k, z in leaves(s, y, c)]) for y in s.leaves(e.args[1], c)}
                m = m.pop() if len(m) == 1 else 0
                if not v.implies(c, e.cond):
                    m = 0
                got *= m
        s.ob(got in f, 'unit-' + '-'.join(sorted(ws)), 'a number with a unit is multiplied by it', None, 'by %d' % got)
    s.never(st, s.not_(known), 'no-unit', 'a number without a unit is kept')
    push = v.calls('lex_push')
    s.must(s.and_(done(s), s.not_(known)), push, 'push', 'a word which is no unit is left in place')
    s.never(push, known, 'push-unit', 'a unit is used up')
    for e in push:
        s.ob(strip(e.args[1]) in tk, 'push', 'a word which is no unit is left in place', e.where())
    s = Spec(prog, res, 'lex_next', interest=['lex_integer_mod'], opaque=['lex_integer_mod', 'lex_push'], stores=[('Token', 'id')])
    KINT = prog.enum('KINT')
    ints = [e for e in s.v.stores_of('Token', 'id') if strip(e.args[1]) == ('i', KINT)]
    s.one(ints, 'int', 'numbers are read')
    real = [e for e in s.v.stores_of('Token', 'id') if strip(e.args[1]) == ('i', prog.enum('KREAL'))]
    mods = s.one(s.v.calls('lex_integer_mod'), 'mod', 'a number with a unit is multiplied by it')
    for e in ints:
        more = s.or_(*[s.v.body(k) for k in s.v.loops if s.v.implies(s.v.body(k), e.cond)])
        s.ob(s.v.implies(s.and_(e.cond, s.not_(more), s.not_(s.v.any(real)), s.not_(s.v.any([x for x in errors(s) if x.order > e.order]))), s.v.any([m for m in mods if m.order > e.order])),
             'mod', 'a number with a unit is multiplied by it', e.where())
    for m in mods:
        s.ob(strip(m.args[1]) == ('a', 1), 'mod', 'a number with a unit is multiplied by it', m.where())


def tokens(prog, res):
    """one word is looked at, and kept for the next one who asks if it is not the expected one"""
    s = Spec(prog, res, 'lex_if', interest=['lex_next'], opaque=['lex_next', 'lex_push'])
    v = s.v
    nx = s.one(v.calls('lex_next'), 'next', 'the next word is read')
    ps = s.one(v.calls('lex_push'), 'keep', 'another word is kept')
    if nx and ps:
        s.must(1, nx, 'next', 'the next word is read')
        tok = nx[0].args[1]
        is_ = s.or_(*[s.and_(c, s.rel('eq', lambda x, t=strip(t): is_path(x, 'Token.id') and token_of(x) == t, lambda x: x == ('a', 1))) for c, t in gates(tok)])
        s.ob(v.equal(v.any(ps), s.not_(is_)), 'keep', 'another word is kept', ps[0].where(), v.show(v.any(ps))[:200])
        s.ob(plain(strip(ps[0].args[1])) == plain(strip(tok)), 'keep', 'another word is kept', ps[0].where())
        s.before(nx, ps, 'keep', 'another word is kept')
        for r in v.rets():
            s.ob(v.equal(s.and_(r.cond, truth(s, r.args[0])), s.and_(r.cond, is_)), 'is', 'the answer is right', r.where())
        s.ob(any(strip(t) == ('a', 2) and v.equal(c, s.not_(v.eq(('a', 2), ('i', 0)))) for c, t in gates(tok)), 'out', 'the caller gets the word', nx[0].where())
    # the last word which was kept is the next one
    for fn, n, tok in (('lex_push', 1, ('a', 1)), ('lex_next', -1, ('a', 1))):
        s = Spec(prog, res, fn, interest=['llvm.memcpy'], opaque=['lex_integer_mod', 'lex_push'], stores=[('Lex', 'backlog_size')])
        v = s.v
        has = 1 if n > 0 else s.rel('gt', lambda x: is_path(x, 'Lex.backlog_size'), 0)
        st = s.one([e for e in v.stores_of('Lex', 'backlog_size')], 'count', 'words are kept in order')
        cp = s.one([e for e in v.events if e.kind == 'call' and str(e.name).startswith('llvm.mem') and tok in (strip(e.args[0]), strip(e.args[1]))], 'word', 'words are kept in order')
        for e in st + cp:
            s.ob(v.equal(e.cond, has), 'word', 'words are kept in order', e.where(), v.show(e.cond)[:200])
        for e in st:
            s.ob(counted(e.args[1], n), 'count', 'words are kept in order', e.where(), str(e.args[1]))
        for e in cp:
            a = [strip(e.args[0]), strip(e.args[1])] if n > 0 else [strip(e.args[1]), strip(e.args[0])]
            slot = a[0]
            s.ob(a[1] == tok and slot[0] in ('idx', 'fld') and at_slot(slot, n), 'word', 'words are kept in order', e.where(), str(slot)[:200])
    # values
    for fn, kind, f in (('parse_int', 'KINT', 'integer'), ('parse_string', 'KSTRING', 'string'), ('parse_uuid', 'KSTRING', 'string'), ('parse_bool', 'KTRUE', None)):
        s = Spec(prog, res, fn, interest=['lex_if', 'str_copy', 'uuid_from_string'], opaque=['lex_if', 'str_copy', 'str_free', 'uuid_from_string'])
        v = s.v
        ifs = v.calls('lex_if')
        yes = lambda k: [s.and_(e.cond, s.not_(v.eq(e.value, ('i', 0)))) for e in ifs if strip(e.args[1]) == ('i', prog.enum(k))]
        s.ob(bool(yes(kind)), 'kind', 'a value has its kind', None)
        if not yes(kind):
            continue
        if f is None:
            s.ob(len(yes('KFALSE')) == 1 and v.equal(v.any(v.rets()), s.or_(*(yes(kind) + yes('KFALSE')))), 'kind', 'a value has its kind')
        else:
            s.ob(v.equal(v.any(v.rets()), s.or_(*yes(kind))), 'kind', 'a value has its kind')
        tok = [strip(e.args[2]) for e in ifs if strip(e.args[1]) == ('i', prog.enum(kind))][0]
        if fn in ('parse_int', 'parse_bool'):
            for r in v.rets():
                x = r.guard.get(('a', 2))
                if f is None:
                    t = truth(s, x) if x is not None else 0
                    s.ob(x is not None and v.equal(s.and_(r.cond, t), s.and_(r.cond, s.or_(*yes(kind)))), 'value', 'the value which was written is taken', r.where(), str(x)[:200])
                else:
                    s.ob(x is not None and strip(x)[0] == 'ld' and token_of(x) == tok and not narrow(x), 'value', 'the value which was written is taken', r.where(), str(x)[:200])
        else:
            cp = s.one(v.calls('str_copy', 'uuid_from_string'), 'value', 'the value which was written is taken')
            for e in cp:
                s.ob(strip(e.args[0]) == ('a', 2) and token_of(e.args[1]) == tok and v.equal(e.cond, s.or_(*yes(kind))), 'value', 'the value which was written is taken', e.where())
    # conditions
    for fn, ks in (('parse_if_exists', ('KIF', 'KEXISTS')), ('parse_if_not_exists', ('KIF', 'KNOT', 'KEXISTS')), ('parse_if_cloud', ('KIF', 'KCLOUD'))):
        s = Spec(prog, res, fn, interest=['lex_if'], opaque=['lex_if'])
        v = s.v
        ifs = v.calls('lex_if')
        got = []
        c = 1
        for k in ks:
            e = [x for x in ifs if strip(x.args[1]) == ('i', prog.enum(k))]
            if not s.one(e, 'word', 'every word of it is read'):
                break
            s.ob(v.equal(e[0].cond, c), 'word', 'every word of it is read', e[0].where())
            c = s.and_(c, s.not_(v.eq(e[0].value, ('i', 0))))
            got.append(e[0])
        if len(got) != len(ks):
            continue
        none = v.eq(got[0].value, ('i', 0))
        for r in v.rets():
            s.ob(v.equal(s.and_(r.cond, truth(s, r.args[0])), s.and_(r.cond, c)), 'is', 'the answer is right', r.where())
        s.ob(v.equal(v.any(v.rets()), s.or_(none, c)), 'is', 'half of it is an error')


def at_slot(x, n):
    """the place of the word kept last"""
    k = [y for y in walk(x) if y[0] == 'idx']
    if not k:
        return False
    return counted(k[0][2], 0 if n > 0 else -1)


def counted(x, n):
    """the number of words kept, plus n"""
    x = plain(strip(x))
    loads = [t for t in walk(x) if t[0] == 'ld' and is_path(t, 'Lex.backlog_size')]
    return len(loads) == 1 and x == loads[0] if n == 0 else len(loads) == 1 and x[0] == 'bin' and x[1] == 'add' and {strip(x[2]), strip(x[3])} == {loads[0], ('i', n)}


# ------------------------------------------------------------------ options
def moves(s, S, to, frm):
    """field -> effects which give it the value of the same field of the other object"""
    v = s.v
    out = {}
    for e in v.events:
        d = x = None
        if e.kind == 'call' and e.name in ('str_copy', 'str_strndup'):
            d, x = strip(e.args[0]), strip(e.args[1])
            if x[0] == 'ld' and x[1][0] == 'fld' and x[1][2] == 'Str' and x[1][3] == 'pos':
                x = strip(x[1][1])
            ok = None
        elif e.kind == 'call' and str(e.name).startswith('llvm.mem'):
            d, x = strip(e.args[0]), strip(e.args[1])
            if d[0] != 'fld' or d[2] != S:
                continue
            f = [y for y in s.prog.structs[S]['fields'] if y['name'] == d[3]]
            ok = bool(f) and strip(e.args[2]) == ('i', f[0]['size'])
            if not ok:
                x = None
        elif e.kind == 'store' and strip(e.args[0])[0] == 'fld':
            d = strip(e.args[0])
            y = e.args[1]
            z = strip(y)
            if z[0] == 'bdd':
                fl = ('fld', frm, S, d[3])
                x = fl if s.v.equal(s.and_(e.cond, z[1]), s.and_(e.cond, s.nz('%s.%s' % (S, d[3])))) else ('other',)
            else:
                x = strip(z[1]) if z[0] == 'ld' and not narrow(y) else ('other',)
        if d is None or d[0] != 'fld':
            continue
        d = plain(d)
        if d[2] == S and origin(d) == to or d[2] == S and plain(d[1]) == to:
            good = x is not None and plain(x)[0] == 'fld' and plain(x)[2:4] == (S, d[3]) and (plain(plain(x)[1]) == frm or origin(plain(x)) == frm)
            out.setdefault(d[3], []).append((e, good, x))
    return out


def narrow(x):
    while x[0] == 'cast':
        if x[1] == 'trunc':
            return True
        x = x[-1]
    return False


def options(prog, res):
    for mgr, el, S, var, wr, rd, opn in SAVED:
        popt, copy, alter = OPTIONS[S]
        s = Spec(prog, res, rd, interest=['decode_map'], stores=[('Decode', f) for f in ('flags', 'key', 'value')])
        keys = table(s, S)
        fields = sorted(f for k, f in keys.values())
        # a copy has all of the values
        allocs = {'Source': 'source_allocate', 'CloudConfig': 'cloud_config_allocate', 'TierConfig': 'tier_config_allocate'}
        st = [(S, f['name']) for f in prog.structs[S]['fields']]
        s = Spec(prog, res, copy, interest=['str_copy', 'str_strndup', 'llvm.memcpy', 'llvm.memmove'], opaque=['str_copy', 'str_strndup', 'str_free', allocs[S]], stores=st + [('Uuid', 'a'), ('Uuid', 'b')])
        v = s.v
        made = s.one(v.calls(allocs[S]), 'new', 'a new object is made')
        for m in made:
            got = moves(s, S, m.value, ('a', 0))
            for f in fields:
                evs = got.get(f, [])
                s.ob(bool(evs) and all(g for e, g, x in evs[-1:]) and v.implies(done(s), v.any([e for e, g, x in evs[-1:]])), 'copy-' + f, 'a copy has all of the values', evs[-1][0].where() if evs else None,
                     str(evs[-1][2])[:200] if evs else 'not copied')
        bit = {}
        if alter:
            s = Spec(prog, res, alter, interest=['str_copy', 'str_strndup', 'llvm.memcpy', 'llvm.memmove'], opaque=['str_copy', 'str_strndup', 'str_free'], stores=st + [('Uuid', 'a'), ('Uuid', 'b')])
            v = s.v
            got = moves(s, S, ('a', 0), ('a', 1))
            for f in fields:
                evs = got.get(f, [])
                good = [e for e, g, x in evs if g]
                c = v.any(good)
                which = [n for n in range(16) if good and v.equal(c, s.test(lambda x: x[0] == 'bin' and x[1] == 'and' and strip(x[2]) == ('a', 2) and strip(x[3]) == ('i', 1 << n)))]
                s.ob(len(good) == len(evs) and len(which) == 1 and which[0] not in bit.values(), 'alter-' + f, 'a setting is changed if and only if it was given', evs[0][0].where() if evs else None,
                     '%s %s' % (which, v.show(c)[:200]))
                if len(which) == 1:
                    bit[f] = which[0]
            s.ob(set(got) <= set(fields), 'alter', 'a setting is changed if and only if it was given', None, str(set(got)))
        parsed(prog, res, S, popt, keys, bit, alter is not None)


def parsed(prog, res, S, popt, keys, bit, masked):
    deny = [n for n in prog.byname if n.startswith(('parse_if', 'cmd_', 'tier_config_', 'source_', 'cloud_config_')) and n not in ('cmd_pipeline_alter_add',)]
    s = Spec(prog, res, popt, interest=list(PARSE.values()), opaque=list(PARSE.values()) + LEX + deny, stores=[(S, x['name']) for x in prog.structs[S]['fields']])
    v = s.v
    cmps = v.calls('str_compare_raw')
    evs = v.calls(*PARSE.values())
    s.one(evs, 'options', 'options are read')
    seen = {}
    for e in evs:
        d = strip(e.args[2])
        f = d[3] if d[0] == 'fld' and d[2] == S else None
        if f is None:
            # read into a variable first
            via = [x for x in v.events if x.kind == 'store' and x.name[0] == S and x.order > e.order and strip(x.args[1])[0] == 'ld' and strip(x.args[1])[1] == d and not narrow(x.args[1]) and v.possible(s.and_(x.cond, e.cond))]
            if len(via) == 1 and v.implies(s.and_(e.cond, s.not_(v.any(errors(s)))), via[0].cond) and v.implies(via[0].cond, e.cond):
                f = via[0].name[1]
        names = {}
        for c in cmps:
            n = text(c.args[1])
            if n is not None and v.implies(e.cond, s.not_(v.eq(c.value, ('i', 0)))):
                names[n] = c
        s.ob(len(names) == 1 and f is not None, 'option', 'an option sets the value it names', e.where(), '%s %s' % (sorted(names), f))
        if len(names) != 1 or f is None:
            continue
        n, c = list(names.items())[0]
        kind = [k for k, (kk, ff) in keys.items() if ff == f]
        s.ob(strip(c.args[2]) == ('i', len(n)), 'name-' + n, 'names are compared with all of their letters', c.where())
        s.ob(ALIAS.get(n, n) in kind, 'option-' + n, 'an option sets the value it names', e.where(), 'sets %s' % f)
        s.ob(any(PARSE[keys[k][0]] == e.name for k in kind), 'kind-' + n, 'with a value of its kind', e.where(), e.name)
        # whenever it is named
        s.ob(v.implies(s.and_(c.cond, s.not_(v.eq(c.value, ('i', 0)))), v.any([x for x in evs if strip(x.args[2]) == d])), 'take-' + n, 'an option sets the value it names', e.where())
        seen.setdefault(f, []).append(e)
        if masked:
            acc = [x for x in values(v, e)]
            want = bit.get(f)
            ok = want is not None and bool(acc) and all(x[0] == 'bin' and x[1] == 'or' and strip(x[3]) == ('i', 1 << want) for x in acc)
            s.ob(ok, 'bit-' + n, 'what is set is noted', e.where(), '%s %s' % (want, [str(x)[-60:] for x in acc][:3]))
    left = {f for k, f in keys.values()} - set(seen)
    s.ob(left <= {'name'}, 'all', 'every setting has an option', None, str(left))
    for c in cmps:
        n = text(c.args[1])
        s.ob(n is None or any(v.possible(s.and_(e.cond, s.not_(v.eq(c.value, ('i', 0))))) for e in evs), 'known-%s' % n, 'an option sets the value it names', c.where())
    # an unknown option is refused
    for key in {e.loops[-1] for e in evs if e.loops}:
        un = s.and_(v.entry(key), v.body(key), *[v.eq(c.value, ('i', 0)) for c in cmps])
        un = s.and_(*[v.eq(c.value, ('i', 0)) for c in cmps if c.loops and c.loops[-1] == key])
        base = s.and_(un, v.any(cmps[-1:]))
        s.ob(v.implies(s.and_(base, un), v.any(errors(s))), 'unknown', 'an unknown option is refused', None)


def values(v, e):
    """what the set of options is after this one"""
    out = []
    key = e.loops[-1] if e.loops else None
    if key is None:
        return out
    for ph in header(v, key):
        for c, x in v.phi_steps(ph):
            if v.possible(v.b.and_(c, e.cond)) and ph_is_mask(v, ph):
                out += [strip(y) for y in [x]]
    for r in v.rets():
        if r.args:
            for c, x in gates(r.args[0]):
                if v.possible(v.b.and_(v.b.and_(c, r.cond), e.cond)):
                    out.append(strip(x))
    return out


def ph_is_mask(v, ph):
    a, _ = v.phi(ph)
    return all(strip(x) == ('i', 0) for x in a)


# ------------------------------------------------------------------ statements
def statements(prog, res):
    fns = sorted(k for k in prog.byname if k.startswith('parse_'))
    s = Spec(prog, res, 'parse', interest=['lex_if', 'lex_next'], opaque=LEX + fns)
    v = s.v
    first = v.calls('lex_next')[:1]
    tk = [strip(e.args[1]) for e in first]
    s.one(first, 'first', 'the first word is read')
    kid = lambda n: s.rel('eq', lambda x: is_path(x, 'Token.id') and token_of(x) in tk, prog.enum(n))
    calls = [e for e in v.events if e.kind == 'call' and e.name in fns]
    used = {}
    eof = [e for e in v.calls('lex_if') if strip(e.args[1]) == ('i', prog.enum('KEOF'))]
    s.must(v.any(v.rets()), eof, 'eof', 'words which are left are refused')
    for e in eof:
        s.never(v.rets(), s.and_(e.cond, v.eq(e.value, ('i', 0))), 'eof', 'words which are left are refused')
        s.ob(all(c.order < e.order for c in calls), 'eof', 'words which are left are refused', e.where())
    for words_, ops in STATEMENTS:
        nm = ' '.join(w[1:] for w in words_)
        c = kid(words_[0])
        seconds = {}
        if len(words_) > 1:
            for e in v.calls('lex_if'):
                if v.implies(e.cond, c):
                    for k in {w[0][1] for w in STATEMENTS if len(w[0]) > 1} | {words_[1]}:
                        if strip(e.args[1]) == ('i', prog.enum(k)):
                            seconds[k] = e
            if words_[1] not in seconds:
                s.ob(False, 'word-' + nm, 'the statement is known')
                continue
            c = s.and_(c, s.not_(v.eq(seconds[words_[1]].value, ('i', 0))), *[v.eq(e.value, ('i', 0)) for k, e in seconds.items() if k != words_[1]])
        got = [e for e in calls if v.possible(s.and_(e.cond, c))]
        s.ob(len({e.name for e in got}) == 1 and v.implies(c, v.any(got)), 'parse-' + nm, 'every statement is parsed as what it is', got[0].where() if got else None, str([e.name for e in got]))
        if len({e.name for e in got}) != 1:
            continue
        fn = got[0].name
        s.ob(fn not in used, 'parse-' + nm, 'every statement is parsed as what it is', got[0].where(), '%s is %s' % (fn, used.get(fn)))
        used[fn] = nm
        for r in v.rets():
            for k, x in gates(r.args[0]):
                if v.possible(s.and_(k, c, r.cond)) and strip(x) != got[0].value and v.implies(s.and_(k, r.cond), c):
                    s.ob(False, 'result-' + nm, 'the parsed statement is executed', r.where(), str(x)[:200])
        one(prog, res, nm, fn, ops)
    return


def one(prog, res, nm, fn, ops):
    needs = sorted({f for op, a in ops for f in a.values() if f})
    opq = [n for n in prog.byname if n in LEX or n in FLAGS.values() or n in ('source_allocate', 'cloud_config_allocate', 'parse_storage_options', 'parse_cloud_options', 'str_copy', 'str_free',
                                                                            'mn_malloc', 'uuid_generate', 'encryption_mgr_of', 'random_generate_alnum', 'tier_config_allocate', 'tier_config_set_name') or n in PARSE.values()]
    structs = sorted(S for S in prog.structs if S.startswith('Cmd') and S != 'Cmd')
    st = [(S, f['name']) for S in structs for f in prog.structs[S]['fields'] if f['name'] in needs] + [('Cmd', 'type')]
    s = Spec(prog, res, fn, interest=LEX + ['mn_malloc', 'str_copy', 'llvm.memcpy', 'list_append', 'parse_storage_options', 'parse_cloud_options'] + list(FLAGS.values()), opaque=opq + ['list_append'], stores=st)
    v = s.v
    ty = s.one(v.stores_of('Cmd', 'type'), 'type', 'the statement has a kind')
    if not ty:
        return
    kind = strip(ty[-1].args[1])
    s.ob(len({str(strip(e.args[1])) for e in ty}) == 1 and kind[0] == 'i', 'type', 'the statement has a kind')
    ok = s.not_(v.any(errors(s)))
    ifs = v.calls('lex_if')
    got = lambda k: [e for e in ifs if strip(e.args[1]) == ('i', prog.enum(k)) and strip(e.args[2]) != ('i', 0)]
    ints, names = got('KINT'), got('KNAME')
    nint = {'min': 0, 'max': 1}
    copies = {strip(e.args[0]): strip(e.args[1]) for e in v.calls('llvm.memcpy') if strip(e.args[0])[0] == 'al'}

    def origin_of(x):
        t = token_of(x)
        return copies.get(t, t)
    end = v.any(v.rets())
    for f in needs:
        evs = [e for e in v.events if e.kind == 'store' and e.name[1] == f and e.name[0].startswith('Cmd') and strip(e.args[1]) != ('i', 0)]
        if f in nint:
            n = nint[f]
            if not s.ob(len(ints) > n and bool(evs), 'take-' + f, 'the statement has the numbers which were given'):
                continue
            good = v.implies(end, v.any(evs[-1:]))
            for c, x in gates(evs[-1].args[1]):
                t = origin_of(x)
                read = s.not_(v.eq(ints[n].value, ('i', 0)))
                if t == strip(ints[n].args[2]) and strip(x)[0] == 'ld':
                    good = good and v.implies(s.and_(c, evs[-1].cond), read)
                else:
                    # the default end of a new partition: one interval
                    y = lin(x)
                    good = good and nm == 'CREATE PARTITION' and f == 'max' and v.implies(s.and_(c, evs[-1].cond), s.not_(read)) and len(y) == 2 and set(y.values()) == {1} and all(
                        origin_of(z) == strip(ints[0].args[2]) or any(w[0] == 'fld' and w[2] == 'Config' and w[3] == 'interval' for w in walk(z)) for z in y) and len({origin_of(z) for z in y}) == 2
            s.ob(good, 'take-' + f, 'the statement has the numbers which were given', evs[-1].where(), str(evs[-1].args[1])[:200])
        elif f in FLAGS:
            calls = s.one(v.calls(FLAGS[f]), 'take-' + f, 'the statement has the condition which was given')
            s.ob(len(evs) > 0 and bool(calls) and v.implies(end, v.any(evs[-1:])) and all(
                v.equal(s.and_(evs[-1].cond, truth(s, evs[-1].args[1])), s.and_(evs[-1].cond, s.not_(v.eq(c.value, ('i', 0))))) for c in calls), 'take-' + f, 'the statement has the condition which was given', evs[-1].where() if evs else None)
        elif f == 'mask':
            ID, CLOUD = prog.enum('ID'), prog.enum('ID_CLOUD')
            on = [e for e in ifs if strip(e.args[1]) == ('i', prog.enum('KSTORAGE'))]
            cl = [e for e in ifs if strip(e.args[1]) == ('i', prog.enum('KCLOUD'))]
            good = bool(evs) and len(on) == 1 and len(cl) == 1 and v.implies(end, v.any(evs[-1:]))
            if good:
                yes = lambda e: s.and_(e.cond, s.not_(v.eq(e.value, ('i', 0))))
                for c, x in gates(evs[-1].args[1]):
                    k = s.and_(c, evs[-1].cond)
                    x = strip(x)
                    good = good and (x == ('i', ID) and v.implies(k, yes(on[0])) or x == ('i', CLOUD) and v.implies(k, yes(cl[0])) or x == ('i', ID | CLOUD) and v.implies(k, s.not_(s.or_(yes(on[0]), yes(cl[0])))))
            s.ob(good, 'take-mask', 'what is dropped is what was named', evs[-1].where() if evs else None, str(evs[-1].args[1])[:200] if evs else None)
        elif f in ('name', 'name_new', 'storage'):
            n = 1 if f == 'name_new' else 0
            if not s.ob(len(names) > n, 'take-' + f, 'the statement has the name which was given'):
                continue
            t = names[n].args[2]
            cp = [e for e in v.events if e.kind == 'call' and str(e.name).startswith('llvm.memcpy') and field(e.args[0]) == f and strip(e.args[1]) == strip(t)]
            s.ob(field(t) == f or bool(cp) and v.implies(end, v.any(cp)), 'take-' + f, 'the statement has the name which was given', names[n].where(), str(t))
        elif f in ('config', 'config_mask'):
            opt = s.one(v.calls('parse_storage_options', 'parse_cloud_options'), 'take-' + f, 'the statement has the options which were given')
            for o in opt:
                if f == 'config_mask':
                    s.ob(any(strip(x) == o.value for e in evs for c, x in gates(e.args[1])) and v.implies(s.and_(end, o.cond), v.any(evs)), 'take-mask', 'the statement knows which options were given', o.where())
                    fixed = 'CLOUD_TYPE' if 'CLOUD' in nm else 'SOURCE_UUID'
                    bad = s.test(lambda x: x[0] == 'bin' and x[1] == 'and' and strip(x[2]) == o.value and strip(x[3]) == ('i', prog.enum(fixed)))
                    s.never(v.rets(), s.and_(o.cond, bad), 'fixed', 'what can not be changed is refused')
                    continue
                # the object is the one of the statement
                slot = strip(o.args[1])
                sets = [e for e in evs if strip(e.args[1])[0] == 'call' and strip(e.args[1])[1].split('@')[0] in ('source_allocate', 'cloud_config_allocate') and v.implies(o.cond, e.cond)]
                mine = lambda x: bool(sets) and (strip(x) == strip(sets[-1].args[1]) or field(x) == 'config' and strip(x)[0] == 'ld')
                s.ob(len(sets) == 1 and mine(slot) and len(evs) == 1, 'take-config', 'the statement has the options which were given', o.where(), str(slot))
                tok = names[0].args[2] if names else ()
                nmc = [(e, origin_obj(e.args[0]), e.args[1]) for e in v.calls('str_copy', 'source_set_name', 'cloud_config_set_name') if v.implies(e.cond, o.cond) or v.implies(o.cond, e.cond)]
                nmc = [(e, n) for e, x, n in nmc if x is not None and mine(x)]
                s.ob(len(nmc) > 0 and all((field(n) == 'name' if field(tok) else token_of(n) == strip(tok)) and v.implies(o.cond, e.cond) for e, n in nmc), 'take-name', 'the statement has the name which was given', o.where())
        elif f == 'list':
            yes = lambda k: [s.and_(e.cond, s.not_(v.eq(e.value, ('i', 0)))) for e in ifs if strip(e.args[1]) == ('i', prog.enum(k)) and not e.loops]
            rs, st_ = yes('KRESET'), yes('KSET')
            s.ob(len(rs) == 1 and len(st_) == 1 and v.implies(end, s.or_(rs[0], st_[0])) and v.implies(rs[0], end), 'reset', 'the tiers are given, or none')
            if rs:
                s.never(v.calls('list_append'), rs[0], 'reset', 'without tiers nothing is kept')
            ap = s.one([e for e in v.calls('list_append') if field(e.args[0]) == 'list'], 'take-list', 'every tier is kept')
            al = v.calls('tier_config_allocate')
            for a in al:
                key = a.loops[-1] if a.loops else None
                if key is None:
                    continue
                bad = s.v.any([x for x in errors(s) if v.possible(s.and_(x.cond, a.cond))])
                s.ob(v.implies(s.and_(a.cond, s.not_(bad)), v.any([e for e in ap if e.loops and e.loops[0] == key])), 'take-list', 'every tier is kept', a.where())
                nmc = [e for e in v.calls('tier_config_set_name') if strip(e.args[0]) == a.value]
                s.ob(bool(nmc) and v.implies(a.cond, v.any(nmc)) and all(any(token_of(e.args[1]) == strip(t.args[2]) for t in names) for e in nmc), 'take-name', 'the tier has the name which was given', a.where())
            s.once(ap, 'take-list', 'every tier is kept')
    executed(prog, res, nm, kind[1], ops)


def executed(prog, res, nm, kind, ops):
    g = [k for k in prog.globals if k.split('@')[0] == 'cmds']
    rows = prog.globals[g[0]]['init']['array'] if g else []
    row = rows[kind].get('v') if 0 <= kind < len(rows) else None
    f = [c[1] for c in row or [] if c[0] == 'f']
    res.ob(bool(f), 'execute:%s' % nm, nm, 'the statement is executed')
    if not f:
        return
    s = Spec(prog, res, prog.functions[f[0]], interest=OPS, opaque=OPS)
    v = s.v
    every = v.calls(*OPS)
    s.ob({e.name for e in every} == {op for op, a in ops}, 'op-' + nm, 'the statement does what it says', every[0].where() if every else None, str([e.name for e in every]))
    cfg = s.nz('Cmd.config') if False else None
    if len(ops) == 2:
        cfg = s.test(lambda x: x[0] == 'ld' and field(x) == 'config')
    for n, (op, args) in enumerate(ops):
        evs = s.one([e for e in every if e.name == op], 'op-' + op, 'the statement does what it says')
        need = 1 if cfg is None else cfg if n == 0 else s.not_(cfg)
        s.ob(v.implies(need, v.any(evs)) and (n == 0 or True), 'op-' + op, 'the statement does what it says', evs[0].where() if evs else None)
        s.once(evs, 'op-' + op, 'the statement does what it says')
        for e in evs:
            s.ob(v.implies(e.cond, need), 'op-' + op, 'the statement does what it says', e.where())
            for i, f in args.items():
                x = e.args[i]
                y = strip(x)
                if f is None:
                    ok = y == ('i', 0)
                elif f in FLAGS:
                    t = s.test(lambda z: z[0] == 'ld' and field(z) == f)
                    ok = field(y) == f and not narrow_int(x) if y[0] != 'bdd' else v.equal(y[1], t)
                elif f in ('name', 'name_new', 'storage', 'list'):
                    ok = field(y) == f and y[0] == 'fld'
                else:
                    ok = y[0] == 'ld' and field(y) == f and not narrow(x)
                s.ob(ok, 'arg-%s-%s' % (op, f), 'with what was given', e.where(), str(x)[:200])


def narrow_int(x):
    return False


# ------------------------------------------------------------------ operations
FIND = {'cloud_mgr': ('cloud_mgr_find', 'Cloud', 'CloudConfig', 'config', 'CloudMgr'), 'storage_mgr': ('storage_mgr_find', 'Storage', 'Source', 'source', 'StorageMgr')}
ALTER = {'cloud_mgr': 'cloud_config_alter', 'storage_mgr': 'source_alter'}
SETNAME = {'cloud_mgr': 'cloud_config_set_name', 'storage_mgr': 'source_set_name'}


def finders(prog, res):
    for k, (fn, el, S, cf, mgr) in sorted(FIND.items()):
        s = Spec(prog, res, fn, interest=['str_compare'], opaque=['str_compare'])
        v = s.v
        cmp = s.one(v.calls('str_compare'), 'compare', 'names are compared')
        ok = bool(cmp)
        for c in cmp:
            key = c.loops[-1] if c.loops else None
            lp = list_loop(v, key) if key else None
            if lp is None or not (plain(lp[1])[0] == 'fld' and plain(lp[1])[2:4] == (mgr, 'list') and origin(lp[1]) == ('a', 0)):
                ok = False
                continue
            a = [strip(x) for x in c.args]
            mine = [x for x in a if is_path(x, S + '.name') and any(y == lp[0] for y in walk(x))]
            ok = ok and len(mine) == 1 and ('a', 1) in a and v.implies(s.and_(v.entry(key), v.body(key)), c.cond)
            hit = s.not_(v.eq(c.value, ('i', 0)))
            # the walk ends at a match, which is returned
            for cc, x in v.phi_steps(lp[0]):
                ok = ok and v.implies(cc, s.not_(hit))
            for r in v.rets():
                for cc, x in gates(r.args[0]):
                    x = strip(x)
                    cc = s.and_(cc, r.cond)
                    if x == ('i', 0):
                        ok = ok and not v.possible(s.and_(cc, c.cond, hit))
                    else:
                        ok = ok and any(y == lp[0] for y in walk(x)) and v.implies(cc, s.and_(c.cond, hit))
        s.ob(ok, 'find', 'an object is found by its whole name', cmp[0].where() if cmp else None)


def operations(prog, res):
    for m, (find, el, S, cf, mgr) in sorted(FIND.items()):
        saves = ['%s_save' % m]
        for op in ('create', 'drop', 'alter', 'rename'):
            fn = '%s_%s' % (m, op)
            opq = [find, 'cloud_mgr_save', 'storage_mgr_save', 'cloud_attach', 'cloud_detach', 'list_append', 'list_unlink', ALTER[m], SETNAME[m], 'storage_mgr_mkdir', 'storage_set_cloud',
                   'cloud_mgr_find', 'storage_allocate', 'cloud_allocate', 'cloud_free', 'storage_free', 'cloud_config_copy', 'cloud_config_free', 'cloud_mgr_create_object', 'storage_mgr_create_object', 'part_has']
            s = Spec(prog, res, fn, interest=[n for n in opq if prog.has(n)] , opaque=opq)
            v = s.v
            arg = ('fld', ('a', 1), S, 'name') if op in ('create', 'alter') else ('a', 1)
            fs = [e for e in v.calls(find) if plain(strip(e.args[1])) == arg]
            if not s.one(fs, 'find', 'the object is looked for by name'):
                continue
            there = s.not_(v.eq(fs[0].value, ('i', 0)))
            n = {'create': 2, 'drop': 2, 'alter': 3, 'rename': 3}[op]
            flag = s.not_(v.eq(('a', n), ('i', 0)))
            ch = [e for e in v.events if e.kind == 'call' and e.name in ('list_append', 'list_unlink', ALTER[m], SETNAME[m], 'cloud_mgr_save', 'storage_mgr_save', 'cloud_mgr_create_object', 'storage_mgr_create_object') and
                  not is_copy(v, e)]
            err = [e for e in errors(s)]
            if op == 'create':
                s.never(ch, there, 'exists', 'an object which exists is kept')
                s.ob(v.implies(s.and_(there, s.not_(flag)), v.any(err)), 'exists', 'it is an error if it exists already')
                s.never(err, s.and_(there, flag), 'if', 'unless this was said to be fine')
                mk = s.one(v.calls('%s_create_object' % m), 'make', 'the object is created')
                s.must(s.and_(done(s), s.not_(there)), mk, 'make', 'the object is created')
                for e in mk:
                    s.ob(strip(e.args[1]) == ('a', 1), 'make', 'with the options which were given', e.where())
                continue
            s.never(ch, s.not_(there), 'missing', 'nothing else is changed')
            s.ob(v.implies(s.and_(s.not_(there), s.not_(flag)), v.any(err)), 'missing', 'it is an error if it does not exist')
            s.never([e for e in err if v.implies(e.cond, s.not_(there))], flag, 'if', 'unless this was said to be fine')
            if op == 'alter':
                al = s.one([e for e in v.calls(ALTER[m]) if not is_copy(v, e)], 'alter', 'the object is changed')
                s.must(s.and_(done(s), there), al, 'alter', 'the object is changed')
                for e in al:
                    x = strip(e.args[0])
                    s.ob(is_path(x, '%s.%s' % (el, cf)) and any(y == fs[0].value for y in walk(x)) and strip(e.args[1]) == ('a', 1) and strip(e.args[2]) == ('a', 2), 'alter', 'the object which was named is changed', e.where(), str(e.args)[:300])
            if op == 'rename':
                sn = s.one(v.calls(SETNAME[m]), 'rename', 'the object is renamed')
                s.must(s.and_(done(s), there), sn, 'rename', 'the object is renamed')
                for e in sn:
                    x = strip(e.args[0])
                    s.ob(is_path(x, '%s.%s' % (el, cf)) and any(y == fs[0].value for y in walk(x)) and strip(e.args[1]) == ('a', 2), 'rename', 'the object which was named is renamed', e.where())
                other = [e for e in v.calls(find) if strip(e.args[1]) == ('a', 2)]
                s.one(other, 'taken', 'a name is used once')
                for e in other:
                    s.never(sn, s.not_(v.eq(e.value, ('i', 0))), 'taken', 'a name is used once')
                    s.before(other, sn, 'taken', 'a name is used once')
                    s.ob(v.implies(s.and_(e.cond, s.not_(v.eq(e.value, ('i', 0)))), v.any(err)), 'taken', 'it is an error if the new name is taken', e.where())
            if op == 'drop':
                un = s.one(v.calls('list_unlink'), 'drop', 'the object is dropped')
                s.must(s.and_(done(s), there), un, 'drop', 'the object is dropped')
                for e in un:
                    s.ob(any(y == fs[0].value for y in walk(e.args[0])), 'drop', 'the object which was named is dropped', e.where())


def is_copy(v, e):
    """a change of a copy, made to try it out"""
    return e.name in ALTER.values() and any(y[0] == 'call' and y[1] in ('cloud_config_copy', 'source_copy') for y in walk(e.args[0]))


RANGES = {'engine_drop_range': ('engine_drop', 1), 'engine_refresh_range': ('engine_refresh', 2), 'engine_download_range': ('engine_download', 1),
       'engine_upload_range': ('engine_upload', 1)}


def ranges(prog, res):
    """a statement about a range of ids reaches every partition which lies inside"""
    s = Spec(prog, res, 'engine_foreach', interest=['engine_lock'], opaque=['engine_foreach'], outs=[1, 2])
    v, b = s.v, s.b
    lk = v.calls('engine_lock')
    lo = lambda x: strip(x)[0] in ('ld', 'phi') and not apath(x) and not any(is_call(y, 'engine_lock') for y in walk(x)) and strip(x) != ('a', 3)
    rmin, rmax = lambda x: is_path(x, 'Slice.min'), lambda x: is_path(x, 'Slice.max')
    hi = ('a', 3).__eq__
    if s.one(lk, 'lock', 'the partition is looked up'):
        for e in lk:
            s.ob(strip(e.args[0]) == ('a', 0) and lo(e.args[1]) and strip(e.args[3]) not in (('i', 0),) and strip(e.args[4]) == ('i', 0), 'lock',
                 'the first partition which ends at the id or behind it is looked up, none is created', e.where())
        got = s.or_(*[s.not_(v.eq(e.value, ('i', 0))) for e in lk])
        below, above = s.rel('ult', rmin, lo), s.rel('ult', hi, rmax)
        inside = s.rel('ult', rmax, hi)
        end = s.or_(*[v.eq(t, ('i', -1)) for t in s.terms(rmax)] or [0])
        more = [e for e in v.events if e.kind == 'call' and e.name.split('@')[0] == 'engine_foreach']
        again = v.any(more)
        ret = 0
        for c, x in gates(v.ret):
            x = strip(x)
            ret = b.or_(ret, b.and_(c, x[1] if x[0] == 'bdd' else s.not_(v.eq(x, ('i', 0)))))
        left = v.any([e for e in v.events if e.kind == 'ret'])
        yes, no = s.and_(left, s.and_(ret, s.not_(again))), s.and_(left, s.and_(s.not_(ret), s.not_(again)))
        s.ob(v.implies(yes, s.and_(got, s.and_(s.not_(below), s.not_(above)))), 'inside', 'only partitions which lie in the range are taken', None, v.show(yes))
        s.ob(not v.possible(s.and_(no, s.and_(got, s.and_(s.not_(below), s.not_(above))))), 'every', 'every partition in the range is taken', None, v.show(no))
        s.ob(not v.possible(s.and_(no, s.and_(got, s.and_(below, s.and_(inside, s.not_(end)))))), 'goes-on', 'a partition which begins before the range is passed over', None, v.show(no))
        s1, s2 = v.stores_of('arg', 1), v.stores_of('arg', 2)
        s.must(yes, s2, 'next', 'the search goes on behind the partition')
        for c, x in s.final(s1):
            if v.possible(s.and_(c, yes)):
                s.ob(rmin(x), 'min', 'the first id of the partition found is returned', None, show(x, v))
            if more:
                for e in more:
                    if v.possible(s.and_(c, e.cond)):
                        d = lin(x)
                        s.ob(d.get(()) == 1 and len(d) == 2 and any(rmax(t) for t in d if t), 'skip', 'the search goes on behind the partition', e.where(), show(x, v))
        same_ = s.or_(*[v.eq(t, u) for t in s.terms(rmin) for u in s.terms(lo)] or [0])
        s.must(s.and_(yes, s.not_(same_)), s1, 'min', 'the first id of the partition found is returned')
        for c, x in s.final(s2):
            c = s.and_(c, yes)
            if not v.possible(c):
                continue
            d = lin(x)
            if is_path(x, 'Slice.max') or strip(x) == ('i', -1):
                s.ob(v.implies(c, end), 'next', 'the search goes on behind the partition', None, v.show(c))
            else:
                s.ob(d.get(()) == 1 and len(d) == 2 and any(rmax(t) for t in d if t) and not v.possible(s.and_(c, end)), 'next', 'the search goes on behind the '
                     'partition and does not wrap around', None, show(x, v))
        for e in more:
            s.ob([strip(a) for a in e.args] == [('a', 0), ('a', 1), ('a', 2), ('a', 3)], 'skip', 'the same range is searched on', e.where())
            s.only_if([e], below, 'skip', 'only partitions which begin before the range are passed over')
            s.ob(v.implies(e.cond, inside) or not v.possible(s.and_(e.cond, end)), 'skip', 'the search does not start over at the first id', e.where(), v.show(e.cond))
        for e in s1:
            if any(rmax(t) for t in lin(e.args[1]) if t):
                s.only_if([e], below, 'skip', 'only partitions which begin before the range are passed over')
                s.ob(v.implies(e.cond, inside) or not v.possible(s.and_(e.cond, end)), 'skip', 'the search does not start over at the first id', e.where(), v.show(e.cond))
    for fn, (op, at) in sorted(RANGES.items()):
        s = Spec(prog, res, fn, interest=[op], opaque=['engine_foreach'], outs=['local'])
        v = s.v
        fe = [e for e in v.events if e.kind == 'call' and e.name.split('@')[0] == 'engine_foreach']
        ops = v.calls(op)
        two = len(fe) == 2 and not fe[0].loops and fe[1].loops and fe[0].args[2:] == fe[1].args[2:]
        if not (two or s.one(fe, 'walk', 'the partitions of the range are walked')) or not s.one(ops, 'each', 'every partition of the range is handled'):
            continue
        f, o = fe[-1], ops[0]
        lo, nx = strip(f.args[1]), strip(f.args[2])
        first, last = ('a', at), ('a', at + 1)
        s.ob(strip(f.args[3]) == last and lo != nx and strip(fe[0].args[1]) == lo, 'walk', 'up to the last id of the range', f.where())
        s.ob(bool(f.loops) and f.loops == o.loops, 'walk', 'until none is left', f.where())
        found = s.not_(v.eq(f.value, ('i', 0)))
        if two:      # the first one is looked up in front of the loop
            s.ob(f.order > o.order, 'walk', 'then the next one', f.where())
            found = s.test(lambda x: x[0] == 'phi' and any(strip(y) == strip(fe[0].value) for y in v.phi(x)[0]) and any(strip(y) == strip(f.value) for _, y in v.phi_steps(x)))
        s.ob(bool(o.loops) and v.implies(s.and_(v.body(o.loops[-1]), found), v.any(ops)) and v.implies(o.cond, found), 'each',
             'every partition of the range is handled, and none else', o.where())
        st = [e for e in v.events if e.kind == 'store' and strip(e.args[0]) == lo]
        init = [e for e in st if not e.loops]
        step = [e for e in st if e.loops]
        if s.one(init, 'first', 'from the first id of the range'):
            s.ob(strip(init[0].args[1]) == first, 'first', 'from the first id of the range', init[0].where())
        if s.one(step, 'next', 'then the next'):
            x = strip(step[0].args[1])
            s.ob(x[0] == 'ld' and strip(x[1]) == nx and step[0].order > o.order, 'next', 'then the next', step[0].where())
        names = {'engine_drop': [None, lo, True, ('a', 3)], 'engine_refresh': [None, ('a', 1), lo, ('a', 4), True], 'engine_download': [None, lo, True, ('a', 3)],
                 'engine_upload': [None, lo, True, ('a', 3)]}[op]
        for i, w in enumerate(names):
            x = strip(o.args[i])
            if w is None:
                ok = x == ('a', 0)
            elif w is True:
                ok = x[0] == 'i' and x[1] != 0
            elif w == lo:
                ok = x[0] == 'ld' and strip(x[1]) == lo
            else:
                ok = x == w
            s.ob(ok, 'what', 'the partition found is handled, as the statement says', o.where(), show(x, v))


@rule('A01')
def a01(prog, res):
    parts(prog, res, words, same, tokens, options, statements, finders, operations, ranges)
