"""D06: the configuration survives a restart."""
from cond import gates, plain
from ir import Broken
from report import parts, rule
from rules_file import done, errors
from rules_read import same
from rules_secret import config_table
from rules_sys import outcomes
from spec import Spec, is_call, is_path, lin, list_loop, loop_range, origin, strip

# what is saved: manager, element, its configuration, variable, writer, reader
SAVED = (('CloudMgr', 'Cloud', 'CloudConfig', 'clouds', 'cloud_config_write', 'cloud_config_read', 'cloud_mgr_open'),
         ('StorageMgr', 'Storage', 'Source', 'storages', 'source_write', 'source_read', 'storage_mgr_open'),
         ('Pipeline', 'Tier', 'TierConfig', 'pipeline', 'tier_config_write', 'tier_config_read', 'pipeline_open'))
MGRS = {x[0]: x for x in SAVED}
WRITERS = [x[4] for x in SAVED]
READERS = [x[5] for x in SAVED]
CHANGES = {'cloud_mgr_create', 'cloud_mgr_drop', 'cloud_mgr_alter', 'cloud_mgr_rename', 'storage_mgr_create', 'storage_mgr_drop', 'storage_mgr_alter',
           'storage_mgr_rename', 'storage_mgr_rename_cloud', 'pipeline_alter', 'pipeline_rename'}
# changes of the configuration of an object
SETTERS = {'source_alter', 'cloud_config_alter', 'source_set_name', 'source_set_cloud', 'cloud_config_set_name', 'tier_config_set_name'}
ENC = ('encode_map', 'encode_array', 'encode_raw', 'encode_cstr', 'encode_string', 'encode_integer', 'encode_bool', 'encode_null', 'buf_write_str', 'buf_write')
DECODERS = {'STRING': 'data_read_string_copy', 'INT': 'data_read_integer', 'BOOL': 'data_read_bool', 'UUID': 'uuid_from_string'}
TYPES = {'STRING': 'Str', 'INT': 'i64', 'BOOL': 'i8', 'UUID': 'Uuid'}


def text(x):
    x = strip(x)
    return x[1] if x[0] == 's' else None


def setting(x):
    """the variable an address names"""
    x = strip(x)
    return x[3] if x[0] == 'fld' and x[2] == 'Config' else None


def saves(prog):
    """{variable: functions which store a list into it}"""
    out = {}
    for i in prog.callers.get('var_data_set_buf', ()):
        x = i.fn.expr(i.o[0])
        from spec import apath
        p = [f.split('.')[1] for f in apath(x) if f.startswith('Config.')]
        if p:
            out.setdefault(p[-1], set()).add(i.fn.key)
    return out


def flag(s, path):
    return s.nz(*path)


# ------------------------------------------------------------------ what is written for an object is what is read
def table(s, S):
    """{key: (kind, field)} of the keys a reader knows"""
    v = s.v
    rows = {}
    for e in v.events:
        if e.kind == 'store' and e.name[0] == 'Decode':
            a = plain(strip(e.args[0]))
            rows.setdefault(str(a[1]), {})[e.name[1]] = e.args[1]
    out = {}
    for a, r in rows.items():
        k, x, fl = text(r.get('key', ('i', 0))), strip(r.get('value', ('i', 0))), strip(r.get('flags', ('i', 0)))
        if k is not None:
            kind = [n for n in DECODERS if s.prog.enum('DECODE_' + n) == fl[1]]
            f = x[3] if x[0] == 'fld' and x[2] == S else None
            s.ob(k not in out and bool(kind) and f is not None, 'row-' + k, 'every key is read into a field of its own', None, str(r)[:300])
            out[k] = (kind[0] if kind else None, f)
    return out


def objects(prog, res):
    for mgr, el, S, var, wr, rd, opn in SAVED:
        s = Spec(prog, res, rd, interest=['decode_map'], stores=[('Decode', f) for f in ('flags', 'key', 'value')])
        keys = table(s, S)
        fields = [f['name'] for f in prog.structs[S]['fields'] if f['name'] != 'link']
        s.ob(sorted(f for k, f in keys.values()) == sorted(fields), 'all', 'all of the settings are read', None, str(keys))
        dm = s.v.calls('decode_map')
        s.must(done(s), dm, 'decode', 'the settings are read')
        for e in dm:
            s.ob(strip(e.args[1]) == ('a', 0), 'decode-from', 'from the data', e.where())
        for r in s.v.rets():
            for c, x in gates(r.args[0]):
                s.ob(True, 'ret', 'the object which was read is returned')
        written(prog, res, S, wr, keys)


def written(prog, res, S, wr, keys):
    s = Spec(prog, res, wr, interest=list(ENC) + ['uuid_to_string'], opaque=list(ENC))
    v, b = s.v, s.b
    SELF, BUF = ('a', 0), ('a', 1)
    flags = sorted({a[1] for e in v.events for n in b.support(e.cond) for a in [b.vars[n]] if a[0] == 'eq' and a[1][0] == 'a'}, key=str)
    evs = v.calls(*ENC)
    for e in evs:
        s.ob(strip(e.args[0]) == BUF and not e.loops, 'to', 'into the buffer', e.where())
    cases = [1]
    for a in flags:
        z = v.eq(a, ('i', 0))
        cases = [s.and_(c, y) for c in cases for y in (z, s.not_(z))]
    for c in cases:
        live = [e for e in evs if v.possible(s.and_(c, e.cond))]
        s.ob(all(v.implies(c, e.cond) for e in live), 'same', 'the same is written every time', None, v.show(c))
        plain_case = all(v.implies(c, v.eq(a, ('i', 0))) for a in flags)
        head, rest = live[:1], live[1:]
        n = len(rest) // 2
        ok = bool(head) and head[0].name == 'encode_map' and len(rest) == 2 * n and strip(head[0].args[1]) == ('i', n)
        s.ob(ok, 'count', 'as many settings as announced', head[0].where() if head else None, '%s %s' % (v.show(c), [strip(e.args[1]) for e in live][:3]))
        got = {}
        for k, x in zip(rest[0::2], rest[1::2]):
            name = text(k.args[1])
            if k.name == 'encode_raw':
                s.ob(name is not None and strip(k.args[2]) == ('i', len(name)), 'key', 'a name and its length', k.where(), str(k.args))
            else:
                s.ob(k.name == 'encode_cstr' and name is not None, 'key', 'a name and its length', k.where())
            s.ob(name not in got, 'key-once', 'every setting once', k.where(), str(name))
            got[name] = x
            if plain_case and name in keys:
                kind, f = keys[name]
                s.ob(value_of(s, x, kind, f, SELF, S), 'value-' + name, 'the value of the setting is written', x.where(), str(x.args)[:300])
        if plain_case:
            s.ob(set(got) == set(keys), 'keys', 'what is written can be read', None, str(set(got) ^ set(keys)))


def value_of(s, e, kind, f, SELF, S):
    v = s.v
    fld = ('fld', SELF, S, f)
    x = strip(e.args[1])
    if kind == 'STRING' and e.name == 'encode_raw':
        # the string's bytes, and as many of them as there are
        pos = ('ld', ('fld', fld, 'Str', 'pos'))
        n = plain(strip(e.args[2]))
        n = [plain(strip(y)) for y in n[2:4]] if n[0] == 'bin' and n[1] == 'sub' else None
        return plain(x) == pos and n == [('ld', ('fld', fld, 'Str', 'end')), pos]
    if kind == 'STRING':
        return e.name == 'encode_string' and plain(x) == fld
    if kind == 'INT':
        return e.name == 'encode_integer' and plain(x) == ('ld', fld)
    if kind == 'BOOL':
        if e.name != 'encode_bool':
            return False
        if x[0] == 'bdd':
            return v.equal(x[1], s.nz('%s.%s' % (S, f)))
        return plain(x) == ('ld', fld) or all(v.equal(c, s.nz('%s.%s' % (S, f))) if strip(y) in (('i', 1), ('i', -1)) else
                                              v.equal(c, s.not_(s.nz('%s.%s' % (S, f)))) for c, y in gates(e.args[1]))
    if kind == 'UUID':
        us = [u for u in v.calls('uuid_to_string') if plain(strip(u.args[0])) == fld and u.order < e.order and strip(u.args[1]) == x]
        size = strip(us[-1].args[2]) if us else None
        return e.name == 'encode_raw' and bool(us) and v.implies(e.cond, s.v.any(us)) and size == ('i', 37) and strip(e.args[2]) == ('i', 36)
    return False


def decoder(prog, res):
    s = Spec(prog, res, 'decode_map', interest=['data_read_map', 'data_read_string', 'data_skip', 'uuid_from_string'] + list(DECODERS.values()),
             stores=[('Decode', 'flags')], opaque=['data_read_map', 'data_read_string', 'data_skip', 'uuid_from_string'] + list(DECODERS.values()))
    v = s.v
    FOUND = prog.enum('DECODE_FOUND')
    cmp = s.test(lambda x: is_call(x, 'str_compare_cstr'))
    kinds = {}
    for n in DECODERS:
        kinds[n] = s.rel('eq', lambda x: kind_of(x, FOUND), prog.enum('DECODE_' + n))
    found = [strip(e.args[1]) for e in v.calls('str_compare_cstr')]
    cmp = s.and_(cmp, *[s.not_(s.rel('eq', lambda x: same(x, y), 0)) for y in found])
    failed = lambda key: s.v.any([x for x in errors(s) if v.implies(x.cond, v.body(key))])
    live = cmp
    for n, fn in DECODERS.items():
        evs = v.calls(fn)
        k = s.and_(kinds[n], *[s.not_(kinds[m]) for m in kinds if m != n])
        if not s.one(evs, 'read-' + n, 'a value of this kind is read'):
            continue
        key = evs[0].loops[-1] if evs[0].loops else None
        s.ob(key is not None, 'loop', 'every setting is read', evs[0].where())
        if key is None:
            continue
        s.must(s.and_(v.entry(key), v.body(key), live, s.not_(failed(key)), k), evs, 'read-' + n, 'a value of this kind is read')
        s.only_if(evs, k, 'read-' + n, 'a value of this kind is read')
        s.once(evs, 'read-' + n, 'a value of this kind is read')
        for e in evs:
            d = 0 if fn == 'uuid_from_string' else 1
            s.ob(is_path(e.args[d], 'Decode.value'), 'into-' + n, 'into the field of the setting', e.where())
            if d:
                s.ob(strip(e.args[0]) == ('a', 1), 'from-' + n, 'from the data', e.where())
            else:
                src = [x for x in v.calls('data_read_string') if strip(x.args[1]) == strip(e.args[1]) and x.order < e.order and strip(x.args[0]) == ('a', 1)]
                s.ob(bool(src) and v.implies(e.cond, v.any(src)), 'from-' + n, 'from the data', e.where())
    sk = v.calls('data_skip')
    for e in sk:
        s.ob(strip(e.args[0]) == ('a', 1), 'skip', 'unknown settings are ignored', e.where())
    s.once(sk, 'skip', 'unknown settings are ignored')
    s.never([e for e in sk], live, 'skip-known', 'known settings are not ignored')
    none = s.or_(*[s.rel('eq', lambda x: is_path(x, 'Decode.key') and origin(x) == origin(y), 0) for y in found])
    # one value per key
    maps = s.one(v.calls('data_read_map'), 'map', 'the settings are counted')
    s.one(sk, 'skip', 'unknown settings are ignored')
    for m in maps:
        s.ob(strip(m.args[0]) == ('a', 1), 'map', 'the settings are counted', m.where())
    for key in sorted({e.loops[-1] for e in v.calls(*DECODERS.values()) if e.loops}):
        ok = any(counts(s, key, strip(m.args[1])) for m in maps)
        s.ob(ok, 'loop', 'every setting is read', 'decode_map')
        for c in v.calls('str_compare_cstr'):
            ks = [e for e in v.calls('data_read_string') if strip(e.args[1]) == strip(c.args[0]) and strip(e.args[0]) == ('a', 1) and e.loops and e.loops[-1] == key]
            s.ob(bool(ks) and v.implies(s.and_(v.entry(key), v.body(key)), v.any(ks)), 'key', 'the name of the setting is read', c.where())
    for key in sorted({e.loops[-1] for e in v.calls(*DECODERS.values()) if e.loops}):
        val = [e for n in DECODERS for e in v.calls(DECODERS[n])] + sk
        known = s.or_(*kinds.values())
        s.must(s.and_(v.entry(key), v.body(key), s.not_(failed(key)), s.or_(s.and_(cmp, known), none)), val, 'value', 'every value is taken')
    mark = v.stores_of('Decode', 'flags')
    for e in mark:
        s.ob(any(strip(y) == ('i', FOUND) for x in [strip(e.args[1])] if x[0] == 'bin' and x[1] == 'or' for y in x[2:4]), 'mark', 'what was read is noted', e.where())
    reads = [e for n in DECODERS for e in v.calls(DECODERS[n])]
    s.after(reads, mark, 'mark', 'what was read is noted')


def kind_of(x, FOUND):
    x = strip(x)
    return is_path(x, 'Decode.flags') and x[0] != 'bin' or x[0] == 'bin' and x[1] == 'and' and strip(x[3]) in (('i', ~FOUND), ('i', ~FOUND & 0xffffffff)) and is_path(x[2], 'Decode.flags')


def counts(s, key, addr):
    """the loop is repeated as many times as the number which was read to the address"""
    v = s.v
    if not v.single_exit(key):
        return False
    num = lambda d, k=None: len([x for x in d if x]) == 1 and all(c == 1 and x[0] == 'ld' and strip(x[1]) == addr for x, c in d.items() if x) and (k is None or d.get((), 0) == k)
    for i in header(v, key):
        r = loop_range(v, key, i)
        if r is None:
            continue
        a, b, n = r
        if n == 1 and (a == {} and num(b, -1) or a == {(): 1} and num(b, 0)):
            return True
        if n == -1 and (num(a, 0) and b == {(): 1} or num(a, -1) and b == {}):
            return True
    # the number itself is counted down
    left = s.rel('gt', lambda x: x[0] == 'ld' and strip(x[1]) == addr, 0)
    if s.made(left) and v.equal(s.and_(v.entry(key), v.body(key)), s.and_(v.entry(key), left)):

        down = [lin(y) for c, x in v.latch(key, addr) for _, y in gates(x)]
        return bool(down) and all(num(d, -1) for d in down)
    return False


# ------------------------------------------------------------------ the lists
def walks(s, key, head):
    """the loop visits every element of the list at this address"""
    r = list_loop(s.v, key)
    return r is not None and plain(r[1]) == head and r[2][1] in ('next',) and s.v.single_exit(key)


def lists(prog, res):
    found = saves(prog)
    for mgr, el, S, var, wr, rd, opn in SAVED:
        fns = sorted(found.get(var, ()))
        if not fns:
            raise Broken('nothing saves %s' % var)
        for k in fns:
            saved(prog, res, prog.functions[k], mgr, el, S, var, wr)
        loaded(prog, res, mgr, el, S, var, rd, opn)


def saved(prog, res, fn, mgr, el, S, var, wr):
    s = Spec(prog, res, fn, interest=['encode_array', 'var_data_set_buf', wr], opaque=['encode_array', 'var_data_set_buf', wr])
    v = s.v
    sv = [e for e in v.calls('var_data_set_buf') if setting(e.args[0]) == var]
    ws, ar = v.calls(wr), v.calls('encode_array')
    s.one(ws, 'each', 'every object is written')
    s.one(ar, 'count', 'the number of objects is written')
    bufs = {str(strip(e.args[1])) for e in sv + ws} | {str(strip(e.args[0])) for e in ar}
    s.ob(len(bufs) == 1, 'buffer', 'into the buffer which is saved', None, str(bufs))
    for e in ar:
        s.ob(is_path(e.args[1], mgr + '.list_count') and strip(e.args[1])[0] == 'ld' and not e.loops, 'count', 'the number of objects is written', e.where())
    s.once(ar, 'count', 'the number of objects is written')
    for e in ws:
        key = e.loops[-1] if e.loops else None
        head = None
        for x in ar:
            y = strip(x.args[1])
            if y[0] == 'ld' and plain(y)[1][0] == 'fld':
                head = ('fld', plain(y)[1][1], mgr, 'list')
        ok = key is not None and len(e.loops) == 1 and walks(s, key, head) and v.implies(s.and_(v.entry(key), v.body(key)), e.cond)
        s.ob(ok, 'each', 'every object is written', e.where())
        x = strip(e.args[0])
        f = [d['name'] for d in prog.structs[el]['fields'] if d['name'] in ('config', 'source')]
        s.ob(x[0] == 'ld' and is_path(x, '%s.%s' % (el, f[0])) and origin(x)[0] == 'phi', 'each-of', 'every object is written', e.where(), str(x)[:200])
        for a in e.args[2:]:
            s.ob(strip(a) == ('i', 0), 'each-all', 'with all of its settings', e.where())
        s.before(ar, [e], 'order', 'after the number of objects')
        s.ob(all(x.order > e.order for x in sv), 'order', 'before it is saved', e.where())
    s.once(ws, 'each', 'every object is written')
    enter = s.v.any([x for x in ar])
    s.before(ar, sv, 'first', 'the number of objects is written')
    if ws and ws[0].loops:
        s.ob(all(v.implies(x.cond, v.entry(ws[0].loops[0])) for x in sv), 'all', 'the objects are written')
    s.ob(bool(sv), 'save', 'the list is saved')


def loaded(prog, res, mgr, el, S, var, rd, opn):
    alloc = {'Cloud': 'cloud_allocate', 'Storage': 'storage_allocate', 'Tier': 'tier_allocate'}[el]
    s = Spec(prog, res, opn, interest=['data_read_array', 'list_append', rd, alloc], opaque=['data_read_array', rd, alloc, 'storage_set_cloud', 'tier_resolve', 'list_append'],
             stores=[(mgr, 'list_count')])
    v = s.v
    rs, ars, aps, als = v.calls(rd), v.calls('data_read_array'), v.calls('list_append'), v.calls(alloc)
    if not (s.one(rs, 'read', 'every object is read') and s.one(ars, 'count', 'the number of objects is read') and
            s.one(aps, 'append', 'every object is kept') and s.one(als, 'make', 'every object is kept')):
        return
    # the variable is empty
    mine = lambda x: any(y[0] == 'fld' and y[2] == 'Config' and y[3] == var for y in subterms(x))
    empty = s.rel('eq', lambda x: lin_fields(x, var), 0)
    null = s.rel('eq', lambda x: x[0] in ('ld', 'cast') and mine(x) and not lin_fields(x, var), 0)
    s.must(s.and_(done(s), s.not_(empty), s.not_(null)), ars, 'count', 'what was saved is read')
    for a in ars:
        key = None
        for e in rs:
            key = e.loops[-1] if len(e.loops) == 1 else None
            s.ob(key is not None, 'read', 'every object is read', e.where())
            s.ob(strip(e.args[0]) == strip(a.args[0]), 'from', 'from the data', e.where())
            s.ob(a.order < e.order, 'order', 'after the number of objects', e.where())
        if key is None:
            return
        s.ob(setting(start(a.guard, a.args[0])) == var or mine(start(a.guard, a.args[0])), 'data', 'from the saved list', a.where(), str(start(a.guard, a.args[0]))[:200])
        good = counts(s, key, strip(a.args[1]))
        s.ob(good, 'all', 'as many objects as were saved', rs[0].where())
        it = s.and_(v.entry(key), v.body(key), s.not_(v.any(errors(s))))
        s.must(s.and_(a.cond, s.not_(v.any([x for x in errors(s) if not x.loops]))), [type('E', (), {'cond': v.entry(key), 'where': a.where})], 'enter', 'the objects are read')
        for evs, k in ((rs, 'read'), (als, 'make'), (aps, 'append'), (v.stores_of(mgr, 'list_count'), 'counted')):
            evs = s.one([e for e in evs if e.loops], k, 'every object is kept')
            s.must(it, evs, k, 'every object is kept')
            s.once(evs, k, 'every object is kept')
        for e in als:
            s.ob(any(is_call(y, rd) for y in e.args), 'make-from', 'with the settings which were read', e.where())
        for e in aps:
            s.ob(is_path(e.args[0], mgr + '.list') and origin(e.args[0]) == ('a', 0) and is_path(e.args[1], el + '.link') and
                 any(same(strip(y), m.value) for m in als for y in [base(e.args[1])]), 'append-what', 'every object is kept', e.where(), str(e.args)[:300])
        for e in v.stores_of(mgr, 'list_count'):
            x = strip(e.args[1])
            s.ob(x[0] == 'bin' and x[1] == 'add' and strip(x[3]) == ('i', 1), 'counted', 'the objects are counted', e.where())


def base(x):
    x = strip(x)
    while x[0] == 'fld':
        x = strip(x[1])
    return x


def subterms(x):
    from ir import walk
    return walk(x)


def lin_fields(x, var):
    """the size of the text of a variable"""
    d = lin(x)
    return len(d) == 2 and sorted(d.values()) == [-1, 1] and all(t != () and any(y[0] == 'fld' and y[2] == 'Config' and y[3] == var for y in subterms(t)) for t in d)


def start(mem, a):
    a = strip(a)
    return mem.get(a, ('ld', a))


def header(v, key):
    F = v.frameobj[key[0]]
    return [('phi', i.id, key[0]) for i in F.fn.blocks[key[1]] if i.op == 'phi']


# ------------------------------------------------------------------ changes
def changed(prog, res, tells):
    found = saves(prog)
    owner = {}
    for var, fns in found.items():
        for k in fns:
            owner[k] = var
    names = {k.split('@')[0] for k in owner} - CHANGES
    for fn in sorted(CHANGES):
        mgr = 'CloudMgr' if fn.startswith('cloud_mgr') else 'StorageMgr' if fn.startswith('storage_mgr') else 'Pipeline'
        el, S, var = MGRS[mgr][1:4]
        s = Spec(prog, res, fn, interest=['var_data_set_buf', 'list_append', 'list_unlink'] + sorted(SETTERS), stores=[(mgr, 'list_count')],
                 opaque=sorted(names) + sorted(SETTERS) + ['list_append', 'list_unlink', 'var_data_set_buf'])
        v = s.v
        sv = [e for e in v.events if e.kind == 'call' and any(owner.get(t) == var for t in (e.name,) + tuple(e.targets)) or
              e.kind == 'call' and e.name == 'var_data_set_buf' and setting(e.args[0]) == var]
        held = lambda x: is_path(x, el + '.config') or is_path(x, el + '.source')
        mods = [e for e in v.calls(*SETTERS) if held(e.args[0])]
        mods += [e for e in v.calls('list_append') if is_path(e.args[0], mgr + '.list')] + [e for e in v.calls('list_unlink') if is_path(e.args[0], el + '.link')]
        mods += v.stores_of(mgr, 'list_count')
        s.one(mods, 'change', 'the change is made')
        s.one(sv, 'save', 'what was changed is saved')
        s.after(mods, sv, 'save', 'what was changed is saved')
        for e in sv:
            s.ob(strip(e.args[0]) == ('a', 0) or e.name == 'var_data_set_buf', 'save-of', 'what was changed is saved', e.where())
        if v.ret and v.implies(v.any(sv + mods), s.or_(*[s.and_(c, strip(x)[1] if strip(x)[0] == 'bdd' else s.not_(v.eq(x, ('i', 0)))) for c, x in gates(v.ret)])):
            tells.add(fn)
    # nothing else changes them
    for m in sorted(SETTERS):
        for i in prog.callers.get(m, ()):
            x = i.fn.expr(i.o[0])
            if any(is_path(x, el + '.' + f) for el, f in (('Cloud', 'config'), ('Storage', 'source'), ('Part', 'source'), ('Tier', 'config'))):
                callers = entries(prog, i.fn.key)
                res.ob(callers <= CHANGES, 'changes:%s:%s' % (m, i.fn.name), i.where(), '%s(): settings are changed by a statement which saves them' % i.fn.name, str(callers - CHANGES))


def entries(prog, key, seen=None):
    """the functions, from this one up, which are changes or have no callers"""
    seen = seen if seen is not None else set()
    if key in seen:
        return set()
    seen.add(key)
    if key.split('@')[0] in CHANGES:
        return {key.split('@')[0]}
    up = {i.fn.key for i in prog.callers.get(key, ())}
    if not up:
        return {key.split('@')[0]}
    out = set()
    for k in up:
        out |= entries(prog, k, seen)
    return out


def executors(prog):
    """the functions which execute a statement"""
    return sorted(x[1] for x in prog.pts.get(('cell', 'Execute', 'function'), ()) if x[0] == 'f' and x[1] in prog.functions)


def statements(prog, res, tells):
    ex = executors(prog)
    n = 0
    reach = {k: {x.split('@')[0] for x in prog.reach([k])} for k in ex}
    paths = set()
    for k in ex:
        mine = reach[k] & CHANGES
        settings = reach[k] & {'var_int_set', 'var_string_set', 'var_string_set_raw', 'var_data_set'} if 'config_find' in reach[k] and not mine else set()
        if not mine and not (settings and 'config_save' in reach[k]):
            continue
        n += 1
        s = Spec(prog, res, prog.functions[k], interest=['config_save', 'snprintf'] + sorted(mine | settings), opaque=['config_save'] + sorted(mine | settings))
        v = s.v
        sv = v.calls('config_save')
        s.one(sv, 'save', 'the configuration is saved')
        ch = s.one(v.calls(*sorted(mine | settings)), 'change', 'the change is made')
        need = 1
        if settings:
            ons = s.terms(lambda x: any(y[0] == 'fld' and y[2] == 'Config' and y[3] == 'online' for y in subterms(x)) and not is_path(x, 'Var.type'))
            on = s.and_(*[s.not_(v.eq(x, ('i', 0))) for x in ons]) if ons else s.fresh()
            tmp = s.test(lambda x: bits(x, 'Var.flags', prog.enum('VAR_E')))
            need = s.and_(on, s.not_(tmp))
            s.ob(s.made(on), 'online', 'once the database is open')
        for e in ch:
            later = v.any([x for x in sv if x.order > e.order])
            if e.name in tells:
                # the change tells if it was made
                need = s.not_(v.eq(e.value, ('i', 0)))
            c = s.and_(e.cond, need, s.not_(v.any([x for x in errors(s) if x.order > e.order])))
            s.ob(v.implies(c, later), 'save', 'the configuration is saved', e.where(), v.show(s.and_(c, s.not_(later)))[:400])
        for e in sv:
            paths.add(where_to(s, e, 1))
            s.ob(is_path(e.args[0], 'Main.config'), 'save-what', 'the configuration is saved', e.where())
    res.count('statements', n)
    s = Spec(prog, res, 'main_start', interest=['config_open', 'snprintf', 'cloud_mgr_open', 'storage_mgr_open', 'pipeline_open', 'storage_mgr_create_main', 'main_replay'],
             opaque=['config_open', 'cloud_mgr_open', 'storage_mgr_open', 'pipeline_open', 'storage_mgr_create_main', 'main_replay'])
    v = s.v
    steps = [v.calls(x) for x in ('config_open', 'cloud_mgr_open', 'storage_mgr_open', 'pipeline_open')]
    for evs, nm in zip(steps, ('config', 'clouds', 'storages', 'pipeline')):
        s.one(evs, nm, 'it is read at start')
        s.must(done(s), evs, nm, 'it is read at start')
    for a, b in zip(steps, steps[1:]):
        s.before(a, b, 'order', 'after what it depends on')
    s.before(steps[2], v.calls('storage_mgr_create_main'), 'main', 'the main storage is created if it was not saved')
    for e in steps[0]:
        s.ob(is_path(e.args[0], 'Main.config'), 'config', 'it is read at start', e.where())
        paths.add(where_to(s, e, 1))
    s.ob(len(paths) == 1 and None not in paths, 'path', 'the file which was written is read', None, str(paths))


def where_to(s, e, n):
    """format and arguments of the path which is passed"""
    v = s.v
    x = strip(e.args[n])
    ps = [p for p in v.calls('snprintf') if strip(p.args[0]) == x and p.order < e.order]
    ps = ps[-1:]
    if not ps or not v.implies(e.cond, ps[0].cond):
        return None
    args = []
    for y in ps[0].args[3:]:
        fs = [z[3] for z in subterms(y) if z[0] == 'fld' and z[2] == 'Config']
        args.append(fs[0] if fs else str(y))
    return (text(ps[0].args[2]),) + tuple(args)


def bits(x, path, bit):
    x = strip(x)
    return x[0] == 'bin' and x[1] == 'and' and strip(x[3]) == ('i', bit) and is_path(x[2], path)


# ------------------------------------------------------------------ the file
def filed(prog, res):
    names = ['fs_rename', 'fs_unlink', 'fs_exists', 'file_open_as', 'file_write_buf', 'file_write', 'file_sync', 'json_export_pretty', 'json_export', 'snprintf']
    s = Spec(prog, res, 'config_save', interest=names, opaque=names + ['config_list_persistent', 'encode_map'])
    v = s.v
    PATH = ('a', 1)
    rn, op, wr, sy, ul = v.calls('fs_rename'), v.calls('file_open_as', 'file_create'), v.calls('file_write_buf', 'file_write'), v.calls('file_sync'), v.calls('fs_unlink')
    if not (s.one(rn, 'rename', 'the file is replaced in one step') and s.one(op, 'open', 'a new file is written') and s.one(wr, 'write', 'a new file is written')):
        return
    new = strip(rn[0].args[0])
    nm = [e for e in v.calls('snprintf') if strip(e.args[0]) == new]
    s.before(nm, rn + op + ul, 'name', 'under another name')
    for e in nm:
        f = text(e.args[2])
        s.ob(f is not None and f.startswith('%s') and f != '%s' and strip(e.args[3]) == PATH, 'name', 'under another name', e.where())
    s.must(done(s), rn, 'rename', 'the file is replaced in one step')
    s.once(rn, 'rename', 'the file is replaced in one step')
    for e in rn:
        s.ob(strip(e.args[0]) == new and text(e.args[1]) == '%s' and strip(e.args[2]) == PATH, 'rename', 'the file is replaced in one step', e.where())
    s.must(done(s), op, 'open', 'a new file is written')
    for e in op:
        fl = strip(e.args[2])
        s.ob(strip(e.args[1]) == new, 'open', 'a new file is written', e.where())
        s.ob(fl[0] == 'i' and fl[1] & 64 and fl[1] & 3, 'open-create', 'a new file is written', e.where())
        if not (fl[0] == 'i' and fl[1] & (512 | 128)):
            # what an earlier crash left is removed
            ex = s.test(lambda x: is_call(x, 'fs_exists'))
            s.must(s.and_(e.cond, ex), [u for u in ul if u.order < e.order], 'stale', 'nothing is left of an earlier attempt')
    for e in ul:
        s.ob(text(e.args[0]) == '%s' and strip(e.args[1]) == new, 'stale', 'nothing is left of an earlier attempt', e.where())
    for e in v.calls('fs_exists'):
        s.ob(text(e.args[0]) == '%s' and strip(e.args[1]) == new, 'stale', 'nothing is left of an earlier attempt', e.where())
    file = {str(strip(e.args[0])) for e in op + wr + sy}
    s.ob(len(file) == 1, 'file', 'one file')
    s.before(op, wr, 'order', 'after it is created')
    s.before(wr, rn, 'order', 'before it replaces the old one')
    sync = s.test(lambda x: any(y[0] == 'fld' and y[2] == 'Config' and y[3] == 'sync' for y in subterms(x)) and not is_path(x, 'Var.type'))
    s.before(sy, rn, 'sync', 'it is synced before it replaces the old one', within=sync if s.made(sync) else 1)
    for e in sy:
        s.ob(all(w.order < e.order for w in wr), 'sync', 'all of it', e.where())
    js = v.calls('json_export_pretty', 'json_export')
    for e in wr:
        src = [j for j in js if strip(j.args[0]) == strip(e.args[1]) and j.order < e.order]
        s.ob(bool(src) and v.implies(e.cond, v.any(src)), 'write', 'the settings are written', e.where())
        for j in src:
            x = plain(start(j.guard, j.args[1]))
            x = strip(x)
            ls = [q for q in v.calls('config_list_persistent') if x[0] == 'ld' and x[1][0] == 'fld' and x[1][2:4] == ('Buf', 'start') and strip(q.args[1]) == x[1][1]]
            s.ob(bool(ls) and v.implies(j.cond, v.any([q for q in ls if q.order < j.order])) and all(strip(q.args[0]) == ('a', 0) for q in ls), 'write-what',
                 'the settings are written', j.where(), str(x)[:200])
    s = Spec(prog, res, 'fs_rename', interest=['rename'])
    v = s.v
    rn = v.calls('rename')
    s.must(done(s), rn, 'rename', 'the file is renamed')
    for e in rn:
        fm = [f for f in v.calls('vsnprintf') if strip(f.args[0]) == strip(e.args[1]) and strip(f.args[2]) == ('a', 1)]
        s.ob(strip(e.args[0]) == ('a', 0) and bool(fm) and all(f.order < e.order for f in fm), 'rename', 'from the first to the second', e.where(), str(e.args))
    s = Spec(prog, res, 'config_open', interest=['config_save', 'file_import', 'json_parse', 'config_set_data', 'fs_exists'],
             opaque=['config_save', 'file_import', 'json_parse', 'config_set_data', 'fs_exists'])
    v = s.v
    ex = s.test(lambda x: is_call(x, 'fs_exists'))
    im, ps, st = v.calls('file_import'), v.calls('json_parse'), v.calls('config_set_data')
    for e in v.calls('fs_exists'):
        s.ob(text(e.args[0]) == '%s' and strip(e.args[1]) == ('a', 1), 'exists', 'an existing file is read', e.where())
    s.ob(s.made(ex), 'exists', 'an existing file is read')
    for evs, k in ((im, 'import'), (ps, 'parse'), (st, 'set')):
        s.one(evs, k, 'an existing file is read')
        s.must(s.and_(done(s), ex), evs, k, 'an existing file is read')
    s.must(s.and_(done(s), s.not_(ex)), v.calls('config_save'), 'create', 'a new file is written')
    s.before(im, ps, 'order', 'after it was read')
    s.before(ps, st, 'order', 'after it was parsed')
    for e in im:
        s.ob(text(e.args[1]) == '%s' and strip(e.args[2]) == ('a', 1), 'import', 'an existing file is read', e.where())
    for e in st:
        x = strip(start(e.guard, e.args[1]))
        s.ob(strip(e.args[0]) == ('a', 0) and is_path(x, 'Json.buf', 'Buf.start') and any(plain(strip(p.args[0])) == origin(x) for p in ps), 'set',
             'what was parsed is set', e.where(), str(x)[:200])


def variables(prog, res):
    # a variable which is saved can be set again
    s = Spec(prog, res, 'config_prepare', interest=[], stores=[('ConfigDef', f) for f in ('name', 'type', 'flags', 'var', 'default_int', 'default_string')])
    rows = config_table(prog, res, s)
    E, C = prog.enum('VAR_E'), prog.enum('VAR_C')
    names = {}
    for f, r in rows.items():
        fl = strip(r.get('flags', ('i', 0)))
        t = text(r.get('name', ('i', 0)))
        s.ob(fl[0] == 'i' and (fl[1] & E or fl[1] & C), 'flags-' + f, 'a setting which is saved is accepted when it is read')
        s.ob(t is not None and t not in names, 'name-' + f, 'every setting has a name of its own', None, str(t))
        names[t] = f
    for mgr in SAVED:
        r = rows.get(mgr[3])
        s.ob(r is not None and not strip(r['flags'])[1] & E and strip(r.get('type', ('i', 0))) == ('i', prog.enum('VAR_DATA')), 'list-' + mgr[3], 'the lists are saved')
    s.ob(len(rows) >= 20, 'rows', 'the settings are known')
    for f in ('uuid', 'serial', 'interval', 'wal', 'compression', 'mm_limit'):
        s.ob(f in rows and not strip(rows[f]['flags'])[1] & E, 'kept-' + f, 'the setting is saved')
    # which are saved
    s = Spec(prog, res, 'config_add' if prog.has('config_add') else 'config_prepare', interest=['list_append'], stores=[('Config', 'count_persistent')], opaque=['list_append'])
    v = s.v
    tmp = s.test(lambda x: bits(x, 'Var.flags', E) or bits(x, 'ConfigDef.flags', E))
    cnt = v.stores_of('Config', 'count_persistent')
    s.exactly(cnt, s.not_(tmp), 'counted', 'the settings which are saved are counted')
    al = [e for e in v.calls('list_append') if is_path(e.args[0], 'Config.list')]
    pl = [e for e in v.calls('list_append') if is_path(e.args[0], 'Config.list_persistent')]
    s.must(done(s), al, 'listed', 'every setting is known')
    for e in pl:
        s.ob(v.equal(e.cond, s.not_(tmp)), 'persistent', 'the settings which are saved', e.where())
    fn = 'config_list_persistent'
    k = next((k for k in prog.functions if k.split('@')[0] == fn), None)
    if k is None:
        raise Broken(fn)
    s = Spec(prog, res, prog.functions[k], interest=list(ENC) + ['var_encode'], opaque=list(ENC) + ['var_encode'])
    v = s.v
    mp, nm, vl = v.calls('encode_map'), v.calls('encode_string'), v.calls('var_encode')
    s.must(done(s), mp, 'count', 'the number of settings is written')
    for e in mp:
        s.ob(is_path(e.args[1], 'Config.count_persistent') and all(e.order < x.order for x in nm), 'count', 'the number of settings is written', e.where())
    tmp = s.test(lambda x: bits(x, 'Var.flags', E))
    for evs, kk in ((nm, 'name'), (vl, 'value')):
        if not s.one(evs, kk, 'every setting is written'):
            continue
        s.once(evs, kk, 'every setting is written')
        key = evs[0].loops[-1] if evs[0].loops else None
        whole = key is not None and walks(s, key, ('fld', ('a', 0), 'Config', 'list'))
        part = key is not None and walks(s, key, ('fld', ('a', 0), 'Config', 'list_persistent'))
        s.ob(whole or part, 'all', 'every setting is written', evs[0].where())
        if not whole and not part:
            continue
        it = s.and_(v.entry(key), v.body(key))
        if whole:
            s.ob(s.made(tmp), 'saved', 'the settings which are saved')
            it = s.and_(it, s.not_(tmp))
        s.must(it, evs, kk, 'every setting is written')
        for e in evs:
            s.ob(not whole or v.implies(e.cond, s.not_(tmp)), 'saved', 'the settings which are saved', e.where())
            d = 1 if kk == 'name' else 0
            s.ob(origin(e.args[d])[0] == 'phi', kk, 'every setting is written', e.where())
            s.ob(strip(e.args[1 - d]) == ('a', 1), kk, 'into the buffer', e.where())
            f = 'link' if whole else 'link_persistent'
            s.ob(offset(prog, e.args[d]) == (0 if kk == 'value' else prog.field_off('Var', 'name')) - prog.field_off('Var', f), kk + '-of', 'every setting is written', e.where(),
                 str(e.args[d]))
    for a in nm:
        s.ob(all(b.order > a.order for b in vl), 'order', 'the name, then the value', a.where())
    kinds(prog, res)


def offset(prog, x):
    from rules_file import at_byte
    d = at_byte(x)
    return d.get((), 0)


def kinds(prog, res):
    names = list(ENC)
    s = Spec(prog, res, 'var_encode', interest=names, opaque=names)
    v = s.v
    ty = {n: s.rel('eq', lambda x: is_path(x, 'Var.type'), prog.enum('VAR_' + n)) for n in ('BOOL', 'INT', 'STRING', 'DATA')}
    only = lambda n: s.and_(ty[n], *[s.not_(c) for m, c in ty.items() if m != n])
    of = {'BOOL': ('encode_bool',), 'INT': ('encode_integer',), 'STRING': ('encode_string',), 'DATA': ('buf_write_str', 'buf_write', 'encode_null')}
    for n, fns in of.items():
        evs = v.calls(*fns)
        s.must(only(n), evs, 'write-' + n, 'a value of this kind is written')
        s.once(evs, 'write-' + n, 'a value of this kind is written')
        for e in evs:
            s.ob(v.implies(e.cond, ty[n]), 'write-' + n, 'a value of this kind is written', e.where())
            s.ob(strip(e.args[0]) == ('a', 1), 'write-to', 'into the buffer', e.where())
            if len(e.args) > 1 and n != 'BOOL':
                s.ob(is_path(plain(strip(e.args[1])), 'Var.') or 'Var' in str(e.args[1]), 'write-what', 'its value is written', e.where())
    null = v.calls('encode_null')
    isset = s.rel('eq', lambda x: len(lin(x)) == 2, 0)
    s.only_if(null, isset, 'null', 'a value which is set is written')
    k = next((k for k in prog.functions if k.split('@')[0] == 'config_set_data'), None)
    if k is None:
        raise Broken('config_set_data')
    rd = ['data_read_map', 'data_read_string', 'data_read_integer', 'data_read_bool', 'data_skip', 'config_find', 'var_int_set', 'var_string_set', 'var_data_set']
    s = Spec(prog, res, prog.functions[k], interest=rd, opaque=rd)
    v = s.v
    mp, fd = v.calls('data_read_map'), v.calls('config_find')
    if not (s.one(mp, 'count', 'the number of settings is read') and s.one(fd, 'find', 'every setting is found')):
        return
    key = fd[0].loops[-1] if len(fd[0].loops) == 1 else None
    s.ob(key is not None, 'all', 'every setting is read', fd[0].where())
    if key is None:
        return
    cnt = ('ld', strip(mp[0].args[1]))
    ok = any(r is not None and (r == ({}, {cnt: 1, (): -1}, 1)) for i in header(v, key) for r in [loop_range(v, key, i)]) and v.single_exit(key)
    s.ob(ok, 'all', 'every setting is read', fd[0].where())
    s.must(done(s), mp, 'count', 'the number of settings is read')
    s.ob(strip(mp[0].args[0]) == ('a', 1), 'count', 'the number of settings is read', mp[0].where())
    it = s.and_(v.entry(key), v.body(key), s.not_(v.any(errors(s))))
    VAR = fd[0].value
    ty = {n: s.rel('eq', lambda x: is_path(x, 'Var.type'), prog.enum('VAR_' + n)) for n in ('BOOL', 'INT', 'STRING', 'DATA')}
    only = lambda n: s.and_(ty[n], *[s.not_(c) for m, c in ty.items() if m != n])
    nm = [e for e in v.calls('data_read_string') if strip(e.args[1]) == strip(fd[0].args[1])]
    s.must(it, nm, 'name', 'the name is read')
    s.before(nm, fd, 'name', 'the name is read')
    for n, r, w in (('BOOL', 'data_read_bool', 'var_int_set'), ('INT', 'data_read_integer', 'var_int_set'), ('STRING', 'data_read_string', 'var_string_set'),
                    ('DATA', 'data_skip', 'var_data_set')):
        k = s.and_(it, only(n))
        rs = [e for e in v.calls(r) if e not in nm and v.possible(s.and_(e.cond, k))]
        ws = [e for e in v.calls(w) if v.possible(s.and_(e.cond, k))]
        s.must(k, rs, 'read-' + n, 'a value of this kind is read')
        s.must(k, ws, 'set-' + n, 'a value of this kind is set')
        s.once(rs, 'read-' + n, 'a value of this kind is read')
        for e in rs:
            s.ob(strip(e.args[0]) == ('a', 1), 'read-from', 'from the data', e.where())
            s.ob(all(e.order > x.order for x in nm), 'order', 'the name, then the value', e.where())
        for e in ws:
            s.ob(same(strip(e.args[0]), VAR), 'set-which', 'of the setting it belongs to', e.where())
            s.ob(all(x.order < e.order for x in rs), 'set-order', 'after it was read', e.where())
            if n == 'DATA':
                x = bare(e.args[2])
                s.ob(all(v.loaded_before(strip(e.args[1]), x) for x in rs) and plain(strip(e.args[1])) == ('ld', ('a', 1)), 'set-data', 'all of its data', e.where(),
                     str(e.args[1]))
                s.ob(x[0] == 'bin' and x[1] == 'sub' and strip(x[3]) == strip(e.args[1]) and plain(strip(x[2])) == ('ld', ('a', 1)) and
                     v.loaded_before(strip(x[2]), e), 'set-size', 'all of its data', e.where(), str(e.args[2]))
            elif n != 'BOOL':
                loc = [strip(x.args[1]) for x in rs]
                x = strip(e.args[1])
                s.ob(x in loc or x[0] == 'ld' and plain(x)[1] in [plain(l) for l in loc], 'set-value', 'to what was read', e.where(), str(x))
    for n in ('BOOL', 'INT', 'STRING', 'DATA'):
        k = s.and_(it, only(n))
        others = [e for m, r in (('BOOL', 'data_read_bool'), ('INT', 'data_read_integer'), ('DATA', 'data_skip')) if m != n for e in v.calls(r)]
        s.never(others, k, 'one-' + n, 'one value is read')


def bare(x):
    x = strip(x)
    while x[0] == 'cast':
        x = strip(x[4])
    return x


@rule('D06')
def d06(prog, res):
    tells = set()
    parts(prog, res, objects, decoder, lists, lambda p, r: changed(p, r, tells), lambda p, r: statements(p, r, tells), filed, variables)
