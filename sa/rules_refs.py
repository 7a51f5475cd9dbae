"""A02: what is in use stays, and what is named exists

Clouds are named by storages and storages by tiers: in memory by a counted reference, in the configuration by their name.
Every place which changes a reference, a name or the list of objects is taken out of the program and has to keep both."""
from ir import Broken, walk
from cond import gates
from report import rule, parts
from spec import Spec, strip, plain, is_path, list_loop, origin
from rules_file import errors, done

REFS = [('Storage', 'cloud', 'Cloud', 'refs', ['storage_mgr_open', 'storage_mgr_create', 'storage_mgr_alter'], 'storage_free', 'storage_allocate'),
        ('Tier', 'storage', 'Storage', 'refs', ['pipeline_open', 'pipeline_alter'], 'tier_free', 'tier_allocate')]
OTHERS = ['source_read', 'source_alter', 'source_free', 'source_set_uuid', 'storage_mgr_save', 'storage_mgr_mkdir', 'storage_mgr_find', 'cloud_mgr_find', 'cloud_attach', 'cloud_detach', 'list_append', 'list_unlink',
          'tier_config_read', 'tier_config_free', 'pipeline_save', 'pipeline_alter_validate', 'str_compare', 'storage_allocate', 'storage_free', 'tier_allocate', 'tier_free']


def mk(prog, res, fn, interest=(), stores=(), opaque=()):
    return Spec(prog, res, fn, interest=[n for n in list(interest) if prog.has(n)] + [n for n in interest if not prog.has(n)], opaque=list(dict.fromkeys(list(opaque) + OTHERS)), stores=list(stores))


def keys_of(prog, names):
    return [f.key for n in names for f in prog.byname.get(n, [])]


def yes(s, e):
    """the call answered, or found something"""
    return s.not_(s.v.eq(e.value, ('i', 0)))


def mask(s, n):
    """the option is given: whatever test of the options has it in it is true"""
    s.test(lambda x: x[0] == 'bin' and x[1] == 'and' and strip(x[2]) == ('a', 2) and strip(x[3]) == ('i', n))
    out = [s.not_(s.v.eq(x, ('i', 0))) for a in list(s.b.vars) if a[0] == 'eq' and ('i', 0) in a[1:] for x in a[1:]
           if strip(x)[0] == 'bin' and strip(x)[1] == 'and' and strip(strip(x)[2]) == ('a', 2) and strip(strip(x)[3])[0] == 'i' and strip(strip(x)[3])[1] & n]
    return s.and_(*out) if out else s.test(lambda x: False)


def filled(s):
    """the storage has partitions: its count is positive and its list is not empty"""
    out = [s.rel('gt', lambda x: is_path(x, 'Storage.list_count'), 0)]
    for a in list(s.b.vars):
        if a[0] == 'eq':
            x, y = [plain(strip(z)) for z in a[1:]]
            for p, q in ((x, y), (y, x)):
                if p[0] == 'ld' and p[1][0] == 'fld' and p[1][2:] == ('List', 'next') and plain(p[1][1]) == q and q[0] == 'fld' and q[2:4] == ('Storage', 'list'):
                    out.append(s.not_(s.v.eq(*a[1:])))
    return s.and_(*out)


def members(v, e, S, owner):
    """the element of a list of an object which a walk over all of it has reached"""
    for key in reversed(e.loops or ()):
        lp = list_loop(v, key)
        if lp is None:
            continue
        head = plain(lp[1])
        if head[0] == 'fld' and head[2] == S[0] and head[3] == S[1] and owner(head[1]):
            return key, lp[0], lp[2]
    return None


def complete(s, key, but=0):
    """every element is reached (the walk ends before only with an error)"""
    v = s.v
    lp = list_loop(v, key)
    go = v.any([]) if lp is None else s.or_(*[c for c, x in v.phi_steps(lp[0])])
    return lp is not None and v.implies(s.and_(v.body(key), s.not_(but)), go)


# ------------------------------------------------------------------ renames
def renames(prog, res):
    for first, second in (('cloud_mgr_rename', 'storage_mgr_rename_cloud'), ('storage_mgr_rename', 'pipeline_rename')):
        users = {i.fn.name for i in prog.calls_of(first)}
        if not users:
            raise Broken('%s is not used' % first)
        for u in sorted(users):
            s = Spec(prog, res, prog.functions[u] if u in prog.functions else u, interest=[first, second], opaque=[first, second])
            v = s.v
            a, b = s.one(v.calls(first), 'rename', 'an object is renamed'), s.one(v.calls(second), 'follow', 'a new name is given to everything which names the object')
            s.after(a, b, 'follow', 'a new name is given to everything which names the object')
            for x in b:
                s.ob(any(v.implies(x.cond, y.cond) and [plain(strip(z)) for z in y.args[1:3]] == [plain(strip(z)) for z in x.args[1:3]] and y.order < x.order for y in a), 'follow',
                     'a new name is given to everything which names the object', x.where(), str(x.args)[:200])
    for fn, head, el, path, setter in (('storage_mgr_rename_cloud', ('StorageMgr', 'list'), 'Storage', 'Source.cloud', 'source_set_cloud'), ('pipeline_rename', ('Pipeline', 'list'), 'Tier', 'TierConfig.name', 'tier_config_set_name')):
        s = mk(prog, res, fn, ['str_compare', 'str_copy', setter], opaque=['str_copy', 'str_free', setter])
        v = s.v
        cmp = s.one(v.calls('str_compare'), 'compare', 'whole names are compared')
        st = v.calls(setter, 'str_copy')
        s.one(st, 'set', 'a new name is given to everything which names the object')
        owner = path.split('.')[0]
        for c in cmp:
            at = members(v, c, head, lambda x: x == ('a', 0))
            if not s.ob(at is not None, 'walk', 'all of them are looked at', c.where()):
                continue
            key, el_, nx = at
            s.ob(v.equal(v.entry(key), 1) and complete(s, key) and v.implies(s.and_(v.entry(key), v.body(key)), c.cond), 'walk', 'all of them are looked at', c.where())
            mine = [x for x in c.args if is_path(strip(x), path) and any(y == el_ for y in walk(x))]
            s.ob(len(mine) == 1 and ('a', 1) in [strip(x) for x in c.args], 'compare', 'whole names are compared', c.where())
            hit = s.and_(c.cond, yes(s, c))
            s.ob(v.equal(v.any(st), hit), 'set', 'a new name is given to everything which names the object', st[0].where() if st else None, v.show(v.any(st))[:200])
            for e in st:
                d = strip(e.args[0])
                d = d if is_path(d, path) else strip(d)
                good = any(y == el_ for y in walk(d)) and (is_path(d, path) or e.name == setter and (is_path(d, '%s.source' % el) or is_path(d, '%s.config' % el)))
                s.ob(good and strip(e.args[1]) == ('a', 2) and e.loops and key in e.loops, 'set', 'a new name is given to everything which names the object', e.where())


# ------------------------------------------------------------------ references
def references(prog, res):
    for S, f, T, n, roots, free, alloc in REFS:
        s = Spec(prog, res, free, interest=[], stores=[(S, f), (T, n)])
        v = s.v
        down = s.one(v.stores_of(T, n), 'down', 'a reference which is gone is not counted')
        has = s.nz('%s.%s' % (S, f))
        for e in down:
            s.ob(step(e, -1) and v.equal(e.cond, has) and of(e, S, f, ('a', 0)), 'down', 'a reference which is gone is not counted', e.where(), str(e.args)[:200])
        s = Spec(prog, res, alloc, interest=[], stores=[(S, f), (T, n), (S, 'refs')])
        st = s.one(s.v.stores_of(S, f), 'none', 'a new object has no references')
        for e in st:
            s.ob(strip(e.args[1]) == ('i', 0) and s.v.equal(e.cond, 1), 'none', 'a new object has no references', e.where())
        if S == 'Storage':
            st = s.one(s.v.stores_of(S, 'refs'), 'none', 'a new object is not referenced')
            for e in st:
                s.ob(strip(e.args[1]) == ('i', 0) and s.v.equal(e.cond, 1), 'none', 'a new object is not referenced', e.where())
        for fn in roots:
            s = mk(prog, res, fn, ['storage_mgr_find', 'cloud_mgr_find'], stores=[(S, f), (T, n)])
            v = s.v
            ptr = v.stores_of(S, f)
            cnt = v.stores_of(T, n)
            used = []
            for e in ptr:
                x = strip(e.args[1])
                obj = plain(strip(e.args[0]))[1]
                if x == ('i', 0):
                    # given up: what it was is not counted any more (nothing to give up if it was empty)
                    old = [c for c in cnt if step(c, -1) and of(c, S, f, obj)]
                    was = s.test(lambda y: y[0] == 'ld' and plain(y)[1] == plain(strip(e.args[0])))
                    s.ob(len(old) == 1 and v.equal(s.and_(e.cond, was), old[0].cond), 'give', 'a reference which is gone is not counted', e.where())
                    used += old
                    continue
                up = [c for c in cnt if step(c, 1) and plain(strip(c.args[0]))[1] == plain(x) and c.loops == e.loops]
                s.ob(len(up) == 1 and v.equal(e.cond, up[0].cond), 'count', 'every reference is counted', e.where(), str(x)[:200])
                used += up
                # it was empty before
                prev = [v.eq(y, ('i', 0)) for a in list(v.b.vars) if a[0] == 'eq' and ('i', 0) in a for y in a[1:] if y[0] == 'ld' and plain(y)[1] == plain(strip(e.args[0]))]
                gone = [p for p in ptr if p.order < e.order and strip(p.args[1]) == ('i', 0) and plain(strip(p.args[0])) == plain(strip(e.args[0]))]
                new = any(y[0] == 'call' and y[1].split('@')[0] == alloc for y in walk(e.args[0]))
                s.ob(new or any(v.implies(s.and_(e.cond, s.not_(q)), v.any(gone)) for q in prev), 'empty', 'a reference is not lost', e.where())
                # and it is the one which is named
                find = [c for c in v.calls('cloud_mgr_find', 'storage_mgr_find') if c.value == x]
                path = 'Source.cloud' if T == 'Cloud' else 'TierConfig.name'
                own = plain(obj)
                s.ob(len(find) == 1 and is_path(find[0].args[1], path) and any(plain(y) == own for y in walk(plain(strip(find[0].args[1])))) and v.implies(e.cond, yes(s, find[0])), 'named',
                     'what is referenced is what is named', e.where(), str(x)[:200])
                for c in find:
                    err = v.any(errors(s))
                    s.ob(v.implies(s.and_(c.cond, s.not_(yes(s, c))), err), 'missing', 'what is named exists', c.where())
                    s.ob(v.implies(s.and_(c.cond, yes(s, c), s.not_(s.or_(*[x.cond for x in errors(s) if x.order > c.order]))), s.or_(e.cond, threw(v))), 'named', 'what is referenced is what is named', c.where())
            for c in cnt:
                s.ob(c in used, 'count', 'every reference is counted once', c.where(), str(c.args)[:200])
            if fn != 'storage_mgr_alter':
                s.ob(bool([e for e in ptr if strip(e.args[1]) != ('i', 0)]), 'link', 'what is named is referenced')
        writers(prog, res, (S, f), roots + [free, alloc])
        writers(prog, res, (T, n), roots + [free, alloc] + (['storage_allocate', 'tier_free', 'pipeline_open', 'pipeline_alter'] if T == 'Storage' else ['cloud_s3_create', 'cloud_mock_create', 'cloud_allocate']))


def threw(v):
    try:
        return v.failed()
    except Exception:
        return 0


def step(e, n):
    x = strip(e.args[1])
    return x[0] == 'bin' and x[1] == 'add' and strip(x[3]) == ('i', n) and strip(x[2])[0] == 'ld' and plain(strip(x[2]))[1] == plain(strip(e.args[0]))


def tallied(s, S, f, adds):
    """every time one is added the counter goes up by one: there, or by a local count which is stored after the loop"""
    v = s.v
    key = adds.loops[-1] if adds.loops else None
    evs = v.stores_of(S, f)
    cnt = [e for e in evs if e.loops == adds.loops and step(e, 1)]
    if len(cnt) == 1 and len([e for e in evs if e.loops == adds.loops]) == 1:
        return cnt if v.equal(cnt[0].cond, adds.cond) or v.implies(adds.cond, cnt[0].cond) else []
    for e in evs:
        if e.loops or key is None or e.order < adds.order:
            continue
        x = strip(e.args[1])
        zero = [z for z in evs if strip(z.args[1]) == ('i', 0) and z.order < e.order and v.implies(e.cond, z.cond)]
        if x[0] == 'bin' and x[1] == 'add' and any(strip(y)[0] == 'ld' and plain(strip(y))[1] == plain(strip(e.args[0])) for y in x[2:4]):
            x = [strip(y) for y in x[2:4] if strip(y)[0] != 'ld']
            x = x[0] if len(x) == 1 else ('i', 0)
            zero = [e]
        if x[0] != 'phi' or not zero:
            continue
        init, steps = v.phi(x)
        good = all(strip(i) == ('i', 0) for i in init)
        up = 0
        for c, y in v.phi_steps(x):
            for c2, z in gates(y):
                z = strip(z)
                one = z[0] == 'bin' and z[1] == 'add' and strip(z[3]) == ('i', 1) and strip(z[2]) == x
                good = good and (one or z == x)
                up = s.or_(up, s.and_(c, c2)) if one else up
        if good and up != 0 and v.equal(s.and_(up, adds.cond), up) and v.implies(s.and_(adds.cond, s.or_(*[c for c, y in v.phi_steps(x)])), up):
            return [e]
    return []


def of(e, S, f, obj):
    """the counter is of what the field of the object points to"""
    x = plain(strip(e.args[0]))[1]
    x = strip(x)
    return x[0] == 'ld' and x[1][0] == 'fld' and x[1][2:4] == (S, f) and (plain(x[1][1]) == plain(obj) or x[1][1] == obj)


def writers(prog, res, sf, roots):
    keys = keys_of(prog, roots)
    if not keys:
        raise Broken('no %s' % roots)
    ok = prog.reach(keys)
    for k, fn in sorted(prog.functions.items()):
        for i in fn.all('store'):
            a = fn.expr(i.o[1])
            if a[0] == 'fld' and a[2] == sf[0] and a[3] == sf[1] and not (isinstance(fn.expr(i.o[0]), tuple) and fn.expr(i.o[0]) == ('i', 0)):
                res.ob(k in ok, 'writer:%s:%s.%s' % (k, sf[0], sf[1]), i.where(), '%s(): references are changed where they are counted' % fn.name)


# ------------------------------------------------------------------ drops
def drops(prog, res):
    for fn, S in (('cloud_mgr_drop', 'Cloud'), ('storage_mgr_drop', 'Storage'), ('storage_mgr_rename', None)):
        find = fn.split('_')[0] + '_mgr_find'
        free = '%s_free' % fn.split('_')[0]
        s = mk(prog, res, fn, [find, 'list_unlink', 'str_compare_raw', free, 'source_set_name', 'str_copy'], opaque=['str_compare_raw', free, 'cloud_mgr_save', 'source_set_name'])
        v = s.v
        if S:
            ch = s.one(v.calls('list_unlink'), 'drop', 'the object is dropped') + s.one(v.calls(free), 'free', 'the object is freed')
            refs = s.rel('gt', lambda x: is_path(x, '%s.refs' % S), 0)
            s.never(ch, refs, 'used', 'what is referenced is kept')
            s.ob(v.implies(s.and_(s.v.any(v.calls(find)), *([yes(s, e) for e in v.calls(find)] + [refs])), v.any(errors(s))), 'used', 'it is an error to drop it')
            un = [e for e in ch if e.name == 'list_unlink']
            s.before(un, [e for e in ch if e not in un], 'order', 'the object is out of the list before it is freed')
        else:
            ch = s.one(v.calls('source_set_name'), 'name', 'the object is renamed')
        if S == 'Storage':
            some = filled(s)
            s.never(ch, some, 'filled', 'a storage with partitions is kept')
        if 'storage' in fn:
            m = [e for e in v.calls('str_compare_raw') if ('a', 1) in [strip(x) for x in e.args] and any(txt(x) == 'main' for x in e.args)]
            m = s.one(m, 'main', 'the main storage is kept')
            for e in m:
                s.ob(strip(e.args[2]) == ('i', 4) and v.equal(e.cond, 1), 'main', 'the main storage is kept', e.where())
                s.never(ch, yes(s, e), 'main', 'the main storage is kept')


def txt(x):
    from rules_config import text
    return text(x)


# ------------------------------------------------------------------ changes
def changes(prog, res):
    s = mk(prog, res, 'storage_mgr_alter', ['source_alter', 'cloud_mgr_find', 'storage_mgr_find', 'cloud_attach', 'cloud_detach'], stores=[('Part', 'cloud'), ('Storage', 'cloud')], opaque=['part_has'])
    v = s.v
    al = s.one(v.calls('source_alter'), 'alter', 'the storage is changed')
    st = v.calls('storage_mgr_find')
    if not al or not st:
        return
    owner = lambda x: plain(strip(x)) == plain(st[0].value)
    some = filled(s)
    for n, what in (('SOURCE_CRC', 'crc'), ('SOURCE_PATH', 'path'), ('SOURCE_ENCRYPTION', 'encryption'), ('SOURCE_ENCRYPTION_KEY', 'encryption_key')):
        s.never(al, s.and_(mask(s, prog.enum(n)), some), what, 'files of a storage stay readable: its %s changes while it is empty' % what)
    cl = mask(s, prog.enum('SOURCE_CLOUD'))
    # no partition is left on the cloud
    seen = []
    for e in errors(s) + v.calls('part_has') + [x for x in v.events if x.kind == 'throw']:
        pass
    ID_CLOUD = prog.enum('ID_CLOUD')
    for key in sorted(v.loops):
        lp = list_loop(v, key)
        if lp is None:
            continue
        h = plain(lp[1])
        if not (h[0] == 'fld' and h[2:4] == ('Storage', 'list') and owner(h[1])):
            continue
        on = s.test(lambda x: x[0] == 'bin' and x[1] == 'and' and is_path(x[2], 'Part.state') and strip(x[3]) == ('i', ID_CLOUD) and any(y == lp[0] for y in walk(x)))
        on = on if s.made(on) else 0
        for c in v.calls('part_has'):
            if any(y == lp[0] for y in walk(c.args[0])) and strip(c.args[1]) == ('i', ID_CLOUD):
                on = s.or_(on, yes(s, c))
        go = s.or_(*[c for c, x in v.phi_steps(lp[0])])
        if v.possible(s.and_(v.body(key), on)) and not v.possible(s.and_(go, on)) and v.implies(s.and_(v.body(key), s.not_(on)), go):
            seen.append((key, on))
    s.ob(bool(seen) and all(v.implies(s.and_(e.cond, cl), s.or_(*[v.entry(k) for k, on in seen])) for e in al), 'remain',
         'the cloud of a storage changes when none of its partitions is there', al[0].where())
    for e in al:
        for k, on in seen:
            s.ob(v.implies(s.and_(v.entry(k), v.body(k), on), v.any(errors(s))), 'remain', 'the cloud of a storage changes when none of its partitions is there', e.where())
    # the new cloud exists
    fs = [e for e in v.calls('cloud_mgr_find') if is_path(e.args[1], 'Source.cloud') and origin(e.args[1]) == ('a', 1)]
    fs = s.one(fs, 'exists', 'a storage names a cloud which exists')
    for e in fs:
        s.never(al, s.and_(e.cond, s.not_(yes(s, e))), 'exists', 'a storage names a cloud which exists')
        s.ob(all(e.order < x.order for x in al), 'exists', 'a storage names a cloud which exists', e.where())
        none = empty(s, lambda x: any(y[0] == 'fld' and is_path(y, 'Source.cloud') and plain(y)[1] == ('a', 1) for y in walk(x)))
        for x in al:
            s.ob(v.implies(s.and_(x.cond, cl, s.not_(none)), e.cond), 'exists', 'a storage names a cloud which exists', x.where())
    # its partitions follow
    pc = v.stores_of('Part', 'cloud')
    new = [e for e in pc if strip(e.args[1]) != ('i', 0)]
    good = 0
    for e in pc:
        at = members(v, e, ('Storage', 'list'), owner)
        ok = at is not None and any(y == at[1] for y in walk(e.args[0])) and v.implies(s.and_(v.entry(at[0]), v.body(at[0])), e.cond) and complete(s, at[0])
        x = e.args[1]
        for c, y in gates(x):
            y = strip(y)
            ok = ok and (y == ('i', 0) or is_path(y, 'Storage.cloud') or any(plain(y) == plain(z.args[1]) for z in v.stores_of('Storage', 'cloud')))
        s.ob(ok, 'follow', 'partitions know the cloud of their storage', e.where(), str(x)[:200])
        if ok:
            good = s.or_(good, v.entry(at[0]))
    for e in al:
        s.ob(v.implies(s.and_(e.cond, cl, s.not_(s.or_(*[x.cond for x in errors(s) if x.order > e.order]))), good), 'follow', 'partitions know the cloud of their storage', e.where())
    later = [e for e in v.stores_of('Storage', 'cloud') if strip(e.args[1]) != ('i', 0)]
    for e in later:
        ks = [members(v, x, ('Storage', 'list'), owner) for x in new if x.order > e.order]
        s.ob(any(k is not None and v.implies(s.and_(e.cond, s.not_(s.or_(*[x.cond for x in errors(s) if x.order > e.order]))), v.entry(k[0])) for k in ks), 'follow', 'partitions know the cloud of their storage', e.where())
    # a cloud which cannot be created is not saved
    s = mk(prog, res, 'cloud_mgr_alter', ['cloud_config_alter', 'cloud_config_copy', 'cloud_allocate', 'cloud_mgr_find', 'cloud_mgr_save'], opaque=['cloud_config_alter', 'cloud_config_copy', 'cloud_allocate', 'cloud_free', 'cloud_config_free', 'cloud_mgr_save'])
    v = s.v
    al = v.calls('cloud_config_alter')
    copy = v.calls('cloud_config_copy')
    real = s.one([e for e in al if is_path(e.args[0], 'Cloud.config')], 'alter', 'the cloud is changed')
    tried = [e for e in v.calls('cloud_allocate') for c in copy for a in al if plain(strip(e.args[1])) == plain(c.value) == plain(strip(a.args[0])) and a.order < e.order and v.implies(e.cond, a.cond)
             and [strip(x) for x in a.args[1:]] == [('a', 1), ('a', 2)] and is_path(c.args[0], 'Cloud.config')]
    s.one(tried, 'try', 'a cloud can be created from its settings')
    s.before(tried, real + v.calls('cloud_mgr_save'), 'try', 'a cloud can be created from its settings')
    for e in tried:
        s.ob(any(plain(strip(e.args[0])) == ('ld', plain(strip(e.args[0]))[1]) and is_path(e.args[0], 'Cloud.iface') for _ in [0]), 'try', 'a cloud can be created from its settings', e.where())


def empty(s, pred):
    """a text is empty (in the ways it can be written)"""
    return s.rel('eq', lambda x: strip(x)[0] == 'bin' and strip(x)[1] == 'sub' and pred(strip(x)), 0)


# ------------------------------------------------------------------ partitions of a storage
def belongs(prog, res):
    for fn, lf, n in (('storage_add', 'list_append', 1), ('storage_remove', 'list_unlink', -1)):
        s = mk(prog, res, fn, [lf], stores=[('Storage', 'list_count'), ('Part', 'cloud')])
        v = s.v
        for e in s.one(v.calls(lf), 'list', 'partitions are in the list of their storage'):
            s.ob(v.equal(e.cond, 1) and any(is_path(x, 'Part.link') and origin(x) == ('a', 1) for x in e.args) and (n < 0 or is_path(e.args[0], 'Storage.list') and origin(e.args[0]) == ('a', 0)), 'list',
                 'partitions are in the list of their storage', e.where())
        for e in s.one(v.stores_of('Storage', 'list_count'), 'count', 'partitions are counted'):
            s.ob(step(e, n) and origin(e.args[0]) == ('a', 0) and v.equal(e.cond, 1), 'count', 'partitions are counted', e.where())
        for e in s.one(v.stores_of('Part', 'cloud'), 'cloud', 'partitions know the cloud of their storage'):
            x = strip(e.args[1])
            s.ob(origin(e.args[0]) == ('a', 1) and v.equal(e.cond, 1) and (x == ('i', 0) if n < 0 else is_path(x, 'Storage.cloud') and origin(x) == ('a', 0)), 'cloud', 'partitions know the cloud of their storage', e.where())
    ok = set(keys_of(prog, ('storage_add', 'storage_remove', 'storage_allocate')))
    if not ok:
        raise Broken('no storage_add')
    for k, fn in sorted(prog.functions.items()):
        for i in fn.all('store'):
            a = fn.expr(i.o[1])
            if a[0] == 'fld' and a[2:4] == ('Storage', 'list_count'):
                res.ob(k in ok, 'writer:%s:Storage.list_count' % k, i.where(), '%s(): partitions are counted when they are added and removed' % fn.name)


# ------------------------------------------------------------------ the pipeline
def pipeline(prog, res):
    s = mk(prog, res, 'pipeline_alter', ['storage_mgr_find', 'list_append', 'tier_allocate', 'tier_free', 'list_unlink', 'pipeline_save', 'pipeline_alter_validate'], stores=[('Tier', 'storage'), ('Pipeline', 'list_count')])
    v = s.v
    bad = threw(v)
    new = s.one(v.calls('tier_allocate'), 'new', 'every tier is made')
    for a in new:
        key = a.loops[-1] if a.loops else None
        lp = list_loop(v, key) if key else None
        if not s.ob(lp is not None and plain(lp[1]) == ('a', 1) or lp is not None and lp[1] == ('a', 1), 'new', 'every tier is made', a.where(), str(lp)):
            continue
        err = v.any([x for x in errors(s)])
        s.ob(v.implies(s.and_(v.entry(key), v.body(key)), a.cond) and any(y == lp[0] for y in walk(a.args[0])), 'new', 'every tier is made', a.where())
        link = [e for e in v.stores_of('Tier', 'storage') if plain(strip(e.args[0]))[1] == plain(a.value)]
        go = s.or_(*[c for c, x in v.phi_steps(lp[0])])
        s.ob(bool(link) and v.implies(go, v.any(link)) , 'link', 'every tier has its storage', a.where())
        ap = [e for e in v.calls('list_append') if any(any(plain(y) == plain(a.value) for y in walk(x)) for x in e.args)]
        s.ob(len(ap) == 1 and v.implies(go, v.any(ap)), 'keep', 'every tier is kept', a.where())
        tmp = [strip(e.args[0]) for e in ap]
        old = [e for e in v.calls('tier_free') + v.calls('list_append') + v.stores_of('Pipeline', 'list_count') if e not in ap and not cleanup(v, e, tmp)]
        s.never(old, bad, 'whole', 'the old tiers are kept until the new ones are complete')
        for e in old:
            s.ob(e.order > a.order, 'whole', 'the old tiers are kept until the new ones are complete', e.where())
        # all of the old ones go, all of the new ones come
        gone = [e for e in v.calls('tier_free') if members(v, e, ('Pipeline', 'list'), lambda x: x == ('a', 0))]
        s.ob(len(gone) == 1 and v.implies(done(s), v.entry(gone[0].loops[-1])) and v.implies(s.and_(v.entry(gone[0].loops[-1]), v.body(gone[0].loops[-1])), gone[0].cond), 'old', 'the old tiers are gone')
        come = [e for e in v.calls('list_append') if is_path(e.args[0], 'Pipeline.list') and origin(e.args[0]) == ('a', 0)]
        ok = len(come) == 1 and len(come[0].loops) > 0
        if ok:
            k2 = come[0].loops[-1]
            l2 = list_loop(v, k2)
            ok = l2 is not None and any(strip(l2[1]) == t or plain(l2[1]) == plain(t) for t in tmp) and v.implies(done(s), v.entry(k2)) and v.implies(s.and_(v.entry(k2), v.body(k2)), come[0].cond) and complete(s, k2) and \
                any(y == l2[0] for y in walk(come[0].args[1]))
            cnt = tallied(s, 'Pipeline', 'list_count', come[0])
            ok = ok and len(cnt) == 1 and (cnt[0].loops == come[0].loops or v.implies(done(s), cnt[0].cond))
            ok = ok and all(g.order < come[0].order for g in gone)
        s.ob(ok, 'new', 'the new tiers are all in place', come[0].where() if come else None)
    zero = [e for e in v.stores_of('Pipeline', 'list_count') if strip(e.args[1]) == ('i', 0)]
    s.must(done(s), zero, 'count', 'tiers are counted')
    s.must(done(s), v.calls('pipeline_save'), 'save', 'the tiers are saved')
    s.must(1, v.calls('pipeline_alter_validate'), 'valid', 'the tiers are checked')
    for e in v.calls('pipeline_alter_validate'):
        s.ob(strip(e.args[0]) == ('a', 1) and all(e.order < x.order for x in new), 'valid', 'the tiers are checked', e.where())
    s = mk(prog, res, 'pipeline_open', ['storage_mgr_find', 'list_append', 'tier_allocate'], stores=[('Tier', 'storage'), ('Pipeline', 'list_count')])
    v = s.v
    for a in s.one(v.calls('tier_allocate'), 'new', 'every tier is made'):
        link = [e for e in v.stores_of('Tier', 'storage') if plain(strip(e.args[0]))[1] == plain(a.value)]
        ap = [e for e in v.calls('list_append') if is_path(e.args[0], 'Pipeline.list') and any(any(plain(y) == plain(a.value) for y in walk(x)) for x in e.args)]
        cnt = tallied(s, 'Pipeline', 'list_count', ap[0]) if ap else []
        err = v.any([x for x in errors(s) if x.order > a.order])
        for what in (link, ap, cnt):
            s.ob(len(what) == 1 and (v.implies(s.and_(a.cond, s.not_(err)), v.any(what)) or what is cnt and not what[0].loops and v.implies(s.and_(done(s), v.entry(a.loops[-1])), v.any(what))),
                 'link', 'every tier has its storage', a.where())


def cleanup(v, e, tmp):
    """what was made is given up again"""
    for key in e.loops or ():
        fn, body, edge, rc = v.loops[key]
        F = v.frameobj[key[0]]
        for i in fn.blocks[key[1]]:
            if i.op != 'phi':
                break
            init, step_ = v.phi(('phi', i.id, key[0]))
            for x in init:
                if any(any(plain(y) == plain(t) for t in tmp) for y in walk(x)) and e.name == 'tier_free':
                    return True
    return False


@rule('A02')
def a02(prog, res):
    parts(prog, res, renames, references, drops, changes, belongs, pipeline)
