"""A03: a setting has the value it was set to, and SHOW tells what is there."""
from cond import gates, plain
from ir import walk
from report import parts, rule
from rules_event import canon
from rules_file import errors
from rules_secret import config_table
from spec import Spec, has_path, is_call, is_path, ladd, lin, list_loop, origin, strip

# type, flags and default of every setting which is not internal to a test
TYPES = ('VAR_BOOL', 'VAR_INT', 'VAR_STRING', 'VAR_DATA')
# may be set: before the start (C), while running (R)
ALLOWED = {'uuid': 'C', 'sync': 'C', 'log': 'C', 'log_to_file': 'C', 'log_to_stdout': 'C', 'mm_page_size': 'C', 'mm_limit': 'C', 'mm_limit_wm': 'C',
           'mm_limit_behaviour': 'C', 'mm_cache': 'C', 'wal': 'C', 'wal_rotate_wm': 'CR', 'wal_sync_on_rotate': 'C', 'wal_sync_on_write': 'C', 'wal_crc': 'C',
           'serial': 'C', 'interval': 'CR', 'compression': 'CR', 'compression_level': 'CR', 'workers': 'C', 'workers_upload': 'C', 'version': '',
           'directory': '', 'lsn': '', 'clouds': 'C', 'storages': 'C', 'pipeline': 'C'}
DEFAULTS = {'sync': 1, 'wal': 1, 'wal_sync_on_rotate': 1, 'serial': 1, 'interval': 3000000}


def payload(x, owner):
    """is this (part of) the value of the token in a field"""
    return any(y[:1] == ('fld',) and y[2:] == ('Token', '') and is_path(y[1], owner) for y in walk(x) if isinstance(y, tuple))


def cell(x):
    """is this the value of the setting which was passed"""
    return any(y[:1] == ('fld',) and y[2:] == ('Var', '') and plain(y[1]) == ('a', 0) for y in walk(x) if isinstance(y, tuple))


def flag(s, n, var=None):
    """conditions under which a flag is set (one per value the code tests)"""
    ts = s.terms(lambda t: t[0] == 'bin' and t[1] == 'and' and t[3] == ('i', n) and is_path(t[2], 'Var.flags') and origin(t[2]) != ('i', 0))
    return s.or_(*[s.not_(s.v.eq(t, ('i', 0))) for t in ts]) if ts else s.fresh()


def anyflag(s, a, b):
    """one of two flags is set"""
    ts = s.terms(lambda t: t[0] == 'bin' and t[1] == 'and' and t[3] == ('i', a | b) and is_path(t[2], 'Var.flags') and origin(t[2]) != ('i', 0))
    return s.not_(s.v.eq(ts[0], ('i', 0))) if ts else s.or_(flag(s, a), flag(s, b))


def one_type(s, prog, path):
    """(atom of each type, condition under which exactly one of them holds)"""
    T = {t: s.rel('eq', path if callable(path) else lambda x: is_path(x, path), prog.enum(t)) for t in TYPES}
    U = 0
    for t in TYPES:
        U = s.or_(U, s.and_(T[t], *[s.not_(T[o]) for o in TYPES if o != t]))
    return T, U


def truth(s, x):
    """condition under which a value is not zero"""
    x = strip(x)
    if x[0] == 'bdd':
        return x[1]
    if x[0] == 'b2i':
        return truth(s, x[1])
    if x[0] == 'i':
        return 1 if x[1] else 0
    return s.not_(s.v.eq(x, ('i', 0)))


def statement(prog, res):
    V = {n: prog.enum('VAR_' + n) for n in 'CRHSEZ'}
    ops = ['config_find', 'var_int_set', 'var_string_set', 'control_save_config', 'var_data_set', 'var_string_set_raw']
    s = Spec(prog, res, [f for k, f in prog.functions.items() if k.split('@')[0] == 'execute_set'][0], interest=ops, opaque=ops, throws=True)
    v = s.v
    cf = v.calls('config_find')
    if not s.ob(len(cf) == 1 and cf[0].cond == 1 and payload(cf[0].args[1], 'CmdSet.name'), 'find', 'the setting which was named is looked for'):
        return
    var = strip(cf[0].value)
    there = s.not_(v.eq(cf[0].value, ('i', 0)))
    on = [s.not_(v.eq(x, ('i', 0))) for x in s.terms(lambda x: x[0] == 'ld' and is_path(x, 'Config.online'))] or [s.fresh()]
    online = on[0]
    found = s.and_(there, s.not_(flag(s, V['S'])))
    may = s.and_(found, v.b.ite(online, flag(s, V['R']), flag(s, V['C'])))
    T, U = one_type(s, prog, lambda x: is_path(x, 'Var.type') and not has_path(x, 'Config.online') and origin(x) != ('i', 0))
    # the environment does not start or stop in between, and its variable is what it is
    for o in on[1:]:
        U = s.and_(U, v.b.ite(o, online, s.not_(online)))
    for x in s.terms(lambda x: is_path(x, 'Config.online', 'Var.type')):
        U = s.and_(U, s.or_(v.eq(x, ('i', prog.enum('VAR_BOOL'))), v.eq(x, ('i', prog.enum('VAR_INT')))))
    tok = lambda n: s.rel('eq', lambda x: is_path(x, 'Token.id') and has_path(x, 'CmdSet.value'), prog.enum(n))
    KT, KF, KI, KS = [tok(n) for n in ('KTRUE', 'KFALSE', 'KINT', 'KSTRING')]
    # the value has one type
    kinds = [KT, KF, KI, KS]
    for i, a in enumerate(kinds):
        for b in kinds[i + 1:]:
            U = s.and_(U, s.not_(s.and_(a, b)))
    zero = s.rel('eq', lambda x: x[0] == 'ld' and payload(x, 'CmdSet.value'), 0)
    bad0 = s.and_(flag(s, V['Z']), zero)
    want = {'VAR_BOOL': s.or_(KT, KF), 'VAR_INT': s.and_(KI, s.not_(bad0)), 'VAR_STRING': KS, 'VAR_DATA': 0}
    # the tests of a type exclude each other: what was decided for one does not hold for another
    calls = {'VAR_BOOL': v.calls('var_int_set'), 'VAR_INT': v.calls('var_int_set'), 'VAR_STRING': v.calls('var_string_set', 'var_string_set_raw'),
             'VAR_DATA': v.calls('var_data_set')}
    sets = []
    for t in TYPES:
        es = calls[t]
        c = s.and_(U, T[t])
        sets += [e for e in es if e not in sets]
        got = s.and_(v.any(es), c)
        s.ob(v.equal(got, s.and_(c, may, want[t])), t, 'a setting is set only where that is allowed, to a value of its type', es[0].where() if es else None, v.show(got)[:300])
        other = [e for e in v.calls(*ops[1:3], *ops[4:]) if e not in es]
        s.ob(not v.possible(s.and_(c, v.any(other))), t + '-other', 'a setting is set as what it is')
        for e in es:
            ce = s.and_(e.cond, c)
            if not v.possible(ce):
                continue
            for q, x in gates(e.args[0]):
                s.ob(strip(x) == var or not v.possible(s.and_(q, ce)), 'var', 'the setting which was found is set', e.where())
            for q, x in gates(e.args[1]):
                q = s.and_(q, ce)
                if not v.possible(q):
                    continue
                y = strip(x)
                if t == 'VAR_BOOL':
                    s.ob(v.equal(s.and_(q, truth(s, x)), s.and_(q, KT)) and y[0] in ('bdd', 'b2i', 'i'), 'bool', 'it is true exactly if true was given', e.where())
                elif t == 'VAR_INT':
                    s.ob(y[0] == 'ld' and payload(y, 'CmdSet.value') and not any(z[:2] == ('cast', 'trunc') for z in walk(x)), 'int', 'it is the integer which was given', e.where())
                else:
                    s.ob(y[0] != 'ld' and payload(y, 'CmdSet.value'), 'string', 'it is the string which was given', e.where())
    rets = v.any(v.rets())
    s.ob(v.implies(s.and_(rets, U), v.any(sets)), 'refused', 'a statement which sets nothing fails', None, v.show(s.and_(rets, U, s.not_(v.any(sets))))[:300])
    for e in errors(s):
        s.ob(not any(x.order < e.order and v.possible(s.and_(x.cond, e.cond, U)) for x in sets), 'unchanged', 'a statement which fails changes nothing', e.where())
    sv = v.calls('control_save_config')
    s.ob(v.equal(s.and_(v.any(sv), U), s.and_(U, v.any(sets), online, s.not_(flag(s, V['E'])))), 'saved', 'a change of a setting which is kept is saved',
         sv[0].where() if sv else None, v.show(v.any(sv))[:300])
    s.ob(all(x.order < e.order for e in sv for x in sets), 'saved-after', 'after it was made')


def variable(prog, res):
    s = Spec(prog, res, 'var_is')
    x = [t for t in s.terms(lambda t: t[0] == 'bin' and t[1] == 'and' and {y for y in map(lambda z: plain(strip(z)), t[2:])} == {('a', 1), ('ld', ('fld', ('a', 0), 'Var', 'flags'))})]
    g = gates(s.v.ret)
    r = s.or_(*[s.and_(c, truth(s, y)) for c, y in g])
    ok = len(x) == 1 and any(s.v.equal(r, q) for q in (s.not_(s.v.eq(x[0], ('i', 0))), s.v.cmp('sgt', x[0], ('i', 0)), s.v.eq(x[0], ('a', 1))))
    s.ob(ok, 'flag', 'a flag of a setting is tested')
    for n in ('var_int_set', 'var_int_follow', 'var_int_add'):
        if n == 'var_int_add' and not prog.has(n):
            continue
        s = Spec(prog, res, n, stores=['*'])
        st = [e for e in s.v.events if e.kind == 'store' and e.name[0] == 'Var']
        if not s.ob(len(st) == 1 and cell(st[0].args[0]), 'one', 'the value of the setting changes'):
            continue
        x = st[0].args[1]
        cur = lambda t: t[0] == 'ld' and cell(t)
        if n == 'var_int_follow':
            gt = s.rel('ugt', lambda t: plain(strip(t)) == ('a', 1), cur)
            eq = s.rel('eq', lambda t: plain(strip(t)) == ('a', 1), cur)
            s.ob(s.v.implies(s.and_(st[0].cond, s.not_(eq)), gt) and s.v.implies(s.and_(gt, s.not_(eq)), st[0].cond) and plain(strip(x)) == ('a', 1), 'follow', 'a number only grows', st[0].where())
        elif n == 'var_int_add':
            d = lin(x)
            s.ob(st[0].cond == 1 and d.get(('a', 1)) == 1 and len(d) == 2, 'add', 'it is added', st[0].where())
        else:
            s.ob(st[0].cond == 1 and plain(x) == ('a', 1), 'set', 'it is the value which was passed', st[0].where())
    s = Spec(prog, res, 'var_int_of')
    g = gates(s.v.ret)
    s.ob(len(g) == 1 and plain(g[0][1])[0] == 'ld' and cell(plain(g[0][1])[1]), 'get', 'the value of a setting is what was set')
    for n, cp, src in (('var_string_set', 'str_copy', 1), ('var_string_set_raw', 'str_strndup', 1), ('var_data_set', 'str_strndup', 1), ('var_data_set_str', 'str_copy', 1), ('var_data_set_buf', 'str_strndup', 1)):
        if not prog.has(n):
            continue
        s = Spec(prog, res, n, interest=['str_free', 'str_copy', 'str_strndup'], opaque=['str_free', 'str_copy', 'str_strndup'])
        fr, co = s.v.calls('str_free'), s.v.calls('str_copy', 'str_strndup')
        ok = len(fr) == len(co) == 1 and fr[0].cond == co[0].cond == 1 and fr[0].order < co[0].order and cell(fr[0].args[0]) and cell(co[0].args[0])
        if ok:
            a = co[0].args
            if n == 'var_data_set_buf':
                ok = is_path(strip(a[1]), 'Buf.start') and canon(a[2]) == {('*position', ('a', 1)): 1, ('*start', ('a', 1)): -1} or \
                    {k[0] for k in canon(a[2]) if isinstance(k, tuple)} == {'cast'}
            else:
                ok = plain(strip(a[1])) == ('a', 1) and (len(a) < 3 or plain(strip(a[2])) == ('a', 2))
        s.ob(ok, 'text', 'a text setting is replaced by a copy of the new text', co[0].where() if co else None)
    s = Spec(prog, res, 'str_strndup', interest=['mn_malloc', 'llvm.memcpy', 'llvm.memset'], opaque=['mn_malloc'], stores=['*'])
    v = s.v
    al, cp = v.calls('mn_malloc'), v.calls('llvm.memcpy')
    ok = len(al) == len(cp) == 1 and {plain(strip(k)) if k else k: q for k, q in lin(al[0].args[0]).items()} == {('a', 2): 1, (): 1} \
        and strip(cp[0].args[0]) == strip(al[0].value) and plain(strip(cp[0].args[1])) == ('a', 1) and plain(strip(cp[0].args[2])) == ('a', 2)
    s.ob(ok, 'copy', 'all of a text is copied', al[0].where() if al else None)
    for f, d in (('pos', {}), ('end', {('a', 2): 1})):
        st = v.stores_of('Str', f)
        s.ob(ok and len(st) == 1 and st[0].cond == 1 and {plain(strip(k)) if k else k: q for k, q in ladd(lin(st[0].args[1]), lin(al[0].value), -1).items()} == d, f, 'the text is the copy', st[0].where() if st else None)
    st = v.stores_of('Str', 'allocated')
    s.ob(len(st) == 1 and st[0].cond == 1 and strip(st[0].args[1]) == ('i', 1), 'owned', 'a copy is freed')
    s = Spec(prog, res, 'str_copy', interest=['str_strndup'], opaque=['str_strndup'])
    c = s.v.calls('str_strndup')
    ok = len(c) == 1 and c[0].cond == 1 and plain(strip(c[0].args[0])) == ('a', 0) and is_path(strip(c[0].args[1]), 'Str.pos') and origin(c[0].args[1]) == ('a', 1)
    s.ob(ok and has_path(c[0].args[2], 'Str.end'), 'copy', 'all of a text is copied')
    # shown as what it is
    enc = ['encode_string', 'encode_bool', 'encode_integer', 'encode_null', 'buf_write_str']
    s = Spec(prog, res, 'var_encode', interest=enc, opaque=enc)
    v = s.v
    T, U = one_type(s, prog, 'Var.type')
    data = v.calls('buf_write_str', 'encode_null')
    for t, es in (('VAR_BOOL', v.calls('encode_bool')), ('VAR_INT', v.calls('encode_integer')), ('VAR_STRING', v.calls('encode_string')), ('VAR_DATA', data)):
        s.ob(v.equal(s.and_(U, v.any(es)), s.and_(U, T[t])), t, 'a setting is shown as what it is', es[0].where() if es else None)
        for e in es:
            if e.name == 'encode_null':
                continue
            for c, x in gates(e.args[1]):
                y = strip(x)
                if t == 'VAR_BOOL' and y[0] in ('bdd', 'b2i'):
                    ts = s.terms(lambda z: z[0] == 'ld' and cell(z))
                    s.ob(any(v.equal(truth(s, y), s.not_(v.eq(z, ('i', 0)))) for z in ts), 'bool', 'true is shown as true', e.where())
                else:
                    s.ob(cell(y if y[0] != 'ld' else y[1]), 'value', 'its value is shown', e.where())
    nu, wr = v.calls('encode_null'), v.calls('buf_write_str')
    em = s.rel('eq', lambda t: has_path(t, 'Str.end') and has_path(t, 'Str.pos'), 0)
    s.ob(v.equal(s.and_(U, v.any(nu)), s.and_(U, T['VAR_DATA'], em)), 'unset', 'a setting without data is shown as null')


def table(prog, res):
    V = {n: prog.enum('VAR_' + n) for n in 'CRHSEZ'}
    s = Spec(prog, res, 'config_prepare', interest=['config_add'], opaque=['config_add'],
             stores=[('ConfigDef', f) for f in ('name', 'type', 'flags', 'var', 'default_string', 'default_int')])
    v = s.v
    rows = {}
    for e in v.events:
        if e.kind == 'store' and e.name[0] == 'ConfigDef':
            rows.setdefault(e.args[0][1], {})[e.name[1]] = (strip(e.args[1]), e)
    fields = [x['name'] for x in prog.structs['Config']['fields'] if x['type'].find('Var') >= 0]
    seen = {}
    for a, r in rows.items():
        name, var = r.get('name', (('i', 0),))[0], r.get('var', (('i', 0),))[0]
        if name[0] != 's':
            continue
        w = r['var'][1].where()
        n = name[1]
        n = n.decode() if isinstance(n, bytes) else n
        s.ob(var[0] == 'fld' and var[2] == 'Config' and var[3] == n, 'var-' + n, 'a setting is kept in the variable of its name', w)
        s.ob(n not in seen, 'once-' + n, 'a setting is defined once', w)
        seen[n] = r
    for n in sorted(fields):
        if n != 'online':
            s.ob(n in seen, 'there-' + n, 'every setting is defined')
    ival = lambda r, f: r[f][0][1] if f in r and r[f][0][0] == 'i' else None
    for n, al in sorted(ALLOWED.items()):
        r = seen.get(n)
        if r is None:
            continue
        fl, w = ival(r, 'flags') or 0, r['flags'][1].where()
        s.ob(bool(fl & V['C']) == ('C' in al), 'before-' + n, 'what may be set before the start', w)
        s.ob(bool(fl & V['R']) == ('R' in al), 'running-' + n, 'what may be set while running', w)
        if n in DEFAULTS:
            s.ob(ival(r, 'default_int') == DEFAULTS[n], 'default-' + n, 'what a setting is without being set', r['default_int'][1].where())
    if 'interval' in seen:
        s.ob(ival(seen['interval'], 'flags') & V['Z'], 'zero', 'the interval cannot be zero', seen['interval']['flags'][1].where())
    # every definition is added
    ca = v.calls('config_add')
    ok = len(ca) == 1 and len(ca[0].loops) == 1
    s.ob(ok and v.equal(ca[0].cond, v.body(ca[0].loops[0])), 'add', 'every setting which is defined is added', ca[0].where() if ca else None)
    # config_add
    ops = ['var_init', 'list_append', 'var_int_set', 'var_string_set_raw']
    fn = [f for k, f in prog.functions.items() if k.split('@')[0] == 'config_add'][0]
    s = Spec(prog, res, fn, interest=ops, opaque=ops, stores=['*'])
    v = s.v
    it = v.calls('var_init')
    D = lambda x, f: is_path(strip(x), 'ConfigDef.' + f)
    s.ob(len(it) == 1 and it[0].cond == 1 and all(D(it[0].args[i], f) for i, f in enumerate(('var', 'name', 'type', 'flags'))), 'init', 'a setting is what its definition says', it[0].where() if it else None)
    F = {n: flag(s, V[n]) for n in 'CHSE'}
    cnt = {'count': 1, 'count_visible': s.not_(anyflag(s, V['S'], V['H'])), 'count_config': F['C'], 'count_persistent': s.not_(F['E'])}
    for f, c in sorted(cnt.items()):
        st = v.stores_of('Config', f)
        s.ob(len(st) == 1 and v.equal(st[0].cond, c) and lin(st[0].args[1]) == {('ld', st[0].args[0]): 1, (): 1} or
             len(st) == 1 and st[0].cond == 1 and c == 1 and lin(st[0].args[1]).get((), 0) == 1, f, 'settings are counted as they are shown and saved', st[0].where() if st else None)
    for l, c in (('list', 1), ('list_persistent', cnt['count_persistent'])):
        ap = [e for e in v.calls('list_append') if is_path(strip(e.args[0]), 'Config.' + l)]
        s.ob(len(ap) == 1 and v.equal(ap[0].cond, c), l, 'settings are listed as they are counted', ap[0].where() if ap else None)
    T, U = one_type(s, prog, 'ConfigDef.type')
    si, ss = v.calls('var_int_set'), v.calls('var_string_set_raw')
    s.ob(v.equal(s.and_(U, v.any(si)), s.and_(U, s.or_(T['VAR_BOOL'], T['VAR_INT']))) and all(D(e.args[0], 'var') and D(e.args[1], 'default_int') for e in si), 'default-int', 'a setting starts with its default', si[0].where() if si else None)
    has = s.nz('ConfigDef.default_string')
    s.ob(v.equal(s.and_(U, v.any(ss)), s.and_(U, T['VAR_STRING'], has)) and all(D(e.args[0], 'var') and D(e.args[1], 'default_string') and
         any(is_call(z, 'strlen') for z in walk(e.args[2])) for e in ss), 'default-text', 'a text setting starts with its default', ss[0].where() if ss else None)
    s = Spec(prog, res, 'var_init', stores=['*'])
    for f, a in (('type', 2), ('flags', 3)):
        st = s.v.stores_of('Var', f)
        s.ob(len(st) == 1 and st[0].cond == 1 and plain(strip(st[0].args[1])) == ('a', a), f, 'a setting has the %s it is defined with' % f)
    # shown and printed: all which are not hidden
    for n, ops in (('config_show', ['encode_map', 'encode_string', 'var_encode']), ('config_print', ['var_print'])):
        s = Spec(prog, res, n, interest=ops, opaque=ops)
        v = s.v
        last = v.calls(ops[-1])
        if not s.ob(len(last) == 1 and len(last[0].loops) == 1, 'each', 'settings are shown'):
            continue
        k = last[0].loops[0]
        ll = list_loop(v, k)
        s.ob(ll is not None and is_path(ll[1], 'Config.list'), 'all', 'all settings', last[0].where())
        vis = s.and_(v.body(k), s.not_(anyflag(s, V['H'], V['S'])))
        s.ob(v.equal(last[0].cond, vis), 'visible', 'which are not hidden', last[0].where(), v.show(last[0].cond)[:200])
        if n == 'config_show':
            mp, nm = v.calls('encode_map'), v.calls('encode_string')
            s.ob(len(mp) == 1 and mp[0].cond == 1 and not mp[0].loops and is_path(strip(mp[0].args[1]), 'Config.count_visible') and mp[0].order < last[0].order, 'count', 'as many as were counted')
            s.ob(len(nm) == 1 and v.equal(nm[0].cond, vis) and nm[0].order < last[0].order and is_path(strip(nm[0].args[1]), 'Var.name') and
                 plain(strip(nm[0].args[1]))[1] == plain(strip(last[0].args[0])), 'name', 'each with its name', nm[0].where() if nm else None)
    s = Spec(prog, res, 'config_find', interest=['str_compare'], opaque=['str_compare'])
    v = s.v
    cm = v.calls('str_compare')
    if s.ob(len(cm) == 1 and len(cm[0].loops) == 1, 'compare', 'settings are found by name'):
        k = cm[0].loops[0]
        ll = list_loop(v, k)
        s.ob(ll is not None and is_path(ll[1], 'Config.list') and cm[0].cond == v.body(k), 'all', 'among all settings', cm[0].where())
        same = s.not_(v.eq(cm[0].value, ('i', 0)))
        for c, x in gates(v.ret):
            x = strip(x)
            if x == ('i', 0):
                s.ob(not v.possible(s.and_(c, v.body(k), same)), 'none', 'none is found only if there is none')
            else:
                me = next((plain(strip(a))[1] for a in cm[0].args if is_path(strip(a), 'Var.name')), None)
                s.ob(v.implies(c, same) and plain(x) == me, 'found', 'the one which was found is returned')


def loading(prog, res):
    """what the configuration file says"""
    ops = ['config_find', 'var_int_set', 'var_string_set', 'var_data_set', 'data_read_map', 'data_read_string', 'data_read_bool', 'data_read_integer', 'data_skip']
    s = Spec(prog, res, local(prog, 'config_set_data'), interest=ops, opaque=ops, throws=True)
    v = s.v
    cf = v.calls('config_find')
    if not s.ob(len(cf) == 1 and len(cf[0].loops) == 1, 'each', 'every setting of the file is looked for'):
        return
    ok = s.and_(s.not_(v.eq(cf[0].value, ('i', 0))), flag(s, prog.enum('VAR_C')))
    sets = v.calls('var_int_set', 'var_string_set', 'var_data_set')
    for e in sets:
        s.ob(v.implies(e.cond, ok) and strip(e.args[0]) == strip(cf[0].value), 'known', 'a setting which does not exist or cannot be set is refused', e.where())
    step = s.or_(*[c for k in v.loops for i in v.frameobj[k[0]].fn.blocks[k[1]] if i.op == 'phi' for c, x in v.phi_steps(('phi', i.id, k[0]))])
    s.ob(not v.possible(s.and_(step, s.not_(ok))), 'refused', 'it is not left out silently', cf[0].where())
    T, U = one_type(s, prog, lambda x: is_path(x, 'Var.type'))
    B, U = s.and_(v.body(cf[0].loops[0]), ok), s.and_(U, step)
    for t, n in (('VAR_BOOL', 'var_int_set'), ('VAR_INT', 'var_int_set'), ('VAR_STRING', 'var_string_set'), ('VAR_DATA', 'var_data_set')):
        c = s.and_(U, T[t])
        es = v.calls(n)
        s.ob(v.implies(c, v.any(es)), t, 'it is set', es[0].where() if es else None)
        s.ob(not any(v.possible(s.and_(c, e.cond)) for e in sets if e.name != n), t + '-only', 'as what it is')
    rd = v.calls('data_read_bool')
    for e in v.calls('var_int_set'):
        c = s.and_(e.cond, U, T['VAR_BOOL'])
        if v.possible(c):
            loc = [strip(x.args[1]) for x in rd]
            rows = s.terms(lambda x: x[0] == 'ld' and plain(x)[1] in [plain(y) for y in loc])
            nz = [s.not_(v.eq(x, ('i', 0))) for x in rows]
            g = gates(e.args[1])
            t = s.or_(*[s.and_(q, truth(s, y)) for q, y in g])
            same = all(strip(y)[0] == 'ld' and plain(strip(y))[1] in [plain(z) for z in loc] for q, y in g)
            s.ob(same or any(v.equal(s.and_(c, t), s.and_(c, z)) for z in nz), 'bool', 'true is read as true', e.where())


SHOWS = (('SHOW_MEMORY', 'memory_mgr_show', 'Main.memory_mgr'), ('SHOW_WAL', 'wal_show', 'Main.wal'), ('SHOW_CLOUDS', 'cloud_mgr_show', 'Main.cloud_mgr'),
         ('SHOW_STORAGES', 'engine_show', 'Main.engine'), ('SHOW_PARTITION', 'engine_show', 'Main.engine'), ('SHOW_PARTITIONS', 'engine_show', 'Main.engine'),
         ('SHOW_PIPELINE', 'pipeline_show', 'Engine.pipeline'), ('SHOW_CONFIG', 'config_show', None), ('SHOW_NAME', 'var_encode', None))
ENGINE = {'SHOW_STORAGES': 'ENGINE_SHOW_STORAGES', 'SHOW_PARTITION': 'ENGINE_SHOW_PARTITION', 'SHOW_PARTITIONS': 'ENGINE_SHOW_PARTITIONS'}


def local(prog, n):
    return [f for k, f in prog.functions.items() if k.split('@')[0] == n][0]


def show(prog, res):
    ops = sorted({x[1] for x in SHOWS}) + ['config_find']
    s = Spec(prog, res, local(prog, 'execute_show_op'), interest=ops, opaque=ops, throws=True)
    v = s.v
    T = {t: s.rel('eq', lambda x: is_path(x, 'CmdShowOp.type'), prog.enum(t)) for t, f, p in SHOWS}
    U = 0
    for t in T:
        U = s.or_(U, s.and_(T[t], *[s.not_(T[o]) for o in T if o != t]))
    name = lambda e: payload(e, 'CmdShowOp.name')
    isname = s.rel('eq', lambda x: is_path(x, 'Token.id') and has_path(x, 'CmdShowOp.name'), prog.enum('KNAME'))
    known = {}
    for t, fn, what in SHOWS:
        c = s.and_(U, T[t])
        want = c
        if t == 'SHOW_NAME':
            cf = v.calls('config_find')
            if not s.ob(len(cf) == 1 and v.implies(c, cf[0].cond) and name(strip(cf[0].args[1])), 'find', 'the setting which was named is looked for'):
                continue
            want = s.and_(c, s.not_(v.eq(cf[0].value, ('i', 0))), s.not_(flag(s, prog.enum('VAR_S'))))
        es = [e for e in v.calls(fn)]
        s.ob(v.equal(s.and_(c, v.any(es)), want), t, 'what was asked for is shown', es[0].where() if es else None, v.show(s.and_(c, v.any(es)))[:200])
        s.ob(not any(v.possible(s.and_(c, e.cond)) for o in ops[:-1] if o != fn and o != 'config_find' for e in v.calls(o)), t + '-only', 'and nothing else')
        for e in es:
            ce = s.and_(c, e.cond)
            if not v.possible(ce):
                continue
            a = e.args
            if what:
                s.ob(is_path(strip(a[0]), what), t + '-of', 'the part which was asked for', e.where())
            if t == 'SHOW_NAME':
                for q, x in gates(a[0]):
                    s.ob(strip(x) == strip(cf[0].value) or not v.possible(s.and_(q, ce)), t + '-value', 'the value of the setting which was found', e.where())
            if fn in ('cloud_mgr_show', 'engine_show') and t != 'SHOW_PARTITION':
                for q, x in gates(a[1] if fn == 'cloud_mgr_show' else a[2]):
                    q = s.and_(q, ce)
                    if v.possible(q):
                        x = strip(x)
                        s.ob(x == ('i', 0) and not v.possible(s.and_(q, isname)) or x != ('i', 0) and name(x) and v.implies(q, isname), t + '-name', 'the one which was named, or all', e.where())
            if t in ENGINE:
                for q, x in gates(a[1]):
                    s.ob(strip(x) == ('i', prog.enum(ENGINE[t])) or not v.possible(s.and_(q, ce)), t + '-kind', 'as what was asked for', e.where())
                if t == 'SHOW_PARTITION':
                    for q, x in gates(a[3]):
                        s.ob(name(strip(x)) or not v.possible(s.and_(q, ce)), t + '-id', 'the partition which was named', e.where())
                    for q, x in gates(a[2]):
                        s.ob(strip(x) == ('i', 0) or not v.possible(s.and_(q, ce)), t + '-storage', 'whatever its storage', e.where())
            buf = [x for x in a if plain(strip(x)) == ('a', 1)]
            s.ob(len(buf) == 1, t + '-to', 'into the result', e.where())
    # every object of the statement, in order
    ops = ['encode_array', 'execute_show_op', 'json_export_pretty']
    s = Spec(prog, res, local(prog, 'execute_show'), interest=ops, opaque=ops)
    v = s.v
    ar, sh, ex = [[e for e in v.events if e.kind == 'call' and isinstance(e.name, str) and e.name.split('@')[0] == n] for n in ops]
    if s.ob(len(ar) == len(sh) == len(ex) == 1 and len(sh[0].loops) == 1, 'form', 'objects are shown one by one'):
        many = s.rel('sgt', lambda x: is_path(x, 'CmdShow.list_count'), 1)
        s.ob(v.equal(ar[0].cond, many) and is_path(strip(ar[0].args[1]), 'CmdShow.list_count'), 'array', 'more than one are shown as an array of all of them', ar[0].where())
        ll = list_loop(v, sh[0].loops[0])
        s.ob(ll is not None and is_path(ll[1], 'CmdShow.list') and sh[0].cond == v.body(sh[0].loops[0]), 'all', 'all which were named', sh[0].where())
        s.ob(ex[0].cond == 1 and ar[0].order < sh[0].order < ex[0].order and is_path(strip(ex[0].args[0]), 'Executable.output'), 'result', 'the result is text', ex[0].where())
    ask(prog, res)
    engine(prog, res)


ASKS = {'KMEMORY': 'SHOW_MEMORY', 'KWAL': 'SHOW_WAL', 'KCLOUD': 'SHOW_CLOUDS', 'KCLOUDS': 'SHOW_CLOUDS', 'KSTORAGE': 'SHOW_STORAGES', 'KSTORAGES': 'SHOW_STORAGES',
        'KPARTITION': 'SHOW_PARTITION', 'KPARTITIONS': 'SHOW_PARTITIONS', 'KPIPELINE': 'SHOW_PIPELINE', 'KCONFIG': ('SHOW_CONFIG', 'SHOW_NAME'),
        'KALL': ('SHOW_CONFIG', 'SHOW_NAME'), 'KNAME': 'SHOW_NAME', 'KSTRING': 'SHOW_NAME'}
# the token which has to follow
FOLLOWS = {'KCLOUD': 'KNAME', 'KSTORAGE': 'KNAME', 'KPARTITION': 'KINT'}


def ask(prog, res):
    ops = ['cmd_show_allocate_op', 'lex_next', 'lex_if', 'lex_if_name', 'list_append', 'cmd_show_allocate']
    s = Spec(prog, res, 'parse_show', interest=ops, opaque=ops, throws=True, stores=[('CmdShow', 'list_count')])
    v = s.v
    op = v.calls('cmd_show_allocate_op')
    nx = v.calls('lex_next')
    if not s.ob(len(op) == 1 and len(nx) == 1 and len(op[0].loops) == 1, 'each', 'an object is named by a word'):
        return
    k = op[0].loops[0]
    tk = strip(nx[0].args[1])
    # the word: the first value of the token in an iteration
    ids = s.terms(lambda t: t[0] == 'ld' and is_path(t, 'Token.id') and plain(t)[1] == ('fld', plain(tk), 'Token', 'id'))
    W = {n: s.or_(*[v.eq(t, ('i', prog.enum(n))) for t in ids]) for n in ASKS}
    U = 0
    for n in W:
        U = s.or_(U, s.and_(W[n], *[s.not_(W[o]) for o in W if o != n]))
    s.ob(v.implies(s.and_(op[0].cond), s.or_(*W.values())), 'known', 'an unknown word is refused', op[0].where())
    for n, want in sorted(ASKS.items()):
        c = s.and_(U, W[n], op[0].cond)
        s.ob(v.possible(c), n, 'what can be shown', op[0].where())
        fol = [e for e in v.calls('lex_if', 'lex_if_name') if v.possible(s.and_(c, e.cond)) and strip(e.args[-1]) == tk]
        got = s.or_(*[s.and_(e.cond, s.not_(v.eq(e.value, ('i', 0)))) for e in fol])
        for q, x in gates(op[0].args[0]):
            q = s.and_(q, c)
            if not v.possible(q):
                continue
            if isinstance(want, tuple):
                x = strip(x)
                s.ob(x == ('i', prog.enum(want[1])) and v.implies(q, got) or x == ('i', prog.enum(want[0])) and not v.possible(s.and_(q, got)), n + '-type', 'all settings, or the one which was named', op[0].where())
            else:
                s.ob(strip(x) == ('i', prog.enum(want)), n + '-type', 'what was asked for is shown', op[0].where())
        if n in FOLLOWS:
            kinds = [strip(e.args[1]) for e in fol if e.name == 'lex_if']
            s.ob(v.implies(c, got) and kinds == [('i', prog.enum(FOLLOWS[n]))], n + '-named', 'the one to show is named', op[0].where())
        elif n == 'KPARTITIONS':
            s.ob([strip(e.args[1]) for e in fol] == [('i', prog.enum('KNAME'))], n + '-named', 'a storage may be named', op[0].where())
        elif not isinstance(want, tuple):
            s.ob(not fol, n + '-alone', 'nothing else is named', op[0].where())
    s.ob(strip(op[0].args[1]) == tk, 'name', 'what was named is shown', op[0].where())
    dbg = [e for e in v.calls('lex_if') if strip(e.args[1]) == ('i', prog.enum('KDEBUG'))]
    s.ob(len(dbg) == 1 and strip(op[0].args[2]) in (strip(dbg[0].value), ('bdd', s.not_(v.eq(dbg[0].value, ('i', 0)))), ('b2i', ('bdd', s.not_(v.eq(dbg[0].value, ('i', 0)))))) or bool(dbg), 'debug', 'with details if asked for', op[0].where())
    st = v.stores_of('CmdShow', 'list_count')
    ap = [e for e in v.calls('list_append') if is_path(strip(e.args[0]), 'CmdShow.list')]
    s.ob(len(st) == 1 and len(ap) == 1 and v.equal(st[0].cond, op[0].cond) and v.equal(ap[0].cond, op[0].cond) and lin(st[0].args[1]).get((), 0) == 1, 'count', 'every object is listed and counted')
    s = Spec(prog, res, 'cmd_show_allocate_op', interest=['llvm.memcpy'], stores=['*'])
    v = s.v
    for f, a in (('type', 0), ('debug', 2)):
        st = v.stores_of('CmdShowOp', f)
        s.ob(len(st) == 1 and st[0].cond == 1 and plain(strip(st[0].args[1])) == ('a', a), f, 'the %s of an object is kept' % f)
    cp = [e for e in v.calls('llvm.memcpy') if plain(strip(e.args[1])) == ('a', 1)]
    s.ob(len(cp) == 1 and cp[0].cond == 1 and strip(cp[0].args[2]) == ('i', prog.structs['Token']['size']) and is_path(strip(cp[0].args[0]), 'CmdShowOp.name'), 'name', 'the name of an object is kept')


def engine(prog, res):
    ops = ['storage_mgr_find', 'storage_show', 'storage_mgr_show', 'mapping_match', 'stats_show_part', 'mapping_min', 'mapping_next', 'data_write_array32', 'encode_array32']
    s = Spec(prog, res, 'engine_show', interest=ops, opaque=ops, throws=True)
    v = s.v
    K = {n: s.rel('eq', lambda x: plain(strip(x)) == ('a', 1), prog.enum('ENGINE_SHOW_' + n)) for n in ('STORAGES', 'PARTITION', 'PARTITIONS')}
    U = 0
    for n in K:
        U = s.or_(U, s.and_(K[n], *[s.not_(K[o]) for o in K if o != n]))
    fd = v.calls('storage_mgr_find')
    named = s.test(lambda x: plain(strip(x)) == ('a', 2))
    if not s.ob(len(fd) == 1 and v.equal(fd[0].cond, named) and plain(strip(fd[0].args[1])) == ('a', 2), 'find', 'the storage which was named is looked for'):
        return
    there = s.not_(v.eq(fd[0].value, ('i', 0)))
    ok = s.or_(s.not_(named), there)
    shown = v.calls('storage_show', 'storage_mgr_show', 'stats_show_part')
    for e in shown:
        s.ob(v.implies(s.and_(e.cond, named), there), 'missing', 'a storage which does not exist is not shown', e.where())
    one, al = v.calls('storage_show'), v.calls('storage_mgr_show')
    c = s.and_(U, K['STORAGES'])
    s.ob(v.equal(s.and_(c, v.any(one)), s.and_(c, named, there)) and v.equal(s.and_(c, v.any(al)), s.and_(c, s.not_(named))), 'storages', 'the storage which was named, or all of them')
    for e in one:
        s.ob(all(strip(x) == strip(fd[0].value) or not v.possible(s.and_(q, e.cond)) for q, x in gates(e.args[0])), 'storage', 'the storage which was named', e.where())
    mt = v.calls('mapping_match')
    c = s.and_(U, K['PARTITION'], ok)
    s.ob(len(mt) == 1 and v.equal(s.and_(c, mt[0].cond), c) and plain(strip(mt[0].args[1])) == ('a', 3), 'match', 'the partition of the id is looked for')
    # throws=True: an expanded error leaves
    single = [e for e in v.calls('stats_show_part') if not e.loops]
    each = [e for e in v.calls('stats_show_part') if e.loops]
    if s.ob(len(mt) == len(single) == len(each) == 1, 'partitions', 'partitions are shown'):
        e = single[0]
        s.ob(v.equal(s.and_(c, e.cond), s.and_(c, s.not_(v.eq(mt[0].value, ('i', 0))))) and any(x == strip(mt[0].value) for x in walk(e.args[0])), 'one', 'the partition of the id is shown', e.where())
        e = each[0]
        k = e.loops[0]
        w = [p for p in [('phi', i.id, k[0]) for i in v.frameobj[k[0]].fn.blocks[k[1]] if i.op == 'phi']]
        mn, nxt = v.calls('mapping_min'), v.calls('mapping_next')
        w = [p for p in w if mn and nxt and [strip(x) for x in v.phi(p)[0]] == [strip(mn[0].value)] and {strip(x) for q, x in v.phi_steps(p)} == {strip(nxt[0].value)}]
        s.ob(len(w) == 1 and any(x == w[0] for x in walk(e.args[0])) and plain(strip(nxt[0].args[1])) == plain(w[0]), 'all', 'all partitions in their order', e.where())
        src = s.rel('eq', lambda x: is_path(x, 'Part.source'), lambda x: is_path(x, 'Storage.source') and origin(x) != ('i', 0))
        want = s.and_(v.body(k), s.or_(s.not_(named), src))
        s.ob(v.equal(s.and_(U, ok, e.cond), s.and_(U, ok, want)), 'which', 'those of the storage which was named, or all of them', e.where(), v.show(e.cond)[:300])
        wr = v.calls('data_write_array32')
        cnt = [p for p in [('phi', i.id, k[0]) for i in v.frameobj[k[0]].fn.blocks[k[1]] if i.op == 'phi'] if p not in w]
        ok2 = len(wr) == 1 and strip(wr[0].args[1]) in [strip(p) for p in cnt]
        if ok2:
            p = strip(wr[0].args[1])
            ok2 = [strip(x) for x in v.phi(p)[0]] == [('i', 0)]
            for q, x in v.phi_steps(p):
                d = ladd(lin(x), lin(p), -1)
                ok2 = ok2 and (d == {(): 1} and v.implies(s.and_(q, U, ok), e.cond) or d == {} and not v.possible(s.and_(q, e.cond)))
        s.ob(ok2, 'count', 'as many are told as are shown', wr[0].where() if wr else None)


def started(prog, res):
    """the settings reach the parts they are for"""
    ops = ['memory_mgr_set', 'logger_set_enable', 'logger_set_to_stdout', 'logger_open', 'config_open', 'file_lock', 'file_open_directory', 'uuid_generate', 'var_string_set',
           'var_string_set_raw', 'fs_mkdir', 'uuid_to_string', 'random_open']
    s = Spec(prog, res, local(prog, 'main_deploy'), interest=ops, opaque=ops, throws=True)
    v = s.v
    lk, co = v.calls('file_lock'), v.calls('config_open')
    od = v.calls('file_open_directory')
    if s.ob(len(lk) == 1 and len(co) == 1 and len(od) == 1 and lk[0].cond == 1, 'lock', 'the directory is locked'):
        got = s.not_(v.eq(lk[0].value, ('i', 0)))
        s.ob(strip(lk[0].args[0]) == strip(od[0].args[0]) and od[0].order < lk[0].order < co[0].order and is_path(strip(od[0].args[1]), 'Str.pos') and origin(od[0].args[1]) == ('a', 1), 'directory', 'the directory which was passed', lk[0].where())
        s.ob(v.equal(co[0].cond, got) and not v.possible(s.and_(v.any(v.rets()), s.not_(got))), 'exclusive', 'a directory used by another process is refused', lk[0].where())
        d = done(s)
        for n, want in (('logger_set_enable', 'log'), ('logger_set_to_stdout', 'log_to_stdout')):
            c = v.calls(n)
            ok = len(c) == 1 and v.equal(c[0].cond, d) and co[0].order < c[0].order and value(s, c[0].args[1], want)
            s.ob(ok, n, 'the setting %s is used' % want, c[0].where() if c else None)
        lo = v.calls('logger_open')
        s.ob(len(lo) == 1 and v.equal(lo[0].cond, s.and_(d, s.nz('Config.log_to_file'))) and co[0].order < lo[0].order, 'logger_open', 'the setting log_to_file is used', lo[0].where() if lo else None)
        mm = v.calls('memory_mgr_set')
        ok = len(mm) == 1 and v.equal(mm[0].cond, d) and co[0].order < mm[0].order
        s.ob(ok, 'memory', 'memory is set up after the settings are read', mm[0].where() if mm else None)
        names = params(prog, 'memory_mgr_set')
        if ok:
            # what each argument becomes
            q = Spec(prog, res, 'memory_mgr_set', interest=['str_compare_raw'], opaque=['str_compare_raw'], stores=[('MemoryMgr', f) for f in ('page_size', 'cache', 'limit', 'limit_wm', 'limit_error')], throws=True)
            for f, n in (('page_size', 'mm_page_size'), ('cache', 'mm_cache'), ('limit', 'mm_limit'), ('limit_wm', 'mm_limit_wm')):
                st = q.v.stores_of('MemoryMgr', f)
                a = [t for x in st for t in lin(x.args[1]) if t != () and plain(strip(t))[0] == 'a']
                g = len(st) == 1 and st[0].cond == 1 and len(a) == 1 and value(s, mm[0].args[plain(strip(a[0]))[1]], n)
                s.ob(g, n, 'the setting %s is used' % n, mm[0].where())
            cs = q.v.calls('str_compare_raw')
            s.ob(bool(cs) and all(plain(strip(x.args[0]))[0] == 'a' and setting_of(mm[0].args[plain(strip(x.args[0]))[1]]) == 'mm_limit_behaviour' for x in cs), 'mm_limit_behaviour', 'the setting mm_limit_behaviour is used', mm[0].where())
            st = q.v.stores_of('MemoryMgr', 'limit_error')
            eqs = {text(x.args[1]): q.not_(q.v.eq(x.value, ('i', 0))) for x in cs}
            good = 'block' in eqs and 'error' in eqs
            for x in st:
                for c, y in gates(x.args[1]):
                    c = q.and_(c, x.cond)
                    y = strip(y)
                    if good and q.v.possible(c):
                        both = q.and_(eqs['block'], eqs['error'])
                        t = truth(q, y)
                        good = q.v.equal(q.and_(c, t, q.not_(both)), q.and_(c, eqs['error'], q.not_(both)))
            q.ob(good and q.v.equal(q.v.any(st), q.or_(eqs.get('block', 0), eqs.get('error', 0))), 'behaviour', 'the limit blocks or fails as set')
            q.ob(not q.v.possible(q.and_(q.v.any(q.v.rets()), q.not_(q.v.any(st)))), 'unknown', 'another behaviour is refused')
    ge, us = v.calls('uuid_generate'), [e for e in v.calls('var_string_set_raw') if setting_of(e.args[0]) == 'uuid']
    unset = s.rel('eq', lambda t: has_path(t, 'Config.uuid') and has_path(t, 'Str.end'), 0)
    s.ob(len(ge) == len(us) == 1 and v.equal(ge[0].cond, unset) and v.equal(us[0].cond, unset) and strip(us[0].args[2]) == ('i', 36) and all(us[0].order < e.order for e in co), 'uuid',
         'an environment gets an id unless one was set', us[0].where() if us else None)
    ds = [e for e in v.calls('var_string_set') if setting_of(e.args[0]) == 'directory']
    s.ob(len(ds) == 1 and ds[0].cond == 1 and plain(strip(ds[0].args[1])) == ('a', 1) and all(ds[0].order < e.order for e in co), 'path', 'the directory is the one which was passed')
    for n, f in (('logger_set_enable', 'enable'), ('logger_set_to_stdout', 'to_stdout')):
        q = Spec(prog, res, n, stores=['*'])
        st = q.v.stores_of('Logger', f)
        q.ob(len(st) == 1 and st[0].cond == 1 and plain(strip(st[0].args[1])) == ('a', 1), 'set', 'the log does what is set')
    # the order of the start
    steps = ['main_deploy', 'cloud_mgr_open', 'engine_open', 'wal_open', 'main_replay', 'engine_set_serial', 'engine_resume', 'worker_mgr_start', 'var_int_set', 'comparator_init', 'config_print']
    s = Spec(prog, res, 'main_start', interest=steps, opaque=steps)
    v = s.v
    get = lambda n: [e for e in v.events if e.kind == 'call' and isinstance(e.name, str) and e.name.split('@')[0] == n]
    order = [get(n) for n in ('main_deploy', 'cloud_mgr_open', 'engine_open', 'engine_resume', 'worker_mgr_start')]
    s.ob(all(len(x) == 1 and x[0].cond == 1 for x in order), 'steps', 'clouds and storages are opened, what was interrupted resumes, and the workers start')
    s.ob(all(a[0].order < b[0].order for a, b in zip(order, order[1:]) if a and b), 'order', 'one after the other')
    for n in ('wal_open', 'main_replay'):
        c = get(n)
        on = s.terms(lambda x: x[0] == 'ld' and is_path(x, 'Config.wal'))
        s.ob(len(c) == 1 and any(v.equal(c[0].cond, s.not_(v.eq(t, ('i', 0)))) for t in on), n, 'the log is replayed if it is used', c[0].where() if c else None)
    on = [e for e in get('var_int_set') if setting_of(e.args[0]) == 'online']
    s.ob(len(on) == 1 and on[0].cond == 1 and truth(s, on[0].args[1]) == 1 and all(x[0].order < on[0].order for x in order if x), 'online', 'settings which need a stopped environment are refused once it runs')


def params(prog, n):
    return prog.byname[n][0].args


def setting_of(x):
    for z in [x] + list(walk(x)):
        if isinstance(z, tuple) and z[:1] == ('fld',) and z[2] == 'Config':
            return z[3]
    return None


def value(s, x, name):
    """the value of a setting"""
    y = strip(x)
    while y[0] == 'cast':
        y = strip(y[4])
    if y[0] == 'ld':
        return setting_of(y[1]) == name
    if y[0] in ('bdd', 'b2i'):
        return s.v.equal(truth(s, y), s.nz('Config.' + name))
    return False


def text(x):
    x = strip(x)
    return x[1].decode() if x[0] == 's' and isinstance(x[1], bytes) else x[1] if x[0] == 's' else None


def done(s):
    """the function returns"""
    return s.v.any(s.v.rets())


def result(prog, res):
    ops = ['parse', 'control_lock_shared', 'control_lock_exclusive', 'control_unlock', 'buf_write', 'cmd_free', 'buf_free', 'str_set_cstr', 'lex_start']
    s = Spec(prog, res, 'main_execute', interest=ops + ['*'], opaque=ops, outs=[2])
    v = s.v
    pa = v.calls('parse')
    run = [e for e in v.events if e.kind == 'call' and e.name == ('*', 'Execute', 'function')]
    if not s.ob(len(pa) == 1 and len(run) == 1, 'run', 'a statement is executed'):
        return
    some = s.not_(v.eq(pa[0].value, ('i', 0)))
    s.ob(v.equal(run[0].cond, some), 'once', 'every statement is executed once', run[0].where())
    st = [e for e in v.events if e.kind == 'store' and e.name == ('arg', 2)]
    wr = v.calls('buf_write')
    want = s.test(lambda x: plain(strip(x)) == ('a', 2))
    size = s.rel('sgt', lambda x: has_path(x, 'Buf.position') and has_path(x, 'Buf.start'), 0)
    ok = s.and_(v.any(v.rets()), some)
    some = [size] + [s.not_(v.eq(t, ('i', 0))) for t in s.terms(lambda x: has_path(x, 'Buf.position') and has_path(x, 'Buf.start'))]
    s.ob(bool(st) and any(v.equal(v.any(st), s.and_(ok, want, x)) for x in some), 'returned', 'the result is returned if there is one', st[0].where() if st else None, v.show(v.any(st))[:300] if st else None)
    for e in st:
        w = [x for x in wr if x.order < e.order and v.implies(e.cond, x.cond)]
        s.ob(len(w) == 1 and strip(w[0].args[2]) == ('i', 1) and w[0].order > run[0].order, 'end', 'it ends with a zero byte', e.where())
        s.ob(is_path(strip(e.args[1]), 'Buf.start'), 'text', 'it is all of the output', e.where())
    for e in v.calls('buf_free'):
        s.ob(True, 'free', 'the output is freed otherwise', e.where())


@rule('A03')
def a03(prog, res):
    parts(prog, res, statement, variable, table, loading, show, started, result)
