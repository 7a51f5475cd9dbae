"""I04: keys and passwords are never shown."""
import ir
from cond import gates, plain, root
from ir import walk
from report import parts, rule
from rules_file import done
from rules_read import arg, same
from spec import Spec, has_path, is_call, is_path, lin, origin, strip

SECRET = [('Source', 'encryption_key'), ('CloudConfig', 'password')]
# functions which copy what they are given into an output
SINK = {'encode_string', 'encode_raw', 'encode_cstr', 'encode_string32', 'buf_write', 'buf_write_str', 'buf_printf', 'logger_write', 'error_throw_as',
        'vsnprintf', 'snprintf', 'sprintf', 'vsprintf', 'printf', 'vprintf', 'fprintf', 'vfprintf', 'puts', 'fputs', 'fwrite', 'write', 'pwrite',
        'writev', 'send', 'curl_easy_setopt', 'curl_slist_append', 'encode_text', 'str_dup_cstr', 'strcpy', 'strncpy', 'strcat', 'json_export',
        'json_export_pretty', 'file_write', 'file_write_buf'}
# functions which copy one argument to another
COPY = {'str_copy': (0, (1,)), 'str_strndup': (0, (1,)), 'str_strdup': (0, (1,)), 'str_set': (0, (1,)), 'str_set_str': (0, (1,))}


def leaks(prog):
    """[(call, argument)] where a secret is given to a function which copies it; an address based dataflow over the program"""
    params, cells = set(), set(SECRET)
    through = {}
    for f in prog.functions.values():
        for i in f.all('ret'):
            if i.o:
                e = f.expr(i.o[0])
                while e[0] in ('ld', 'fld', 'idx', 'cast', 'b2i'):
                    e = e[1] if e[0] != 'cast' else e[-1]
                if e[0] == 'a':
                    through.setdefault(f.key, set()).add(e[1])

    def cell(fn, a):
        if a[0] == 'fld' and a[2] != 'Str' and (a[2], a[3]) not in cells:
            cells.add((a[2], a[3]))
            return True
        if a[0] == 'fld' and a[2] == 'Str':
            return cell(fn, a[1])
        return False

    def secret(fn, e, depth=0):
        """does the value lead to a secret"""
        while True:
            k = e[0]
            if k == 'fld':
                if (e[2], e[3]) in cells:
                    return True
                e = e[1]
            elif k in ('ld', 'idx'):
                e = e[1]
            elif k in ('cast', 'b2i'):
                e = e[-1] if k == 'cast' else e[1]
            elif k == 'a':
                return (fn.key, e[1]) in params
            elif k == 'v':
                i = fn.insts.get(e[1])
                if i is not None and i.op == 'call' and depth < 4:
                    return any(n < len(i.o) and secret(fn, fn.expr(i.o[n]), depth + 1) for t in prog.targets(i) for n in through.get(t, ()))
                if i is not None and i.op in ('phi', 'select') and depth < 4:
                    ops = [o for o in (i.o or [])] + [x[0] for x in (i.inc or []) if isinstance(x, (list, tuple))]
                    return any(isinstance(o, (list, tuple)) and o and isinstance(o[0], str) and secret(fn, fn.expr(o), depth + 1) for o in ops
                               if o and o[0] in ('v', 'a', 'g', 's', 'ce'))
                return False
            else:
                return False
    out, change = {}, True
    while change:
        change = False
        for f in prog.functions.values():
            for i in f.all('store', 'call'):
                if i.op == 'store':
                    v, a = f.expr(i.o[0]), f.expr(i.o[1])
                    if a[0] == 'fld' and a[2] != 'Str' and (a[2], a[3]) not in cells and v[0] != 'i' and secret(f, v):
                        cells.add((a[2], a[3]))
                        change = True
                    continue
                for n, o in enumerate(i.o):
                    e = f.expr(o)
                    if not secret(f, e):
                        continue
                    for t in prog.targets(i):
                        if t.split('@')[0] in COPY and n in COPY[t.split('@')[0]][1]:
                            change |= cell(f, f.expr(i.o[COPY[t.split('@')[0]][0]]))
                        if t.split('@')[0] in SINK or t in prog.functions and n >= len(prog.functions[t].args):
                            out[(f.key, i.id, n)] = i
                        elif t in prog.functions and (t, n) not in params:
                            params.add((t, n))
                            change = True
    return out, params, cells


def revealed(prog, res):
    out, params, cells = leaks(prog)
    res.count('secret parameters', len(params))
    sites = {}
    for (fk, iid, n), i in out.items():
        sites.setdefault(fk, []).append((i, n))
    s0 = None
    if len(sites) > 6:
        for fk, xs in sorted(sites.items()):
            res.ob(False, '%s:shown' % fk.split('@')[0], xs[0][0].where(), '%s(): a secret is copied to where it does not belong' % fk.split('@')[0], None)
        return set()
    work, seen, persisted = [], set(), set()
    for fk, xs in sorted(sites.items()):
        s = Spec(prog, res, prog.functions[fk], interest=sorted({t.split('@')[0] for i, _ in xs for t in prog.targets(i)}))
        s0 = s0 or s
        v = s.v
        s.ob(bool(v.rets()) or True, 'found', 'a secret is copied')
        evs = [e for e in v.events if e.kind == 'call' and isinstance(e.name, str) and
               any(any((c[0], c[1]) in cells for c in fields(x)) or origin(x)[0] == 'a' and (fk, origin(x)[1]) in params for x in e.args)]
        # under which condition
        flag = None
        for n, a in enumerate(v.fn.args):
            c = s.test(lambda x: x == ('a', n))
            if s.made(c) and evs and all(v.implies(e.cond, s.not_(c)) for e in evs):
                flag = n
        bufs = {strip(e.args[0]) for e in evs}
        b = bufs.pop() if len(bufs) == 1 else ('?',)
        work.append((fk, flag, b[1] if b[0] == 'a' else None))
    if s0 is None:
        s0 = Spec(prog, res, 'source_write', interest=['encode_string'])
    s0.ob(bool(work), 'kept', 'secrets are saved')
    while work:
        fk, flag, buf = work.pop()
        if (fk, flag) in seen:
            continue
        seen.add((fk, flag))
        for k in sorted({i.fn.key for i in prog.callers.get(fk, ())}):
            s = Spec(prog, res, prog.functions[k], interest=[fk, 'var_data_set_buf', 'var_data_set', 'var_data_set_str'])
            v = s.v
            for e in v.calls(fk.split('@')[0]):
                if flag is not None:
                    x = e.args[flag]
                    if all(strip(y)[0] == 'i' and strip(y)[1] != 0 for y in s.leaves(x, e.cond)):
                        s.ob(True, 'shown', 'secrets are left out where they are shown', e.where())
                        continue
                keep = [x for x in v.calls('var_data_set_buf') if buf is not None and strip(x.args[1]) == strip(e.args[buf]) and 'Config' in str(x.args[0])]
                local = buf is not None and strip(e.args[buf])[0] == 'al'
                s.ob(local and bool(keep), 'shown', 'secrets are left out where they are shown', e.where(), str(e.args))
                for x in keep:
                    a = strip(x.args[0])
                    if a[0] == 'fld' and a[2] == 'Config':
                        persisted.add(a[3])
    return persisted


def fields(x):
    x = strip(x)
    while x[0] in ('ld', 'fld', 'idx', 'cast'):
        if x[0] == 'fld':
            yield x[2], x[3]
        x = strip(x[1] if x[0] != 'cast' else x[4])


def config_table(prog, res, s):
    """{Config field: {field of the definition: value}}"""
    v = s.v
    out, rows = {}, {}
    for e in v.events:
        if e.kind == 'store' and e.name[0] == 'ConfigDef':
            rows.setdefault(e.args[0][1], {})[e.name[1]] = e.args[1]
    for a, r in rows.items():
        x = strip(r.get('var', ('i', 0)))
        if x[0] == 'fld' and x[2] == 'Config':
            out[x[3]] = r
    return out


def settings(prog, res):
    persisted = revealed(prog, res)
    SECRET_FLAG = prog.enum('VAR_S')
    s = Spec(prog, res, 'config_prepare', interest=[], stores=[('ConfigDef', f) for f in ('name', 'type', 'flags', 'var')])
    tb = config_table(prog, res, s)
    s.ob(bool(tb), 'table', 'settings have flags')
    s.ob(bool(persisted), 'saved', 'secrets are saved')
    for n in sorted(persisted):
        f = strip(tb.get(n, {}).get('flags', ('i', 0)))
        s.ob(f[0] == 'i' and f[1] & SECRET_FLAG, 'secret-' + n, 'a setting which holds secrets is marked secret')
    # a setting marked secret is never shown
    roots = [f for f in prog.functions if prog.functions[f].relfile().startswith('monotone/main/')]
    reach = prog.reach(roots, stop=('config_save', 'config_open', ir.THROW))
    n = 0
    for k in sorted({i.fn.key for fn in ('var_encode', 'var_print') for i in prog.callers.get(fn, ())}):
        if k not in reach or k in ('config_save', 'config_open'):
            continue
        s = Spec(prog, res, prog.functions[k], interest=['var_encode', 'var_print', 'config_find'])
        v = s.v
        for e in v.calls('var_encode', 'var_print'):
            n += 1
            ok = False
            for c, x in gates(e.args[0]):
                if not v.possible(s.and_(c, e.cond)) or strip(x) == ('i', 0):
                    continue
                bit = s.terms(lambda t: t[0] == 'bin' and t[1] == 'and' and t[3][0] == 'i' and t[3][1] & SECRET_FLAG and is_path(t[2], 'Var.flags')
                              and same(plain(strip(t[2]))[1][1], plain(strip(x))))
                ok = any(v.implies(s.and_(c, e.cond), v.eq(t, ('i', 0))) for t in bit)
                if not ok:
                    break
            s.ob(ok, 'hidden', 'a secret setting is not shown', e.where(), v.show(e.cond)[:300])
    s.ob(n > 0, 'show', 'settings are shown')
    # the file they are saved in belongs to its owner
    n = 0
    for k in sorted({i.fn.key for i in prog.callers.get('file_open_as', ())}):
        if 'var_encode' not in prog.reach([k], stop=(ir.THROW,)) or not prog.functions[k].relfile().startswith('monotone/runtime/config/'):
            continue
        s = Spec(prog, res, prog.functions[k], interest=['file_open_as', 'file_create', 'file_open', 'file_write_buf', 'file_write'])
        op = s.v.calls('file_open_as')
        s.must(done(s), op, 'mode', 'the saved settings can be read by their owner only')
        for e in op:
            n += 1
            x = strip(e.args[3])
            s.ob(x[0] == 'i' and x[1] & 0o77 == 0, 'mode', 'the saved settings can be read by their owner only', e.where())
    s.ob(n > 0, 'file', 'settings are saved to a file')


def keys(prog, res):
    s = Spec(prog, res, 'parse_storage_create', interest=['random_generate_alnum', 'str_strndup', 'encryption_mgr_of', 'parse_storage_options', 'str_strdup'])
    v = s.v
    op = v.calls('parse_storage_options')
    s.one(op, 'options', 'options are read')
    enc = s.not_(s.rel('eq', lambda x: is_call(x, 'encryption_mgr_of') and is_path(arg(x, 0), 'Source.encryption'), 0))
    key = lambda n: (lambda x: x[0] == 'ld' and is_path(x, 'Source.encryption_key', 'Str.' + n))
    dup = [e for e in v.calls('str_strndup') if is_path(e.args[0], 'Source.encryption_key')]
    gen = v.calls('random_generate_alnum')
    empty = s.test_eq(key('pos'), key('end'))
    if not s.made(empty):
        empty = s.rel('eq', lambda x: len(lin(x)) == 2 and sorted(lin(x).values()) == [-1, 1] and has_path(x, 'Source.encryption_key'), 0)
    s.ob(s.made(enc) and s.made(empty), 'key', 'an encrypted storage has a key')
    s.must(s.and_(done(s), s.and_(enc, empty)), dup, 'key', 'an encrypted storage has a key')
    s.before(op, gen + dup, 'key-after', 'which is made only if none is given')
    s.never(dup, s.not_(empty), 'key-given', 'which is made only if none is given')
    for e in dup:
        s.ob(strip(e.args[2]) == ('i', 32), 'key-size', 'of 256 bits', e.where())
        s.ob(any(strip(g.args[1]) == strip(e.args[1]) and strip(g.args[2]) == ('i', 32) and is_path(g.args[0], 'Global.random') and g.order < e.order
                 for g in gen), 'key-random', 'which is random', e.where())
    # what the generator starts from
    s = Spec(prog, res, 'random_open', interest=['vfs_read', 'vfs_open'], stores=[('Random', 'seed')])
    v = s.v
    rd = v.calls('vfs_read')
    s.one(rd, 'random', 'the generator starts from random data')
    st = v.stores_of('Random', 'seed')
    used = set()
    for r in rd:
        s.ob(strip(r.args[2])[0] == 'i' and strip(r.args[2])[1] >= 16, 'random-size', 'of its size', r.where())
        s.only_if([r], s.not_(s.rel('eq', lambda x: is_call(x, 'vfs_open'), -1)), 'random-open', 'which are read')
        buf = root(strip(r.args[1]))
        for e in st:
            for x in walk(e.args[1]):
                if x and x[0] == 'ld' and root(x[1]) == buf:
                    used.add((str(strip(e.args[0])), str(lin(strip(x[1])))))
    s.ob(len({a for a, _ in used}) == 2 and len({b for _, b in used}) == 2, 'random-used', 'all of which is used', None, str(used))
    # the generator
    s = Spec(prog, res, 'random_generate', interest=[], stores=[('Random', 'seed')])
    st = s.v.stores_of('Random', 'seed')
    idx = {str(strip(e.args[0])) for e in st}
    s.must(done(s), st, 'seed', 'the generator moves on')
    s.ob(len(idx) == 2, 'seed-both', 'with all of its state', None, str(idx))


@rule('I04')
def i04(prog, res):
    parts(prog, res, settings, keys)
