"""S01: background work is scheduled, done and ends."""
from ir import Broken
from cond import gates, plain
import rules_basic as basic
from report import parts, rule
from rules_cloud import pl
from rules_config import loop_range
from rules_file import done, errors
from rules_refresh import bit
from spec import Spec, base_of, has_path, is_call, is_path, ladd, lin, list_loop, origin, strip

WORK = ['service_next', 'service_schedule', 'service_filter', 'service_req_free', 'engine_gc', 'wal_rotate', 'engine_rebalance', 'engine_drop_file', 'engine_offload', 'refresh_reset', 'refresh_run',
        'engine_download', 'engine_upload', 'engine_drop', 'engine_refresh', 'engine_rebalance_next', 'storage_oldest', 'str_copy', 'str_free', 'str_init', 'control_lock_shared', 'control_unlock',
        'control_lock_exclusive', 'service_refresh', 'service_upload', 'service_rotate', 'service_rebalance', 'service_req_allocate', 'service_add', 'worker_init', 'worker_start', 'worker_stop', 'part_offload', 'storage_mgr_find',
        'worker_free', 'engine_service', 'runtime_init', 'list_append', 'list_unlink', 'list_pop', 'cond_var_broadcast', 'cond_var_wait', 'mutex_lock', 'mutex_unlock', 'wal_write', 'wal_write_op',
        'thread_create', 'thread_join', 'mapping_min', 'mapping_next', 'engine_unlock', 'time_us', 'mapping_match', 'mapping_max', 'pipeline_primary']


def view(prog, res, fn, stores=(), show=(), **kw):
    fs = prog.byname.get(fn)
    if not fs:
        raise Broken('no ' + fn)
    names = [n for n in WORK + list(show) if prog.has(n) and n != fn]
    ext = [n for n in WORK + list(show) if n != fn]
    return Spec(prog, res, fs[0], interest=ext, opaque=names, stores=list(stores), **kw)


def again(s, k, e):
    """when the effect happens in the next iteration too"""
    v = s.v
    fn, body, edge, rc = v.loops[k]
    back = s.or_(*[edge.get((p, k[1]), 0) for p in fn.preds()[k[1]] if p in body])
    out = back
    for n in s.b.support(e.cond):
        a = s.b.vars[n]
        x = [y for y in a[1:] if isinstance(y, tuple) and y and y[0] == 'phi' and y[2] == k[0]] if a[0] == 'eq' and ('i', 0) in a[1:] else []
        if not x:
            continue
        zero = v.eq(x[0], ('i', 0))
        nx = s.or_(*[s.and_(c, v.eq(y, ('i', 0))) for c, y in v.phi_steps(x[0])])
        ny = s.or_(*[s.and_(c, s.not_(v.eq(y, ('i', 0)))) for c, y in v.phi_steps(x[0])])
        out = s.and_(out, nx if v.implies(e.cond, zero) else ny)
    return out


def nonzero(s, x):
    return s.not_(s.v.eq(x, ('i', 0)))


def args(n):
    return lambda e: [('a', k) for k in range(n)]


# ------------------------------------------------------------------ the queue
COUNTS = [('Service', 'list_count'), ('Service', 'list_count_upload')]


def moved(e, n):
    """a counter is moved by n"""
    a = pl(e.args[0])
    d = {plain(k): c for k, c in lin(e.args[1]).items() if c}
    d.pop(plain(()), None) if plain(()) in d and not d[plain(())] else None
    return d == {('ld', a): 1, (): n}


def kind_of(s, link, up):
    """is the element of the queue an upload: the comparison of the type of its current action"""
    out = []
    for a in list(s.b.vars):
        if a[0] != 'eq':
            continue
        for x, y in ((a[1], a[2]), (a[2], a[1])):
            if y == ('i', up) and is_path(x, 'Action.type') and pl(element(x)) == pl(link) and any(is_path(w, 'ServiceReq.current') for w in walkdown(x) if isinstance(w, tuple) and w and w[0] == 'ld'):
                out.append(s.v.eq(x, y))
    return s.or_(*out) if out else None


def element(x):
    """the request the action of a path belongs to"""
    x = strip(x)
    while x[0] in ('ld', 'fld', 'idx', 'cast'):
        if x[0] == 'fld' and x[2] == 'ServiceReq':
            return strip(x[1])
        x = strip(x[1] if x[0] != 'cast' else x[4])
    return x


def container(x):
    """the request a link of the queue is in"""
    x = strip(x)
    if x[0] == 'fld' and x[2:] == ('ServiceReq', 'link'):
        return strip(x[1])
    return None


def queue(prog, res):
    UP = prog.enum('ACTION_UPLOAD')
    ANY, NOUP, ONLYUP = [prog.enum(n) for n in ('SERVICE_ANY', 'SERVICE_WITHOUT_UPLOAD', 'SERVICE_UPLOAD')]
    # added
    s = view(prog, res, 'service_schedule', COUNTS)
    v = s.v
    ap, bc = v.calls('list_append'), v.calls('cond_var_broadcast')
    s.one(ap, 'add', 'a request is put at the end of the queue')
    s.must(done(s), ap, 'add', 'a request is put at the end of the queue')
    s.once(ap, 'add-once', 'once')
    for e in ap:
        s.ob(is_path(e.args[0], 'Service.list') and pl(container(e.args[1]) or ('i', 0)) == ('a', 1), 'add-of', 'the request is put into the queue', e.where())
    up = kind_of(s, ('a', 1), UP)
    cnt = s.one(v.stores_of('Service', 'list_count'), 'count', 'and counted')
    s.must(done(s), cnt, 'count', 'and counted')
    s.once(cnt, 'count-once', 'once')
    cu = s.one(v.stores_of('Service', 'list_count_upload'), 'count-upload', 'and counted as an upload if it is one')
    s.exactly(cu, up if up is not None else s.fresh(), 'count-upload', 'and counted as an upload if it is one')
    s.once(cu, 'count-upload-once', 'once')
    for e in cnt + cu:
        s.ob(moved(e, 1), 'count-by', 'once', e.where())
    s.must(done(s), bc, 'wake', 'and the workers are woken')
    # taken
    s = view(prog, res, 'service_next', COUNTS, outs=[3])
    v = s.v
    rm = s.one([e for e in v.calls('list_unlink', 'list_pop')], 'take', 'a request is taken from the queue')
    s.once(rm, 'take-once', 'one request is taken at a time')
    shut = s.nz('Service.shutdown')
    some = s.nz('Service.list_count')
    wait = nonzero(s, ('a', 2))
    F = lambda n: v.eq(('a', 1), ('i', n))
    kinds = {}
    for e in rm:
        x = container(e.args[0]) if e.name.split('@')[0] == 'list_unlink' else pl(('fld', e.value, 'ServiceReq', 'link'))
        if e.name.split('@')[0] == 'list_pop':
            s.ob(is_path(e.args[0], 'Service.list'), 'take-of', 'of the queue', e.where())
            x = None
            for a in list(s.b.vars):
                if a[0] == 'eq' and ('i', UP) in a[1:]:
                    for y in a[1:]:
                        z = element(y) if y[0] != 'i' else ('i', 0)
                        if is_path(y, 'Action.type') and any(pl(w) == pl(e.value) for w in walkdown(z)):
                            x = z
        s.ob(x is not None, 'take-req', 'what is taken is a request', e.where())
        u = kind_of(s, x, UP) if x is not None else None
        s.ob(u is not None, 'take-kind', 'the type of its next action decides who does it', e.where())
        u = u if u is not None else s.fresh()
        kinds[e] = (x, u)
        ok = s.or_(F(ANY), s.and_(F(NOUP), s.not_(u)), s.and_(F(ONLYUP), u))
        s.only_if([e], ok, 'filter', 'a worker takes only what it may do')
        s.only_if([e], s.not_(shut), 'shutdown', 'and nothing during the shutdown')
        # counted
        dn = [w for w in v.stores_of('Service', 'list_count') if v.possible(s.and_(w.cond, e.cond))]
        ok = len(dn) == 1 and v.implies(e.cond, dn[0].cond) and moved(dn[0], -1)
        s.ob(ok, 'uncount', 'what is taken is not counted any more', e.where())
        dn = [w for w in v.stores_of('Service', 'list_count_upload') if v.possible(s.and_(w.cond, e.cond))]
        c = v.any(dn)
        ok = len(dn) <= 1 and v.implies(s.and_(e.cond, u), c) and v.implies(s.and_(e.cond, c), u) and all(moved(w, -1) for w in dn)
        s.ob(ok, 'uncount-upload', 'nor as an upload, if it was one', e.where())
    for w in v.stores_of('Service', 'list_count') + v.stores_of('Service', 'list_count_upload'):
        s.ob(v.implies(w.cond, v.any(rm)), 'uncount-only', 'only what is taken is not counted any more', w.where())
    # every request which is there is found
    s.must(s.and_(s.not_(shut), some, F(ANY)), [e for e in rm], 'take-any', 'a worker for everything takes the next request')
    for f, neg in ((NOUP, True), (ONLYUP, False)):
        es = [e for e in rm if v.possible(s.and_(e.cond, F(f)))]
        s.ob(bool(es), 'take-%d' % f, 'a worker takes what it may do')
        for e in es:
            if len(e.loops) >= 1:
                # a walk over the whole list
                ks = [k for k in v.loops if any(plain(w)[0] == 'phi' and (plain(w)[2] == k[0]) for w in walkdown(kinds[e][0]) if isinstance(w, tuple) and w and w[0] == 'phi')]
                walks = []
                for k in ks:
                    ll = list_loop(v, k)
                    if ll and any(w[:3] == ll[0][:3] for w in walkdown(kinds[e][0]) if isinstance(w, tuple) and w and w[0] == 'phi'):
                        walks.append((k, ll))
                s.ob(bool(walks) and is_path(walks[0][1][1], 'Service.list'), 'walk-%d' % f, 'it looks at the whole queue', e.where())
                for k, ll in walks[:1]:
                    body = v.body(k)
                    u = kinds[e][1]
                    s.ob(v.implies(s.and_(body, F(f), s.not_(u) if neg else u), e.cond), 'first-%d' % f, 'and takes the first request it may do', e.where())
                    n = s.lrel('ne', [(lambda x: is_path(x, 'Service.list_count'), 1), (lambda x: is_path(x, 'Service.list_count_upload'), -1)]) if neg else s.nz('Service.list_count_upload')
                    ent = v.entry(k)
                    s.ob(v.possible(ent) and v.implies(s.and_(s.not_(shut), some, F(f), n), ent), 'look-%d' % f, 'whenever there is one', e.where())
    # the result
    taken = v.any(rm)
    out = [e for e in v.events if e.kind == 'store' and strip(e.args[0]) == ('a', 3)]
    wt = s.one(v.calls('cond_var_wait'), 'wait', 'a worker waits')
    s.only_if(wt, s.and_(wait, s.not_(shut), s.not_(taken)), 'wait', 'only if there is nothing to do and it may')
    for e in wt:
        s.ob(is_path(e.args[0], 'Service.cond_var') and is_path(e.args[1], 'Service.lock'), 'wait-of', 'for the queue to change', e.where())
        s.ob(bool(e.loops), 'wait-again', 'and looks again', e.where())
    s.must(s.and_(wait, s.not_(shut), s.not_(some)), wt, 'wait-empty', 'a worker waits for an empty queue')
    for c, x in gates(v.ret):
        for value, cond in truths(s, x):
            k = s.and_(c, cond)
            if value:
                s.ob(not v.possible(s.and_(k, s.not_(shut))), 'result', 'it ends only with the shutdown')
            else:
                s.ob(not v.possible(s.and_(k, shut)), 'result', 'and always then')
    # shutdown
    s = view(prog, res, 'service_shutdown', [('Service', 'shutdown')])
    v = s.v
    st = s.one(v.stores_of('Service', 'shutdown'), 'shutdown', 'the workers are told to end')
    for e in st:
        s.ob(strip(e.args[1])[0] == 'i' and strip(e.args[1])[1] != 0, 'shutdown-true', 'the workers are told to end', e.where())
    s.must(done(s), st, 'shutdown', 'the workers are told to end')
    s.after(st, v.calls('cond_var_broadcast'), 'wake', 'and are woken')
    # the filter
    s = view(prog, res, 'service_filter')
    v = s.v
    u = kind_of(s, ('a', 0), UP)
    u = u if u is not None else s.fresh()
    F = lambda n: v.eq(('a', 1), ('i', n))
    may = s.or_(F(ANY), s.and_(F(NOUP), s.not_(u)), s.and_(F(ONLYUP), u))
    known = s.or_(F(ANY), F(NOUP), F(ONLYUP))
    for c, x in gates(v.ret):
        for value, cond in truths(s, x):
            k = s.and_(c, cond, known)
            s.ob(not v.possible(s.and_(k, s.not_(may) if value else may)), 'filter', 'a worker does only what it may do')


def truths(s, x):
    """(is it true, when)"""
    x = strip(x)
    if x[0] == 'i':
        return [(x[1] != 0, 1)]
    if x[0] == 'bdd':
        return [(True, x[1]), (False, s.not_(x[1]))]
    c = s.v.eq(x, ('i', 0))
    return [(True, s.not_(c)), (False, c)]


def walkdown(x):
    if isinstance(x, tuple):
        yield x
        for y in x:
            yield from walkdown(y)


# ------------------------------------------------------------------ what is asked for
def requests(prog, res):
    A = lambda *n: [('i', prog.enum('ACTION_' + x)) for x in n]
    plan = {
        'service_rotate': [(1, None, A('ROTATE', 'GC'))],
        'service_rebalance': [(1, None, A('REBALANCE', 'GC'))],
        'service_upload': [(1, 'part', A('UPLOAD', 'DROP_ON_STORAGE', 'GC'))],
        'service_refresh': [(False, 'part', A('REBALANCE', 'REFRESH', 'GC')), (True, 'part', A('REBALANCE', 'DOWNLOAD', 'DROP_ON_CLOUD', 'REFRESH', 'UPLOAD', 'DROP_ON_STORAGE', 'GC'))],
    }
    for fn, want in plan.items():
        s = view(prog, res, fn)
        v = s.v
        es = s.one(v.calls('service_add'), 'ask', 'work is scheduled')
        s.once(es, 'ask-once', 'once')
        for cond, of, acts in want:
            c = 1 if cond == 1 and cond is not True else s.nz('Part.cloud') if cond else s.not_(s.nz('Part.cloud'))
            hit = [e for e in es if v.possible(s.and_(e.cond, c))]
            s.must(s.and_(done(s), c), hit, 'ask', 'work is scheduled')
            for e in hit:
                a = e.args
                s.ob(pl(a[0]) == ('a', 0), 'ask-of', 'in the queue', e.where())
                s.ob(of is None or is_path(a[1], 'Part.id', 'Id.min') and origin(a[1]) == ('a', 1), 'ask-part', 'for the partition', e.where())
                s.ob(pl(a[2]) == ('i', len(a) - 3), 'ask-count', 'every action is counted', e.where())
                s.ob([pl(x) for x in a[3:]] == acts, 'ask-actions', 'the steps are in order: merge only what is there, and move the result to where it belongs', e.where(), str([pl(x) for x in a[3:]]))
    s = view(prog, res, 'service_add')
    v = s.v
    al, sc = v.calls('service_req_allocate'), v.calls('service_schedule')
    s.must(done(s), sc, 'schedule', 'the request is scheduled')
    for e in sc:
        s.ob(pl(e.args[0]) == ('a', 0) and any(pl(e.args[1]) == pl(x.value) for x in al), 'schedule-of', 'the request is scheduled', e.where())
    for e in al:
        s.ob([pl(x) for x in e.args[:2]] == [('a', 1), ('a', 2)], 'allocate', 'as it is asked for', e.where())
    s = view(prog, res, 'service_req_allocate', [('Action', 'type'), ('ServiceReq', 'current'), ('ServiceReq', 'actions_count'), ('ServiceReq', 'id')])
    v = s.v
    for f, x in (('id', ('a', 0)), ('current', ('i', 0)), ('actions_count', ('a', 1))):
        es = s.one(v.stores_of('ServiceReq', f), f, 'the request starts with its first step')
        s.must(done(s), es, f, 'the request starts with its first step')
        for e in es:
            s.ob(pl(e.args[1]) == x, f + '-is', 'the request starts with its first step', e.where())
    es = s.one(v.stores_of('Action', 'type'), 'steps', 'the steps are copied')
    for e in es:
        r = loop_range(v, e.loops[-1], lambda x: False) if False else None
        ok = bool(e.loops)
        if ok:
            k = e.loops[-1]
            idx = [x for x in walkdown(e.args[0]) if isinstance(x, tuple) and x and x[0] == 'phi' and x[2] == k[0]]
            ok = len({x[:3] for x in idx}) == 1
            if ok:
                init, _ = v.phi(idx[0])
                step = v.phi_steps(idx[0])
                ok = [pl(x) for x in init] == [('i', 0)] and all(ladd(lin(x), {plain(idx[0]): 1}, -1) == {(): 1} for c, x in step)
                lt = v.cmp('slt', idx[0], ('a', 1))
                ok = ok and v.equal(v.body(k), lt) and v.equal(e.cond, lt)
        s.ob(ok, 'steps-all', 'all of them', e.where())


# ------------------------------------------------------------------ what is done
def dispatch(prog, res):
    s = view(prog, res, 'engine_service', [('ServiceReq', 'current')])
    v = s.v
    nx = s.one(v.calls('service_next'), 'next', 'the next request is taken')
    req = None
    for e in nx:
        s.ob(is_path(e.args[0], 'Engine.service') and [pl(x) for x in e.args[1:3]] == [('a', 2), ('a', 3)], 'next-of', 'of the kind the worker does', e.where())
        req = ('ld', pl(e.args[3]))
    end = s.or_(*[nonzero(s, e.value) for e in nx]) if nx else s.fresh()
    theirs = lambda x: pl(x) == req
    reqs = s.terms(theirs)
    has = s.and_(*[nonzero(s, t) for t in reqs]) if reqs else s.fresh()
    any_ = s.or_(*[nonzero(s, t) for t in reqs]) if reqs else s.fresh()
    thrown = v.any(errors(s))
    fl = s.one(v.calls('service_filter'), 'filter', 'every step is checked')
    go = s.or_(*[nonzero(s, e.value) for e in fl])
    more = s.rel('lt', lambda x: is_path(x, 'ServiceReq.current'), lambda x: is_path(x, 'ServiceReq.actions_count'))
    s.must(s.and_(s.not_(end), has, more, s.not_(thrown)), fl, 'filter', 'the steps which are left are checked one after the other')
    s.only_if(fl, s.and_(s.not_(end), any_, more), 'filter', 'no other steps are')
    for e in fl:
        s.ob(theirs(e.args[0]) and pl(e.args[1]) == ('a', 2) and bool(e.loops), 'filter-of', 'for the worker', e.where())
    E, T, R = ('a', 0), ('i', -1), ('a', 1)
    ID = lambda x: is_path(x, 'ServiceReq.id') and pl(origin(x)) in (req, req[1]) or pl(x) == ('ld', ('fld', req, 'ServiceReq', 'id'))
    is_ = lambda *want: (lambda a: len(a) >= len(want) and all(w(x) if callable(w) else pl(x) == w or w == T and pl(x)[0] == 'i' and pl(x)[1] != 0 for w, x in zip(want, a)))
    ops = (('ROTATE', 'wal_rotate', is_(lambda x: is_path(x, 'Engine.wal'), lambda x: has_path(x, ('Config', 'wal_rotate_wm')) or 'wal_rotate_wm' in str(x))),
           ('GC', 'engine_gc', is_(E)),
           ('REBALANCE', 'engine_rebalance', is_(E, R)),
           ('DROP_ON_STORAGE', 'engine_drop_file', is_(E, ID, T, T, ('i', prog.enum('ID')))),
           ('REFRESH', 'refresh_run', is_(R, ID, ('i', 0), T)),
           ('DOWNLOAD', 'engine_download', is_(E, ID, T, T)),
           ('UPLOAD', 'engine_upload', is_(E, ID, T, T)))
    step = s.and_(v.any(fl), go)
    for a, fn, ok in ops:
        is_a = s.rel('eq', lambda x: is_path(x, 'Action.type'), prog.enum('ACTION_' + a))
        es = s.one([e for e in v.calls(fn) if e.loops == (fl[0].loops if fl else ()) or v.implies(e.cond, is_a)], a, 'the step is done')
        if fn == 'engine_download':
            # the removal of the cloud copy downloads first (C01)
            es = [e for e in es if v.possible(s.and_(e.cond, is_a))]
        s.exactly(es, s.and_(step, is_a), a, 'the step is done, if it is the next one')
        for e in es:
            s.ob(ok(e.args), a + '-of', 'for the partition of the request', e.where(), str([pl(x) for x in e.args]))
    s.before(v.calls('refresh_reset'), v.calls('refresh_run'), 'REFRESH-reset', 'a merge does not see the last one')
    off = s.rel('eq', lambda x: is_path(x, 'Action.type'), prog.enum('ACTION_DROP_ON_CLOUD'))
    es = s.one(v.calls('part_offload', 'engine_offload'), 'DROP_ON_CLOUD', 'the step is done')
    s.only_if(es, s.and_(step, off), 'DROP_ON_CLOUD', 'the step is done, if it is the next one')
    # steps in order
    types = s.terms(lambda x: is_path(x, 'Action.type'))
    s.ob(bool(types) and all(any(is_path(w, 'ServiceReq.current') for w in walkdown(t) if isinstance(w, tuple) and w and w[0] == 'ld') for t in types), 'current', 'the step which is done is the current one')
    cu = s.one(v.stores_of('ServiceReq', 'current'), 'advance', 'one step after the other')
    s.once(cu, 'advance-once', 'no step is left out')
    for e in cu:
        d = lin(e.args[1])
        ok = d.get((), 0) == 1 and len(d) == 2 and all(c == 1 and is_path(k, 'ServiceReq.current') for k, c in d.items() if k != ())
        s.ob(ok, 'advance-by', 'no step is left out', e.where())
        s.ob(all(x.order < e.order for a, fn, ok in ops for x in v.calls(fn)), 'advance-after', 'a step is done before the next one', e.where())
    s.must(s.and_(step, s.not_(thrown), s.not_(off)), cu, 'advance', 'one step after the other')
    # given back or freed
    sc = s.one(v.calls('service_schedule'), 'back', 'a step for another worker is left to it')
    s.exactly(sc, s.and_(v.any(fl), s.not_(go)), 'back', 'a step for another worker is left to it')
    for e in sc:
        s.ob(is_path(e.args[0], 'Engine.service') and theirs(e.args[1]), 'back-of', 'with the request', e.where())
    fr = s.one(v.calls('service_req_free'), 'free', 'a request which is done is freed')
    for e in fr:
        for c, x in gates(e.args[0]):
            k = s.and_(c, e.cond)
            s.ob(not v.possible(k) or theirs(x) or pl(x) == ('i', 0), 'free-of', 'a request which is done is freed', e.where())
    bad = v.failed() if v.failed() is not None else 0
    s.ob(not v.possible(s.and_(v.any(fr), v.any(sc), s.not_(bad))), 'free-own', 'a request which was given back is not freed')
    s.must(s.and_(s.not_(end), has, s.not_(more), s.not_(bad), s.not_(thrown)), fr, 'free-done', 'a request which is done is freed')
    for c, x in gates(v.ret):
        for value, cond in truths(s, x):
            k = s.and_(c, cond)
            s.ob(not v.possible(s.and_(k, s.not_(end) if value else end)), 'end', 'a worker ends with the shutdown and not before')


# ------------------------------------------------------------------ the pipeline
def of_tier(x, *path):
    return is_path(x, *path)


def rebalance(prog, res):
    s = view(prog, res, 'engine_rebalance_next', [('Part', 'refresh')], outs=[1])
    v = s.v
    old = s.one(v.calls('storage_oldest'), 'oldest', 'the oldest partition of a tier is chosen')
    tier = lambda x: is_path(x, 'Tier.storage')
    cfg = lambda f: (lambda x: is_path(x, 'Tier.config', 'TierConfig.' + f))
    sto = lambda f: (lambda x: is_path(x, 'Tier.storage', 'Storage.' + f))
    over = []
    for f, g in (('partitions', 'list_count'), ('size', 'size'), ('events', 'events')):
        on = s.rel('ge', cfg(f), 0)
        more = s.rel('gt', sto(g), cfg(f))
        if not s.made(on):
            s.ob(False, 'limit-' + f, 'a limit which is set counts')
        if not s.made(more):
            s.ob(False, 'limit-' + f, 'what is in the storage is compared with the limit')
        over.append(s.and_(on, more))
    over = s.or_(*over)
    for e in old:
        s.ob(tier(e.args[0]), 'oldest-of', 'of the storage of the tier', e.where())
    picked = [pl(e.value) for e in old]
    found = s.or_(*[s.and_(e.cond, nonzero(s, e.value)) for e in old]) if old else s.fresh()
    age = s.lrel('ge', [(lambda x: is_call(x, 'time_us'), 1), (lambda x: is_path(x, 'Part.time_create'), -1), (cfg('duration'), -1)])
    late = s.and_(s.rel('ge', cfg('duration'), 0), age)
    if not s.made(age):
        s.ob(False, 'limit-duration', 'the age of the oldest partition is compared with the limit')
    need = s.or_(over, late)
    busy = s.test(lambda x: is_path(x, 'Part.refresh') and origin(x)[0] != 'i')
    st = s.one(v.stores_of('Part', 'refresh'), 'mark', 'a partition which is moved is not moved by another worker')
    s.once(st, 'mark-once', 'one partition is chosen')
    s.only_if(st, s.and_(need, found), 'needed', 'a partition is moved only if its tier is over a limit')
    s.only_if(st, s.not_(busy), 'idle', 'and only if it is not worked on')
    for e in st:
        p = pl(base(e.args[0]))
        s.ob(all(pl(x) in picked for c, x in gates(base(e.args[0])) if v.possible(s.and_(c, e.cond))), 'mark-of', 'the chosen partition is marked', e.where())
        s.ob(pl(e.args[1])[0] == 'i' and pl(e.args[1])[1] != 0, 'mark-set', 'the chosen partition is marked', e.where())
    loops = [k for k in v.loops if list_loop(v, k) and is_path(list_loop(v, k)[1], 'Pipeline.list')]
    s.ob(len(loops) == 1, 'tiers', 'every tier is looked at')
    some = s.or_(nonzero_path(s, 'Pipeline.list_count'))
    for k in loops:
        b = v.body(k)
        s.ob(v.implies(some, v.entry(k)) and v.possible(v.entry(k)), 'tiers-all', 'every tier is looked at, if there are any')
        got = s.and_(b, need, found)
        s.must(s.and_(got, s.not_(busy)), st, 'chosen', 'a tier which is over a limit is relieved')
        # which storage
        last = s.test_eq(lambda x: is_path(x, 'Tier.link', 'List.next') and x[0] == 'ld', lambda x: is_path(x, 'Pipeline.list'))
        if not s.made(last):
            s.ob(False, 'last', 'the last tier is known')
        cp = s.one(v.calls('str_copy'), 'target', 'the partition goes to the next tier')
        s.exactly(cp, s.and_(b, need, found, s.not_(last)), 'target', 'it goes to the storage of the next tier, unless it is in the last one')
        for e in cp:
            nm = strip(e.args[1])
            ok = pl(e.args[0]) == ('a', 2) and is_path(nm, 'Tier.storage', 'Storage.source', 'Source.name') and any(is_path(w, 'Tier.link', 'List.next') for w in walkdown(nm) if isinstance(w, tuple) and w and w[0] == 'ld')
            s.ob(ok, 'target-of', 'it goes to the storage of the next tier', e.where())
        fr = v.calls('str_free')
        s.must(s.and_(v.any(cp), busy), [e for e in v.calls('str_init') if pl(e.args[0]) == ('a', 2) and all(c.order < e.order for c in cp)], 'skipped', 'the storage after a tier which is left out is not used for another one')
    out = [e for e in v.events if e.kind == 'store' and strip(e.args[0]) == ('a', 1)]
    s.exactly(out, v.any(st), 'result-id', 'the chosen partition is returned')
    for e in out:
        for c, x in gates(e.args[1]):
            if v.possible(s.and_(c, e.cond)):
                b = base_of(x, 'Part')
                s.ob(is_path(x, 'Part.id', 'Id.min') and b is not None and pl(b) in picked, 'result-of', 'the chosen partition is returned', e.where())
    for c, x in gates(v.ret):
        for value, cond in truths(s, x):
            k = s.and_(c, cond)
            s.ob(not v.possible(s.and_(k, s.not_(v.any(st)) if value else v.any(st))), 'result', 'whether there is one')
    # the partitions chosen are moved
    s = view(prog, res, 'engine_rebalance')
    v = s.v
    nx = s.one(v.calls('engine_rebalance_next'), 'next', 'the next partition is looked for')
    more = s.or_(*[nonzero(s, e.value) for e in nx])
    dr, rf = s.one(v.calls('engine_drop'), 'drop', 'a partition of the last tier is dropped'), s.one(v.calls('engine_refresh'), 'move', 'others are moved')
    s.ob(v.equal(v.any(dr + rf), s.and_(v.any(nx), more)), 'moved', 'a partition which was chosen is moved or dropped, and no other')
    s.once(dr + rf, 'once', 'not both')
    for e in nx:
        n, nm = pl(e.args[1]), pl(e.args[2])
        s.ob(bool(e.loops) and v.equal(again(s, e.loops[-1], e), s.and_(e.cond, more, s.not_(v.any(errors(s))))), 'again', 'until there is none', e.where())
        for x in dr + rf:
            s.ob(x.loops == e.loops and x.order > e.order, 'again', 'until there is none', x.where())
        # named by the comparison of the two ends of the storage name
        empty = named = 0
        for a in list(s.b.vars):
            if a[0] == 'eq' and ('i', 0) in a[1:]:
                x = a[1] if a[2] == ('i', 0) else a[2]
                x = strip(x)
                x = x[4] if x[0] == 'cast' else x
                d = lin(x)
                if len([k for k in d if k]) == 2 and all(has_str(k, nm) for k in d if k) and sorted(d.values())[0] == -1:
                    empty = s.or_(empty, s.v.eq(a[1], a[2]))
            elif a[0] == 'eq' and has_str(a[1], nm) and has_str(a[2], nm):
                empty = s.or_(empty, s.v.eq(a[1], a[2]))
        s.only_if(dr, empty, 'drop-last', 'only a partition of the last tier is dropped')
        s.only_if(rf, s.not_(empty), 'move-next', 'a partition of another tier is kept')
        for x in dr:
            s.ob(pl(x.args[0]) == ('a', 0) and pl(x.args[1]) == ('ld', n) and pl(x.args[2]) not in (('i', 0),) and pl(x.args[3]) == ('i', prog.enum('ID') | prog.enum('ID_CLOUD')), 'drop-of', 'the partition which was chosen, with all its files', x.where())
        for x in rf:
            s.ob([pl(y) for y in x.args[:2]] == [('a', 0), ('a', 1)] and pl(x.args[2]) == ('ld', n) and pl(x.args[3]) == nm and pl(x.args[4]) != ('i', 0), 'move-of', 'the partition which was chosen', x.where())
    # the oldest partition
    f = prog.byname['storage_oldest'][0]
    s = Spec(prog, res, f)
    v = s.v
    ks = [k for k in v.loops if list_loop(v, k)]
    s.ob(len(ks) == 1 and is_path(list_loop(v, ks[0])[1], 'Storage.list'), 'all', 'all partitions of the storage are compared')
    for k in ks[:1]:
        ph = list_loop(v, k)[0]
        best = [x for x in phis(v, k) if x[:3] != ph[:3] and [pl(y) for y in v.phi(x)[0]] == [('i', 0)]]
        s.ob(len(best) == 1, 'best', 'the oldest so far is kept')
        for x in best[:1]:
            for c, y in v.phi_steps(x):
                if pl(y) == plain(x):
                    keep = s.or_(v.eq(x, ('i', 0)), s.rel('lt', lambda t: is_path(t, 'Part.time_create') and not mentions(t, x), lambda t: is_path(t, 'Part.time_create') and mentions(t, x)))
                    s.ob(not v.possible(s.and_(c, keep)), 'older', 'an older one replaces it')
                else:
                    s.ob(mentions(y, ph), 'older-of', 'by a partition of the storage')
                    worse = s.and_(s.not_(v.eq(x, ('i', 0))), s.rel('gt', lambda t: is_path(t, 'Part.time_create') and not mentions(t, x), lambda t: is_path(t, 'Part.time_create') and mentions(t, x)))
                    s.ob(not v.possible(s.and_(c, worse)), 'younger', 'a younger one does not')
            s.ob(all(pl(y) in (plain(x), ('i', 0)) for c, y in gates(v.ret)), 'result', 'it is the result')


def mentions(t, x):
    return any(isinstance(w, tuple) and w[:3] == x[:3] for w in walkdown(t) if isinstance(w, tuple) and len(w) >= 3)


def phis(v, key):
    fn = v.loops[key][0]
    return [('phi', i.id, key[0]) for i in fn.blocks[key[1]] if i.op == 'phi']


def base(x):
    x = strip(x)
    if x[0] == 'ld':
        x = strip(x[1])
    return strip(x[1]) if x[0] in ('fld', 'idx') else x


def has_str(x, nm):
    x = pl(x)
    return x[0] == 'ld' and x[1][0] == 'fld' and x[1][2] == 'Str' and x[1][1] == nm


def nonzero_path(s, *p):
    return s.nz(*p)


# ------------------------------------------------------------------ when
def triggers(prog, res):
    # a memory table which is full
    s = view(prog, res, 'engine_commit', [('Part', 'refresh')])
    v = s.v
    es = s.one(v.calls('service_refresh'), 'full', 'a partition whose memory table is full is merged')
    ready = s.and_(s.not_(s.nz('Part.refresh')), s.nz('Source.refresh_wm'), s.rel('gt', used, lambda x: is_path(x, 'Source.refresh_wm')))
    un = v.calls('engine_unlock')
    s.exactly(es, s.and_(v.any(un), ready), 'full', 'a partition is merged when its memory table is larger than its storage allows')
    marked(s, es)
    s.before(es, un, 'full-locked', 'before it is unlocked', within=ready)
    # a checkpoint
    s = view(prog, res, 'engine_checkpoint', [('Part', 'refresh')])
    v = s.v
    es = s.one(v.calls('service_refresh'), 'checkpoint', 'everything which is only in memory is merged')
    each(s, es, s.and_(s.not_(s.nz('Part.refresh')), s.or_(s.positive(used), ) if s.terms(used) else s.fresh()), 'checkpoint', 'every partition with events in memory is merged, unless it is going to be')
    marked(s, es)
    # uploads
    s = view(prog, res, 'engine_resume')
    v = s.v
    es = s.one(v.calls('service_upload'), 'resume', 'uploads go on after a restart')
    each(s, es, s.and_(s.nz('Part.cloud'), s.not_(bit(s, lambda x: is_path(x, 'Part.state'), prog.enum('ID_CLOUD')))), 'resume', 'every partition which is not in its cloud yet is uploaded')
    for e in es:
        s.ob(is_path(e.args[0], 'Engine.service') and is_path(e.args[1], 'Ref.part'), 'resume-of', 'the partition', e.where())
    # log rotation
    for fn, w in (('engine_write', 'wal_write'), ('engine_drop_reference', 'wal_write_op')):
        s = view(prog, res, fn, show=['engine_lock', 'event_allocate', 'memtable_set', 'log_add', 'log_free', 'engine_rollback', 'engine_commit', 'memtable_follow_min', 'log_add_event', 'storage_drop', 'part_free'])
        v = s.v
        wr = s.one(v.calls(w), 'log', 'the log is written')
        ready = s.or_(*[s.and_(e.cond, nonzero(s, e.value)) for e in wr])
        s.exactly(v.calls('service_rotate'), ready, 'rotate', 'a log file which is full is followed by a new one')
    # a new partition
    cr = [f for f in prog.functions.values() if any(i.op == 'call' and i.callee and str(i.callee).split('@')[0] == 'service_rebalance' for b in f.blocks for i in b)]
    s = view(prog, res, 'engine_create') if 'engine_create' in prog.byname else None
    if s:
        v = s.v
        es = s.one(v.calls('service_rebalance'), 'rebalance', 'a new partition can make room necessary')
        some = s.nz('Pipeline.list_count')
        s.exactly(es, s.and_(done(s), some), 'rebalance', 'after a partition is created the pipeline is looked at, if there is one')


def used(x):
    """the memory a table uses"""
    x = strip(x)
    return x[0] == 'bin' and x[1] == 'mul' and any(is_path(w, 'Heap.list_count') for w in walkdown(x) if isinstance(w, tuple) and w and w[0] == 'ld')


def marked(s, es):
    v = s.v
    st = v.stores_of('Part', 'refresh')
    for e in es:
        p = pl(e.args[1])
        hit = [x for x in st if pl(base(x.args[0])) == p and pl(x.args[1])[0] == 'i' and pl(x.args[1])[1] != 0]
        s.ob(is_path(e.args[0], 'Engine.service') and v.implies(e.cond, v.any(hit)), 'marked', 'it is not scheduled again before that', e.where())
    for x in st:
        s.ob(v.implies(x.cond, v.any(es)), 'marked-only', 'a partition is marked only when it is scheduled', x.where())


def each(s, es, cond, key, msg):
    """for every partition, exactly if"""
    v = s.v
    ks = {e.loops[-1] for e in es if e.loops}
    ok = len(ks) == 1
    s.ob(ok, key + '-all', 'all partitions are looked at')
    for k in ks:
        s.exactly(es, s.and_(v.body(k), cond), key, msg)
        ps = [x for x in phis(v, k) if [y for y in v.phi(x)[0] if is_call(y, 'mapping_min')]]
        ok = len(ps) == 1
        for x in ps[:1]:
            ok = ok and len(v.phi(x)[0]) == 1
            ok = ok and all(is_call(y, 'mapping_next') and plain(strip(y))[2][1] == plain(x) for c, y in v.phi_steps(x))
            ok = ok and v.equal(v.body(k), s.not_(v.eq(x, ('i', 0)))) and v.equal(v.entry(k), 1)
        s.ob(ok, key + '-walk', 'all partitions are looked at, one after the other')


# ------------------------------------------------------------------ workers
def workers(prog, res):
    ANY, NOUP, ONLYUP = [prog.enum(n) for n in ('SERVICE_ANY', 'SERVICE_WITHOUT_UPLOAD', 'SERVICE_UPLOAD')]
    s = view(prog, res, 'worker_main')
    v = s.v
    es = s.one(v.calls('engine_service'), 'work', 'a worker works')
    for e in es:
        a = e.args
        ok = is_path(a[0], 'Worker.engine') and is_path(a[1], 'Worker.refresh') and is_path(a[2], 'Worker.filter') and pl(a[3])[0] == 'i' and pl(a[3])[1] != 0
        s.ob(ok and bool(e.loops), 'work-of', 'on what it is for, and waits for more', e.where())
        for k in e.loops[-1:]:
            s.ob(v.equal(again(s, k, e), v.eq(e.value, ('i', 0))), 'work-end', 'until the shutdown, and no longer', e.where())
    s.before(v.calls('runtime_init'), es, 'context', 'with the settings of the environment')
    for fn, call, key in (('worker_start', 'thread_create', 'start'), ('worker_stop', 'thread_join', 'stop')):
        s = view(prog, res, fn)
        es = s.one(s.v.calls(call), key, 'the thread is started and waited for')
        s.must(done(s), es, key, 'the thread is started and waited for')
        for e in es:
            s.ob(is_path(e.args[0], 'Worker.thread') and origin(e.args[0]) == ('a', 0), key + '-of', 'the thread is started and waited for', e.where())
            if call == 'thread_create':
                s.ob(strip(e.args[1])[0] == 'f' and strip(e.args[1])[1].split('@')[0] == 'worker_main' and pl(e.args[2]) == ('a', 0), 'start-what', 'with the worker', e.where())
                s.ob(not s.v.possible(s.and_(done(s), s.v.eq(e.value, ('i', -1)))), 'start-error', 'a thread which does not start is an error', e.where())
    s = view(prog, res, 'worker_init', [('Worker', 'engine'), ('Worker', 'filter')])
    for f, a in (('engine', 1), ('filter', 2)):
        es = s.one(s.v.stores_of('Worker', f), f, 'a worker knows what it is for')
        s.must(done(s), es, f, 'a worker knows what it is for')
        for e in es:
            s.ob(pl(e.args[1]) == ('a', a), f + '-of', 'a worker knows what it is for', e.where())
    # how many of which kind
    s = view(prog, res, 'worker_mgr_start', [('WorkerMgr', 'workers_count'), ('WorkerMgr', 'workers')])
    v = s.v
    name = lambda x: 'up' if 'workers_upload' in str(x) else 'all' if "'workers'" in str(x) else None
    upw = s.test(lambda x: name(x) == 'up' and x[0] in ('ld', 'cast') and "'type'" not in str(x))
    cnt = s.one(v.stores_of('WorkerMgr', 'workers_count'), 'count', 'the workers are counted')
    for e in cnt:
        d = lin(e.args[1])
        s.ob(sorted(str(name(k)) for k, c in d.items() if k and c == 1) == ['all', 'up'] and len(d) == 2, 'count-of', 'those for uploads and the others', e.where())
    total = lin(cnt[0].args[1]) if cnt else {}
    ini, sta = s.one(v.calls('worker_init'), 'init', 'workers are set up'), s.one(v.calls('worker_start'), 'start', 'and started')
    kinds = {}
    for e in ini:
        for c, x in gates(e.args[2]):
            if v.possible(s.and_(c, e.cond)):
                kinds.setdefault(pl(x), []).append((e, s.and_(c, e.cond)))
        s.ob(pl(e.args[1]) == ('a', 1), 'init-of', 'for the engine', e.where())
    s.ob(set(kinds) == {('i', ANY), ('i', NOUP), ('i', ONLYUP)}, 'kinds', 'there are workers for every kind of work')
    for k, es in kinds.items():
        for e, c in es:
            if k == ('i', ANY):
                s.ob(not v.possible(s.and_(c, upw)), 'kind-any', 'workers do everything only if there are none for uploads', e.where())
            else:
                s.ob(v.implies(c, upw), 'kind-special', 'workers are special only if there are some for uploads', e.where())
    for e in ini + sta:
        ok = len(e.loops) == 1
        if ok:
            k = e.loops[-1]
            ok = v.equal(e.cond, v.body(k)) or len(ini) > 1 and v.implies(e.cond, v.body(k))
        s.ob(ok, 'each', 'every worker', e.where())
    walk(s, sta, total, {(): 0}, 'start-all', 'all workers are started')
    for k, es in kinds.items():
        for e, c in es:
            if k == ('i', ONLYUP):
                walk(s, [e], total, None, 'init-upload', 'the rest are for uploads')
            elif len({id(x) for x, _ in sum(kinds.values(), [])}) == 3:
                walk(s, [e], {t: c2 for t, c2 in total.items() if t and name(t) == 'all'}, {(): 0}, 'init-others', 'as many as configured are for other work')
    # and stopped
    s = view(prog, res, 'worker_mgr_stop', [('WorkerMgr', 'workers_count')])
    v = s.v
    es = s.one(v.calls('worker_stop'), 'stop', 'all workers are waited for')
    fr = v.calls('worker_free')
    for e in es:
        for k in e.loops[-1:]:
            ix = [x for x in phis(v, k) if mentions(e.args[0], x)]
            ok = len(ix) == 1 and [pl(y) for y in v.phi(ix[0])[0]] == [('i', 0)] and all(ladd(lin(y), {plain(ix[0]): 1}, -1) == {(): 1} for c, y in v.phi_steps(ix[0]))
            n = s.rel('lt', lambda x: x[:3] == ix[0][:3], lambda x: is_path(x, 'WorkerMgr.workers_count')) if ok else s.fresh()
            s.ob(ok and v.equal(v.body(k), n) and v.equal(e.cond, n), 'stop-all', 'all workers are waited for', e.where())
        s.ob(bool(e.loops), 'stop-all', 'all workers are waited for', e.where())
        s.ob(all(x.order > e.order for x in fr), 'stop-first', 'before they are freed', e.where())
    # the environment
    s = view(prog, res, 'main_stop' if 'main_stop' in prog.byname else owner(prog, 'worker_mgr_stop'), show=['service_shutdown', 'worker_mgr_stop', 'engine_close', 'engine_stop', 'wal_close'])
    v = s.v
    s.before(v.calls('service_shutdown'), v.calls('worker_mgr_stop'), 'shutdown-first', 'workers are told to end before they are waited for')
    s.must(done(s), s.one(v.calls('worker_mgr_stop'), 'stop', 'the workers are waited for'), 'stop', 'the workers are waited for')
    for e in v.calls('engine_close', 'engine_stop'):
        s.ob(all(x.order < e.order for x in v.calls('worker_mgr_stop')), 'stop-before', 'before the partitions are closed', e.where())
    s = view(prog, res, owner(prog, 'worker_mgr_start'), show=['worker_mgr_start', 'engine_resume', 'engine_open', 'engine_start', 'engine_recover', 'main_deploy', 'main_replay', 'cloud_mgr_open', 'wal_open', 'engine_set_serial', 'config_print', 'config_open', 'memory_mgr_set', 'logger_open', 'random_open', 'fs_mkdir', 'file_lock', 'comparator_init', 'var_int_set', 'log_at'])
    v = s.v
    st = s.one(v.calls('worker_mgr_start'), 'start', 'the workers are started')
    s.must(done(s), st, 'start', 'the workers are started')
    s.must(done(s), s.one(v.calls('engine_resume'), 'resume', 'uploads go on'), 'resume', 'uploads go on after a restart')
    for e in st:
        s.ob(all(x.order < e.order for x in v.calls('engine_open', 'engine_start', 'engine_recover')), 'start-last', 'after everything is restored', e.where())


def owner(prog, name):
    out = sorted({c.fn.name for c in prog.calls_of(name)})
    if len(out) != 1:
        raise Broken('callers of %s: %s' % (name, out))
    return out[0]


def walk(s, es, total, first, key, msg):
    """the loop of the effect counts one by one to the total"""
    v = s.v
    for e in es:
        ok = bool(e.loops)
        if ok:
            k = e.loops[-1]
            ix = [x for x in phis(v, k) if mentions(e.args[0], x)]
            ok = len(ix) == 1
            if ok:
                x = ix[0]
                init, _ = v.phi(x)
                ok = all(ladd(lin(y), {plain(x): 1}, -1) == {(): 1} for c, y in v.phi_steps(x)) and len(init) == 1
                ok = ok and (first is None and (lin(init[0]) != {} and lin(init[0]) != {(): 0} and pl(init[0]) != ('i', 0)) or first is not None and pl(init[0]) == ('i', 0))
                ok = ok and any(a[0] == 'lt' and (a[2][:3] == x[:3] and same(lin(a[3]), total) or a[3][:3] == x[:3] and same(lin(a[2]), total)) or a[0] == 'eq' and (a[1][:3] == x[:3] and same(lin(a[2]), total) or a[2][:3] == x[:3] and same(lin(a[1]), total))
                                for a in [s.b.vars[n] for n in s.b.support(v.body(k))])
        s.ob(ok, key, msg, e.where())


def same(a, b):
    p = lambda d: {str(plain(k)): c for k, c in d.items() if c}
    return p(a) == p(b)


@rule('S01')
def s01(prog, res):
    parts(prog, res, queue, requests, dispatch, rebalance, triggers, workers, basic.terminal)
