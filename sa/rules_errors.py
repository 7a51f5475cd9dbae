"""E01-E02: errors reach the caller, and what is printed is what was passed."""
import copy
from cond import gates, show
from ir import THROW, Broken, walk
from locks import api_functions, thread_functions
from report import parts, rule
from spec import Spec, has_path, is_path, origin, strip
from ts import Engine, FnInfo, Monitor

# call which can fail -> results of a failure
FAILS = {n: (-1,) for n in ('open', 'close', 'fdatasync', 'fsync', 'rename', 'unlink', 'mkdir', 'rmdir', 'ftruncate', 'fstat', 'lstat', 'stat', 'flock', 'writev', 'pwritev', 'lseek', 'munmap',
                            'sync_file_range', 'mmap', 'mremap')}
FAILS.update({n: (-1, 0) for n in ('read', 'pread', 'write', 'pwrite')})
FAILS.update({n: (0,) for n in ('opendir', 'EVP_CIPHER_CTX_new', 'EVP_CipherInit_ex2', 'EVP_CipherUpdate', 'EVP_CipherFinal_ex', 'curl_easy_init', 'ZSTD_createCCtx')})
FAILS.update({n: (1,) for n in ('ZSTD_isError', 'LZ4F_isError', 'curl_easy_perform', 'pthread_create')})


class Errors(Monitor):
    """state: ok | error (thrown, not reported yet)"""
    name = 'errors'
    alloc_throws = True

    def __init__(self, prog):
        super().__init__(prog)
        self.swallowed = {}
        self.open = {}

    def start(self):
        return 'ok'

    def event_store(self, addr):
        return False

    def thrown(self, ctx, q):
        return 'error'

    def leaves(self, ctx, q0, q, rv, tries):
        if tries:
            self.open.setdefault(ctx.fn.key, (ctx.where(), ctx.path()))
        return q


class Failing(Errors):
    """state: ok | ('failed', call, where) | error"""
    name = 'failing'

    def __init__(self, prog, fails):
        super().__init__(prog)
        self.fails = fails
        self.calls = set()

    def call(self, ctx, q):
        n = ctx.callee
        if n not in self.fails:
            return None
        self.calls.add((n, ctx.where()))
        bad = tuple(sorted(self.fails[n]))
        mine = isinstance(q, tuple) and q[1] == n
        out = [('R', 'ok' if mine else q, ('=', 1) if bad == (-1, 0) or n in ('writev', 'pwritev') else ('=', 0) if bad == (1,) else ('!', frozenset(bad)))]
        if q == 'ok' or mine:
            out += [('R', ('failed', n, ctx.where()), ('=', b)) for b in bad]
        return out


_eng = {}


def fresh(prog, m):
    """an engine which looks into no other function"""
    if id(prog) not in _eng:
        _eng[id(prog)] = Engine(prog, Errors(prog))
    e = copy.copy(_eng[id(prog)])
    e.m, e.info, e.sum, e.stack, e.active, e.done, e.fns = m, {}, {}, [], set(), set(), set()
    e.steps = 0
    e.interesting = set()
    return e


def local(prog, m, f, facts=None, may=None):
    """the exits of a function; what it calls returns or throws"""
    eng = fresh(prog, m)
    if may is not None:
        eng.throwing = may
    return eng.run(f, 'ok', facts=facts), eng


def throwing(prog):
    """functions out of which an exception may come"""
    may = set()
    work = [THROW]
    hs = {f.key: f for f in prog.functions.values() if f.has_setjmp()}
    from ts import ALLOCATORS
    while True:
        while work:
            k = work.pop()
            if k in may:
                continue
            may.add(k)
            for i in prog.callers.get(k, ()):
                if i.fn.key not in hs:
                    work.append(i.fn.key)
        for k, f in hs.items():
            if k not in may:
                m = Errors(prog)
                ex, _ = local(prog, m, f, may=may)
                if any(e[0] == 'T' for e in ex):
                    work.append(k)
        if not work:
            return may


# a failure which is not an error, and why
TOLERATED = {
    ('file_close', 'vfs_close'): 'what has to be durable is synced before',
    ('logger_close', 'vfs_close'): 'the log is only informative',
    ('logger_write', 'vfs_write'): 'the log is only informative',
    ('memory_mgr_free', 'vfs_munmap'): 'the address is given back in vain',
    ('memory_mgr_push', 'vfs_munmap'): 'the address is given back in vain',
    ('random_open', 'vfs_open'): 'one of several sources of the seed',
    ('random_open', 'vfs_read'): 'one of several sources of the seed',
    ('random_open', 'vfs_close'): 'one of several sources of the seed',
}
# the result answers a question
QUESTIONS = {'fs_exists'}
# who may end an error, and why
ENDS = {'engine_service': 'a step in the background: it is logged',
        's3_op_read_cb': 'called by the transfer, which it ends: it takes less than it was given'}
# only called while an error is on its way
ONLY_IN_ERROR = {'wal_rollback': 'what it undoes has failed anyway'}


def base(key):
    return key.split('@')[0]


class Handling(Errors):
    def __init__(self, prog):
        super().__init__(prog)
        self.early = []

    def call(self, ctx, q):
        if base(ctx.callee) in ONLY_IN_ERROR and q != 'error':
            self.early.append((base(ctx.callee), ctx.where(), ctx.path()))
        return None


def exceptions(prog, res):
    """every error gets to the caller"""
    may = throwing(prog)
    api = api_functions(prog)
    threads = thread_functions(prog)
    hs = sorted((f for f in prog.functions.values() if f.has_setjmp()), key=lambda f: f.key)
    users = {i.fn.key: i.fn for n in prog.byname if n in ONLY_IN_ERROR for f in prog.byname[n] for i in prog.calls_of(f.key)}
    todo = {f.key: f for f in list(users.values()) + hs + threads + api}
    res.count('handlers', len(hs))
    res.count('functions_which_throw', len(may))
    res.need('handlers', 20)
    res.need('functions_which_throw', 150)
    for key, f in sorted(todo.items()):
        res.fn(f)
        m = Handling(prog)
        ex, eng = local(prog, m, f, may=may)
        res.count('path_states', eng.steps)
        where = f.where()
        res.ob(not m.open, 'open:' + key, m.open[key][0] if m.open else where, '%s() returns from within a protected block: the next error goes to a stack frame which is gone' % f.name, m.open.get(key))
        for n, w, path in m.early:
            res.ob(False, 'early:%s:%s' % (key, n), w, '%s() is called where nothing failed: an error in it is lost' % n, path)
        if f in api or f in threads:
            out = [e for e in ex if e[0] == 'T']
            res.ob(not out, 'escape:' + key, where, 'an error leaves %s(): nobody handles it' % f.name)
        bad = [rv for kind, q, rv in ex if kind == 'R' and q == 'error']
        good = [rv for kind, q, rv in ex if kind == 'R' and q != 'error']
        if f in api:
            rets = [f.expr(i.o[0]) for i in f.all('ret') if i.o]
            if rets and f.name not in ('monotone_error',):
                fail = ('=', -1) if ret_type(f) == 'i32' else ('=', 0)
                if calls_throwing(prog, f, may):
                    res.ob(bad and all(rv == fail for rv in bad), 'result:' + key, where, '%s() does not return %s after every error' % (f.name, 'NULL' if fail[1] == 0 else '-1'))
                if fail[1] == -1:
                    res.ob(fail not in good, 'success:' + key, where, '%s() returns -1 though nothing failed' % f.name)
                res.ob(any(rv != fail for rv in good), 'works:' + key, where, '%s() never succeeds' % f.name)
        else:
            res.ob(not bad or f.name in ENDS or f.name in ONLY_IN_ERROR, 'swallowed:' + key, where, '%s() goes on after an error as if nothing had happened' % f.name)
    # cleanups
    n = 0
    for f in prog.functions.values():
        if not any(True for i in f.all('store') if 'Guard' in str(f.expr(i.o[1]))):
            continue
        info = FnInfo(None, f)
        for al, (g, a) in info.guards.items():
            ns = [g[1]] if g[0] == 'f' else sorted(x[1] for x in prog.points_to(f, g) if x[0] == 'f')
            n += 1
            if not ns:
                raise Broken('cleanup function of %s not found' % f.key)
            for k in ns:
                res.ob(k not in may, 'cleanup:%s:%s' % (f.key, base(k)), prog.functions[k].where() if k in prog.functions else f.where(),
                       '%s() cleans up in %s() and may throw: during an error it would run again and again' % (base(k), f.name))
    res.count('cleanups', n)
    res.need('cleanups', 30)
    clobbered(prog, res, hs, may)
    # the context
    for f in api:
        if f.name == 'monotone_error':
            continue
        ok = enters_first(prog, f)
        res.ob(ok, 'context:' + f.key, f.where(), '%s() uses the thread before it is set up for the environment' % f.name)


def ret_type(f):
    for i in f.all('ret'):
        for o in i.o:
            if o[0] == 'i':
                return 'i%d' % o[2]
            if o[0] == 'null':
                return 'ptr'
            if o[0] == 'v':
                return f.insts[o[1]].t
    return None


def calls_throwing(prog, f, may):
    return any(t in may for i in f.calls() for t in prog.targets(i))


class First(Monitor):
    """is the thread set up before anything of it is used"""

    def __init__(self, prog):
        super().__init__(prog)
        self.bad = []

    def start(self):
        return 'no'

    def event_functions(self):
        return {'runtime_init', '_setjmp', THROW}

    def event_store(self, addr):
        return False

    def call(self, ctx, q):
        n = ctx.callee
        if n == 'runtime_init':
            return [('R', 'yes', None)]
        callee = self.prog.functions.get(n)
        if q == 'no' and callee is not None and n in self.users:
            self.bad.append(ctx.where())
        return None


def enters_first(prog, f):
    m = First(prog)
    # what throws needs a protected block
    m.users = set(prog.reaching([THROW])) - set(prog.reaching(['runtime_init']))
    eng = fresh(prog, m)
    eng.interesting = set(prog.reaching(['runtime_init'])) & set(prog.functions)
    eng.run(f, 'no')
    sj = [i for i in f.calls() if i.callee == ['f', '_setjmp']]
    return not m.bad and 'runtime_init' in prog.reach([f.key])


def clobbered(prog, res, hs, may):
    """a local changed within a protected block is not used after an error in it"""
    n = 0
    for f in hs:
        for i in f.calls():
            if i.callee[0] != 'f' or i.callee[1] not in ('_setjmp', 'setjmp'):
                continue
            br = [j for b in f.blocks for j in b if j.op == 'br' and j.o and any(x == ('v', i.id) for x in walk(f.expr(j.o[0])))]
            for j in br:
                e = f.expr(j.o[0])
                zero = e[0] == 'cmp' and e[1] == 'eq'
                body, fail = (j.succ[0], j.succ[1]) if zero else (j.succ[1], j.succ[0])
                inside = reachable(f, body, fail)
                if not any(t in may for b in inside for k in f.blocks[b] if k.op == 'call' for t in prog.targets(k)):
                    continue
                bad, edges = after_failure(f, fail)
                for ph in f.blocks[fail]:
                    if ph.op != 'phi':
                        continue
                    vals = {str(o) for o, src in zip(ph.o, ph.inc) if src == j.block}
                    other = {str(o) for o, src in zip(ph.o, ph.inc) if src != j.block and src in inside}
                    n += 1
                    if other <= vals:
                        continue
                    uses = [u for b in bad for u in f.blocks[b] if any(o == ['v', ph.id] for o in u.o) and not (u.op == 'phi' and all((s, b) not in edges for o, s in zip(u.o, u.inc) if o == ['v', ph.id]))]
                    res.ob(not uses, 'clobbered:%s' % f.key, (uses or [ph])[0].where(), '%s() uses a local variable after an error which the protected block has changed' % f.name)
    res.count('locals_of_handlers', n)


def reachable(f, start, stop):
    seen, work = set(), [start]
    while work:
        b = work.pop()
        if b in seen or b == stop:
            continue
        seen.add(b)
        work += f.blocks[b][-1].succ or []
    return seen


def after_failure(f, start):
    """blocks and edges reached while leave() says there was an error"""
    seen, work, edges = set(), [start], set()
    lv = {i.id for i in f.calls() if i.callee == ['f', 'exception_mgr_leave'] and i.block == start}
    while work:
        b = work.pop()
        if b in seen:
            continue
        seen.add(b)
        t = f.blocks[b][-1]
        if t.op == 'br' and t.o:
            e = f.expr(t.o[0])
            x = [y for y in walk(e) if y[0] == 'v' and y[1] in lv]
            if x:
                neg = e[0] == 'not' or e[0] == 'cmp' and e[1] == 'eq' and ('i', 0) in e[2:]
                work.append(t.succ[1] if neg else t.succ[0])
                edges.add((b, work[-1]))
                continue
        work += t.succ or []
        edges |= {(b, x) for x in t.succ or []}
    return seen, edges


def failures(prog, res):
    """every call which fails leads to an error"""
    may = throwing(prog)
    fails = {k: set(v) for k, v in FAILS.items()}
    work = set(fails)
    lost, sites = {}, set()
    rounds = 0
    while work:
        rounds += 1
        if rounds > 12:
            raise Broken('failures: no end')
        new = set()
        for k in sorted({i.fn.key for n in work for i in prog.calls_of(n)}):
            f = prog.functions[k]
            res.fn(f)
            m = Failing(prog, fails)
            ex, eng = local(prog, m, f, may=may)
            sites |= m.calls
            res.count('path_states', eng.steps)
            if base(k) in QUESTIONS:
                continue
            good = {rv for kind, q, rv in ex if kind == 'R' and q == 'ok'}
            back = set()
            for kind, q, rv in ex:
                if kind == 'R' and isinstance(q, tuple):
                    if rv and rv[0] == '=' and rv not in good:
                        back.add(rv[1])
                        if not prog.callers.get(k):
                            lost.pop((k, q[1], q[2]), None)
                    else:
                        lost[(k, q[1], q[2])] = rv
            if back - fails.get(k, set()):
                fails.setdefault(k, set()).update(back)
                new.add(k)
        work = new
    for n, w in sorted(sites):
        res.count('calls_which_may_fail')
    res.need('calls_which_may_fail', 60)
    for n, w in sorted(sites):
        bad = [k for k in lost if k[1] == n and k[2] == w and (base(k[0]), base(n)) not in TOLERATED]
        res.ob(not bad, 'lost:%s:%s' % (base(bad[0][0]) if bad else w, base(n)), w, '%s() goes on after %s() failed' % (base(bad[0][0]) if bad else '', base(n)))


def message(prog, res):
    """the text of the error is the one which was given"""
    from rules_file import done
    from rules_cloud import pl
    s = Spec(prog, res, 'error_throw_as', interest=['vsnprintf'], throws=True, stores=[('Error', 'text_len')])
    v = s.v
    from rules_file import errors
    th, pr = s.one(errors(s), 'throw', 'an error is thrown'), [e for e in v.calls('vsnprintf') if is_path(e.args[0], 'Error.text')]
    s.must(1, th, 'throw', 'an error is thrown')
    s.must(1, s.one(pr, 'text', 'with its text'), 'text', 'with its text')
    s.before(pr, th, 'text-first', 'the text is there before the error is thrown')
    room = prog.field_off('Error', 'text_len') - prog.field_off('Error', 'text')
    for e in pr:
        s.ob(pl(e.args[1])[0] == 'i' and 64 <= pl(e.args[1])[1] <= room, 'text-size', 'and fits', e.where())
        s.ob(pl(e.args[2]) == ('a', 5), 'text-format', 'of the format given', e.where())
        s.ob(pl(e.args[0])[0] == 'fld' and origin(e.args[0]) == ('a', 0), 'text-of', 'in the error of the thread', e.where())
    s = Spec(prog, res, 'monotone_error')
    for c, x in gates(s.v.ret):
        s.ob(is_path(x, 'Error.text') or has_path(x, ('Error', 'text')), 'returned', 'the text of the error is returned')


def unwinding(prog, res):
    """what is to be cleaned up is, once, whether a function ends or an error cuts it short"""
    G = ('Guard', 'function')
    run = ('*',) + G

    def of(x, base, *names):
        return is_path(x, *names) and any(y == base for y in walk(x))

    # an error runs everything which is registered
    s = Spec(prog, res, 'exception_mgr_execute_guards')
    v = s.v
    cs = s.one([e for e in v.events if e.kind == 'call' and e.name == run], 'runs', 'what is registered is run')
    for e in cs:
        if not s.ob(len(e.loops) == 1, 'each', 'each of them', e.where()):
            continue
        k = e.loops[0]
        F = v.frameobj[k[0]]
        phs = [('phi', i.id, k[0]) for i in F.fn.blocks[k[1]] if i.op == 'phi']
        phs = [ph for ph in phs if [strip(x) for x in v.phi(ph)[0]] == [('a', 0)]]
        if not s.one(phs, 'walk', 'from the last one on'):
            continue
        ph = phs[0]
        for c, x in v.phi_steps(ph):
            s.ob(of(x, ph, 'Guard.prev'), 'next', 'one after the other', e.where(), show(x, v))
        s.ob(v.equal(v.body(k), s.not_(v.eq(ph, ('i', 0)))), 'all', 'until there are no more', e.where(), v.show(v.body(k)))
        s.ob(of(e.args[0], ph, 'Guard.function_arg'), 'arg', 'with what it was registered with', e.where(), show(e.args[0], v))
        fs = s.terms(lambda x: of(x, ph, 'Guard.function'))
        there = s.or_(*[s.not_(v.eq(f, ('i', 0))) for f in fs] or [1])
        s.exactly(cs, s.and_(v.body(k), there), 'each', 'each which is still registered is run')

    s = Spec(prog, res, 'exception_mgr_throw', interest=['longjmp', 'exception_mgr_execute_guards'],
             opaque=['exception_mgr_execute_guards'], stores=[('Exception', 'triggered')])
    v = s.v
    ex, lj, tr = v.calls('exception_mgr_execute_guards'), v.calls('longjmp'), v.stores_of('Exception', 'triggered')
    s.must(1, ex, 'guards', 'an error runs what is registered')
    s.must(1, lj, 'jump', 'and goes to the handler')
    for e in ex:
        s.ob(is_path(e.args[0], 'ExceptionMgr.last', 'Exception.guard_stack') or is_path(e.args[0], 'Exception.guard_stack'), 'guards', 'of the block which it ends', e.where(), show(e.args[0], v))
    s.must(1, tr, 'caught', 'the handler is told')
    for c, x in s.final(tr):
        s.ob(strip(x)[0] == 'i' and strip(x)[1] != 0, 'caught', 'the handler is told', None, show(x, v))
    for e in lj:
        s.ob(is_path(e.args[0], 'Exception.buf') and origin(e.args[0]) == ('a', 0), 'jump', 'it is the last handler', e.where(), show(e.args[0], v))
        s.ob(strip(e.args[1])[0] == 'i' and strip(e.args[1])[1] != 0, 'jump', 'the block is not begun again', e.where())
        s.before(ex, [e], 'guards', 'before')
        s.before(tr, [e], 'caught', 'before')

    s = Spec(prog, res, 'exception_mgr_leave', stores=[('ExceptionMgr', 'last')])
    v, b = s.v, s.b
    st = v.stores_of('ExceptionMgr', 'last')
    s.must(1, st, 'leave', 'the handler before is the last one again')
    for c, x in s.final(st):
        s.ob(of(x, ('a', 1), 'Exception.prev') or is_path(x, 'ExceptionMgr.last', 'Exception.prev'), 'leave', 'the handler before is the last one again', None, show(x, v))
    was = s.terms(lambda x: of(x, ('a', 1), 'Exception.triggered'))
    ret = 0
    for c, x in gates(v.ret):
        x = strip(x)
        ret = b.or_(ret, b.and_(c, x[1] if x[0] == 'bdd' else s.not_(v.eq(x, ('i', 0)))))
    s.ob(any(v.equal(ret, s.not_(v.eq(t, ('i', 0)))) for t in was), 'caught', 'whether there was an error is returned', None, v.show(ret))

    # a function which ends runs what it registered, unless it was taken back
    POP = dict(interest=['guard_pop'], opaque=['guard_pop'], stores=[('Exception', 'guard_stack'), G])

    def pops(s):
        v = s.v
        for e in v.stores_of('Exception', 'guard_stack'):
            s.ob(is_path(e.args[1], 'Guard.prev'), 'pop', 'the last one is removed', e.where(), show(e.args[1], v))
        return v.calls('guard_pop') + v.stores_of('Exception', 'guard_stack')

    s = Spec(prog, res, 'guard_pop', stores=[('Exception', 'guard_stack')])
    v = s.v
    s.must(1, pops(s), 'pop', 'the last one is removed')
    for e in v.stores_of('Exception', 'guard_stack'):
        s.ob(is_path(e.args[0], 'ExceptionMgr.last', 'Exception.guard_stack') and is_path(e.args[1], 'Exception.guard_stack', 'Guard.prev'), 'pop',
             'of the block which is running', e.where(), show(e.args[0], v))
    for c, x in gates(v.ret):
        s.ob(is_path(x, 'Exception.guard_stack'), 'returned', 'the one removed is returned', None, show(x, v))

    s = Spec(prog, res, 'guard_runner', **POP)
    v = s.v
    cs = [e for e in v.events if e.kind == 'call' and e.name == run]
    fs = s.terms(lambda x: of(x, ('a', 0), 'Guard.function'))
    there = s.or_(*[s.not_(v.eq(f, ('i', 0))) for f in fs] or [0])
    s.exactly(cs, there, 'run', 'what is registered is run')
    s.once(cs, 'run', 'once')
    ps = pops(s)
    s.exactly(ps, there, 'pop', 'and removed')
    s.once(ps, 'pop', 'once')
    for e in cs:
        s.ob(of(e.args[0], ('a', 0), 'Guard.function_arg'), 'arg', 'with what it was registered with', e.where(), show(e.args[0], v))

    s = Spec(prog, res, 'unguard', **POP)
    v = s.v
    ps = pops(s)
    s.must(1, ps, 'pop', 'it is removed')
    s.once(ps, 'pop', 'once')
    st = v.stores_of(*G)
    s.must(1, st, 'off', 'it is not run later')
    for c, x in s.final(st):
        s.ob(strip(x) == ('i', 0), 'off', 'it is not run later', None, show(x, v))
    for c, x in gates(v.ret):
        s.ob(is_path(x, 'Guard.function_arg'), 'returned', 'what it was registered for is returned', None, show(x, v))


@rule('E01')
def e01(prog, res):
    parts(prog, res, exceptions, failures, message, unwinding)
