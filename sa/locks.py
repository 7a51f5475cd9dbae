"""Lock state: what each path holds, and what it leaves held.

One typestate run per entry point of the library (API functions, the worker
thread, every row of the command table).  The state is a bag of lock classes; a
lock class is a struct field (Engine.lock), the control lock, or a kind of
partition lock (service, access)."""
from ir import Broken, show, walk
from ts import Engine, Monitor, mem_class

ACCESS = 'Lockage.LOCK_ACCESS'
SERVICE = 'Lockage.LOCK_SERVICE'
THREADS = '~threads'        # a thread has been started on this path

EXT = {
    'pthread_mutex_lock': ('acq', 'mutex'),
    'pthread_mutex_unlock': ('rel', 'mutex'),
    'pthread_rwlock_rdlock': ('acq', 'shared'),
    'pthread_rwlock_wrlock': ('acq', 'exclusive'),
    'pthread_rwlock_unlock': ('rel', 'rw'),
    'pthread_cond_wait': ('wait', None),
    'pthread_cond_timedwait': ('wait', None),
    'spinlock_lock': ('acq', 'spin'),
    'spinlock_unlock': ('rel', 'spin'),
    'lockage_lock': ('acq', 'lockage'),
    'lockage_unlock': ('rel', 'lockage'),
}


def is_logref(e):
    return e[0] == 'ld' and e[1][0] == 'fld' and e[1][2:] == ('LogOp', 'ref')


def log_unlocks(prog):
    """instructions which release the partition lock an event of a batch holds"""
    unl = prog.reaching(['lockage_unlock'])
    fns = set()
    memo = {}

    def pred(i):
        k = (i.fn.key, i.id)
        if k in memo:
            return memo[k]
        memo[k] = False
        if i.op == 'call' and any(t in unl for t in prog.targets(i)):
            es = [i.fn.expr(o) for o in i.o]
            if any(is_logref(x) for e in es for x in walk(e)):
                memo[k] = True
            else:
                for t in prog.targets(i):
                    f = prog.functions.get(t)
                    if f and any(a[1] == 'LogOp*' for a in f.args) and any(pred(j) for j in f.calls()):
                        memo[k] = True
        return memo[k]
    return pred


def loops_with(prog, pred):
    """{(function, header block)} of the loops whose body satisfies pred(inst)"""
    out = {}
    for f in prog.functions.values():
        for h, body in natural_loops(f):
            for b in body:
                if any(pred(i) for i in f.blocks[b]):
                    out[(f.key, h)] = body
                    break
    return out


def natural_loops(f):
    if hasattr(f, '_loops'):
        return f._loops
    n = len(f.blocks)
    dom = dominators(f)
    loops = {}
    for b in range(n):
        for s in (f.blocks[b][-1].succ or []):
            if s in dom[b]:
                body = loops.setdefault(s, {s})
                work = [b]
                while work:
                    x = work.pop()
                    if x in body:
                        continue
                    body.add(x)
                    work += f.preds()[x]
    f._loops = sorted(loops.items())
    return f._loops


def dominators(f):
    if hasattr(f, '_dom'):
        return f._dom
    n = len(f.blocks)
    preds = f.preds()
    full = set(range(n))
    dom = [set(full) for _ in range(n)]
    dom[0] = {0}
    reach = {0}
    work = [0]
    while work:
        b = work.pop()
        for s in (f.blocks[b][-1].succ or []):
            if s not in reach:
                reach.add(s)
                work.append(s)
    changed = True
    while changed:
        changed = False
        for b in range(1, n):
            if b not in reach:
                continue
            ps = [p for p in preds[b] if p in reach]
            d = set.intersection(*[dom[p] for p in ps]) | {b} if ps else {b}
            if d != dom[b]:
                dom[b] = d
                changed = True
    f._dom = dom
    return dom


def control_lock(prog):
    """the rwlock the control interface locks"""
    c = set()
    for name in ('pthread_rwlock_wrlock', 'pthread_rwlock_rdlock'):
        for i in prog.calls_of(name):
            for s in prog.points_to(i.fn, strip_field(i.fn.expr(i.o[0]))):
                c.add(s)
    return c


def strip_field(e):
    while e[0] == 'fld' and e[2] in ('Mutex', 'Rwlock', 'CondVar'):
        e = e[1]
    return e


class LockMonitor(Monitor):
    name = 'locks'
    want_branches = True
    want_blocks = True

    def __init__(self, prog):
        super().__init__(prog)
        c = control_lock(prog)
        if len(c) != 1:
            raise Broken('control lock is not unique: %s' % sorted(c))
        self.control = '%s.%s' % c.pop()[1:]
        self.unlock_loop = set(loops_with(prog, log_unlocks(prog)))
        self.edges = {}
        self.acquisitions = {}
        self.access = {}            # (struct, field, fn, line) -> set of held
        self.watch = set()          # struct fields whose stores are recorded
        self.watch_calls = set()    # callees whose calls are recorded
        self.watch_lists = set()    # lists and list links (struct, field) whose changes are recorded
        self.list_calls = set()
        self.lt = prog.enum_of('LOCK_SERVICE')
        self.ltname = {v: k for k, v in self.lt.items()}
        self.ref_fields = {('EngineCursor', 'ref')}
        self.neutral = {}
        self.inner = None
        self.entry = None
        self.alone = False          # this entry runs before (after) all other threads
        self.private_from = set()   # functions which return an object nobody else sees
        self.private_fields = set() # fields which hold such an object
        self.watch_loads = set()    # struct fields whose loads are recorded
        self.want_loads = False

    def start(self):
        return ((), None, None)     # held, cursor reference, log

    def event_functions(self):
        return set(EXT) | {'pthread_create'} | self.watch_calls | self.list_calls | {k for k, v in self.neutral.items() if v}

    def event_inst(self, fn):
        for i in fn.all('store'):
            a = fn.expr(i.o[1])
            if a[0] == 'fld' and ((a[2], a[3]) in self.watch or (a[2], a[3]) in self.ref_fields
                                  or (a[2], a[3]) in (('LogOp', 'ref'), ('LogWrite', 'count'))):
                return True
        if self.watch_loads:
            for i in fn.all('load'):
                a = fn.expr(i.o[0])
                if a[0] == 'fld' and a[2:] in self.watch_loads:
                    return True
        for i in fn.all('br'):
            if i.o and any(x[0] == 'fld' and x[2:] in (('EngineCursor', 'ref'), ('LogOp', 'ref'))
                           for x in walk(fn.expr(i.o[0]))):
                return True
        return False

    def event_store(self, addr):
        return addr[0] == 'fld' and (addr[2:] in self.watch or addr[2:] in self.ref_fields
                                     or addr[2:] in (('LogOp', 'ref'), ('LogWrite', 'count')))

    def absarg(self, fn, e):
        if e[0] == 'fld':
            r = e[1]
            while r[0] == 'fld':
                r = r[1]
            if r[0] == 'v' and self.absarg(fn, r) == ('priv',):
                return ('priv',)
            return ('&', e[2], e[3])
        if e[0] == 'ld':
            c = mem_class(e[1])
            if c == ('fld', 'LogOp', 'ref'):
                return ('logref',)
            if c[1:] in self.private_fields:
                return ('priv',)
            if c[0] == 'fld':
                return None
        if e[0] == 'g':
            return ('&', 'global', e[1])
        if e[0] == 'v' and e[1] in fn.insts:
            i = fn.insts[e[1]]
            if i.op == 'call' and i.callee[0] == 'f' and i.callee[1] in self.private_from:
                return ('priv',)
        return None

    def lock_of(self, ctx, n):
        e = strip_field(ctx.args[n])
        v = ctx.value(e)
        if v is not None and v[0] == '&':
            return '%s.%s' % v[1:]
        s = self.prog.points_to(ctx.fn, e)
        names = {'%s.%s' % x[1:] for x in s if x[0] == '&'}
        if len(names) == 1:
            return names.pop()
        if v is None and e[0] == 'a':
            pass
        raise Broken('lock argument %s at %s is not resolved (%s)' % (show(e, ctx.fn), ctx.where(), sorted(names)))

    # ---- bag
    @staticmethod
    def add(held, x):
        d = dict(held)
        d[x] = min(d.get(x, 0) + 1, 3)
        return tuple(sorted(d.items()))

    @staticmethod
    def sub(held, x):
        d = dict(held)
        d[x] -= 1
        if not d[x]:
            del d[x]
        return tuple(sorted(d.items()))

    def acquire(self, ctx, q, name, kind):
        held, cref, log = q
        d = dict(held)
        self.acquisitions.setdefault(name, set()).add(ctx.where())
        if self.inner is not None:
            self.inner.add(name)
        if kind in ('mutex', 'spin') and name in d:
            self.report(('self', name, ctx.fn.key, ctx.inst.line),
                        '%s is locked again while the same path already holds it' % name, ctx)
            return None
        if kind == 'exclusive' and (name in d or name + '!' in d):
            self.report(('self', name, ctx.fn.key, ctx.inst.line),
                        '%s is locked exclusively while the same path already holds it' % name, ctx)
            return None
        if kind == 'shared' and name + '!' in d:
            self.report(('self', name, ctx.fn.key, ctx.inst.line),
                        '%s is locked shared while the same path holds it exclusively' % name, ctx)
            return None
        alone = self.alone and THREADS not in d
        for h in [x for x in d if x != THREADS] + (['Lockage.LOCK_ACCESS', self.control] if log is not None else []):
            if kind == 'lockage' and h == 'Engine.lock':
                continue        # released while the partition lock is waited for
            a = h.rstrip('!')
            # shared again while this path holds it shared: readers do not wait
            if kind == 'shared' and (name in d or (name == self.control and log is not None)):
                continue
            if alone:
                continue
            self.edges.setdefault((a, name), {}).setdefault(self.entry, (ctx.where(), ctx.chain()))
        x = name + '!' if kind == 'exclusive' else name
        return (self.add(held, x), cref, log)

    def release(self, ctx, q, name, kind, group=False):
        held, cref, log = q
        d = dict(held)
        if group and log is None and name not in d:
            return None         # no event of the batch holds a lock: not a path
        if kind == 'rw' and name not in d and name + '!' in d:
            name += '!'
        if name in d and not (group and log is not None):
            return (self.sub(held, name), cref, log)
        if log is not None and group:
            if log == 'done':
                self.report(('double', ctx.fn.key, ctx.inst.line),
                            'the partition lock of one event is released twice', ctx)
                return None
            return (held, cref, 'done')
        if log is not None and kind == 'rw':
            return q
        self.report(('unheld', name, ctx.fn.key, ctx.inst.line), '%s is released but not held' % name, ctx)
        return None

    def find_neutral(self):
        """functions which take and drop leaf locks only: what they leave held
        is what was held; {function: lock classes}"""
        prog = self.prog
        self.neutral = {}
        big = prog.reaching(['lockage_lock', 'lockage_unlock', 'pthread_cond_wait',
                             'pthread_cond_timedwait'] + sorted(self.watch_calls | self.list_calls))
        skip = set(EXT)
        own = prog.reaching([f.key for f in prog.functions.values() if self.event_inst(f)])
        cand = prog.reaching(set(EXT)) - big - own - skip
        cand = [k for k in cand if k in prog.functions]
        order = []
        seen = set()

        def visit(k):
            if k in seen:
                return
            seen.add(k)
            f = prog.functions.get(k)
            if f is None:
                return
            for i in f.calls():
                for t in prog.targets(i):
                    visit(t)
            if k in cset:
                order.append(k)
        cset = set(cand)
        reach_ext = prog.reaching(set(EXT))
        for k in sorted(cand):
            visit(k)
        for k in order:
            f = prog.functions[k]
            ts = {t for i in f.calls() for t in prog.targets(i) if t in cset or t in EXT or t in reach_ext}
            if all(t in self.neutral for t in ts):
                self.neutral[k] = set().union(*[self.neutral[t] for t in ts])
                continue
            sub = LockMonitor.__new__(LockMonitor)
            sub.__dict__.update(self.__dict__)
            sub.reports, sub.acquisitions, sub.edges, sub.sites = {}, {}, {}, set()
            sub.neutral = self.neutral
            sub.inner = set()
            try:
                ex = Engine(prog, sub, max_states=4000).run(f, sub.start())
            except Broken:
                continue
            if any(x[1] != sub.start() for x in ex) or sub.reports:
                continue
            if self.control in sub.inner:
                continue
            self.neutral[k] = sub.inner

    def call(self, ctx, q):
        if ctx.callee in self.neutral:
            for name in self.neutral[ctx.callee]:
                if self.acquire(ctx, q, name, 'mutex') is None:
                    return []
            self.obligations += 1
            out = [('R', q, None)]
            if ctx.callee in ctx.eng.throwing:
                out.append(('T', q, None))
                if self.prog.functions[ctx.callee].noreturn:
                    out = out[1:]
            return out
        if ctx.callee == 'pthread_create':
            d = dict(q[0])
            d[THREADS] = 1
            return [('R', (tuple(sorted(d.items())), q[1], q[2]), None)]
        e = EXT.get(ctx.callee)
        if e is None:
            # rollback: the entry which is put back is in the tree, nothing is allocated
            if any(a[0] == 'ld' and a[1][0] == 'fld' and a[1][2:] == ('LogOp', 'prev') for a in ctx.args):
                return [('R', q, None)]
            if ctx.callee in self.watch_calls:
                self.record(('call', ctx.callee), ctx, q)
            if ctx.callee in self.list_calls and ctx.args:
                a = ctx.args[0]
                if a[0] == 'fld' and a[2:] in self.watch_lists:
                    base = a[1]
                    while base[0] == 'fld':
                        base = base[1]
                    self.record(('list',) + a[2:], ctx, q, ctx.value(base) == ('priv',))
            return None
        op, kind = e
        self.obligations += 1
        self.sites.add(ctx.where())
        if op == 'wait':
            m = self.lock_of(ctx, 1)
            if m not in dict(q[0]):
                self.report(('wait', ctx.fn.key, ctx.inst.line), 'waits on %s without holding it' % m, ctx)
            for h, _ in q[0]:
                if h != m and h != THREADS:
                    self.edges.setdefault((h.rstrip('!'), m), {}).setdefault(self.entry, (ctx.where(), ctx.chain()))
            return [('R', q, None)]
        if kind == 'lockage':
            t = ctx.arg(1)
            if t is None or t[0] != 'i':
                raise Broken('kind of partition lock is not constant at ' + ctx.where())
            name = 'Lockage.' + self.ltname.get(t[1], str(t[1]))
            if 'Engine.lock' not in dict(q[0]):
                self.report(('nolock', ctx.fn.key, ctx.inst.line),
                            'partition lock is changed without holding Engine.lock', ctx)
            group = any(is_logref(x) or (x[0] == 'a' and x[1] < len(ctx.env) and ctx.env[x[1]] == ('logref',))
                        for x in walk(ctx.args[0]))
        else:
            name = self.lock_of(ctx, 0)
            group = False
        q = self.acquire(ctx, q, name, kind) if op == 'acq' else self.release(ctx, q, name, kind, group)
        return [('R', q, None)] if q is not None else []

    def record(self, what, ctx, q, private=False):
        d = self.access.setdefault((what, ctx.fn.key, ctx.where()), {})
        h = {x for x, _ in q[0]}
        if q[2] in ('held', 'need'):
            h |= {ACCESS, self.control}
        alone = (self.alone and THREADS not in h) or private
        k = (frozenset(h - {THREADS}), alone)
        if k not in d:
            d[k] = ctx.chain()

    def store(self, ctx, q, addr, val):
        if addr[0] != 'fld':
            return q
        k = (addr[2], addr[3])
        if k in self.watch:
            base = addr[1]
            while base[0] == 'fld':
                base = base[1]
            self.record(('store',) + k, ctx, q, ctx.value(base) == ('priv',))
        if k in self.ref_fields:
            return (q[0], self.nullness(ctx, val), q[2])
        if k == ('LogWrite', 'count') and q[2] is not None:
            if ctx.eng.evalc(val, ctx.env, ctx.state[3]) == 0:
                if q[2] in ('held', 'need'):
                    self.report(('log', ctx.fn.key, ctx.inst.line),
                                'a batch is forgotten while its partition locks are held', ctx)
                return (q[0], q[1], None)
        if k == ('LogOp', 'ref'):
            n = self.nullness(ctx, val)
            if n == 'null':
                return q
            held = q[0]
            d = dict(held)
            if ACCESS in d and self.control in d:
                held = self.sub(self.sub(held, 'Lockage.LOCK_ACCESS'), self.control)
                return (held, q[1], 'held')
            self.report(('logref', ctx.fn.key), 'an event of a batch refers to a partition '
                        'which this path has not locked for access', ctx)
            return None
        return q

    def event_load(self, addr):
        return addr[0] == 'fld' and addr[2:] in self.watch_loads

    def load(self, ctx, q, addr):
        if addr[0] == 'fld' and addr[2:] in self.watch_loads:
            self.record(('load',) + addr[2:], ctx, q, ctx.value(addr[1]) == ('priv',))
        return q

    def block(self, ctx, q, fn, b):
        if q[2] is not None and (fn.key, b) in self.unlock_loop:
            if q[2] == 'need':
                self.report(('iter', fn.key, b), 'the partition lock of an event of the batch is not released', ctx)
            return (q[0], q[1], 'iter')
        return q

    def nullness(self, ctx, val):
        facts = ctx.state[3]
        c = ctx.eng.evalc(val, ctx.env, facts)
        if c == 0:
            return 'null'
        t = ctx.eng.truth(('cmp', 'ne', val, ('i', 0)), ctx.env, facts)
        return 'set' if t else None

    def branch(self, ctx, q, cond, truth):
        a = null_test(cond, truth)
        if a is None:
            return q
        e, isnull = a
        if e[0] == 'ld' and e[1][0] == 'fld':
            k = e[1][2:]
            if k in self.ref_fields:
                if q[1] is not None and (q[1] == 'null') != isnull:
                    return None
                if q[1] is None:
                    return (q[0], 'null' if isnull else 'set', q[2])
            if k == ('LogOp', 'ref') and not isnull:
                if q[2] is None:
                    return None     # no event of the batch refers to a partition
                if q[2] == 'iter':
                    return (q[0], q[1], 'need')
        return q


def null_test(cond, truth):
    """(expression, is null) a branch decides"""
    while cond[0] == 'not':
        cond = cond[1]
        truth = not truth
    if cond[0] == 'cmp' and cond[1] in ('eq', 'ne') and cond[3] == ('i', 0):
        return cond[2], (cond[1] == 'eq') == truth
    return None


def api_functions(prog):
    fs = [f for f in prog.functions.values() if f.file.endswith('/main/api/monotone.c') and not f.local]
    if len(fs) < 8:
        raise Broken('API functions not found')
    return sorted(fs, key=lambda f: f.line)


def thread_functions(prog):
    s = set()
    for i in prog.calls_of('pthread_create'):
        s |= {x[1] for x in prog.points_to(i.fn, i.fn.expr(i.o[2])) if x[0] == 'f'}
    if not s:
        raise Broken('no thread function found')
    return sorted((prog.functions[k] for k in s), key=lambda f: f.key)


def command_rows(prog):
    """rows of the constant table main_execute() dispatches on: {(struct, field): value}"""
    f = prog.fn('main_execute')
    for i in f.calls():
        if i.callee[0] != 'f':
            e = f.expr(i.callee)
            if e[0] == 'ld' and e[1][0] == 'fld':
                st, fld = e[1][2:]
                gs = [x[1] for x in walk(e) if x[0] == 'g']
                rows = []
                for g in gs:
                    init = prog.globals.get(g, {}).get('init')
                    if not isinstance(init, dict) or 'array' not in init:
                        continue
                    for n, r in enumerate(init['array']):
                        row = {}
                        if 'struct' not in r:
                            rows.append((n, None))
                            continue
                        for k, v in zip(prog.structs[r['struct']]['fields'], r['v']):
                            if isinstance(v, list) and v[0] == 'f':
                                row[(r['struct'], k['name'])] = ('f', v[1])
                            elif isinstance(v, list) and v[0] == 'i':
                                row[(r['struct'], k['name'])] = ('i', v[1])
                        rows.append((n, row))
                return (st, fld), rows
    raise Broken('command table not found')


def cursor_obj_facts(prog, name):
    return {('ld', ('a', 0)): ('=', prog.enum(name))}


def run_all(prog, mon):
    """run the monitor from every entry point: [(entry, function, initial state, exits, engine)]"""
    out = []
    mon.find_neutral()
    access = (tuple(sorted(((ACCESS, 1), (mon.control, 1)))), 'set', None)
    none = ((), 'null', None)
    disp, rows = command_rows(prog)

    def run(name, f, st, facts=None, row=None, alone=False):
        mon.entry = name
        mon.alone = alone
        eng = Engine(prog, mon, fieldconst=row)
        out.append((name, f, st, eng.run(f, st, facts=facts), eng))
    for f in api_functions(prog):
        if 'main_execute' in prog.reach([f.key]):
            for n, row in rows:
                if row and disp in row:
                    run('%s [%s]' % (f.name, row[disp][1].split('@')[0]), f, none, row=row)
            continue
        if f.args and f.args[0][1] == 'monotone_cursor_t*':
            run(f.name + ' [cursor at the end]', f, none)
            run(f.name + ' [open cursor]', f, access)
        elif f.name == 'monotone_free':
            run(f.name + ' [env]', f, none, cursor_obj_facts(prog, 'MONOTONE_OBJ'), alone=True)
            run(f.name + ' [cursor at the end]', f, none, cursor_obj_facts(prog, 'MONOTONE_OBJ_CURSOR'))
            run(f.name + ' [open cursor]', f, access, cursor_obj_facts(prog, 'MONOTONE_OBJ_CURSOR'))
        else:
            run(f.name, f, none, alone=f.name in ('monotone_init', 'monotone_open'))
    for f in thread_functions(prog):
        run('thread ' + f.name, f, none)
    return out


def cycles(edges):
    """edges on a cycle of the lock order, one witness cycle each"""
    adj = {}
    for a, b in edges:
        adj.setdefault(a, set()).add(b)
    out = {}
    for a, b in sorted(edges):
        # path from b back to a
        prev = {b: None}
        work = [b]
        while work:
            x = work.pop(0)
            if x == a:
                break
            for y in sorted(adj.get(x, ())):
                if y not in prev:
                    prev[y] = x
                    work.append(y)
        if a in prev:
            p = [a]
            while prev[p[-1]] is not None:
                p.append(prev[p[-1]])
            out[(a, b)] = p[::-1]
    return out
