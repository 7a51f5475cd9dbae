"""Interprocedural typestate engine.

Runs a monitor (a finite automaton over calls, stores and branches) over every
path of a function and of what it calls, through normal and exceptional control
flow.  A function is summarised as (entry state, abstract arguments) -> set of
exits, so helpers are looked into and recursion converges.

What is modelled of the project's exception machinery:
  * exception_mgr_throw() (error(), rethrow()) leaves the function, running the
    guards pushed since the innermost enter() in reverse order;
  * enter() is the setjmp() with an Exception pushed: a throw below it comes back
    with a non-zero result; leave() pops it and returns whether it was triggered;
  * guard() pushes (function, argument); the end of its scope runs it, unguard()
    drops it.
Path sensitivity: facts (expression =/!= constant) learned from branches, from
phis and from constant results of callees; a fact dies when a field it reads is
stored to, by the function or by what it calls, or when the value it names is
computed again.
"""
import sys
from ir import THROW, Broken, mentions, show, strip_casts, walk

sys.setrecursionlimit(20000)

ALLOCATORS = {'mn_malloc', 'mn_realloc', 'mn_calloc', 'mn_strdup', 'mn_strndup'}
STOP = {'abort', 'exit', '_exit', '__assert_fail'}


class Ctx:
    __slots__ = ('eng', 'fn', 'inst', 'callee', 'args', 'state', 'trail', 'env')

    def where(self):
        return self.inst.where()

    def arg(self, n):
        """abstract value of the n-th argument, as the monitor abstracts it"""
        return self.eng.absval(self.fn, self.args[n], self.env, self.state[3]) if n < len(self.args) else None

    def value(self, e):
        return self.eng.absval(self.fn, e, self.env, self.state[3])

    def chain(self):
        s = ['%s (%s)' % (f.name, i.where()) for f, i, _ in self.eng.stack]
        return ' -> '.join(s + ['%s (%s)' % (self.fn.name, self.inst.where())])

    def path(self):
        out = []
        for t in [x[2] for x in self.eng.stack] + [self.trail]:
            part = []
            while t:
                part.append(t[1])
                t = t[0]
            out += part[::-1]
        return out


class Monitor:
    name = '?'
    alloc_throws = False
    follow_threads = False

    def start(self):
        return 0

    def event_functions(self):
        """callees (by key) the monitor reacts to; others are only walked when
        they can reach one of these"""
        return set()

    def event_inst(self, fn):
        """does this function contain an instruction the monitor reacts to"""
        return False

    def call(self, ctx, q):
        return None

    def event_store(self, addr):
        """does the monitor look at the value stored here"""
        return True

    def store(self, ctx, q, addr, val):
        return q

    def event_load(self, addr):
        return True

    def load(self, ctx, q, addr):
        return q

    def thrown(self, ctx, q):
        """a call of the function throws"""
        return q

    def leaves(self, ctx, q0, q, rv, tries):
        """the function, entered in q0, returns"""
        return q

    want_loads = False
    want_branches = False
    want_blocks = False

    def block(self, ctx, q, fn, b):
        return q

    def branch(self, ctx, q, cond, truth):
        return q

    def absarg(self, fn, e):
        return None

    def __init__(self, prog):
        self.prog = prog
        self.reports = {}
        self.obligations = 0
        self.sites = set()

    def report(self, key, msg, ctx):
        if key not in self.reports:
            self.reports[key] = {'message': msg, 'where': ctx.where(), 'chain': ctx.chain(),
                                 'path': ctx.path(), 'state': repr(ctx.state[0])}


class FnInfo:
    """static facts about one function the engine needs"""

    def __init__(self, eng, fn):
        self.fn = fn
        self.guards = {}        # alloca id -> (function expr, arg expr)
        self.push = {}          # store inst id -> alloca id
        self.conds = {}         # block -> relevant expressions at branches below
        gf, ga = {}, {}
        for i in fn.all('store'):
            a = fn.expr(i.o[1])
            if a[0] == 'fld' and a[2] == 'Guard' and a[1][0] == 'al':
                if a[3] == 'function':
                    gf[a[1][1]] = fn.expr(i.o[0])
                elif a[3] == 'function_arg':
                    ga[a[1][1]] = fn.expr(i.o[0])
            elif a[0] == 'fld' and a[2] == 'Exception' and a[3] == 'guard_stack':
                v = fn.expr(i.o[0])
                if v[0] == 'al':
                    self.push[i.id] = v[1]
        for k in gf:
            self.guards[k] = (gf[k], ga.get(k, ('i', 0)))
        self.escaped = set()
        for i in fn.all('store'):
            for x in walk(fn.expr(i.o[0])):
                if x[0] == 'al':
                    self.escaped.add(x)
        # atoms used at branches
        at = []
        for b in fn.blocks:
            s = set()
            t = b[-1]
            if t.op in ('br', 'switch') and t.o:
                atoms(fn.expr(t.o[0]), s)
            if t.op == 'ret' and t.o:
                atoms(fn.expr(t.o[0]), s)
            at.append(s)
        phiuse = {}
        for i in fn.all('phi'):
            for o in i.o:
                phiuse.setdefault(i.block, set())
                s = set()
                atoms(fn.expr(o), s)
                phiuse[i.block] |= s
        n = len(fn.blocks)
        below = [set(at[k]) for k in range(n)]
        changed = True
        while changed:
            changed = False
            for k in range(n - 1, -1, -1):
                for s in (fn.blocks[k][-1].succ or []):
                    x = below[s] | phiuse.get(s, set())
                    if not x <= below[k]:
                        below[k] |= x
                        changed = True
        self.below = below


def atoms(e, out):
    k = e[0]
    if k in ('not', 'b2i', 'cast'):
        atoms(e[-1], out)
    elif k == 'cmp':
        if e[3][0] == 'i':
            out.add(strip_casts(e[2]))
        out.add(e)
        out.add(neg_cmp(e))
        if e[3][0] != 'i':
            atoms(e[2], out)
            atoms(e[3], out)
    elif k in ('v', 'ld', 'a'):
        out.add(e)
    elif k == 'bin' and e[1] in ('and', 'or'):
        out.add(e)
        atoms(e[2], out)
        atoms(e[3], out)
    elif k == 'sel':
        for x in e[1:]:
            atoms(x, out)


def neg_cmp(e):
    from ir import neg
    return neg(e)


def fold_cmp(p, a, b):
    if p in ('ult', 'ule', 'ugt', 'uge'):
        a &= (1 << 64) - 1
        b &= (1 << 64) - 1
    return {'eq': a == b, 'ne': a != b, 'slt': a < b, 'sle': a <= b, 'sgt': a > b, 'sge': a >= b,
            'ult': a < b, 'ule': a <= b, 'ugt': a > b, 'uge': a >= b}[p]


class Engine:
    def __init__(self, prog, mon, fieldconst=None, max_states=400000):
        self.fieldconst = fieldconst or {}
        self.p = prog
        self.m = mon
        self.info = {}
        self.sum = {}
        self.stack = []
        self.active = set()
        self.done = set()
        self.partial = False
        self.steps = 0
        self.max_states = max_states
        self.fns = set()
        ev = set(mon.event_functions())
        missing = [e for e in ev if e not in prog.functions and e not in prog.callers]
        self.missing = missing
        roots = set(ev)
        for f in prog.functions.values():
            if mon.event_inst(f):
                roots.add(f.key)
        self.interesting = prog.reaching(roots)
        self.roots = roots
        noalloc = {THROW}
        self.throwing = self._throwing()
        self.relevant = self._relevant()
        self.mods = self._mods()

    def _relevant(self):
        """argument numbers of a function whose value may decide what happens"""
        p = self.p
        rel = {k: set() for k in p.functions}
        calls = []
        for f in p.functions.values():
            r = rel[f.key]

            def use(e, r=r):
                for x in walk(e):
                    if x[0] == 'a':
                        r.add(x[1])
            for i in f.all():
                if i.op in ('br', 'switch', 'ret') and i.o:
                    use(f.expr(i.o[0]))
                elif i.op == 'phi':
                    for o in i.o:
                        use(f.expr(o))
                elif i.op == 'store':
                    if self.m.event_store(f.expr(i.o[1])):
                        use(f.expr(i.o[0]))
                        use(f.expr(i.o[1]))
                elif i.op == 'load' and self.m.want_loads and self.m.event_load(f.expr(i.o[0])):
                    use(f.expr(i.o[0]))
                elif i.op == 'call':
                    if i.callee[0] != 'f':
                        use(f.expr(i.callee))
                    for t in p.targets(i):
                        if t in p.functions and t not in self.roots and t in self.interesting | self.throwing:
                            calls.append((f, i, t))
                        elif t in self.roots or (t not in p.functions and t in self.m.event_functions()):
                            for o in i.o:
                                use(f.expr(o))
                            if t in p.functions:
                                calls.append((f, i, t))
        changed = True
        while changed:
            changed = False
            for f, i, t in calls:
                r = rel[f.key]
                for n in rel[t]:
                    if n < len(i.o):
                        for x in walk(f.expr(i.o[n])):
                            if x[0] == 'a' and x[1] not in r:
                                r.add(x[1])
                                changed = True
        # guards: the argument travels through memory
        for f in p.functions.values():
            for i in f.all('store'):
                a = f.expr(i.o[1])
                if a[0] == 'fld' and a[2] == 'Guard' and a[3] in ('function', 'function_arg'):
                    for x in walk(f.expr(i.o[0])):
                        if x[0] == 'a' and x[1] not in rel[f.key]:
                            rel[f.key].add(x[1])
                            changed = True
        while changed:
            changed = False
            for f, i, t in calls:
                r = rel[f.key]
                for n in rel[t]:
                    if n < len(i.o):
                        for x in walk(f.expr(i.o[n])):
                            if x[0] == 'a' and x[1] not in r:
                                r.add(x[1])
                                changed = True
        return rel

    def _throwing(self):
        """functions which may throw (out of an allocator or not)"""
        seen = set()
        work = [THROW]
        while work:
            k = work.pop()
            if k in seen:
                continue
            seen.add(k)
            for i in self.p.callers.get(k, ()):
                if not self.m.alloc_throws and i.fn.name in ALLOCATORS:
                    continue
                # rethrow(): throws what was thrown by another call of the function
                if k == THROW and i.fn.has_setjmp():
                    continue
                work.append(i.fn.key)
        return seen

    def _mods(self):
        """struct fields stored to by a function or by what it calls"""
        p = self.p
        own = {}
        for f in p.functions.values():
            s = set()
            for i in f.all('store'):
                a = f.expr(i.o[1])
                s.add(mem_class(a))
            own[f.key] = s
        # transitive closure over the call graph
        changed = True
        calls = {f.key: {c for i in f.calls() for c in p.targets(i) if c in p.functions and c != THROW}
                 for f in p.functions.values()}
        mods = {k: set(v) for k, v in own.items()}
        while changed:
            changed = False
            for k, cs in calls.items():
                n = len(mods[k])
                for c in cs:
                    mods[k] |= {x for x in mods[c] if x[0] != 'al'}
                if len(mods[k]) != n:
                    changed = True
        return mods

    # ---- values
    def get_info(self, fn):
        i = self.info.get(fn.key)
        if i is None:
            i = self.info[fn.key] = FnInfo(self, fn)
        return i

    def evalc(self, e, env, facts):
        """constant value of an expression, or None"""
        k = e[0]
        if k == 'i':
            return e[1]
        if k == 'a' and env:
            v = env[e[1]] if e[1] < len(env) else None
            if v is not None and v[0] == 'i':
                return v[1]
        f = facts.get(e)
        if f is not None and f[0] == '=':
            return f[1]
        if k == 'ld' and self.fieldconst and e[1][0] == 'fld':
            c = self.fieldconst.get(e[1][2:])
            if c is not None and c[0] == 'i':
                return c[1]
        if k == 'not':
            v = self.evalc(e[1], env, facts)
            return None if v is None else int(not v)
        if k == 'b2i':
            v = self.evalc(e[1], env, facts)
            return v
        if k == 'cast':
            return self.evalc(e[4], env, facts)
        if k == 'cmp':
            a = self.evalc(e[2], env, facts)
            b = self.evalc(e[3], env, facts)
            if a is not None and b is not None:
                return int(fold_cmp(e[1], a, b))
            if b is not None and e[1] in ('eq', 'ne'):
                s = strip_casts(e[2])
                fa = facts.get(s)
                if fa is not None and fa[0] == '!' and b in fa[1]:
                    return int(e[1] == 'ne')
                if b == 0 and self.nonnull(s, env):
                    return int(e[1] == 'ne')
            f = facts.get(neg_cmp(e))
            if f is not None and f[0] == '=':
                return int(not f[1])
            return None
        if k == 'bin' and e[1] in ('and', 'or'):
            a = self.evalc(e[2], env, facts)
            b = self.evalc(e[3], env, facts)
            if a is not None and b is not None:
                return (a & b) if e[1] == 'and' else (a | b)
            if e[1] == 'and' and (a == 0 or b == 0):
                return 0
            return None
        if k == 'sel':
            c = self.evalc(e[1], env, facts)
            if c is not None:
                return self.evalc(e[2] if c else e[3], env, facts)
        return None

    def nonnull(self, e, env):
        if e[0] in ('al', 'f', 'g', 's', 'fld', 'idx'):
            return True
        if e[0] == 'a' and env and e[1] < len(env) and env[e[1]] is not None:
            return env[e[1]][0] in ('f', '&', 's', 'nn')
        return False

    def truth(self, e, env, facts):
        v = self.evalc(e, env, facts)
        if v is not None:
            return bool(v)
        f = facts.get(strip_casts(e))
        if f is not None and f[0] == '!' and 0 in f[1] and e[0] not in ('cmp', 'not'):
            return True
        return None

    def absval(self, fn, e, env, facts):
        """abstract value for arguments: constants, functions, monitor names"""
        v = self.evalc(e, env, dict(facts) if not isinstance(facts, dict) else facts)
        if v is not None:
            return ('i', v)
        if e[0] == 'f':
            return e
        m = self.m.absarg(fn, e)
        if m is not None:
            return m
        if e[0] == 'a' and env and e[1] < len(env):
            return env[e[1]]
        if e[0] in ('cast', 'b2i'):
            return self.absval(fn, e[-1], env, facts)
        return None

    # ---- facts
    def learn(self, e, truth, env, facts, keep):
        """facts after e evaluated to truth; None if that cannot be"""
        t = self.truth(e, env, facts)
        if t is not None:
            return facts if t == truth else None
        k = e[0]
        if k == 'not':
            return self.learn(e[1], not truth, env, facts, keep)
        if k in ('b2i', 'cast'):
            return self.learn(e[-1], truth, env, facts, keep)
        new = dict(facts)
        if k == 'cmp':
            c = self.evalc(e[3], env, facts)
            if e[1] in ('eq', 'ne') and c is not None:
                s = strip_casts(e[2])
                eq = (e[1] == 'eq') == truth
                if eq:
                    f = facts.get(s)
                    if f and f[0] == '!' and c in f[1]:
                        return None
                    new[s] = ('=', c)
                    if s[0] == 'v':
                        pass
                else:
                    f = facts.get(s)
                    old = f[1] if f and f[0] == '!' else frozenset()
                    new[s] = ('!', old | {c})
                return new
            if c is not None:
                s = strip_casts(e[2])
                # x < 0 and the like say something about 0 and -1
                p = e[1]
                for cand in (0, -1, 1):
                    if fold_cmp(p, cand, c) != truth:
                        f = new.get(s)
                        if f is None or f[0] == '!':
                            old = f[1] if f else frozenset()
                            new[s] = ('!', old | {cand})
            new[e] = ('=', int(truth))
            return new
        if k == 'bin' and e[1] == 'and' and truth:
            a = self.learn(e[2], True, env, new, keep)
            return None if a is None else self.learn(e[3], True, env, a, keep)
        if k == 'bin' and e[1] == 'or' and not truth:
            a = self.learn(e[2], False, env, new, keep)
            return None if a is None else self.learn(e[3], False, env, a, keep)
        if truth:
            f = facts.get(e)
            old = f[1] if f and f[0] == '!' else frozenset()
            new[e] = ('!', old | {0})
        else:
            new[e] = ('=', 0)
        return new

    def prune(self, facts, keep):
        return {k: v for k, v in facts.items() if k in keep}

    def kill(self, facts, classes):
        if not facts or not classes:
            return facts
        out = {}
        for k, v in facts.items():
            dead = False
            for x in walk(k):
                if x[0] == 'ld':
                    c = mem_class(x[1])
                    if c in classes or (('any',) in classes and c[0] not in ('al', 'fld')):
                        dead = True
                        break
            if not dead:
                out[k] = v
        return out

    # ---- running
    def run(self, fn, q=None, env=None, facts=None):
        """all exits of fn entered in state q: {(kind, state, constant result)}"""
        if q is None:
            q = self.m.start()
        env = tuple(env) if env else (None,) * len(fn.args)
        self.entry_facts = (fn.key, dict(facts)) if facts else None
        for _ in range(30):
            self.partial = False
            self.done = set()
            before = {k: frozenset(v) for k, v in self.sum.items()}
            r = self.summary(fn, q, env)
            after = {k: frozenset(v) for k, v in self.sum.items()}
            if not self.partial or before == after:
                return r
        raise Broken('typestate: no fixpoint for ' + fn.key)

    def summary(self, fn, q, env):
        key = (fn.key, q, env)
        if key in self.done or key in self.active:
            if key in self.active:
                self.partial = True
            return self.sum.setdefault(key, set())
        self.active.add(key)
        self.sum.setdefault(key, set())
        r = self.walk(fn, q, env, key)
        self.sum[key] |= r
        self.active.discard(key)
        self.done.add(key)
        self.fns.add(fn.key)
        return self.sum[key]

    def walk(self, fn, q, env, key):
        info = self.get_info(fn)
        exits = set()
        seen = set()
        # state: (q, guards, tries, facts dict)
        f0 = {}
        if self.entry_facts and self.entry_facts[0] == fn.key and not self.stack:
            f0 = self.entry_facts[1]
        work = [(0, 0, (q, (), (), f0), None)]
        mon = self.m
        while work:
            b, n, st, trail = work.pop()
            if n == 0:
                keep = info.below[b]
                for fr in st[2]:
                    keep = keep | info.below[fn.insts[fr[0]].block]
                st = (st[0], st[1], st[2], self.prune(st[3], keep))
                k = (b, st[0], st[1], st[2], frozenset(st[3].items()))
                if k in seen:
                    continue
                seen.add(k)
                if mon.want_blocks:
                    q2 = mon.block(self.ctx(fn, blk0(fn, b), None, (), st, trail, env), st[0], fn, b)
                    if q2 is None:
                        continue
                    st = (q2,) + st[1:]
                self.steps += 1
                if self.steps > self.max_states:
                    raise Broken('typestate: state limit in ' + fn.key)
            blk = fn.blocks[b]
            alive = True
            while n < len(blk):
                i = blk[n]
                n += 1
                op = i.op
                if op == 'phi':
                    continue
                if op in ('br', 'switch', 'ret', 'unreachable'):
                    break
                if op == 'store':
                    if i.id in info.push:
                        al = info.push[i.id]
                        st = (st[0], st[1] + (al,), st[2], st[3])
                        continue
                    addr = fn.expr(i.o[1])
                    if is_machinery(addr):
                        continue
                    val = fn.expr(i.o[0])
                    c = self.ctx(fn, i, None, (), st, trail, env)
                    q2 = mon.store(c, st[0], addr, val)
                    if q2 is None:
                        alive = False
                        break
                    facts = self.kill(st[3], {mem_class(addr)})
                    if info.below and ('ld', addr) in info.below[b]:
                        cv = self.evalc(val, env, st[3])
                        if cv is not None:
                            facts = dict(facts)
                            facts[('ld', addr)] = ('=', cv)
                    st = (q2, st[1], st[2], facts)
                    continue
                if op == 'load':
                    if mon.want_loads:
                        addr = fn.expr(i.o[0])
                        if not is_machinery(addr):
                            c = self.ctx(fn, i, None, (), st, trail, env)
                            q2 = mon.load(c, st[0], addr)
                            if q2 is None:
                                alive = False
                                break
                            st = (q2, st[1], st[2], st[3])
                    continue
                if op != 'call':
                    continue
                if i.callee[0] == 'f' and i.callee[1].startswith('llvm.'):
                    if i.callee[1].startswith(('llvm.memcpy', 'llvm.memset', 'llvm.memmove')):
                        outs = self.call(fn, info, i, st, env, trail)
                        st = outs[0][1]
                    continue
                # recomputed value: old facts about it are gone
                if st[3]:
                    v = ('v', i.id)
                    if any(mentions(k2, lambda x: x == v) for k2 in st[3]):
                        st = (st[0], st[1], st[2],
                              {k2: f2 for k2, f2 in st[3].items() if not mentions(k2, lambda x: x == v)})
                outs = self.call(fn, info, i, st, env, trail)
                nxt = []
                for kind, s2, rv in outs:
                    if kind == 'T':
                        s2 = (mon.thrown(self.ctx(fn, i, None, (), s2, trail, env), s2[0]),) + s2[1:]
                        h = self.throw(fn, info, i, s2, env, trail)
                        for kk, s3, where in h:
                            if kk == 'X':
                                exits.add(('T', s3, None))
                            else:
                                work.append((where[0], where[1], s3,
                                             (trail, '%s throws at %s' % (self.cname(i), i.where()))))
                    else:
                        if rv is not None and i.t:
                            facts = dict(s2[3])
                            e = fn.iexpr(i.id)
                            facts[e] = rv
                            s2 = (s2[0], s2[1], s2[2], facts)
                        nxt.append(s2)
                if not nxt:
                    alive = False
                    break
                st = nxt[0]
                for s2 in nxt[1:]:
                    if s2 != st:
                        # continue the other outcomes from here
                        work.append((b, n, s2, trail))
            if not alive:
                continue
            if n > len(blk):
                continue
            t = blk[-1]
            if t.op == 'unreachable':
                continue
            if t.op == 'ret':
                rv = None
                if t.o:
                    e = fn.expr(t.o[0])
                    c = self.evalc(e, env, st[3])
                    if c is not None:
                        rv = ('=', c)
                    else:
                        f = st[3].get(strip_casts(e))
                        if f is not None:
                            rv = f
                        elif self.nonnull(e, env):
                            rv = ('!', frozenset({0}))
                        elif e[0] == 'cmp' or e[0] == 'not':
                            rv = None
                if st[1]:
                    # a guard left behind: its scope always ends before
                    raise Broken('guard left in %s' % fn.key)
                q2 = mon.leaves(self.ctx(fn, t, None, (), st, trail, env), key[1], st[0], rv, st[2])
                exits.add(('R', q2, rv))
                continue
            if t.op == 'switch':
                e = fn.expr(t.o[0])
                v = self.evalc(e, env, st[3])
                s = strip_casts(e)
                f = st[3].get(s)
                taken = False
                vals = set()
                for cv, dst in t.cases:
                    vals.add(cv)
                    if v is not None and v != cv:
                        continue
                    if f and f[0] == '!' and cv in f[1]:
                        continue
                    facts = dict(st[3])
                    if e[0] != 'i':
                        facts[s] = ('=', cv)
                    self.go(fn, info, t, b, dst, (st[0], st[1], st[2], facts), env, trail, work)
                    taken = True
                if v is None or v not in vals:
                    facts = dict(st[3])
                    if v is None:
                        old = f[1] if f and f[0] == '!' else frozenset()
                        facts[s] = ('!', old | frozenset(vals))
                    self.go(fn, info, t, b, t.default, (st[0], st[1], st[2], facts), env, trail, work)
                continue
            if not t.o:
                self.go(fn, info, t, b, t.succ[0], st, env, trail, work)
                continue
            e = fn.expr(t.o[0])
            for truth, dst in ((True, t.succ[0]), (False, t.succ[1])):
                facts = self.learn(e, truth, env, st[3], None)
                if facts is None:
                    continue
                q2 = st[0]
                if mon.want_branches:
                    c = self.ctx(fn, t, None, (), st, trail, env)
                    q2 = mon.branch(c, st[0], e, truth)
                    if q2 is None:
                        continue
                self.go(fn, info, t, b, dst, (q2, st[1], st[2], facts), env,
                        (trail, '%s: %s is %s' % (t.where(), show(e, fn), 'true' if truth else 'false')), work)
        return exits

    def go(self, fn, info, t, b, dst, st, env, trail, work):
        """follow an edge: the phis of the destination take their values"""
        blk = fn.blocks[dst]
        facts = st[3]
        if blk and blk[0].op == 'phi':
            new = None
            vals = []
            for i in blk:
                if i.op != 'phi':
                    break
                for o, src in zip(i.o, i.inc):
                    if src == b:
                        e = fn.expr(o)
                        v = self.evalc(e, env, facts)
                        if v is None:
                            f = facts.get(strip_casts(e))
                            if f is None and self.nonnull(e, env):
                                f = ('!', frozenset({0}))
                            vals.append((i.id, f))
                        else:
                            vals.append((i.id, ('=', v)))
                        break
            ids = {x for x, _ in vals}
            new = {k: f for k, f in facts.items()
                   if not mentions(k, lambda x: x[0] == 'v' and x[1] in ids)}
            for id, f in vals:
                if f is not None:
                    new[('v', id)] = f
            facts = new
        work.append((dst, 0, (st[0], st[1], st[2], facts), trail))

    def ctx(self, fn, i, callee, args, st, trail, env):
        c = Ctx()
        c.eng = self
        c.fn = fn
        c.inst = i
        c.callee = callee
        c.args = args
        c.state = st
        c.trail = trail
        c.env = env
        return c

    def triggered(self, buf, facts, v):
        """Exception.triggered of the frame whose jump buffer this is"""
        if buf[0] == 'fld' and buf[2] == 'Exception':
            facts = dict(facts)
            facts[('ld', ('fld', buf[1], 'Exception', 'triggered'))] = ('=', v)
        return facts

    def cname(self, i):
        return i.callee[1] if i.callee[0] == 'f' else 'call'

    def throw(self, fn, info, i, st, env, trail):
        """unwind: [( 'H', state, (block, idx) ) | ( 'X', q, None )]"""
        depth = st[2][-1][1] if st[2] else 0
        out = []
        work = [(st, len(st[1]))]
        states = [st]
        for g in reversed(st[1][depth:]):
            nstates = []
            for s in states:
                for kind, s2, rv in self.run_guard(fn, info, i, g, s, env, trail):
                    if kind == 'R':
                        nstates.append(s2)
            states = nstates
        for s in states:
            if not st[2]:
                out.append(('X', s[0], None))
            else:
                fr = st[2][-1]
                sj = fn.insts[fr[0]]
                facts = {k: f for k, f in s[3].items()
                         if not mentions(k, lambda x: x == ('v', sj.id))}
                # locals which live in memory keep their value, phis do not matter
                facts = self.triggered(fn.expr(sj.o[0]), facts, 1)
                facts[('v', sj.id)] = ('=', 1)
                tries = st[2][:-1] + ((fr[0], fr[1], True),)
                out.append(('H', (s[0], s[1][:depth], tries, facts), (sj.block, sj.idx + 1)))
        return out

    def run_guard(self, fn, info, i, al, st, env, trail):
        g = info.guards.get(al)
        if g is None:
            raise Broken('guard function of %s not found' % fn.key)
        f, a = g
        names = [f[1]] if f[0] == 'f' else sorted(x[1] for x in self.p.points_to(fn, f) if x[0] == 'f')
        r = []
        for nme in names:
            r += self.invoke(fn, info, i, nme, (a,), st, env, trail)
        return r

    def call(self, fn, info, i, st, env, trail):
        """outcomes of a call instruction: [(kind, state, rv)]"""
        c = i.callee
        args = tuple(fn.expr(o) for o in i.o)
        if c[0] == 'f':
            nme = c[1]
            if nme == '_setjmp' or nme == 'setjmp':
                tries = st[2] + ((i.id, len(st[1]), False),)
                return [('R', (st[0], st[1], tries, self.triggered(args[0], st[3], 0)), ('=', 0))]
            if nme == 'exception_mgr_leave':
                if not st[2]:
                    raise Broken('leave() without enter() in ' + fn.key)
                trig = st[2][-1][2]
                return [('R', (st[0], st[1], st[2][:-1], st[3]), ('=', int(trig)))]
            if nme == 'guard_runner':
                al = args[0][1]
                if al not in st[1]:
                    return [('R', st, None)]
                s2 = (st[0], tuple(x for x in st[1] if x != al), st[2], st[3])
                return self.run_guard(fn, info, i, al, s2, env, trail)
            if nme == 'unguard' or nme == 'guard_pop':
                if st[1]:
                    st = (st[0], st[1][:-1], st[2], st[3])
                return [('R', st, None)]
            if nme == THROW:
                return [('T', st, None)]
            return self.invoke(fn, info, i, nme, args, st, env, trail)
        names = None
        if c[0] == 'a' and env and c[1] < len(env) and env[c[1]] is not None and env[c[1]][0] == 'f':
            names = [env[c[1]][1]]
        if names is None and self.fieldconst:
            e = fn.expr(c)
            if e[0] == 'ld' and e[1][0] == 'fld':
                v = self.fieldconst.get(e[1][2:])
                if v is not None and v[0] == 'f':
                    names = [v[1]]
        if names is None:
            names = self.p.targets(i)
        if not names:
            return [('R', st, None)]
        out = []
        for nme in names:
            out += self.invoke(fn, info, i, nme, args, st, env, trail)
        return dedupe(out)

    def invoke(self, fn, info, i, name, args, st, env, trail):
        if name in STOP:
            return []
        ctx = self.ctx(fn, i, name, args, st, trail, env)
        r = self.m.call(ctx, st[0])
        if st[3]:
            gone = {x for a in args for x in walk(a) if x[0] == 'al'} | info.escaped
            facts = {k: f for k, f in st[3].items()
                     if not any(x[0] == 'ld' and mem_class(x[1]) in gone for x in walk(k))}
            st = (st[0], st[1], st[2], facts)
        callee = self.p.functions.get(name)
        if r is not None:
            facts = st[3]
            if callee is not None:
                facts = self.kill(facts, self.mods.get(name, ()))
            return [(kind, (q2, st[1], st[2], facts), rv) for kind, q2, rv in r]
        if callee is None:
            if self.p.declares.get(name, {}).get('noreturn'):
                return []
            return [('R', st, None)]
        facts = self.kill(st[3], self.mods.get(name, ()))
        if name not in self.interesting and name not in self.throwing:
            return [('R', (st[0], st[1], st[2], facts), None)]
        if callee.name in ALLOCATORS and not self.m.alloc_throws:
            return [('R', (st[0], st[1], st[2], facts), None)]
        if name not in self.interesting:
            # cannot change the state; only whether it returns or throws matters
            s2 = (st[0], st[1], st[2], facts)
            out = [('T', s2, None)]
            if not callee.noreturn:
                out.append(('R', s2, None))
            return out
        rel = self.relevant[name]
        cenv = tuple(self.absval(fn, a, env, st[3]) if n in rel else None
                     for n, a in enumerate(args[:len(callee.args)]))
        cenv += (None,) * (len(callee.args) - len(cenv))
        self.stack.append((fn, i, trail))
        ex = self.summary(callee, st[0], cenv)
        self.stack.pop()
        return [(kind, (q2, st[1], st[2], facts), rv) for kind, q2, rv in sorted(ex, key=repr)]


def dedupe(outs):
    r = []
    for o in outs:
        if o not in r:
            r.append(o)
    return r


def blk0(fn, b):
    return fn.blocks[b][0]


def is_machinery(a):
    return a[0] == 'fld' and a[2] in ('Guard', 'Exception', 'ExceptionMgr')


def mem_class(a):
    """class of the memory an address names: a field, a local, a global"""
    if a[0] == 'fld':
        return ('fld', a[2], a[3])
    if a[0] == 'al':
        return ('al', a[1])
    if a[0] == 'g':
        return ('g', a[1])
    if a[0] == 'idx':
        return mem_class(a[1])
    return ('any',)
