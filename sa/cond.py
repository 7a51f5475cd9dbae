"""Reaching conditions: under which conditions does a construct execute?

A forward dataflow over the control-flow graph of a function (helpers it calls
are composed in place) computes for every block the condition under which it is
reached, as a BDD over atomic predicates, and for every value which of its
definitions reaches a use under which condition (gated values).  A rule then
compares the condition of an effect - a call, a store, a throw, a return - with
the condition the property demands.  What counts is the Boolean function, not
how the branches are written.

Atoms are comparisons of normalised expressions: eq(x, y) and lt(x, y), signed
or unsigned.  Comparisons with constants of one expression are related by the
care set.  Loops: a header phi is a symbol for "the value in some iteration";
code behind a loop with one exit is reached whenever the loop is.
"""
import itertools

import ir
from ir import THROW, Broken
from locks import natural_loops
from ts import ALLOCATORS, STOP, mem_class

WIDE = ('zext', 'sext')


# ------------------------------------------------------------------ BDD
class Bdd:
    def __init__(self):
        self.vars = []          # atom per variable
        self.index = {}
        self.node = {}
        self.tab = [(1 << 30, 0, 0), (1 << 30, 1, 1)]
        self.memo = {}

    def mk(self, v, lo, hi):
        if lo == hi:
            return lo
        k = (v, lo, hi)
        n = self.node.get(k)
        if n is None:
            n = len(self.tab)
            self.tab.append(k)
            self.node[k] = n
            if n > 1500000:
                raise Broken('reaching conditions: BDD too large')
        return n

    def var(self, atom):
        v = self.index.get(atom)
        if v is None:
            v = self.index[atom] = len(self.vars)
            self.vars.append(atom)
        return self.mk(v, 0, 1)

    def ite(self, f, g, h):
        if f == 1:
            return g
        if f == 0:
            return h
        if g == h:
            return g
        if g == 1 and h == 0:
            return f
        k = (f, g, h)
        r = self.memo.get(k)
        if r is None:
            t = self.tab
            v = min(t[f][0], t[g][0], t[h][0])

            def co(n, b):
                return (t[n][2] if b else t[n][1]) if t[n][0] == v else n
            r = self.mk(v, self.ite(co(f, 0), co(g, 0), co(h, 0)), self.ite(co(f, 1), co(g, 1), co(h, 1)))
            self.memo[k] = r
        return r

    def not_(self, f):
        return self.ite(f, 0, 1)

    def and_(self, *fs):
        r = 1
        for f in fs:
            r = self.ite(r, f, 0)
        return r

    def or_(self, *fs):
        r = 0
        for f in fs:
            r = self.ite(r, 1, f)
        return r

    def exists(self, f, vs):
        """quantify variables (indices) out"""
        memo = {}

        def go(n):
            if n < 2:
                return n
            r = memo.get(n)
            if r is None:
                v, lo, hi = self.tab[n]
                a, b = go(lo), go(hi)
                r = memo[n] = self.or_(a, b) if v in vs else self.mk_any(v, a, b)
            return r
        return go(f)

    def mk_any(self, v, lo, hi):
        return self.ite(self.mk(v, 0, 1), hi, lo)

    def support(self, f):
        seen, out = set(), set()
        work = [f]
        while work:
            n = work.pop()
            if n < 2 or n in seen:
                continue
            seen.add(n)
            out.add(self.tab[n][0])
            work += self.tab[n][1:]
        return out

    def paths(self, f, limit=8):
        """some cubes of f: [{var: bool}]"""
        out = []

        def go(n, c):
            if len(out) >= limit or n == 0:
                return
            if n == 1:
                out.append(dict(c))
                return
            v, lo, hi = self.tab[n]
            for b, m in ((False, lo), (True, hi)):
                c[v] = b
                go(m, c)
                del c[v]
        go(f, {})
        return out


class Event:
    __slots__ = ('kind', 'name', 'args', 'cond', 'order', 'inst', 'loops', 'frame', 'targets', 'value', 'chain',
                 'guard', 'seq')

    def where(self):
        return self.inst.where()

    def __repr__(self):
        return '<%s %s>' % (self.kind, self.name)


def gates(v):
    return v[1] if v[0] == 'gate' else ((1, v),)


class View:
    """The effects of one function, with what it calls composed in place.

    interest: callees (names) that are effects and are not looked into
    stores:   fields (struct, field) whose stores are effects ('*': all)
    expand:   functions to look into although they reach nothing of interest
    opaque:   functions never looked into"""

    def __init__(self, prog, fn, interest=(), stores=(), expand=(), opaque=(), throws=False, args=None,
                 depth=8, facts=(), outs=()):
        self.p = prog
        self.fn = prog.fn(fn) if isinstance(fn, str) else fn
        self.b = Bdd()
        self.interest = set(interest)
        self.outs = set(outs)   # arguments through which results are stored, ('at', n): what *argument points to,
                                # ('elem', struct, field): what the field points to
        self.interest |= {f.key for n in self.interest for f in prog.byname.get(n, ())}
        self.stores = set(stores)
        self.expand_ = set(expand)
        self.opaque = {f.key for n in opaque for f in prog.byname.get(n, ())} | ALLOCATORS | {'mn_free'}
        self.depth = depth
        self.throws = throws
        self.events = []
        self.n = 0
        self.frames = 0
        self.functions = set()
        self.atoms = {}
        self.families = {}
        self.frameobj = {}
        self.loops = {}
        self.mem_end = {}
        self.tries = []
        self.alltries = []
        self.epoch = 0
        roots = set(self.interest)
        if self.stores:
            for f in prog.functions.values():
                for i in f.all('store'):
                    a = f.expr(i.o[1])
                    while a[0] == 'idx':
                        a = a[1]
                    if a[0] == 'fld' and ('*' in self.stores or a[2:] in self.stores):
                        roots.add(f.key)
        self.reaching = prog.reaching(sorted(roots)) if roots else set()
        if throws:
            self.reaching = self.reaching | throwers(prog)
        self.mem = {}
        self.loopstack = ()
        self.framechain = ()
        if args is None:
            args = [('a', n) for n in range(len(self.fn.args))]
        self.ret, self.normal = self.run(self.fn, list(args), 1, 0, ())

    # ---- events
    def emit(self, kind, name, args, cond, inst, frame, targets=(), value=None):
        if cond == 0:
            return None
        e = Event()
        e.kind, e.name, e.args, e.cond, e.inst, e.frame = kind, name, tuple(args), cond, inst, frame
        e.order = len(self.events)
        e.loops = self.loopstack
        e.targets = targets
        e.value = value
        e.seq = self.n          # memory versions up to here were made before
        e.chain = self.framechain
        e.guard = dict(self.mem)
        self.events.append(e)
        return e

    # ---- the dataflow
    def run(self, fn, args, cond0, depth, stack):
        self.frames += 1
        frame = self.frames
        self.functions.add(fn.key)
        if self.frames > 4000:
            raise Broken('reaching conditions: %s is too large' % self.fn.key)
        F = Frame(self, fn, args, frame)
        self.frameobj[frame] = F
        loops = natural_loops(fn)
        order = rpo(fn)
        pos = {b: n for n, b in enumerate(order)}
        exits = {}
        for h, body in loops:
            ex = [(s, d) for s in body for d in (fn.blocks[s][-1].succ or []) if d not in body
                  and not dead_end(fn, d)]
            exits[h] = ex
        rc = {}
        edge = {}
        mems = {}
        caught = {}
        ntries = len(self.tries)
        rets = []
        inloops = {b: tuple(h for h, body in loops if b in body) for b in range(len(fn.blocks))}
        preds = fn.preds()
        save_loops = self.loopstack
        normal = 0
        retmems = []
        for b in order:
            if b == 0:
                rc[b] = cond0
                mem = dict(self.mem)
            else:
                es = [(p, edge.get((p, b), 0)) for p in dict.fromkeys(preds[b])
                      if p in pos and (p, b) in edge]
                if b in caught:
                    p, t = caught[b]
                    t['caught'] = self.b.or_(t['caught'], self.b.and_(rc[p], t['fresh']))
                    es = [(q, c) for q, c in es if q != p] + [(p, self.b.or_(edge[(p, b)], t['caught']))]
                es = [(p, c) for p, c in es if c != 0]
                rc[b] = self.b.or_(*[c for _, c in es])
                mem = self.merge([(c, mems[p]) for p, c in es])
            back = [body for h, body in loops if h == b]
            if back:
                mem = self.loop_kill(fn, back[0], mem, F)
            self.mem = mem
            if rc[b] == 0:
                continue
            self.loopstack = save_loops + tuple((frame, h) for h in inloops[b])
            c = rc[b]
            F.block(b, edge, bool(back))
            ended = False
            for i in fn.blocks[b]:
                op = i.op
                if op in ('phi', 'alloca'):
                    continue
                if op == 'store':
                    F.store(i, c)
                elif op == 'load':
                    F.load(i)
                elif op == 'atomicrmw':
                    F.rmw(i, c)
                elif op == 'call':
                    c = F.call(i, c, depth, stack)
                    if c == 0:
                        ended = True
                        break
                elif op in ('br', 'switch', 'ret', 'unreachable'):
                    break
            mems[b] = self.mem
            if back:
                self.loops[(frame, b)] = (fn, back[0], edge, rc)
            self.mem_end[(frame, b)] = self.mem
            t = fn.blocks[b][-1]
            if ended or t.op == 'unreachable':
                continue
            if b in F.catch and t.op == 'br' and t.o:
                # setjmp: the protected block, and where a throw continues
                k = self.bool(F.val(t.o[0]))
                s0, s1 = t.succ if k == 1 else t.succ[::-1]
                edge[(b, s0)] = self.b.or_(edge.get((b, s0), 0), c)
                caught[s1] = (b, F.catch[b])
                edge[(b, s1)] = 0
                continue
            if t.op == 'ret':
                v = F.val(t.o[0]) if t.o else None
                rets.append((c, v))
                retmems.append((c, self.mem))
                normal = self.b.or_(normal, c)
                if depth == 0:
                    self.emit('ret', 'ret', [v] if v is not None else [], c, t, frame)
                continue

            def put(dst, cc):
                for h, body in loops:
                    if b in body and dst not in body and not dead_end(fn, dst):
                        if len(exits[h]) == 1:
                            cc = rc[h]
                if dead_end(fn, dst) and assert_block(fn, dst):
                    return
                edge[(b, dst)] = self.b.or_(edge.get((b, dst), 0), cc)
            if t.op == 'switch':
                v = F.val(t.o[0])
                rest = c
                for cv, dst in t.cases:
                    k = self.cmp('eq', v, ('i', cv))
                    put(dst, self.b.and_(c, k))
                    rest = self.b.and_(rest, self.b.not_(k))
                put(t.default, rest)
            elif t.o:
                # an assertion does not split the paths
                s0, s1 = t.succ
                if assert_block(fn, s0):
                    put(s1, c)
                elif assert_block(fn, s1):
                    put(s0, c)
                else:
                    k = self.bool(F.val(t.o[0]))
                    put(s0, self.b.and_(c, k))
                    put(s1, self.b.and_(c, self.b.not_(k)))
            else:
                put(t.succ[0], c)
        self.loopstack = save_loops
        del self.tries[ntries:]
        if retmems:
            self.mem = self.merge(retmems)
        rets = [(c, v) for c, v in rets if c != 0]
        if not rets or rets[0][1] is None:
            return None, normal
        return self.gate(rets), normal

    def merge(self, ms):
        if not ms:
            return {}
        if len(ms) == 1:
            return dict(ms[0][1])
        out = {}
        keys = set()
        vers = set()
        for _, m in ms:
            keys |= set(m)
            vers |= {k for k in m if k[0] in ('ver', 'esc')}
        for k in vers:
            vs = {m.get(k, 0) for _, m in ms}
            out[k] = vs.pop() if len(vs) == 1 else 1 if k[0] == 'esc' else self.fresh()
        for k in keys - vers:
            ws = [m[k] if k in m else ('ld', k) + self.version(k, m) for _, m in ms]
            vs = set(ws)
            if len(vs) == 1:
                out[k] = vs.pop()
            else:
                g = self.gate([(c, w) for (c, m), w in zip(ms, ws)])
                if g != ('opaque',):
                    out[k] = g
        return out

    def gate(self, cvs):
        """one value out of alternatives"""
        acc = {}
        for c, v in cvs:
            for c2, e in gates(v):
                acc[e] = self.b.or_(acc.get(e, 0), self.b.and_(c, c2))
        acc = {e: c for e, c in acc.items() if c != 0}
        if len(acc) == 1:
            return next(iter(acc))
        if len(acc) > 24 or not acc:
            return ('opaque',)
        return ('gate', tuple((c, e) for e, c in acc.items()))

    def fresh(self):
        self.n += 1
        return self.n

    def loop_kill(self, fn, body, mem, F):
        """what a loop body may change is not known at its header"""
        classes, roots = set(), set()
        for b in body:
            for i in fn.blocks[b]:
                if i.op in ('store', 'atomicrmw', 'cmpxchg'):
                    a = fn.expr(i.o[1] if i.op == 'store' else i.o[0])
                    if is_guard(a):
                        continue
                    r = root(a)
                    if r[0] == 'al':
                        roots.add(('al', r[1], F.frame))
                    else:
                        classes.add(mc(a))
                elif i.op == 'call':
                    for t in self.p.targets(i):
                        classes |= mods(self.p).get(t, set())
                    for o in i.o:
                        for x in ir.walk(fn.expr(o)):
                            if x[0] == 'al':
                                roots.add(('al', x[1], F.frame))
        return self.kill(mem, classes, roots)

    def kill(self, mem, classes, roots, esc=True):
        """forget what may have changed: memory classes, and locals"""
        out = {}
        anyc = ('any',) in classes
        for a, v in mem.items():
            if a[0] in ('ver', 'esc'):
                out[a] = v
                continue
            r = root(a)
            if r in roots:
                continue
            if r[0] == 'al' and ('esc',) + r not in mem:
                out[a] = v
                continue
            if mc(a) in classes or (anyc and r[0] != 'al'):
                continue
            out[a] = v
        for c in classes:
            out[('ver',) + c] = self.fresh()
        for r in roots:
            out[('ver',) + r] = self.fresh()
        return out

    def version(self, a, mem=None):
        mem = self.mem if mem is None else mem
        r = root(a)
        if r[0] == 'al':
            k = (mem.get(('ver',) + r, 0),)
            if ('esc',) + r in mem:
                k += (mem.get(('ver',) + mc(a), 0),)
        else:
            k = (mem.get(('ver',) + mc(a), 0), mem.get(('ver', 'any'), 0))
        return (k,) if any(k) else ()

    # ---- conditions
    def bool(self, v):
        out = 0
        for c, e in gates(v):
            out = self.b.or_(out, self.b.and_(c, self.bool1(e)))
        return out

    def bool1(self, e):
        k = e[0]
        if k == 'i':
            return int(e[1] != 0)
        if k == 'bdd':
            return e[1]
        if k == 'b2i':
            return self.bool1(e[1])
        return self.b.not_(self.cmp('eq', e, ('i', 0)))

    def cmp(self, p, a, b):
        out = 0
        for c1, x in gates(a):
            for c2, y in gates(b):
                c = self.b.and_(c1, c2)
                if c:
                    out = self.b.or_(out, self.b.and_(c, self.cmp1(p, x, y)))
        return out

    def cmp1(self, p, x, y):
        if x[0] == 'i' and y[0] == 'i':
            from ts import fold_cmp
            return int(fold_cmp(p, x[1], y[1]))
        if x[0] == 'i':
            x, y = y, x
            p = {'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'ult': 'ugt',
                 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}.get(p, p)
        if widen(x)[0] in ('bdd', 'b2i') and widen(y)[0] == 'i':
            x, y = widen(x), widen(y)
            if p not in ('eq', 'ne'):
                from ts import fold_cmp
                t = self.bool1(x)
                return self.b.or_(self.b.and_(t, int(fold_cmp(p, 1, y[1]))),
                                  self.b.and_(self.b.not_(t), int(fold_cmp(p, 0, y[1]))))
        if x[0] == 'bdd' or (x[0] == 'b2i'):
            t = self.bool1(x)
            if y[0] == 'i' and p in ('eq', 'ne'):
                if y[1] not in (0, 1, -1):
                    return int(p == 'ne')
                return t if (y[1] != 0) == (p == 'eq') else self.b.not_(t)
        if x == y:
            return int(p in ('eq', 'sle', 'sge', 'ule', 'uge'))
        x, y = widen(x), widen(y)
        if x[0] == 'i' and y[0] == 'i':
            return self.cmp1(p, x, y)
        if y == ('i', 0) and nonnull(x) and p in ('eq', 'ne'):
            return int(p == 'ne')
        if p in ('eq', 'ne') and 'al' in (x[0], y[0]) and {x[0], y[0]} <= {'al', 'a'}:
            return int(p == 'ne')   # a local, and another one or an argument
        if p in ('eq', 'ne') and x[0] == y[0] == 'fld' and x[1:3] == y[1:3] and x[3] and y[3] and x[3] != y[3]:
            return int(p == 'ne')   # two fields of one object
        if p == 'eq':
            return self.eq(x, y)
        if p == 'ne':
            return self.b.not_(self.eq(x, y))
        s = p[0]
        if p[1:] == 'ge':
            return self.b.not_(self.lt(s, x, y))
        if p[1:] == 'lt':
            return self.lt(s, x, y)
        if p[1:] == 'gt':
            return self.b.not_(self.le(s, x, y))
        return self.le(s, x, y)

    def le(self, s, x, y):
        if y[0] == 'i':
            if s == 'u' and y[1] == -1:
                return 1
            return self.lt(s, x, ('i', y[1] + 1))
        return self.b.or_(self.lt(s, x, y), self.eq(x, y))

    def eq(self, x, y):
        if y[0] != 'i' and repr(y) < repr(x):
            x, y = y, x
        if y[0] == 'i':
            self.families.setdefault(x, set()).add(('e', y[1]))
        else:
            self.families.setdefault((x, y), set()).add('e')
        return self.b.var(('eq', x, y))

    def lt(self, s, x, y):
        if y[0] == 'i':
            if s == 's' and y[1] in (0, 1) and x[0] == 'bin' and x[1] == 'and' and x[3][0] == 'i' and x[3][1] > 0:
                s = 'u'
            if s == 'u' and y[1] == 0:
                return 0
            if s == 'u' and y[1] == 1:
                return self.eq(x, ('i', 0))
            if s == 'u' and y[1] == -1:
                return self.b.not_(self.eq(x, y))
            self.families.setdefault(x, set()).add((s, y[1]))
            return self.b.var(('lt', s, x, y))
        if repr(y) < repr(x):
            # x < y  <=>  not (y <= x)
            return self.b.and_(self.b.not_(self.lt(s, y, x)), self.b.not_(self.eq(x, y)))
        self.families.setdefault((x, y), set()).add(s)
        self.families[(x, y)].add('e')
        return self.b.var(('lt', s, x, y))

    def care(self):
        """which assignments of the atoms are possible"""
        b = self.b
        out = 1
        for k, fam in list(self.families.items()):
            if 'e' in fam:
                x, y = k
                e = self.eq(x, y)
                for s in fam - {'e'}:
                    out = b.and_(out, b.not_(b.and_(e, self.lt(s, x, y))))
                continue
            pts = sorted({c for _, c in fam})
            for s in ('s', 'u'):
                cuts = sorted({c for t, c in fam if t == s}, key=(lambda c: c & (2**64 - 1)) if s == 'u' else None)
                eqs = {c for t, c in fam if t == 'e'}
                # monotone: x < c1 => x < c2
                for c1, c2 in zip(cuts, cuts[1:]):
                    out = b.and_(out, b.or_(b.not_(self.lt(s, k, ('i', c1))), self.lt(s, k, ('i', c2))))
                for c in eqs:
                    e = self.eq(k, ('i', c))
                    for cut in cuts:
                        less = (c < cut) if s == 's' else (c & (2**64 - 1)) < (cut & (2**64 - 1))
                        l = self.lt(s, k, ('i', cut))
                        out = b.and_(out, b.or_(b.not_(e), l if less else b.not_(l)))
                    # c <= x < c + 1
                for c1, c2 in zip(cuts, cuts[1:]):
                    if c2 == c1 + 1 and c1 in eqs:
                        between = b.and_(b.not_(self.lt(s, k, ('i', c1))), self.lt(s, k, ('i', c2)))
                        out = b.and_(out, b.or_(b.not_(between), self.eq(k, ('i', c1))))
            eqs = sorted({c for t, c in fam if t == 'e'})
            for c1, c2 in itertools.combinations(eqs, 2):
                out = b.and_(out, b.not_(b.and_(self.eq(k, ('i', c1)), self.eq(k, ('i', c2)))))
        # order is transitive
        pairs = {}
        for a in list(b.vars):
            if a[0] == 'lt' and a[2][0] != 'i' and a[3][0] != 'i':
                pairs.setdefault(a[1], set()).add(frozenset(a[2:]))
        for s, ps in pairs.items():
            near = {}
            for p in ps:
                if len(p) == 2:
                    x, y = p
                    near.setdefault(x, set()).add(y)
                    near.setdefault(y, set()).add(x)
            for x in near:
                for y in near[x]:
                    for z in near[x] & near[y]:
                        le = lambda p, q: b.not_(self.lt(s, q, p))
                        bad = b.and_(le(x, y), le(y, z), self.lt(s, z, x))
                        out = b.and_(out, b.not_(bad))
        return out

    def implies(self, f, g):
        b = self.b
        bad = b.and_(f, b.not_(g))
        if bad == 0:
            return True
        return b.and_(bad, self.care()) == 0

    def equal(self, f, g):
        return self.implies(f, g) and self.implies(g, f)

    def possible(self, f):
        return self.b.and_(f, self.care()) != 0

    # ---- for rules
    def calls(self, *names):
        return [e for e in self.events if e.kind == 'call'
                and any(isinstance(t, str) and t.split('@')[0] in names for t in (e.name,) + tuple(e.targets))]

    def stores_of(self, S, f):
        return [e for e in self.events if e.kind == 'store' and e.name == (S, f)]

    def rets(self):
        return [e for e in self.events if e.kind == 'ret']

    def any(self, evs):
        return self.b.or_(*[e.cond for e in evs])

    def atom(self, pred):
        """disjunction of nothing: variables whose atom satisfies pred"""
        return [n for n, a in enumerate(self.b.vars) if pred(a)]

    def phi(self, e):
        """a header phi: (values it enters the loop with, values of the next iteration)"""
        F = self.frameobj[e[2]]
        i = F.fn.insts[e[1]]
        body = dict(natural_loops(F.fn))[i.block]
        init, step = [], []
        for o, src in zip(i.o, i.inc):
            try:
                v = F.val(o)
            except RecursionError:
                v = ('opaque',)
            (step if src in body else init).extend(x for _, x in gates(v))
        return list(dict.fromkeys(init)), list(dict.fromkeys(step))

    def phi_steps(self, e, first=False):
        """(condition, value) of a header phi in the next iteration (or when the loop begins)"""
        F = self.frameobj[e[2]]
        i = F.fn.insts[e[1]]
        fn, body, edge, rc = self.loops[(e[2], i.block)]
        out = []
        for o, src in zip(i.o, i.inc):
            if (src not in body) != first:
                continue
            c0 = edge.get((src, i.block), 0)
            for c, x in gates(F.val(o)):
                c = self.b.and_(c0, c)
                if self.possible(c):
                    out.append((c, x))
        return out

    def body(self, key):
        """condition under which the loop does (another) iteration"""
        fn, body, edge, rc = self.loops[key]
        h = key[1]
        # blocks of the loop condition: up to the first effect
        region, work = set(), [h]
        while work:
            x = work.pop()
            if x in region or x not in body:
                continue
            if any(i.op in ('call', 'store', 'invoke', 'atomicrmw', 'cmpxchg') and not pure_call(i) for i in fn.blocks[x]):
                if x == h:
                    region.add(x)
                continue
            region.add(x)
            work += [y for y in fn.blocks[x][-1].succ or []]
        return self.b.or_(*[edge.get((x, y), 0) for x in region for y in dict.fromkeys(fn.blocks[x][-1].succ or [])
                            if y == h or (y in body and y not in region)])

    def single_exit(self, key):
        """is the loop left in one place only (code behind it is reached whenever it is)"""
        fn, body, edge, rc = self.loops[key]
        out = [b for b in body for y in fn.blocks[b][-1].succ or [] if y not in body and not dead_end(fn, y)]
        return len(out) == 1

    def latch(self, key, addr):
        """(condition, value) of the memory at the address when the loop repeats"""
        fn, body, edge, rc = self.loops[key]
        out = []
        for src in fn.preds()[key[1]]:
            m = self.mem_end.get((key[0], src))
            if src in body and m is not None and self.possible(edge.get((src, key[1]), 0)):
                out.append((edge[(src, key[1])], m.get(addr, ('ld', addr) + self.version(addr, m))))
        return out

    def entry(self, key):
        """condition under which the loop is reached"""
        fn, body, edge, rc = self.loops[key]
        return rc[key[1]]

    def loaded_before(self, v, e):
        """is v the value its memory has when the event happens (nothing changed it in between)"""
        if v[0] != 'ld':
            return False
        save, self.mem = self.mem, e.guard
        try:
            return self.mem.get(v[1], ('ld', v[1]) + self.version(v[1])) == v
        finally:
            self.mem = save

    def failed(self, frame=1):
        """something in a protected block of the function threw"""
        return self.b.or_(*[t['caught'] for t in self.alltries if t['frame'] == frame])

    def where_atom(self, pred, truth=True):
        """condition 'some atom satisfying pred is (un)true'"""
        r = 0
        for n in self.atom(pred):
            v = self.b.mk(n, 0, 1)
            r = self.b.or_(r, v if truth else self.b.not_(v))
        return r

    def forget(self, f, pred):
        """f with the atoms satisfying pred quantified out"""
        vs = {n for n in self.b.support(f) if pred(self.b.vars[n])}
        return self.b.exists(f, vs) if vs else f

    def show(self, f, limit=4):
        if f == 0:
            return 'never'
        if f == 1:
            return 'always'
        out = []
        for c in self.b.paths(f, limit):
            out.append(' and '.join(('' if t else 'not ') + self.show_atom(self.b.vars[v]) for v, t in sorted(c.items())))
        return ' or '.join('(%s)' % o for o in out) + (' ...' if len(out) == limit else '')

    def show_atom(self, a):
        if a[0] == 'eq':
            return '%s == %s' % (show(a[1], self), show(a[2], self))
        return '%s < %s' % (show(a[2], self), show(a[3], self))


def pure_call(i):
    return i.op == 'call' and i.callee and i.callee[0] == 'f' and i.callee[1].startswith(('llvm.expect', 'llvm.dbg'))


def apart(x, y):
    """two elements of one array"""
    bx, ix = (x[1], x[2]) if x[0] == 'idx' else (x, ('i', 0))
    by, iy = (y[1], y[2]) if y[0] == 'idx' else (y, ('i', 0))
    return bx == by and ix[0] == 'i' and iy[0] == 'i' and ix != iy


def nonnull(e):
    if e[0] == 'ld' and e[1][0] == 'fld' and e[1][2:4] in (('List', 'next'), ('List', 'prev')):
        return True     # lists are circular
    if e[0] == 'call':
        return never_null(e[1])
    return e[0] in ('al', 'f', 'g', 's', 'fld', 'idx')


NEVER = {}


def never_null(name):
    """a function which fails instead of returning null: it passes on the result of another
    such function, or reads or writes through its result before it returns"""
    prog = ir.program()
    key = id(prog), name
    if key not in NEVER:
        NEVER[key] = name in ('mn_malloc', 'mn_realloc')
        f = prog.functions.get(name)
        if f is not None and not NEVER[key]:
            rets = [b for b in f.blocks if b and b[-1].op == 'ret']
            if len(rets) == 1 and rets[0][-1].o:
                r = f.expr(rets[0][-1].o[0])
                if r[0] == 'v':
                    d = f.insts.get(r[1])
                    if d is not None and d.op == 'call' and d.callee and d.callee[0] == 'f':
                        NEVER[key] = never_null(d.callee[1])
                    for i in rets[0] + f.blocks[0]:
                        a = None
                        if i.op == 'store':
                            a = f.expr(i.o[1])
                        elif i.op == 'load':
                            a = f.expr(i.o[0])
                        while a is not None and a[0] in ('fld', 'idx'):
                            a = a[1]
                        if a == r:
                            NEVER[key] = True
    return NEVER[key]


def narrow_signed(e):
    """a byte or short whose top bit became a sign"""
    while e[0] == 'cast' and e[1] in WIDE:
        if e[1] == 'sext' and e[2] in ('i8', 'i16'):
            return True
        e = e[4]
    return False


def widen(e):
    while e[0] == 'cast' and e[1] in WIDE:
        e = e[4]
    return e


def show(e, view=None):
    k = e[0]
    if k == 'i':
        return str(e[1])
    if k == 's':
        return repr(e[1])
    if k in ('f', 'g'):
        return e[1]
    if k == 'a':
        fn = view.fn if view else None
        return fn.args[e[1]][0] if fn and e[1] < len(fn.args) and fn.args[e[1]][0] else 'arg%d' % e[1]
    if k == 'al':
        return 'local%d' % e[1]
    if k == 'phi':
        return 'loopvar%d' % e[1]
    if k == 'call':
        return '%s(%s)' % (e[1], ', '.join(show(x, view) for x in e[2]))
    if k == 'v':
        return 'v%d' % e[1]
    if k == 'fld':
        return '%s.%s' % (show(e[1], view), e[3])
    if k == 'idx':
        return '%s[%s]' % (show(e[1], view), show(e[2], view))
    if k == 'ld':
        return show(e[1], view) if e[1][0] in ('fld', 'idx', 'g') else '*' + show(e[1], view)
    if k == 'bin':
        return '(%s %s %s)' % (show(e[2], view), e[1], show(e[3], view))
    if k == 'cast':
        return ('' if e[1] in WIDE else '(%s)' % e[3]) + show(e[-1], view)
    if k == 'b2i':
        return show(e[1], view)
    if k == 'gate':
        return '{%s}' % ' | '.join(show(x, view) for _, x in e[1])
    if k == 'bdd':
        return 'bool'
    return str(e)


_mods = {}


def mods(prog):
    """memory classes stored to by a function or by what it calls"""
    m = _mods.get(id(prog))
    if m is None:
        own = {f.key: {mem_class(f.expr(i.o[1])) for i in f.all('store')} for f in prog.functions.values()}
        own = {k: {c for c in v if c[0] != 'al'} for k, v in own.items()}
        calls = {f.key: {c for i in f.calls() for c in prog.targets(i) if c in prog.functions and c != THROW}
                 for f in prog.functions.values()}
        changed = True
        while changed:
            changed = False
            for k, cs in calls.items():
                n = len(own[k])
                for c in cs:
                    own[k] |= own[c]
                changed |= len(own[k]) != n
        m = _mods[id(prog)] = own
    return m


_thr = {}


def throwers(prog):
    """functions that throw, not counting allocation failure"""
    s = _thr.get(id(prog))
    if s is None:
        s = set()
        work = [THROW]
        while work:
            k = work.pop()
            if k in s:
                continue
            s.add(k)
            for i in prog.callers.get(k, ()):
                if i.fn.name in ALLOCATORS:
                    continue
                work.append(i.fn.key)
        _thr[id(prog)] = s
    return s


def rpo(fn):
    if hasattr(fn, '_rpo'):
        return fn._rpo
    # back edges (to a dominating block) do not count, so this is topological
    loops = natural_loops(fn)
    back = set()
    from locks import dominators
    dom = dominators(fn)
    for b in range(len(fn.blocks)):
        for s in (fn.blocks[b][-1].succ or []):
            if s in dom[b]:
                back.add((b, s))
    seen, out = set(), []

    def succ(b):
        # what leaves a loop is visited first, so it is ordered last
        ss = list(fn.blocks[b][-1].succ or [])
        return iter(sorted(ss, key=lambda s: -sum(1 for h, body in loops if b in body and s not in body)))

    def visit(b):
        st = [(b, succ(b))]
        seen.add(b)
        while st:
            x, it = st[-1]
            for s in it:
                if s not in seen and (x, s) not in back:
                    seen.add(s)
                    st.append((s, succ(s)))
                    break
            else:
                out.append(x)
                st.pop()
    visit(0)
    # loop bodies before what follows the loop
    fn._rpo = out[::-1]
    return fn._rpo


def dead_end(fn, b):
    """a block which throws or stops"""
    return fn.blocks[b][-1].op == 'unreachable'


def assert_block(fn, b):
    if fn.blocks[b][-1].op != 'unreachable':
        return False
    return any(i.op == 'call' and i.callee[0] == 'f' and i.callee[1] in STOP for i in fn.blocks[b])


class Frame:
    def __init__(self, view, fn, args, frame):
        self.v = view
        self.fn = fn
        self.args = args
        self.frame = frame
        self.vals = {}
        self.guards = {}
        self.catch = {}

    # ---- values: like Function.expr, with arguments, memory and gates resolved
    def val(self, o):
        k = o[0]
        if k == 'v':
            r = self.vals.get(o[1])
            if r is None:
                r = self.vals[o[1]] = self.make(self.fn.insts[o[1]])
            return r
        if k == 'a':
            return self.args[o[1]] if o[1] < len(self.args) else ('undef',)
        if k == 'i':
            return ('i', o[1])
        if k == 'null':
            return ('i', 0)
        if k in ('f', 'g', 's'):
            return (k, o[1])
        if k == 'ce':
            d = o[1]
            if d['op'] == 'getelementptr':
                return self.gep(self.val(d['ops'][0]), d['path'])
            return ('ce', d['op'])
        return (k,)

    def lift(self, f, *vs):
        """apply f to every combination of gated operands"""
        if all(v[0] != 'gate' for v in vs):
            return f(*vs)
        out = []
        n = 0
        for combo in itertools.product(*[gates(v) for v in vs]):
            c = self.v.b.and_(*[x[0] for x in combo])
            if c:
                out.append((c, f(*[x[1] for x in combo])))
                n += 1
                if n > 64:
                    return ('opaque',)
        return self.v.gate(out)

    def gep(self, base, path):
        def step(b, e, ix):
            if not narrow_signed(ix):
                ix = widen(ix)
            if e[0] in ('e', 'x') and ix == ('i', 0):
                return b
            if e[0] == 'e' and ix[0] == 'i' and ix[1] < 0 and len(e) > 3 and e[3] == 1 \
                    and b[0] == 'fld' and self.v.p.field_off(b[2], b[3]) == -ix[1]:
                return b[1]
            if e[0] == 'e' and b[0] == 'idx' and b[2][0] == 'i' and ix[0] == 'i' \
                    and len(e) > 3 and len(b) > 3 and b[3] == e[3]:
                s = b[2][1] + ix[1]
                return b[1] if s == 0 else ('idx', b[1], ('i', s), b[3])
            return ('idx', b, ix, e[3]) if e[0] == 'e' and len(e) > 3 else ('idx', b, ix)
        b = base
        for e in path:
            if e[0] == 'f':
                b = self.lift(lambda x: ('fld', x, e[1], self.v.p.field_name(e[1], e[3], e[2])), b)
            else:
                b = self.lift(lambda x, ix: step(x, e, ix), b, self.val(e[1]))
        return b

    def addr(self, o):
        a = self.val(o)
        return a if a[0] != 'gate' else None

    def make(self, i):
        op = i.op
        V = self.v
        if op == 'alloca':
            return ('al', i.id, self.frame)
        if op == 'getelementptr':
            return self.gep(self.val(i.o[0]), i.path)
        if op in ('zext', 'sext', 'trunc'):
            def f(e):
                if e[0] == 'i':
                    return e if op != 'zext' or e[1] >= 0 else ('i', e[1] & ((1 << int(i.frm[1:])) - 1))
                if i.frm == 'i1':
                    return ('b2i', e) if e[0] == 'bdd' else ('b2i', e)
                if e[0] == 'b2i':
                    return e[1] if i.t == 'i1' else e
                if op == 'trunc' and i.t == 'i1':
                    return ('bdd', V.bool1(widen(e)))
                if op == 'trunc' and e[0] == 'cast' and e[1] in WIDE and e[2] == i.t:
                    return e[4]
                return ('cast', op, i.frm, i.t, e)
            return self.lift(f, self.val(i.o[0]))
        if op in ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast', 'freeze'):
            return self.val(i.o[0])
        if op == 'icmp':
            return mkbdd(V.cmp(i.pred, self.val(i.o[0]), self.val(i.o[1])))
        if op in ('and', 'or', 'xor') and i.t == 'i1':
            a, b = V.bool(self.val(i.o[0])), V.bool(self.val(i.o[1]))
            B = V.b
            r = B.and_(a, b) if op == 'and' else B.or_(a, b) if op == 'or' else B.ite(a, B.not_(b), b)
            return mkbdd(r)
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            def f(a, b):
                return arith(op, a, b)

            def num(x):
                # a truth value used as a number
                if op not in ('add', 'sub', 'mul') or not any(y[0] == 'b2i' for _, y in gates(x)):
                    return x
                out = []
                for c, y in gates(x):
                    if y[0] == 'b2i':
                        t = V.bool1(y)
                        out += [(V.b.and_(c, t), ('i', 1)), (V.b.and_(c, V.b.not_(t)), ('i', 0))]
                    else:
                        out.append((c, y))
                return V.gate([(c, y) for c, y in out if c])
            return self.lift(f, num(self.val(i.o[0])), num(self.val(i.o[1])))
        if op == 'select':
            c = V.bool(self.val(i.o[0]))
            a, b = self.val(i.o[1]), self.val(i.o[2])
            if i.t == 'i1':
                return mkbdd(V.b.ite(c, V.bool(a), V.bool(b)))
            return V.gate([(c, a), (V.b.not_(c), b)])
        return ('v', i.id, self.frame)

    def block(self, b, edge, header):
        blk = self.fn.blocks[b]
        if header:
            # values of another iteration are not reused
            pass
        vals = []
        for i in blk:
            if i.op != 'phi':
                break
            if header:
                vals.append((i.id, ('phi', i.id, self.frame)))
                continue
            cvs = []
            for o, src in zip(i.o, i.inc):
                c = edge.get((src, b), 0)
                if c:
                    cvs.append((c, self.val(o)))
            if i.t == 'i1':
                r = 0
                for c, v in cvs:
                    r = self.v.b.or_(r, self.v.b.and_(c, self.v.bool(v)))
                vals.append((i.id, mkbdd(r)))
            else:
                vals.append((i.id, self.v.gate(cvs) if cvs else ('undef',)))
        for k, v in vals:
            self.vals[k] = v

    # ---- memory
    def load(self, i):
        a = self.val(i.o[0])

        def f(x):
            if x[0] == 'fld' and x[2:4] == ('Exception', 'triggered') and x[1][0] == 'al':
                # something in the protected block threw
                t = next((t for t in reversed(self.v.alltries) if t['frame'] == self.frame), None)
                if t:
                    return mkbdd(self.v.b.or_(t['caught'], self.v.b.and_(t['rc'], t['fresh'])))
            v = self.v.mem.get(x)
            return v if v is not None else ('ld', x) + self.v.version(x)
        if a[0] != 'gate':
            self.vals[i.id] = f(a)
        else:
            self.vals[i.id] = self.v.gate([(c, f(x)) for c, x in a[1]])

    def rmw(self, i, c):
        """atomic read and write: the old value is the result"""
        a, v = self.val(i.o[0]), self.val(i.o[1])
        self.load(i)
        if i.pred in ('add', 'sub') and v == ('i', 0):
            return
        new = v if i.pred == 'xchg' else self.lift(lambda x, y: arith(i.pred, x, y), self.vals[i.id], v)
        self.put(i, c, a, new)

    def store(self, i, c):
        self.put(i, c, self.val(i.o[1]), self.val(i.o[0]))

    def put(self, i, c, a, v):
        V = self.v
        for _, x in gates(v):
            r = root(x)
            if r[0] == 'al':
                g = root(a)
                if not is_guard(a):
                    V.mem[('esc',) + r] = 1
        for c2, x in gates(a):
            if x[0] == 'fld' and x[2] == 'Guard' and x[1][0] == 'al' and x[3] in ('function', 'function_arg'):
                self.guards.setdefault(x[1], {})[x[3]] = v
            if is_guard(x):
                if x[2:] in V.stores:       # asked for by name
                    V.emit('store', x[2:], (x, v), V.b.and_(c, c2), i, self.frame)
                continue
            r = root(x)
            k = mc(x)
            out = {}
            for y, w in V.mem.items():
                if y[0] not in ('ver', 'esc'):
                    q = root(y)
                    if y == x:
                        continue
                    if apart(x, y):
                        out[y] = w
                        continue
                    if inside(y, x) or inside(x, y):
                        continue
                    if r[0] == 'al' and ('esc',) + r not in V.mem:
                        if q == r and mc(y) == k:
                            continue
                    elif mc(y) == k or k == ('any',):
                        if q != r and {q[0], r[0]} == {'a', 'call'} and is_alloc(q if q[0] == 'call' else r):
                            out[y] = w     # just allocated, not an argument
                            continue
                        if not (q[0] == 'al' and ('esc',) + q not in V.mem):
                            if not (q == r and sibling(x, y)):
                                continue
                out[y] = w
            V.mem = out
            if r[0] == 'al' and ('esc',) + r not in V.mem:
                V.mem[('ver',) + r] = V.fresh()
            else:
                V.mem[('ver',) + k] = V.fresh()
            if a[0] != 'gate':
                V.mem[x] = v
            y = x
            while y[0] == 'idx':
                y = y[1]
            if V.stores and y[0] == 'fld' and ('*' in V.stores or y[2:] in V.stores):
                V.emit('store', y[2:], (x, v), V.b.and_(c, c2), i, self.frame)
            elif V.outs and y[0] == 'a' and y[1] in V.outs:
                V.emit('store', ('arg', y[1]), (x, v), V.b.and_(c, c2), i, self.frame)
            elif V.outs and y[0] == 'ld' and y[1][0] == 'fld' and ('elem',) + y[1][2:] in V.outs:
                V.emit('store', ('elem',) + y[1][2:], (x, v), V.b.and_(c, c2), i, self.frame)
            elif V.outs and y[0] == 'ld' and y[1][0] == 'a' and ('at', y[1][1]) in V.outs:
                V.emit('store', ('at', y[1][1]), (x, v), V.b.and_(c, c2), i, self.frame)
            elif 'local' in V.outs and y[0] == 'al':
                V.emit('store', ('local', y[1]), (x, v), V.b.and_(c, c2), i, self.frame)

    def call(self, i, c, depth, stack):
        """condition of what follows"""
        V = self.v
        cal = i.callee
        if cal[0] == 'f' and cal[1].startswith('llvm.'):
            n = cal[1]
            if n.startswith('llvm.expect') or n.startswith('llvm.threadlocal.address'):
                self.vals[i.id] = self.val(i.o[0])
                return c
            if n.startswith(('llvm.memcpy', 'llvm.memset', 'llvm.memmove')):
                args = [self.val(o) for o in i.o]
                base = '.'.join(n.split('.')[:2])
                if base in V.interest:
                    V.emit('call', base, args, c, i, self.frame, (base,))
                self.clobber(i, args, ())
                d = args[0]
                if d[0] != 'gate':
                    V.mem = {k: v for k, v in V.mem.items() if not inside(k, d)}
                    if base == 'llvm.memcpy' and args[1][0] != 'gate':
                        for k, v in list(V.mem.items()):
                            if k[0] not in ('ver', 'esc') and inside(k, args[1]):
                                V.mem[rebase(k, args[1], d)] = v
            else:
                self.vals[i.id] = ('v', i.id, self.frame)
            return c
        args = [self.val(o) for o in i.o]
        names = self.targets(i)
        n = names[0] if len(names) == 1 else None
        if n == 'guard_runner':
            g = self.guards.get(args[0])
            if g is not None and g.get('function', ('',))[0] == 'f':
                return self.invoke(i, g['function'][1], [g.get('function_arg', ('i', 0))], c, depth, stack)
            return c
        if n in ('_setjmp', 'setjmp', 'exception_mgr_leave', 'unguard', 'guard_pop', 'exception_mgr_enter'):
            self.vals[i.id] = ('v', i.id, self.frame)
            if n in V.interest:
                V.emit('call', n, args, c, i, self.frame, value=self.vals[i.id])
            if n == '_setjmp':
                # the protected block runs; what it does may be cut short
                self.vals[i.id] = ('i', 0)
                t = {'caught': 0, 'frame': self.frame, 'rc': c,
                     'fresh': V.b.not_(V.eq(('throws', i.id, self.frame), ('i', 0)))}
                V.alltries.append(t)
                self.catch[i.block] = t
                V.tries.append(t)
            if n == 'exception_mgr_leave':
                if V.tries and V.tries[-1]['frame'] == self.frame:
                    t = V.tries.pop()
                    self.lastcatch = t
                t = getattr(self, 'lastcatch', None)
                self.vals[i.id] = mkbdd(V.b.or_(t['caught'], V.b.and_(t['rc'], t['fresh']))) if t else ('v', i.id, self.frame)
            return c
        if n == THROW:
            V.emit('throw', THROW, args, c, i, self.frame)
            if V.tries:
                t = V.tries[-1]
                t['caught'] = V.b.or_(t['caught'], c)
            return 0
        if n in STOP:
            return 0
        if n is None:
            e = self.fn.expr(cal)
            name = ('*',) + (e[1][2:] if e[0] == 'ld' and e[1][0] == 'fld' else ('?',))
            V.emit('call', name, args, c, i, self.frame, tuple(names))
            self.vals[i.id] = ('v', i.id, self.frame)
            cl = set()
            for t in names:
                cl |= mods(V.p).get(t, set())
            self.clobber(i, args, cl)
            return c
        return self.invoke(i, n, args, c, depth, stack)

    def targets(self, i):
        if i.callee[0] == 'f':
            return [i.callee[1]]
        e = self.val(i.callee)
        if e[0] == 'f':
            return [e[1]]
        return self.v.p.targets(i)

    def invoke(self, i, n, args, c, depth, stack):
        V = self.v
        f = V.p.functions.get(n)
        look = (f is not None and n not in V.interest and n not in V.opaque and depth < V.depth
                and n not in stack and f.name not in V.opaque
                and (n in V.reaching or n in V.expand_ or self.simple(f)))
        if not look:
            e = V.emit('call', n, args, c, i, self.frame, (n,))
            if f is not None and reads_only(V.p, f):
                self.vals[i.id] = ('call', n, tuple(args), ('epoch', V.epoch))
            else:
                self.vals[i.id] = ('call', n, tuple(args), (i.id, self.frame))
            if e is not None:
                e.value = self.vals[i.id]
            if f is not None and f.noreturn:
                return 0
            self.clobber(i, args, mods(V.p).get(n, set()))
            return c
        save = V.framechain
        V.framechain = save + (i,)
        r, normal = V.run(f, args, c, depth + 1, stack + (n,))
        V.framechain = save
        if r is not None:
            self.vals[i.id] = r
        return normal

    def simple(self, f):
        """small helpers without loops which call nothing outside"""
        s = getattr(f, '_simple', None)
        if s is None:
            s = f._simple = False
            if len(f.blocks) <= 14 and not natural_loops(f) and not f.has_setjmp():
                s = True
                for j in f.calls():
                    if j.callee[0] != 'f':
                        s = False
                        break
                    g = self.v.p.functions.get(j.callee[1])
                    if g is None:
                        if j.callee[1] in STOP:
                            continue
                        s = False
                        break
                    if g is f or not self.simple(g):
                        s = False
                        break
                f._simple = s
        return s

    def clobber(self, i, args, classes):
        V = self.v
        if classes:
            V.epoch += 1
        al = set()
        for a in args:
            for c, x in gates(a):
                r = root(x)
                if r[0] == 'al':
                    al.add(r)
        V.mem = V.kill(V.mem, classes, al)
        for r in al:
            V.mem[('esc',) + r] = 1


def root(a):
    while a[0] in ('fld', 'idx'):
        a = a[1]
    return a


def is_alloc(x):
    """result of a function which returns new memory"""
    return x[0] == 'call' and x[1].split('@')[0].endswith(('_allocate', '_malloc', '_allocate_nothrow'))


def mc(a):
    """class of the memory an address names"""
    if a[0] == 'fld':
        return ('fld', a[2], a[3])
    if a[0] == 'idx':
        return mc(a[1])
    if a[0] in ('al', 'g'):
        return a
    return ('any',)


def sibling(x, y):
    """different constant elements of one array, or fields"""
    return x[0] == y[0] == 'idx' and x[1] == y[1] and x[2][0] == y[2][0] == 'i' and x[2] != y[2]


def is_guard(a):
    return a[0] == 'fld' and a[2] in ('Guard', 'Exception', 'ExceptionMgr')


def plain(e):
    """without memory versions"""
    if not isinstance(e, tuple):
        return e
    if e and e[0] == 'ld':
        return ('ld', plain(e[1]))
    return tuple(plain(x) for x in e)


def inside(a, root):
    while True:
        if a == root:
            return True
        if a[0] not in ('fld', 'idx'):
            return False
        a = a[1]


def rebase(a, frm, to):
    if a == frm:
        return to
    return (a[0], rebase(a[1], frm, to)) + a[2:]


def mkbdd(n):
    return ('i', n) if n < 2 else ('bdd', n)


def reads_only(prog, f, seen=None):
    r = getattr(f, '_reads', None)
    if r is not None:
        return r
    f._reads = False
    ok = all(i.op not in ('store', 'cmpxchg', 'atomicrmw', 'fence') for i in f.all())
    for i in f.calls():
        if not ok:
            break
        if i.callee[0] != 'f':
            ok = False
        else:
            if i.callee[1] in STOP or i.callee[1] in ('memcmp', 'strcmp', 'strlen', 'strncmp', 'strcasecmp'):
                continue
            g = prog.functions.get(i.callee[1])
            ok = g is not None and g is not f and reads_only(prog, g)
    f._reads = ok
    return ok


def arith(op, a, b):
    a2, b2 = a, b
    if a[0] == 'i' and b[0] == 'i':
        x, y = a[1], b[1]
        try:
            return ('i', {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'and': lambda: x & y,
                          'or': lambda: x | y, 'xor': lambda: x ^ y, 'shl': lambda: x << y,
                          'lshr': lambda: x >> y}[op]())
        except (KeyError, ValueError):
            pass
    if op == 'sub' and b[0] == 'i':
        op, b = 'add', ('i', -b[1])
    if op in ('add', 'mul', 'and', 'or', 'xor'):
        if a[0] == 'i' or (b[0] != 'i' and repr(b) < repr(a)):
            a, b = b, a
    if op == 'add' and b == ('i', 0):
        return a
    if op == 'add' and b[0] == 'i' and a[0] == 'bin' and a[1] == 'add' and a[3][0] == 'i':
        return arith('add', a[2], ('i', a[3][1] + b[1]))
    if op in ('and', 'or') and a == b:
        return a
    if op == 'or' and b == ('i', 0):
        return a
    # bits which another mask has removed or set before
    if op == 'and' and b[0] == 'i' and a[0] == 'bin' and a[3][0] == 'i':
        m, k = a[3][1], b[1]
        if a[1] == 'and':
            return ('i', 0) if not m & k else arith('and', a[2], ('i', m & k))
        if a[1] == 'or' and not m & k:
            return arith('and', a[2], b)
        if a[1] == 'or' and m & k == k:
            return b
    return ('bin', op, a, b)
