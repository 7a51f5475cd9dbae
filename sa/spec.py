"""What rules say about a View: access paths, terms, loop ranges, obligations."""
from cond import View, gates, plain, root, show, widen
from ir import Broken, walk


def strip(e):
    """without integer conversions, memory versions and anonymous unions"""
    e = widen(e)
    while e[0] == 'b2i' or e[0] == 'cast' and not narrows(e):
        e = e[1] if e[0] == 'b2i' else e[4]
    return e


def narrows(e):
    """a conversion to fewer bits of a value which is not known to fit"""
    if e[1] != 'trunc':
        return False
    x = e[4]
    while x[0] == 'cast' and x[1] in ('zext', 'sext'):
        x = x[4]
    return x[0] == 'ld' and e[2] == 'i64' 

def apath(e):
    """access path of a value: ['Struct.field', ...], outermost last; follows loads
    and container_of"""
    out = []
    e = strip(e)
    while True:
        if e[0] == 'ld':
            e = e[1]
        elif e[0] == 'fld':
            if e[3]:
                out.append('%s.%s' % (e[2], e[3]))
            e = e[1]
        elif e[0] == 'idx':
            e = e[1]
        elif e[0] == 'cast':
            e = e[4]
        else:
            break
    return out[::-1]


def is_path(e, *suffix):
    """does the access path of e end with these fields"""
    p = apath(e)
    return len(p) >= len(suffix) and tuple(p[len(p) - len(suffix):]) == suffix


def has_path(e, *fields):
    """does e read a value through these fields somewhere"""
    n = len(fields)
    for x in walk(e):
        if x and x[0] in ('ld', 'fld') and is_path(x, *fields):
            return True
    return False


def origin(e):
    """what an access path starts from: an argument, a call, a loop variable"""
    e = strip(e)
    while e[0] in ('ld', 'fld', 'idx'):
        e = strip(e[1])
    return e


def is_call(e, *names):
    e = strip(e)
    return e[0] == 'call' and e[1].split('@')[0] in names


def base_of(e, S):
    """the object of struct S whose field an address or load names"""
    for x in walk(e):
        if x[0] == 'fld' and x[2] == S:
            return x[1]
    return None


class Spec:
    """obligations about one view"""

    def __init__(self, prog, res, fn, **kw):
        self.prog = prog
        self.res = res
        self.v = View(prog, fn, **kw)
        self.b = self.v.b
        self.name = self.v.fn.name
        for k in self.v.functions:
            res.fn(k)
        res.count('views')
        res.count('effects', len(self.v.events))
        self.nfresh = 0

    # ---- conditions over terms
    def fresh(self):
        self.nfresh += 1
        return self.b.var(('eq', ('fresh', self.nfresh), ('i', 1)))

    def terms(self, pred):
        """the expressions which occur in atoms and satisfy pred"""
        out = []
        for a in self.b.vars:
            for x in a[1:] if a[0] == 'eq' else a[2:]:
                if isinstance(x, tuple) and x and x[0] != 'i' and pred(x) and x not in out:
                    out.append(x)
        return out

    def made(self, c):
        """the code makes the comparison this condition was derived from"""
        return not any('fresh' in str(self.b.vars[k]) for k in self.b.support(c))

    def nz(self, *path):
        """the value read through this path is not zero"""
        return self.test(lambda x: x[0] in ('ld', 'cast') and is_path(x, *path))

    def test(self, pred):
        ts = self.terms(pred)
        if not ts:
            return self.fresh()
        return self.b.or_(*[self.b.not_(self.v.eq(t, ('i', 0))) for t in ts])

    def test_eq(self, px, py):
        """two terms which the code compares are equal"""
        out = None
        for a in list(self.b.vars):
            if a[0] == 'eq' and isinstance(a[1], tuple) and isinstance(a[2], tuple):
                if (px(a[1]) and py(a[2])) or (py(a[1]) and px(a[2])):
                    c = self.v.eq(a[1], a[2])
                    out = c if out is None else self.b.or_(out, c)
        return self.fresh() if out is None else out

    def positive(self, pred):
        """a count which is never negative is not zero"""
        out = None
        for x in self.terms(pred):
            eq = ('eq', x, ('i', 0)) in self.b.vars
            c = self.b.not_(self.v.eq(x, ('i', 0))) if eq else self.v.cmp('sgt', x, ('i', 0))
            out = c if out is None else self.b.or_(out, c)
        return self.fresh() if out is None else out

    def rel(self, op, px, py):
        """comparison of two terms (predicates or constants); fresh if the code makes none"""
        xs = self.terms(px)
        ys = [('i', py)] if isinstance(py, int) else self.terms(py)
        out = None
        for x in xs:
            for y in ys:
                if isinstance(py, int) or self.compared(x, y):
                    c = self.v.cmp(self.sign(op, x, y), x, y)
                    out = c if out is None else self.b.or_(out, c)
        return self.fresh() if out is None else out

    def lrel(self, op, form, const=0, each=None):
        """condition 'sum of coefficient * term + const  op  0', op one of lt le eq ge gt
        ne, from the comparisons the code makes; form: [(predicate or term, coefficient)]"""
        out = None
        seen = set()
        for a in list(self.b.vars):
            sg, x, y = ('s', a[1], a[2]) if a[0] == 'eq' else (a[1], a[2], a[3]) if a[0] == 'lt' else (0, 0, 0)
            if not isinstance(x, tuple) or not isinstance(y, tuple) or (x, y) in seen:
                continue
            seen.add((x, y))
            m = match_lin(ladd(lin(x), lin(y), -1), form)
            if m is None:
                continue
            sign, k = m
            if op in ('eq', 'ne') and k != sign * const:
                continue
            sg = next((b[1] for b in self.b.vars if b[0] == 'lt' and set(b[2:]) == {x, y}), sg)
            # sign * (F - const_of_F) ...: x - y = sign * form + k; wanted: form + const op 0
            off = sign * const - k
            # x - y + off  op'  0 with op' mirrored for a negative sign
            o = op if sign > 0 else {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}.get(op, op)
            if off == 1 and o in ('le', 'gt'):
                o = {'le': 'lt', 'gt': 'ge'}[o]
            elif off == -1 and o in ('lt', 'ge'):
                o = {'lt': 'le', 'ge': 'gt'}[o]
            elif off != 0:
                if y[0] != 'i':
                    continue
                y = ('i', y[1] - off)
            c = self.v.cmp(o if o in ('eq', 'ne') else sg + o, x, y)
            if each is not None:
                each.append(c)
            out = c if out is None else self.b.or_(out, c)
        return self.fresh() if out is None else out

    def linked(self, op, form, const=0):
        """the condition of lrel(), and that all comparisons which make it agree"""
        cs = []
        c = self.lrel(op, form, const, cs)
        if not cs:
            return c, 1
        return cs[0], self.and_(*[self.or_(self.and_(x, cs[0]), self.not_(self.or_(x, cs[0]))) for x in cs])

    def content(self, e, addr, S, f):
        """value of a field of the object at the address when the event happens"""
        x = ('fld', strip(addr), S, f)
        return e.guard.get(x, ('ld', x))

    def sign(self, op, x, y):
        """an order without a sign: the one the code uses for the pair"""
        if op not in ('lt', 'le', 'gt', 'ge'):
            return op
        return next((a[1] for a in self.b.vars if a[0] == 'lt' and set(a[2:]) == {x, y}), 's') + op

    def compared(self, x, y):
        return any((a[1:] if a[0] == 'eq' else a[2:]) in ((x, y), (y, x)) for a in self.b.vars)

    def and_(self, *a):
        return self.b.and_(*a)

    def or_(self, *a):
        return self.b.or_(*a)

    def not_(self, a):
        return self.b.not_(a)

    def leaves(self, val, cond=1):
        """the alternatives of a value which are possible under a condition"""
        return [x for c, x in gates(val) if self.v.possible(self.b.and_(c, cond))]

    def each(self, val, pred, cond=1):
        xs = self.leaves(val, cond)
        return bool(xs) and all(pred(x) for x in xs)

    def final(self, stores):
        """(condition, value) of what the last of these stores leaves"""
        out = []
        rest = 1
        for e in sorted(stores, key=lambda e: -e.order):
            for c, x in gates(e.args[1]):
                k = self.b.and_(rest, e.cond, c)
                if self.v.possible(k):
                    out.append((k, x))
            rest = self.b.and_(rest, self.b.not_(e.cond))
        return out

    # ---- obligations
    def ob(self, ok, key, msg, where=None, detail=None):
        return self.res.ob(ok, '%s:%s' % (self.name, key), where or self.v.fn.where(), '%s(): %s' % (self.name, msg),
                           detail)

    def one(self, evs, key, msg):
        """exactly these effects must exist; a missing one is a violation"""
        if not evs:
            self.ob(False, key, msg + ' (no such construct)')
        return evs

    def only_if(self, evs, cond, key, msg):
        """every effect implies the condition"""
        for e in evs:
            ok = self.v.implies(e.cond, cond)
            self.ob(ok, key, msg, e.where(), None if ok else 'reached when: %s\nrequired:     %s'
                    % (self.v.show(e.cond), self.v.show(cond)))
        return evs

    def must(self, cond, evs, key, msg):
        """whenever the condition holds, one of the effects happens"""
        c = self.v.any(evs)
        ok = self.v.implies(cond, c)
        bad = self.b.and_(cond, self.b.not_(c))
        self.ob(ok, key, msg, evs[0].where() if evs else None,
                None if ok else 'it does not when: %s' % self.v.show(bad))
        return ok

    def exactly(self, evs, cond, key, msg):
        """the effects happen if and only if the condition holds"""
        if not evs:
            self.ob(False, key, msg + ' (no such construct)')
            return False
        a = self.must(cond, evs, key, msg)
        self.only_if(evs, cond, key, msg)
        return a

    def before(self, firsts, seconds, key, msg, within=None):
        """whenever one of seconds happens, one of firsts has happened before"""
        for s in seconds:
            c = self.v.any([f for f in firsts if f.order < s.order])
            need = s.cond if within is None else self.b.and_(s.cond, within)
            ok = self.v.implies(need, c)
            self.ob(ok, key, msg, s.where(), None if ok else 'reached without it when: %s'
                    % self.v.show(self.b.and_(need, self.b.not_(c))))

    def after(self, firsts, seconds, key, msg):
        """whenever one of firsts happens, one of seconds follows"""
        for f in firsts:
            c = self.v.any([s for s in seconds if s.order > f.order])
            ok = self.v.implies(f.cond, c)
            self.ob(ok, key, msg, f.where(), None if ok else 'not followed when: %s'
                    % self.v.show(self.b.and_(f.cond, self.b.not_(c))))

    def once(self, evs, key, msg):
        """no path has two of these effects (in one iteration)"""
        for n, a in enumerate(evs):
            for b in evs[n + 1:]:
                ok = a.loops != b.loops or not self.v.possible(self.b.and_(a.cond, b.cond))
                self.ob(ok, key, msg, b.where())

    def never(self, evs, cond, key, msg):
        for e in evs:
            ok = not self.v.possible(self.b.and_(e.cond, cond))
            self.ob(ok, key, msg, e.where(), None if ok else 'reached when: ' + self.v.show(e.cond))
        if not evs:
            self.ob(True, key, msg)


# ------------------------------------------------------------------ loops
def lin(e):
    """linear form of an integer or pointer: {term: coefficient}, constant at ()"""
    e = strip(e)
    k = e[0]
    if k == 'i':
        return {(): e[1]} if e[1] else {}
    if k == 'bin' and e[1] == 'add':
        return ladd(lin(e[2]), lin(e[3]))
    if k == 'bin' and e[1] == 'sub':
        return ladd(lin(e[2]), lin(e[3]), -1)
    if k == 'bin' and e[1] == 'mul' and e[3][0] == 'i':
        return {t: c * e[3][1] for t, c in lin(e[2]).items()}
    if k == 'idx':
        return ladd(lin(e[1]), {t: c for t, c in lin(e[2]).items()})
    return {plain(e): 1}


def match_lin(d, form):
    """(sign, constant) if d is plus or minus the form plus a constant"""
    for sign in (1, -1):
        left = {t: c for t, c in d.items() if t != ()}
        ok = len(left) == len(form)
        for pred, coef in form if ok else ():
            hit = [t for t, c in left.items() if c == sign * coef
                   and (pred(t) if callable(pred) else strip(t) == strip(pred))]
            if not hit:
                ok = False
                break
            del left[hit[0]]
        if ok and not left:
            return sign, d.get((), 0)
    return None


def ladd(a, b, s=1):
    out = dict(a)
    for t, c in b.items():
        out[t] = out.get(t, 0) + s * c
        if not out[t]:
            del out[t]
    return out


def loop_range(v, key, ptr):
    """(first, last, step) of a linear loop variable in element units, or None.

    ptr is an expression over a header phi of the loop; first and last are
    linear forms of it in the first and the last iteration."""
    phis = [x for x in walk(ptr) if x[0] == 'phi' and x[2] == key[0]
            and v.frameobj[x[2]].fn.insts[x[1]].block == key[1]]
    if not phis:
        return None
    phi = phis[0]
    init, step = v.phi(phi)
    if len(init) != 1 or len(step) != 1:
        return None
    d = ladd(lin(step[0]), lin(phi), -1)
    if set(d) - {()}:
        return None
    st = d.get((), 0)
    B = v.body(key)
    E = v.entry(key)
    # the atoms of the loop condition
    others = set()
    for n in v.b.support(B):
        a = v.b.vars[n]
        xs = a[1:] if a[0] == 'eq' else a[2:]
        if widen(xs[0]) == phi:
            others.add(xs[1])
        elif widen(xs[1]) == phi:
            others.add(xs[0])
    if not others:
        return beside(v, key, ptr, phi, init[0], st)
    if len(others) != 1:
        return None
    x = others.pop()
    # a comparison is used signed or unsigned, not both
    sgn = {a[1] for a in v.b.vars if a[0] == 'lt' and phi in a[2:]}
    rel = set()
    for op, nm in (('lt', '<'), ('eq', '='), ('gt', '>')):
        ok = False
        for s in (sgn or {'s'}):
            c = v.cmp('eq' if op == 'eq' else s + op, phi, x)
            ok = ok or v.possible(v.b.and_(B, c))
        if ok:
            rel.add(nm)
    X = lin(x)
    if st > 0:
        last = X if '=' in rel else ladd(X, {(): 1}, -1)
        if rel not in ({'<'}, {'<', '='}, {'<', '>'}):
            return None
    elif st < 0:
        last = X if '=' in rel else ladd(X, {(): 1})
        if rel not in ({'>'}, {'>', '='}, {'<', '>'}):
            return None
    else:
        return None
    off = ladd(lin(ptr), lin(phi), -1)
    if any(phi in (t,) or any(y == phi for y in walk(t)) for t in off if t != ()):
        return None
    return ladd(lin(init[0]), off), ladd(last, off), st


def beside(v, key, ptr, phi, init, st):
    """the range of a variable which moves along with the counter of the loop"""
    fn = v.frameobj[key[0]].fn
    for i in fn.blocks[key[1]]:
        if i.op != 'phi':
            break
        other = ('phi', i.id, key[0])
        B = v.body(key)
        if other == phi or not any(other in [widen(x) for x in (a[1:] if a[0] == 'eq' else a[2:]) if isinstance(x, tuple)]
                                   for a in (v.b.vars[n] for n in v.b.support(B))):
            continue
        r = loop_range(v, key, other)
        if r is None or r[2] not in (1, -1):
            continue
        n = {k: c * r[2] for k, c in ladd(r[1], r[0], -1).items()}
        off = ladd(lin(ptr), lin(phi), -1)
        if any(any(y == phi for y in walk(t)) for t in off if t != ()):
            return None
        first = ladd(lin(init), off)
        return first, ladd(first, {k: c * st for k, c in n.items()}), st
    return None


def list_loop(v, key):
    """fields a list walk follows: (head address, next field) if the loop visits
    every element of a linked list once"""
    fn, body, edge, rc = v.loops[key]
    F = v.frameobj[key[0]]
    for i in fn.blocks[key[1]]:
        if i.op != 'phi':
            break
        phi = ('phi', i.id, key[0])
        init, step = v.phi(phi)
        if len(step) > 1:
            step = list(dict.fromkeys(x for c, x in v.phi_steps(phi)))
        if len(init) == 1 and len(step) == 1:
            a, s = plain(init[0]), plain(step[0])
            if a[0] == 'ld' and s[0] == 'ld' and a[1][0] == 'fld' and s[1][0] == 'fld' and a[1][2:] == s[1][2:]:
                return phi, a[1][1], a[1][2:]
    return None
