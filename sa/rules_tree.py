"""R06: the ordered trees keep their nodes in order."""
from cond import gates, plain
from ir import walk
from report import parts, rule
from rules_read import header_phis
from spec import Spec, is_call, is_path, origin, strip

N = 'RbtreeNode'
A = lambda n: (lambda x: x == ('a', n))


def field(x, f):
    """the object whose field f is read"""
    x = strip(x)
    if x[0] == 'ld' and x[1][0] == 'fld' and x[1][2:] == (N, f):
        return strip(x[1][1])
    return None


def at(e, f):
    """the object a store goes to"""
    x = strip(e.args[0])
    return strip(x[1]) if x[0] == 'fld' and x[2:] == (N, f) else None


def chain(x):
    """(what a pointer starts from, fields followed)"""
    out = []
    x = strip(x)
    while x[0] == 'ld' and x[1][0] == 'fld' and x[1][2] == N:
        out.append(x[1][3])
        x = strip(x[1][1])
    return x, ''.join(out[::-1])


def rotate(prog, res):
    for name, s1, s2 in (('rotate_left', 'l', 'r'), ('rotate_right', 'r', 'l')):
        s = Spec(prog, res, name, stores=[(N, 'l'), (N, 'r'), (N, 'p'), ('Rbtree', 'root')])
        v = s.v
        n = ('a', 1)
        is_q = lambda x: chain(x) == (n, s2)
        inner = lambda x: chain(x) == (n, s2 + s1)
        par = lambda x: chain(x) == (n, 'p')
        top = s.or_(*[v.eq(t, ('i', 0)) for t in s.terms(par)] or [s.fresh()])
        none = s.or_(*[v.eq(t, ('i', 0)) for t in s.terms(inner)] or [s.fresh()])
        left = s.test_eq(lambda x: x == n, lambda x: chain(x) == (n, 'pl'))
        right = s.test_eq(lambda x: x == n, lambda x: chain(x) == (n, 'pr'))
        if any('fresh' in str(v.b.vars[k]) for k in v.b.support(left)):
            left = s.not_(right)
        want = [
            ('root', lambda e: e.name == ('Rbtree', 'root'), is_q, top, 'the child becomes the root'),
            ('parent-l', lambda e: e.name == (N, 'l') and chain(at(e, 'l')) == (n, 'p'), is_q, s.and_(s.not_(top), left), 'or the left child of the parent'),
            ('parent-r', lambda e: e.name == (N, 'r') and chain(at(e, 'r')) == (n, 'p'), is_q, s.and_(s.not_(top), s.not_(left)), 'or the right child of the parent'),
            ('up', lambda e: e.name == (N, 'p') and is_q(at(e, 'p')), par, 1, 'its parent is the parent of the node'),
            ('down', lambda e: e.name == (N, 'p') and at(e, 'p') == n, is_q, 1, 'the child becomes the parent of the node'),
            ('inner', lambda e: e.name == (N, s2) and at(e, s2) == n, inner, 1, 'the inner grandchild goes to the node'),
            ('inner-up', lambda e: e.name == (N, 'p') and inner(at(e, 'p')), lambda x: x == n, s.not_(none), 'and takes it as its parent'),
            ('outer', lambda e: e.name == (N, s1) and is_q(at(e, s1)), lambda x: x == n, 1, 'the node becomes a child of its child'),
        ]
        links(s, want)


def links(s, want, extra=lambda e: True):
    """the pointer stores are exactly these"""
    v = s.v
    evs = [e for e in v.events if e.kind == 'store' and extra(e)]
    hit = []
    for key, which, val, cond, msg in want:
        es = [e for e in evs if e not in hit and which(e)]
        es = [e for e in es if not (len(es) > 1 and not v.possible(s.and_(e.cond, cond)))]
        hit += es
        s.exactly(es, cond, key, msg)
        for e in es:
            for c, x in gates(e.args[1]):
                k = s.and_(c, e.cond)
                if v.possible(k):
                    s.ob(val(strip(x)), key + '-value', msg, e.where(), str(strip(x))[:200])
    for e in evs:
        if e not in hit:
            s.ob(False, 'link', 'no other links change', e.where())
    return hit


def insert(prog, res):
    s = Spec(prog, res, 'rbtree_set', interest=['rotate_left', 'rotate_right'], stores=[(N, 'l'), (N, 'r'), (N, 'p'), ('Rbtree', 'root')])
    v = s.v
    p, n = ('a', 1), ('a', 3)
    top = s.rel('eq', A(1), 0)
    above = s.rel('sgt', A(2), 0)
    want = [
        ('parent', lambda e: e.name == (N, 'p') and at(e, 'p') == n, lambda x: x == p, 1, 'a new node hangs under the node found'),
        ('leaf-l', lambda e: e.name == (N, 'l') and at(e, 'l') == n, lambda x: x == ('i', 0), 1, 'a new node has no children'),
        ('leaf-r', lambda e: e.name == (N, 'r') and at(e, 'r') == n, lambda x: x == ('i', 0), 1, 'a new node has no children'),
        ('root', lambda e: e.name == ('Rbtree', 'root'), lambda x: x == n, top, 'the first node is the root'),
        ('left', lambda e: e.name == (N, 'l') and at(e, 'l') == p, lambda x: x == n, s.and_(s.not_(top), above), 'a lower node goes to the left'),
        ('right', lambda e: e.name == (N, 'r') and at(e, 'r') == p, lambda x: x == n, s.and_(s.not_(top), s.not_(above)), 'a higher node goes to the right'),
    ]
    links(s, want)


def remove(prog, res):
    s = Spec(prog, res, 'rbtree_remove', interest=['rotate_left', 'rotate_right'], stores=[(N, 'l'), (N, 'r'), (N, 'p'), ('Rbtree', 'root')])
    v = s.v
    n = ('a', 1)
    L, R = nz(s, n, 'l'), nz(s, n, 'r')
    out = s.rel('eq', lambda x: field(x, 'color') == n, 2)
    live = s.not_(out)
    both = s.and_(L, R)
    top = s.not_(nz(s, n, 'p'))
    # the successor: the left end of the right side
    succ = None
    for k in v.loops:
        for q in header_phis(v, k):
            i, st = v.phi(q)
            if [chain(x) for x in i] == [(n, 'r')] and [chain(x) for x in st] == [(q, 'l')]:
                succ = q
                s.ob(v.equal(v.body(k), s.and_(v.entry(k), nz(s, q, 'l'))), 'succ-walk', 'the next node in order', None, v.show(v.body(k)))
                for c, x in v.phi_steps(q):
                    s.ob(v.equal(v.body(k), c), 'succ-end', 'the walk to the next node goes on to its end')
    if not s.ob(succ is not None, 'succ', 'a node with two children is replaced by the next node in order'):
        return
    far = s.not_(s.or_(*[v.eq(t, succ) for t in s.terms(lambda x: chain(x) == (n, 'r'))] + [v.eq(succ, t) for t in s.terms(lambda x: chain(x) == (n, 'r'))] or [s.fresh()]))
    left = s.test_eq(lambda x: x == n, lambda x: chain(x) == (n, 'pl'))
    right = s.test_eq(lambda x: x == n, lambda x: chain(x) == (n, 'pr'))
    if any('fresh' in str(v.b.vars[k]) for k in v.b.support(left)):
        left = s.not_(right)

    def take(e):
        """what takes the place of the node"""
        for c, x in gates(e.args[1]):
            k = s.and_(c, e.cond)
            if not v.possible(k):
                continue
            x = strip(x)
            ok = x == succ and v.implies(k, both) or chain(x) == (n, 'r') and not v.possible(s.and_(k, L)) or chain(x) == (n, 'l') and not v.possible(s.and_(k, R))
            ok = ok or x == ('i', 0) and not v.possible(s.and_(k, s.or_(L, R)))
            s.ob(ok, 'takes', 'its only child or the next node takes the place of a node', e.where(), v.show(k))
    yes = lambda x: True
    pre = [e for e in v.events if e.kind == 'store' and not e.loops]
    is_s = lambda x: x == succ
    child = lambda e: e.name == (N, 'p') and (chain(at(e, 'p')) in ((succ, 'r'),) or chain(at(e, 'p')) in ((n, 'l'), (n, 'r')) and
                                              not v.possible(s.and_(e.cond, both)))
    sr = nz(s, succ, 'r')
    want = [
        ('root', lambda e: e.name == ('Rbtree', 'root'), yes, s.and_(live, top), 'the root is replaced'),
        ('parent-l', lambda e: e.name == (N, 'l') and chain(at(e, 'l')) == (n, 'p'), yes, s.and_(live, s.and_(s.not_(top), left)), 'or the left child of the parent'),
        ('parent-r', lambda e: e.name == (N, 'r') and chain(at(e, 'r')) == (n, 'p'), yes, s.and_(live, s.and_(s.not_(top), s.not_(left))),
         'or the right child of the parent'),
        ('succ-l', lambda e: e.name == (N, 'l') and at(e, 'l') == succ, lambda x: chain(x) == (n, 'l'), s.and_(live, both), 'the next node takes the left side'),
        ('succ-lp', lambda e: e.name == (N, 'p') and chain(at(e, 'p')) == (n, 'l') and v.possible(s.and_(e.cond, both)), lambda x: True, s.and_(live, both),
         'as its parent'),
        ('succ-p', lambda e: e.name == (N, 'p') and at(e, 'p') == succ, lambda x: chain(x) == (n, 'p'), s.and_(live, both), 'it takes the parent'),
        ('succ-r', lambda e: e.name == (N, 'r') and at(e, 'r') == succ, lambda x: chain(x) == (n, 'r'), s.and_(live, s.and_(both, far)), 'and the right side'),
        ('succ-rp', lambda e: e.name == (N, 'p') and chain(at(e, 'p')) == (n, 'r') and v.possible(s.and_(e.cond, both)), lambda x: True,
         s.and_(live, s.and_(both, far)), 'as its parent'),
        ('succ-out', lambda e: e.name == (N, 'l') and chain(at(e, 'l')) == (succ, 'p'), lambda x: True, s.and_(live, s.and_(both, far)),
         'after it has been taken out of its place'),
        ('child', child, yes, None, 'children know their parent'),
    ]
    hit = []
    for key, which, val, cond, msg in want:
        es = [e for e in pre if e not in hit and which(e)]
        hit += es
        if cond is not None:
            s.exactly(es, cond, key, msg)
        for e in es:
            if key in ('root', 'parent-l', 'parent-r'):
                take(e)
                continue
            for c, x in gates(e.args[1]):
                k = s.and_(c, e.cond)
                if not v.possible(k):
                    continue
                x = strip(x)
                if key == 'child':
                    ok = x == succ and v.implies(k, both) and not v.possible(s.and_(k, far)) or chain(x) == (succ, 'p') and v.implies(k, s.and_(both, far)) \
                        or chain(x) == (n, 'p') and not v.possible(s.and_(k, both))
                elif key in ('succ-lp', 'succ-rp'):
                    ok = x == succ
                elif key == 'succ-out':
                    ok = chain(x) == (succ, 'r')
                else:
                    ok = val(x)
                s.ob(ok, key + '-value', msg, e.where(), str(x)[:200])
    for e in pre:
        if e not in hit:
            s.ob(False, 'link', 'no other links change', e.where())
    kids = [e for e in hit if child(e)]
    need = s.or_(s.and_(both, sr), s.and_(s.not_(both), s.or_(L, R)))
    s.must(s.and_(live, need), kids, 'child-set', 'children know their parent')
    for e in v.events:
        if e.kind == 'store' and e.loops:
            s.ob(False, 'fix', 'the repair of the balance changes links by rotation only', e.where())


def nz(s, o, f):
    ts = s.terms(lambda x: field(x, f) == o)
    return s.or_(*[s.not_(s.v.eq(t, ('i', 0))) for t in ts]) if ts else s.fresh()


def ends(prog, res):
    for name, f in (('rbtree_min', 'l'), ('rbtree_max', 'r')):
        s = Spec(prog, res, name)
        end_walk(s, f, lambda x: is_path(x, 'Rbtree.root'), 1)
        root = s.terms(lambda x: is_path(x, 'Rbtree.root'))
        for c, x in gates(s.v.ret):
            if strip(x) == ('i', 0):
                s.ob(s.v.implies(c, s.or_(*[s.v.eq(t, ('i', 0)) for t in root])), 'none', 'none only in an empty tree')
    for name, f, g, e in (('rbtree_next', 'r', 'l', 'rbtree_min'), ('rbtree_prev', 'l', 'r', 'rbtree_max')):
        s = Spec(prog, res, name, interest=['rbtree_min', 'rbtree_max'])
        v = s.v
        n = ('a', 1)
        start = s.rel('eq', A(1), 0)
        side = nz(s, n, f)
        down = end_walk(s, g, lambda x: chain(x) == (n, f), None)
        up, above = None, None
        for k in v.loops:
            hp = header_phis(v, k)
            for q in hp:
                i, st = v.phi(q)
                # the parent kept in a variable of its own
                for w in hp:
                    j, st2 = v.phi(w)
                    if w != q and [strip(x) for x in i] == [n] and [strip(x) for x in st] == [w] \
                            and [chain(x) for x in j] == [(n, 'p')] and [chain(x) for x in st2] == [(w, 'p')]:
                        up, above = q, w
                        par = s.not_(v.eq(w, ('i', 0)))
                        same = s.test_eq(lambda x: x == q, lambda x: chain(x) == (w, f))
                        s.ob(v.equal(v.body(k), s.and_(v.entry(k), s.and_(par, same))), 'up', 'up while the node is on the %s side'
                             % ('right' if f == 'r' else 'left'), None, v.show(v.body(k)))
                if [strip(x) for x in i] == [n] and [chain(x) for x in st] == [(q, 'p')]:
                    up = q
                    par = nz(s, q, 'p')
                    same = s.test_eq(lambda x: x == q, lambda x: chain(x) == (q, 'p' + f))
                    s.ob(v.equal(v.body(k), s.and_(v.entry(k), s.and_(par, same))), 'up', 'up while the node is on the %s side'
                         % ('right' if f == 'r' else 'left'), None, v.show(v.body(k)))
        if not s.ob(up is not None, 'up-walk', 'the tree is climbed'):
            continue
        for c, x in gates(v.ret):
            x = strip(x)
            if is_call(x, e):
                s.ob(v.implies(c, start), 'start', 'the first node on request only', None, v.show(c))
            elif x == down:
                s.ob(v.implies(c, s.and_(s.not_(start), side)), 'down-if', 'the end of the side if there is one', None, v.show(c))
            elif chain(x) == (up, 'p') or x == above or x == ('i', 0):
                s.ob(not v.possible(s.and_(c, s.and_(s.not_(start), side))) and v.implies(c, s.not_(start)), 'up-if', 'else the node above', None, v.show(c))
            else:
                s.ob(False, 'result', 'the neighbour is returned', None, str(x)[:200])


def end_walk(s, f, first, _):
    """a walk to the end of a side; its variable"""
    v = s.v
    for k in v.loops:
        for q in header_phis(v, k):
            i, st = v.phi(q)
            if len(i) == 1 and first(strip(i[0])) and [chain(x) for x in st] == [(q, f)]:
                # the first node may be tested in the loop: its children are not null then
                more = nz(s, q, f)
                have = s.or_(s.not_(v.eq(q, ('i', 0))), 0)
                s.ob(v.equal(v.body(k), s.and_(v.entry(k), more)) or v.equal(v.body(k), s.and_(v.entry(k), s.and_(have, more))), 'end', 'to the end of the side', None, v.show(v.body(k)))
                return q
    s.ob(False, 'end-walk', 'a side is followed to its end')


@rule('R06')
def r06(prog, res):
    parts(prog, res, rotate, insert, remove, ends)
