"""R01: the memory table keeps the last event of every key, in key order.
R02: a partition file is searched for the key and walked in order.
R03: a cursor merges memory and files and visits the partitions in order.
R04: open cursors keep their position when events are inserted or removed.
R05: an id belongs to exactly one partition."""
from cond import gates, plain, root
from ir import walk
from report import parts, rule
from spec import Spec, apath, base_of, has_path, is_call, is_path, ladd, lin, origin, strip


# ------------------------------------------------------------------ ordering
def arg(e, n):
    e = strip(e)
    return e[2][n] if e[0] == 'call' and len(e[2]) > n else None


def probes(s, index_of, is_key):
    """[(element index, less, equal, greater)] for the comparisons of an element with the
    key: compare() or memcmp-like results tested against zero, or a direct comparison"""
    v = s.v
    out = []

    def add(ix, lt, eq, gt):
        for n, (j, a, b, c) in enumerate(out):
            if plain(j) == plain(ix):
                out[n] = (j, s.or_(a, lt), s.or_(b, eq), s.or_(c, gt))
                return
        out.append((ix, lt, eq, gt))
    for t in s.terms(lambda x: is_call(x, 'compare')):
        a, b = strip(arg(t, 1)), strip(arg(t, 2))
        lt, eq, gt = v.cmp('slt', t, ('i', 0)), v.eq(t, ('i', 0)), v.cmp('sgt', t, ('i', 0))
        if index_of(a) is not None and is_key(b):
            add(index_of(a), lt, eq, gt)
        elif index_of(b) is not None and is_key(a):
            add(index_of(b), gt, eq, lt)
    for a in list(s.b.vars):
        x, y = (a[1], a[2]) if a[0] == 'eq' else (a[2], a[3]) if a[0] == 'lt' else (None, None)
        if not isinstance(x, tuple) or not isinstance(y, tuple):
            continue
        x, y = strip(x), strip(y)
        if is_key(x) and index_of(y) is not None:
            x, y = y, x
        if index_of(x) is not None and is_key(y):
            add(index_of(x), v.cmp('ult', x, y), v.eq(x, y), v.cmp('ugt', x, y))
    return out


def is_mid(e, lo, hi):
    """the middle of lo and hi, rounded down"""
    half = lambda t: t[0] == 'bin' and (t[1] in ('sdiv', 'udiv') and t[3] == ('i', 2)
                                        or t[1] in ('ashr', 'lshr') and t[3] == ('i', 1))
    d = lin(e)
    ts = [t for t in d if t != ()]
    lo, hi = plain(lo), plain(hi)
    if d.get((), 0) or any(c != 1 for c in d.values()):
        return False
    hs = [strip(t) for t in ts if half(strip(t))]
    if len(hs) != 1:
        return False
    x = lin(hs[0][2])
    rest = [t for t in ts if not half(strip(t))]
    return x == {hi: 1, lo: -1} and rest == [lo] or x == {hi: 1, lo: 1} and not rest


def header_phis(v, key):
    fn, F = v.loops[key][0], key[0]
    return [('phi', i.id, F) for i in fn.blocks[key[1]] if i.op == 'phi']


def binary_search(s, index_of, is_key, is_len, exact, out=None):
    """the function returns the first position whose element is not below the key (and
    whether it is equal); the invariant: what is left of lo is below the key, what is right
    of hi is not"""
    v = s.v
    ps = probes(s, index_of, is_key)
    cand = []
    for key in v.loops:
        phis = [p for p in header_phis(v, key)]
        for lo in phis:
            for hi in phis:
                ms = [p for p in ps if is_mid(p[0], lo, hi)]
                if lo != hi and ms:
                    cand.append((key, lo, hi, ms[0]))
    if len(cand) == 2:
        # the middle of a sum: the lower bound is the one which moves behind the probe
        cand = [x for x in cand if any(ladd(lin(y), lin(x[3][0]), -1) == {(): 1} for _, y in v.phi_steps(x[1]))]
    if len(cand) != 1:
        s.ob(False, 'search', 'the position is found by a binary search which probes the middle')
        return
    key, lo, hi, (m, LT, EQ, GT) = cand[0]
    li, ls = v.phi(lo)[0], v.phi_steps(lo)
    hs = v.phi_steps(hi)
    his = v.phi(hi)[0]
    B = v.body(key)
    E = v.entry(key)
    # hi + c is one past the last candidate
    inside = {c for c in (0, 1)
              if v.equal(B, s.and_(E, v.cmp('slt' if c == 0 else 'sle', lo, hi)))}
    if v.equal(B, s.and_(E, s.not_(v.eq(lo, hi)))):
        inside.add(0)
    s.ob(len(inside) == 1, 'loop', 'the search continues as long as candidates are left')
    if len(inside) != 1:
        return
    c = inside.pop()
    n = [d for d in (ladd(lin(x), {(): c}) if c else lin(x) for x in his)]
    s.ob(li == [('i', 0)], 'low', 'it starts with the first element')
    short = [d for d in n if len(d) == 2 and d.get(()) == -1 and all(is_len(t) for t in d if t != ())]
    full = [d for d in n if len(d) == 1 and all(is_len(t) and q == 1 for t, q in d.items())]
    s.ob(len(n) == 1 and bool(full or short and not exact), 'high', 'it ends with the last element')
    keep_lo, keep_hi = 0, 0
    for k, y in ls:
        if strip(y) == lo:
            keep_lo = s.or_(keep_lo, k)
            continue
        d = ladd(lin(y), lin(m), -1)
        s.ob(d == {(): 1}, 'right', 'the right half starts behind the probed element')
        s.ob(v.implies(k, LT), 'right-if', 'the left half is dropped only if the probed element is below the key', None,
             v.show(k))
    for k, y in hs:
        if strip(y) == hi:
            keep_hi = s.or_(keep_hi, k)
            continue
        d = ladd(ladd(lin(y), {(): c}), lin(m), -1)
        s.ob(d == {}, 'left', 'the left half ends in front of the probed element')
        s.ob(v.implies(k, GT if exact else s.or_(GT, EQ)), 'left-if',
             'the right half is dropped only if the probed element is not below the key', None, v.show(k))
    s.ob(not v.possible(s.and_(keep_lo, keep_hi)), 'progress', 'every step drops a half')
    # results
    last = [p for p in ps if any(is_len(t) for t in lin(p[0]) if t != ()) and lin(p[0]).get((), 0) == -1]
    gone = s.or_(*[p[1] for p in last]) if last else 0
    past = s.not_(s.or_(B, 0))
    for k, y in gates(v.ret):
        y = strip(y)
        d = lin(y)
        at_end = y == lo or d == ladd(lin(hi), {(): c})
        if at_end:
            # left by the loop condition: the case lo <= hi must have been excluded
            s.ob(not v.possible(s.and_(k, B)) or v.single_exit(key), 'found', 'the first position not below the key is returned', None,
                 v.show(k))
        elif plain(y) == plain(m):
            s.ob(v.implies(k, EQ), 'equal', 'a probed position is returned only if its element equals the key', None,
                 v.show(k))
        elif len(d) == 1 and all(is_len(t) and q == 1 for t, q in d.items()):
            s.ob(v.implies(k, gone), 'past', 'the end is returned only if the last element is below the key', None,
                 v.show(k))
        elif short and len(d) == 2 and d.get(()) == -1 and all(is_len(t) for t in d if t != ()):
            # clamp of a position which can not be reached
            over = s.rel('sge', lambda x: x in (lo, hi), is_len)
            s.ob(v.implies(k, over), 'clamp', 'a position past the end is clamped')
        else:
            s.ob(False, 'result', 'the position found is returned', None, str(y)[:200])
    if out is not None:
        st = [e for e in v.events if e.kind == 'store' and e.name == ('arg', out)]
        ret_eq = s.or_(*[s.and_(k, EQ) for k, y in gates(v.ret) if plain(strip(y)) == plain(m)])
        yes, no, bad = 0, 0, 0
        for e in st:
            for k, x in gates(e.args[1]):
                x = strip(x)
                k = s.and_(k, e.cond)
                if x[0] == 'i':
                    yes, no = s.or_(yes, k if x[1] else 0), s.or_(no, 0 if x[1] else k)
                elif x[0] == 'bdd':
                    yes, no = s.or_(yes, s.and_(k, x[1])), s.or_(no, s.and_(k, s.not_(x[1])))
                else:
                    s.ob(False, 'match-value', 'a match is reported', e.where())
        s.ob(v.implies(yes, EQ) and v.implies(ret_eq, yes), 'match', 'a match is reported exactly if an element equals the key')
        s.ob(not v.possible(s.and_(no, ret_eq)), 'match-value', 'a match is reported')
    return short


# ------------------------------------------------------------------ R01
TABLE = [('MemtablePage', 'events'), ('MemtablePage', 'events_count'),
         ('Memtable', 'count'), ('Memtable', 'count_pages')]
ITER = [('MemtableIterator', f) for f in ('current', 'page', 'page_pos')]


def page_index(page):
    """index of an element of a page of events"""
    def f(e):
        e = strip(e)
        if e[0] != 'ld':
            return None
        e = e[1]
        ix = ('i', 0)
        if e[0] == 'idx':
            e, ix = e[1], e[2]
        if e[0] == 'fld' and e[2:4] == ('MemtablePage', 'events') and page(strip(e[1])):
            return ix
        return None
    return f


def compare_order(prog, res):
    """the order of events: by id, then by key bytes, then the shorter key first"""
    s = Spec(prog, res, 'compare', interest=['memcmp'])
    v = s.v
    A, B = ('a', 1), ('a', 2)
    f = lambda o, n: (lambda x: x[0] in ('ld', 'cast') and is_path(x, 'Event.' + n) and origin(x) == o)
    ida, idb = f(A, 'id'), f(B, 'id')
    same = s.rel('eq', ida, idb)
    mc = v.calls('memcmp')
    if not s.one(mc, 'bytes', 'the keys of two events of one id are compared'):
        return
    s.only_if(mc, same, 'id-first', 'keys are compared only within one id')
    za = s.rel('eq', f(A, 'key_size'), 0)
    zb = s.rel('eq', f(B, 'key_size'), 0)
    empty = s.and_(za, zb)
    for e in mc:
        a, b, n = [strip(x) for x in e.args[:3]]
        flip = origin(a) == B
        s.ob(is_path(a, 'Event.data') and is_path(b, 'Event.data') and {origin(a), origin(b)} == {A, B}, 'data',
             'the bytes of both keys are compared', e.where())
        for k, x in gates(e.args[2]):
            x = strip(x)
            for o, other in ((A, B), (B, A)):
                if f(o, 'key_size')(x):
                    k1 = s.and_(k, e.cond)
                    # the signedness of the comparison does not matter for a key size
                    sgn = {t[1] for t in s.b.vars if t[0] == 'lt' and any(f(o, 'key_size')(z) for z in t[2:] if isinstance(z, tuple))
                           and any(f(other, 'key_size')(z) for z in t[2:] if isinstance(z, tuple))}
                    bad = s.or_(*[s.and_(k1, s.rel(g + 'gt', f(o, 'key_size'), f(other, 'key_size'))) for g in sgn or 's'])
                    s.ob(not v.possible(bad), 'size', 'as many bytes as the shorter key has are compared', e.where())
                    break
            else:
                s.ob(False, 'size', 'as many bytes as the shorter key has are compared', e.where())
        r = e.value
        eqb = s.and_(e.cond, v.eq(r, ('i', 0)))
        for k, y in gates(v.ret):
            y = strip(y)
            if y[0] == 'i':
                want = {1: s.rel('ugt', ida, idb), -1: s.rel('ult', ida, idb),
                        0: s.and_(same, empty)}.get(y[1] if y[1] < 2 ** 31 else y[1] - 2 ** 32, 0)
                want0 = s.or_(want, s.and_(eqb, s.rel('eq', f(A, 'key_size'), f(B, 'key_size')))) if y[1] == 0 else want
                s.ob(v.implies(k, want0), 'ids', 'events are ordered by id first', None, v.show(k))
            elif y == strip(r):
                s.ob(v.implies(k, same) and not flip, 'key', 'then by the bytes of the keys')
                s.ob(not v.possible(s.and_(k, eqb, s.not_(s.rel('eq', f(A, 'key_size'), f(B, 'key_size'))))), 'prefix',
                     'a key is not equal to a longer one which starts with it', None, v.show(k))
            else:
                d = lin(y)
                ok = len(d) == 2 and all((f(A, 'key_size')(t) and q == 1) or (f(B, 'key_size')(t) and q == -1) for t, q in d.items())
                s.ob(ok, 'length', 'then the shorter key comes first')
                s.ob(not v.possible(s.and_(k, s.and_(s.not_(eqb), s.not_(s.and_(same, empty))))), 'length-if',
                     'the length decides only between keys which are equal up to it', None, v.show(k))
        rets = s.or_(*[k for k, y in gates(v.ret) if strip(y)[0] != 'i'])
        s.ob(v.implies(s.and_(same, s.not_(empty)), s.or_(rets, eqb)), 'keys-count',
             'events with different keys are not equal', e.where())


def find(prog, res):
    s = Spec(prog, res, 'memtable_find', interest=['compare'], outs=[3])
    v = s.v
    cs = [t for t in s.terms(lambda x: is_call(x, 'compare'))]
    keys = list(v.loops)
    node = None
    for k in keys:
        for p in header_phis(v, k):
            if any(strip(y)[0] == 'ld' and is_path(y, 'RbtreeNode.l') for _, y in v.phi_steps(p)):
                node = (k, p)
    if not s.ob(node is not None and len(cs) == 1, 'descend', 'the page tree is descended'):
        return
    key, n = node
    t = cs[0]
    a, b = strip(arg(t, 1)), strip(arg(t, 2))
    flip = b != ('a', 2)
    el = b if flip else a
    first = page_index(lambda x: strip(x) == n or any(y == n for y in walk(x)))
    s.ob(first(el) == ('i', 0) and (a if flip else b) == ('a', 2), 'first', 'the key is compared with the first event of a page')
    LT, GT = v.cmp('slt', t, ('i', 0)), v.cmp('sgt', t, ('i', 0))
    if flip:
        LT, GT = GT, LT
    init = v.phi(n)[0]
    s.ob(len(init) == 1 and is_path(init[0], 'Rbtree.root') and origin(init[0]) == ('a', 0), 'root', 'from the root')
    s.ob(v.equal(v.body(key), s.and_(v.entry(key), s.not_(v.eq(n, ('i', 0))))), 'end', 'down to a leaf')
    for k, y in v.phi_steps(n):
        r, l = is_path(y, 'RbtreeNode.r'), is_path(y, 'RbtreeNode.l')
        s.ob(base_of(plain(y), 'RbtreeNode') == n and (r or l), 'child', 'by the children of the node')
        if r or l:
            s.ob(v.implies(k, LT if r else GT), 'side', 'to the right if the page begins below the key, to the left if above',
                 None, v.show(k))
    st = [e for e in v.events if e.kind == 'store' and e.name == ('arg', 3)]
    inl = [e for e in st if e.loops]
    s.ob(bool(inl) and all(strip(x) == n for e in inl for _, x in gates(e.args[1])), 'match', 'the last node visited is returned')
    for e in inl:
        s.ob(v.equal(e.cond, v.body(key)), 'every', 'it is updated with every node', e.where())
    for k, y in gates(v.ret):
        y = strip(y)
        if y == ('i', 0):
            # an exact match
            s.ob(v.implies(k, v.eq(t, ('i', 0))), 'zero', 'zero means that the page begins with the key')
        elif y == strip(t):
            s.ob(not flip, 'order', 'the order of the last node and the key is returned')
        elif y[0] == 'phi':
            i, st_ = v.phi(y)
            s.ob(not flip and i == [('i', 0)] and all(strip(z) == strip(t) for z in st_), 'order',
                 'the order of the last node and the key is returned')
        else:
            s.ob(False, 'order', 'the order of the last node and the key is returned')


def search_page(prog, res):
    s = Spec(prog, res, 'memtable_search_page', interest=['rbtree_prev', 'rbtree_min', 'memtable_find'])
    v = s.v
    f = v.calls('memtable_find')
    one = s.rel('eq', lambda x: is_path(x, 'Memtable.count_pages'), 1)
    if not s.one(f, 'find', 'the page of a key is searched in the tree'):
        return
    s.must(s.not_(one), f, 'find-if', 'unless there is one page only')
    for e in f:
        s.ob(strip(e.args[2]) == ('a', 1), 'key', 'for the key', e.where())
        above = v.cmp('sgt', e.value, ('i', 0))
        node = strip(e.args[3])
        isnode = lambda y: strip(y)[0] == 'ld' and strip(strip(y)[1]) == node
        for k, y in gates(v.ret):
            y = strip(y)
            while y[0] == 'fld' and y[2] == 'MemtablePage':
                y = strip(y[1])
            if is_call(y, 'rbtree_min'):
                s.ob(v.implies(k, one), 'min', 'the first page is taken only if it is the only one', None, v.show(k))
            elif is_call(y, 'rbtree_prev'):
                s.ob(v.implies(k, above) and isnode(arg(y, 1)), 'prev',
                     'a page which begins above the key is replaced by the one before it', None, v.show(k))
            elif isnode(y):
                pv = s.terms(lambda x: is_call(x, 'rbtree_prev') and isnode(arg(x, 1)))
                none = s.or_(*[v.eq(x, ('i', 0)) for x in pv])
                s.ob(v.implies(s.and_(k, above), none), 'keep', 'unless it is the first page', None, v.show(k))
            else:
                s.ob(False, 'page', 'the page found is returned', None, str(y)[:200])


def search_in_page(prog, res):
    s = Spec(prog, res, 'memtable_search', interest=['compare'], outs=[3])
    binary_search(s, page_index(lambda p: p == ('a', 1)), lambda e: e == ('a', 2), lambda t: is_path(t, 'MemtablePage.events_count'),
                  True, 3)


def insert(prog, res):
    s = Spec(prog, res, 'memtable_insert', interest=['memtable_search', 'memtable_page_allocate', 'llvm.memmove', 'memtable_sync'],
             stores=[('MemtablePage', 'events'), ('MemtablePage', 'events_count'), ('Memtable', 'count')], outs=[2])
    v = s.v
    sr, al = v.calls('memtable_search'), v.calls('memtable_page_allocate')
    if not s.one(sr, 'search', 'the position in the page is searched') or not s.one(al, 'split', 'a full page is split'):
        return
    sr = sr[0]
    page = ('a', 1)
    s.ob(strip(sr.args[1]) == page and strip(sr.args[2]) == ('a', 3), 'search-key', 'for the event', sr.where())
    pos = strip(sr.value)
    new = [strip(e.value) for e in al]
    match = s.test(lambda x: x[0] == 'ld' and strip(x[1]) == strip(sr.args[3]))
    sane = s.not_(v.cmp('slt', pos, ('i', 0))) if s.compared(pos, ('i', 0)) or s.compared(pos, ('i', 1)) else 1
    fld = lambda o, n: (lambda x: x[0] in ('ld', 'cast') and is_path(x, 'MemtablePage.' + n) and origin(x) == o)
    cnt = ('ld', ('fld', page, 'MemtablePage', 'events_count'))
    iscnt = lambda x: plain(x) == cnt
    SP = lambda x: is_path(x, 'Memtable.size_split')
    PG = lambda x: is_path(x, 'Memtable.size_page')
    eq = any(a[0] == 'eq' and (iscnt(a[1]) and PG(a[2]) or iscnt(a[2]) and PG(a[1])) for a in s.b.vars if isinstance(a[2], tuple))
    full = s.rel('eq' if eq else 'sge', iscnt, PG)
    grow = s.and_(sane, s.not_(match))
    s.only_if(al, s.and_(s.not_(match), full), 'split-if', 'a page is split only if it is full and gets a new event')
    s.must(s.and_(grow, full), al, 'split-full', 'a full page is split')
    # the position in linear form
    low = s.rel('slt', lambda x: x == pos, SP)
    eqs = s.rel('eq', lambda x: x == pos, SP)
    mv = v.calls('llvm.memmove', 'memmove', 'memcpy', 'llvm.memcpy')
    st = v.stores_of('MemtablePage', 'events')
    cs = v.stores_of('MemtablePage', 'events_count')
    sy = v.calls('memtable_sync')

    def ev(e):
        """(page, index) of an address in the events of a page"""
        d = lin(e)
        t = [x for x in d if x != () and x[0] == 'fld' and x[2:4] == ('MemtablePage', 'events')]
        if len(t) != 1 or d[t[0]] != 1:
            return None
        d = dict(d)
        del d[t[0]]
        return strip(t[0][1]), d
    sp = next((plain(x) for e in mv + cs for a in e.args for _, z in gates(a) for x in walk(z)
               if SP(x) and x[0] == 'ld'), None)
    pg = next((plain(x) for e in mv + cs for a in e.args for _, z in gates(a) for x in walk(z)
               if PG(x) and x[0] == 'ld'), None)
    s.ob(sp is not None and pg is not None, 'sizes', 'a split divides the page at the configured position')
    if sp is None or pg is None:
        return
    P = {plain(pos): 1}
    R = new[0]
    cases = [('room', s.and_(grow, s.not_(full)), page, P, [{cnt: 1}]),
             ('left', s.and_(grow, s.and_(full, s.and_(low, s.not_(eqs)))), page, P, [{sp: 1}]),
             ('right', s.and_(grow, s.and_(full, s.and_(s.not_(low), s.not_(eqs)))), R, ladd(P, {sp: 1}, -1), [ladd({pg: 1}, {sp: 1}, -1)]),
             ('edge', s.and_(grow, s.and_(full, eqs)), None, None, None)]
    num = lambda x: {k: q for k, q in lin(x).items() if q}
    for name, K, target, p, C in cases:
        if not v.possible(K):
            continue
        if name == 'edge':
            # between the halves: at the end of the left one or at the start of the right one
            rt = [e for e in st if any(ev(x) and ev(x)[0] == R for _, x in gates(e.args[0])) and v.possible(s.and_(e.cond, K))]
            target, p, C = (R, ladd(P, {sp: 1}, -1), [ladd({pg: 1}, {sp: 1}, -1)]) if rt else (page, P, [{sp: 1}])
        zero = [p] + ([{}] if name == 'edge' else [])
        here = [e for e in st if v.possible(s.and_(e.cond, K))]
        s.must(K, here, 'store-' + name, 'a new event is stored')
        same_p = lambda d: d == p or name == 'edge' and (d == {} and target == R or d == {sp: 1} and target == page)
        for e in here:
            ok = all(ev(x) and ev(x)[0] == target and same_p(ev(x)[1]) for x in s.leaves(e.args[0], s.and_(K, e.cond)))
            ok = ok and all(strip(x) == ('a', 3) for x in s.leaves(e.args[1], s.and_(K, e.cond)))
            s.ob(ok, 'at-' + name, 'a new event is stored at its position (%s)' % name, e.where())
        # the events behind it are moved
        moves = [m for m in mv if v.possible(s.and_(m.cond, K)) and any(o.order > m.order for o in here)
                 and all(ev(x) and same_p(ladd(ev(x)[1], {(): 1}, -1)) and ev(x)[0] == target
                         for x in s.leaves(m.args[0], s.and_(K, m.cond)))]
        for m in moves:
            k = s.and_(K, m.cond)
            ok = all(ev(x) and ev(x)[0] == target and same_p(ev(x)[1]) for x in s.leaves(m.args[1], k))
            ok = ok and all(any(num(x) == {t: 8 * q for t, q in ladd(c, p, -1).items()} for c in C) or
                            name == 'edge' and any(num(x) == {t: 8 * q for t, q in c.items()} for c in C)
                            for x in s.leaves(m.args[2], k))
            s.ob(ok, 'shift-' + name, 'the events behind the position move by one (%s)' % name, m.where())
        want = None
        for c in C:
            rem = ladd(c, p, -1)
            for t in s.terms(lambda x: num(x) in (rem, {k: 8 * q for k, q in rem.items()})):
                g = v.cmp('sgt', t, ('i', 0))
                want = g if want is None else s.or_(want, g)
            f = [(t, q) for t, q in rem.items() if t != ()]
            if want is None and name != 'left':
                g = s.lrel('gt', f)
                want = None if g == s.b.var(('eq', ('fresh', s.nfresh), ('i', 1))) else g
        if name != 'edge' and target is not R:
            s.must(s.and_(K, want) if want is not None else K, moves, 'shift-if-' + name,
                   'they move whenever there are any (%s)' % name)
        elif name == 'right':
            s.must(s.and_(K, want) if want is not None else K, moves, 'shift-if-' + name,
                   'they move whenever there are any (%s)' % name)
        # counts
        fin = {}
        for e in cs:
            for c, a in gates(e.args[0]):
                a = strip(a)
                if a[0] == 'fld':
                    fin.setdefault(strip(a[1]), []).append(e)
        for o, base in ((page, {cnt: 1} if name == 'room' else {sp: 1}), (R, ladd({pg: 1}, {sp: 1}, -1))):
            if o == R and name == 'room':
                continue
            wantc = ladd(base, {(): 1}) if o == target else base
            got = []
            rest = K
            for e in sorted(fin.get(o, []), key=lambda e: -e.order):
                for c, x in gates(e.args[1]):
                    k = s.and_(rest, s.and_(e.cond, c))
                    if v.possible(k):
                        got.append(num(x))
                rest = s.and_(rest, s.not_(e.cond))
            ok = bool(got) and all(g == wantc for g in got) and not v.possible(rest)
            s.ob(ok, 'count-%s' % name, 'the number of events of both halves is right (%s)' % name, None, str(got)[:300])
        # cursors
        it = s.positive(lambda x: is_path(x, 'Memtable.iterators_count'))
        ys = [e for e in sy if v.possible(s.and_(e.cond, K))]
        s.must(s.and_(K, it), ys, 'sync', 'open cursors are told about a new event')
        for e in ys:
            k = s.and_(K, e.cond)
            ok = all(strip(x) == page for x in s.leaves(e.args[1], k)) \
                and all(strip(x) == (('i', 0) if name == 'room' else R) for x in s.leaves(e.args[2], k)) \
                and all(strip(x) == target for x in s.leaves(e.args[3], k)) and all(same_p(num(x)) for x in s.leaves(e.args[4], k))
            s.ob(ok, 'sync-' + name, 'with the page, its right half, and the page and position of the event (%s)' % name, e.where())
            s.ob(all(o.order < e.order for o in here), 'sync-after', 'after it has been stored', e.where())
    # the right half is copied
    half = [m for m in mv if all(ev(x) == (R, {}) for x in s.leaves(m.args[0], m.cond))
            and all(ev(x) == (page, {sp: 1}) for x in s.leaves(m.args[1], m.cond))]
    s.must(s.and_(s.not_(match), full), half, 'half', 'the right half of a split page is copied to the new page')
    for m in half:
        s.ob(all(num(x) == {pg: 8, sp: -8} for x in s.leaves(m.args[2], m.cond)), 'half-size', 'completely', m.where())
        s.ob(all(e.order > m.order for e in st if v.possible(s.and_(e.cond, s.not_(match)))), 'half-before',
             'before the event is stored', m.where())
    # replace
    rp = [e for e in st if v.possible(s.and_(e.cond, match))]
    s.must(s.and_(sane, match), rp, 'replace', 'an event of a known key replaces the one stored')
    for e in rp:
        k = s.and_(e.cond, s.and_(match, sane))
        s.ob(all(ev(x) == (page, P) for x in s.leaves(e.args[0], k)) and all(strip(x) == ('a', 3) for x in s.leaves(e.args[1], k)),
             'replace-at', 'at its position', e.where())
    s.never([e for e in cs + mv], match, 'replace-only', 'without changing anything else')
    it = s.positive(lambda x: is_path(x, 'Memtable.iterators_count'))
    rs = [e for e in sy if v.possible(s.and_(e.cond, match))]
    s.must(s.and_(match, s.and_(sane, it)), rs, 'sync', 'open cursors are told about a replaced event')
    for e in rs:
        k = s.and_(e.cond, s.and_(match, sane))
        s.ob(all(strip(x) == page for x in s.leaves(e.args[1], k)) and all(strip(x) == ('i', 0) for n in (2, 3) for x in s.leaves(e.args[n], k)),
             'sync-replace', 'without a split and an insertion', e.where())
    # results
    for k, y in gates(v.ret):
        y = strip(y)
        if y == ('i', 0):
            s.ob(not v.possible(s.and_(k, match)), 'prev', 'the replaced event is returned', None, v.show(k))
        else:
            s.ob(y[0] == 'ld' and ev(y[1]) == (page, P) and v.implies(k, match), 'prev', 'the replaced event is returned')
    out = [e for e in v.events if e.kind == 'store' and e.name == ('arg', 2)]
    s.must(s.and_(grow, full), out, 'report', 'the right half is reported to the caller')
    for e in out:
        s.ob(all(strip(x) == R for x in s.leaves(e.args[1], s.and_(e.cond, s.and_(full, s.not_(match)))))
             and all(strip(x) == ('i', 0) for x in s.leaves(e.args[1], s.and_(e.cond, s.or_(s.not_(full), match)))), 'report-half',
             'only a right half is reported', e.where())
    ct = v.stores_of('Memtable', 'count')
    s.must(s.not_(match), ct, 'total', 'a new event is counted')
    s.never(ct, match, 'total-replace', 'a replaced one is not')


def table_set(prog, res):
    s = Spec(prog, res, 'memtable_set', interest=['memtable_search_page', 'memtable_page_allocate', 'memtable_insert', 'memtable_find',
                                                  'rbtree_set'], stores=TABLE)
    v = s.v
    none = s.rel('eq', lambda x: is_path(x, 'Memtable.count_pages'), 0)
    al, ins, sp = v.calls('memtable_page_allocate'), v.calls('memtable_insert'), v.calls('memtable_search_page')
    fd, rs = v.calls('memtable_find'), v.calls('rbtree_set')
    s.exactly(al, none, 'root', 'the first event creates the first page')
    s.exactly(ins, s.not_(none), 'insert', 'every other event is inserted into a page')
    for e in ins:
        s.ob(any(same(e.args[1], x.value) and strip(x.args[1]) == ('a', 1) for x in sp) and strip(e.args[3]) == ('a', 1), 'page',
             'into the page of its key', e.where())
    if not ins or not al:
        return
    split = s.test(lambda x: x[0] == 'ld' and strip(x[1]) == strip(ins[0].args[2]))
    link = [e for e in rs if v.possible(s.and_(e.cond, s.not_(none)))]
    s.exactly(link, s.and_(split, s.not_(none)), 'link', 'the right half of a split page is linked into the tree')
    isnew = lambda x: any(y[0] == 'ld' and strip(y[1]) == strip(ins[0].args[2]) for y in walk(x))
    for e in link:
        fs = [f for f in fd if same(e.args[2], f.value)]
        s.ob(isnew(e.args[3]), 'link-page', 'that page', e.where())
        ok = bool(fs)
        for f in fs:
            first = page_index(lambda x: isnew(x))
            ok = ok and first(f.args[2]) == ('i', 0) and strip(e.args[1])[0] == 'ld' and strip(strip(e.args[1])[1]) == strip(f.args[3])
        s.ob(ok, 'link-at', 'at the position of its first event', e.where())
    first = [e for e in rs if v.possible(s.and_(e.cond, none))]
    s.exactly(first, none, 'root-link', 'the first page is linked into the tree')
    st = v.stores_of('MemtablePage', 'events')
    s.exactly(st, none, 'root-event', 'it contains the event')
    for e in st:
        s.ob(page_index(lambda x: x == strip(al[0].value))(('ld', strip(e.args[0]))) == ('i', 0) and strip(e.args[1]) == ('a', 1),
             'root-event-at', 'as the first one', e.where())
    pc = v.stores_of('Memtable', 'count_pages')
    s.exactly(pc, s.or_(none, split), 'pages', 'a new page is counted')
    for e in pc:
        s.ob(all(lin(x).get((), 0) == 1 and len(lin(x)) == 2 for _, x in gates(e.args[1])), 'pages-one', 'once', e.where())
    ec = v.stores_of('MemtablePage', 'events_count')
    s.exactly(ec, none, 'root-count', 'the first page has one event')
    s.exactly(v.stores_of('Memtable', 'count'), none, 'count', 'which is counted')
    for k, y in gates(v.ret):
        if strip(y) == ('i', 0):
            s.ob(v.implies(k, none), 'prev', 'the replaced event is returned')
        else:
            s.ob(same(y, ins[0].value), 'prev', 'the replaced event is returned')


def same(x, val):
    return val is not None and all(strip(y) == strip(val) for _, y in gates(x))


def table_unset(prog, res):
    s = Spec(prog, res, 'memtable_unset', interest=['memtable_search_page', 'memtable_search', 'rbtree_remove', 'llvm.memmove',
                                                    'memtable_sync_unset'], stores=TABLE)
    v = s.v
    sr, sp = v.calls('memtable_search'), v.calls('memtable_search_page')
    if not s.one(sr, 'search', 'the event is searched'):
        return
    sr = sr[0]
    s.ob(any(same(sr.args[1], x.value) and strip(x.args[1]) == ('a', 1) for x in sp) and strip(sr.args[2]) == ('a', 1), 'page',
         'in the page of its key', sr.where())
    page, pos = plain(strip(sr.args[1])), plain(strip(sr.value))
    cnt = ('ld', ('fld', page, 'MemtablePage', 'events_count'))
    match = s.test(lambda x: x[0] == 'ld' and strip(x[1]) == strip(sr.args[3]))
    found = s.and_(sr.cond, match)
    ec = v.stores_of('MemtablePage', 'events_count')
    s.exactly(ec, found, 'count', 'a removed event leaves its page')
    for e in ec:
        s.ob(lin(e.args[1]) == {cnt: 1, (): -1}, 'count-one', 'alone', e.where())
    tc = v.stores_of('Memtable', 'count')
    s.exactly(tc, found, 'total', 'and the table')
    for e in tc:
        s.ob(lin(e.args[1]).get(()) == -1, 'total-one', 'alone', e.where())
    zero = None
    for t in s.terms(lambda x: lin(x) == {cnt: 1, (): -1}):
        zero = s.or_(zero or 0, v.eq(t, ('i', 0)))
    if zero is None:
        zero = s.rel('eq', lambda x: plain(x) == cnt, 1)
    rm = v.calls('rbtree_remove')
    s.exactly(rm, s.and_(found, zero), 'unlink', 'a page is unlinked exactly if it gets empty')
    for e in rm:
        s.ob(any(plain(y) == page for y in walk(plain(e.args[1]))), 'unlink-page', 'that page', e.where())
    s.exactly(v.stores_of('Memtable', 'count_pages'), s.and_(found, zero), 'pages', 'and not counted any more')
    mv = v.calls('llvm.memmove')
    ev = lambda x: ladd(lin(x), {('fld', page, 'MemtablePage', 'events'): 1}, -1)
    for m in mv:
        s.ob(ev(m.args[0]) == {pos: 1}, 'shift-to', 'the events behind it move to its position', m.where())
        s.ob(ev(m.args[1]) == {pos: 1, (): 1}, 'shift-from', 'from the position behind it', m.where())
        s.ob(lin(m.args[2]) == {cnt: 8, pos: -8, (): -8}, 'shift-size', 'completely', m.where())
    want = None
    rem = {cnt: 1, pos: -1, (): -1}
    for t in s.terms(lambda x: lin(x) in (rem, {k: 8 * q for k, q in rem.items()})):
        want = s.or_(want or 0, v.cmp('sgt', t, ('i', 0)))
    if want is None:
        want = s.lrel('gt', [(cnt, 1), (pos, -1)], -1)
        want = want if s.made(want) else None
    k = s.and_(found, s.not_(zero))
    s.must(s.and_(k, want) if want is not None else k, mv, 'shift', 'whenever there are any')
    st = v.stores_of('MemtablePage', 'events')
    for e in st:
        s.ob(all(m.order > e.order for m in mv) and ev(e.args[0]) == {pos: 1}, 'only', 'no other event is changed', e.where())
    sy = v.calls('memtable_sync_unset')
    it = s.positive(lambda x: is_path(x, 'Memtable.iterators_count'))
    s.must(s.and_(k, it), sy, 'sync', 'open cursors are told about a removed event')
    for e in sy:
        s.ob(plain(strip(e.args[1])) == page and plain(strip(e.args[2])) == pos, 'sync-at', 'with its page and position', e.where())


def seek(prog, res):
    s = Spec(prog, res, 'memtable_seek', interest=['memtable_search_page', 'memtable_search', 'rbtree_min'], outs=[2, 3])
    v = s.v
    none = s.rel('eq', lambda x: is_path(x, 'Memtable.count_pages'), 0)
    nokey = s.rel('eq', lambda x: x == ('a', 1), 0)
    st = {n: [e for e in v.events if e.kind == 'store' and e.name == ('arg', n)] for n in (2, 3)}
    sr = v.calls('memtable_search')
    for n in (2, 3):
        s.must(s.not_(none), st[n], 'set', 'page and position are set')
    for c, x in s.final(st[2]):
        x = strip(x)
        while x[0] == 'fld' and x[2] == 'MemtablePage':
            x = strip(x[1])
        if is_call(x, 'rbtree_min'):
            s.ob(v.implies(c, nokey), 'first', 'without a key the first page is used', None, v.show(c))
        else:
            s.ob(is_call(x, 'memtable_search_page') and strip(arg(x, 1)) == ('a', 1) and not v.possible(s.and_(c, nokey)), 'page',
                 'the page of the key is used', None, v.show(c))
    for c, x in s.final(st[3]):
        x = strip(x)
        if x == ('i', 0):
            s.ob(v.implies(c, nokey), 'zero', 'without a key the first position is used', None, v.show(c))
        else:
            ok = is_call(x, 'memtable_search') and is_call(arg(x, 1), 'memtable_search_page') and strip(arg(x, 2)) == ('a', 1)
            s.ob(ok and not v.possible(s.and_(c, nokey)), 'pos', 'the position of the key is used', None, v.show(c))
    if sr:
        m = s.test(lambda x: x[0] == 'ld' and strip(x[1]) == strip(sr[0].args[3]))
        s.ob(v.implies(ret_true(s), s.and_(sr[0].cond, m)), 'match', 'a match is reported only if an event equals the key')


def ret_true(s):
    """condition under which a function returns a value other than zero"""
    v = s.v
    out = 0
    for c, x in gates(v.ret):
        x = strip(x)
        if x[0] == 'i':
            out = s.or_(out, c if x[1] else 0)
        elif x[0] == 'bdd':
            out = s.or_(out, s.and_(c, x[1]))
        else:
            out = s.or_(out, s.and_(c, s.not_(v.eq(x, ('i', 0)))))
    return out


def max_event(prog, res):
    s = Spec(prog, res, 'memtable_max', interest=['rbtree_max'])
    v = s.v
    none = s.rel('eq', lambda x: is_path(x, 'Memtable.count_pages'), 0)
    for c, x in gates(v.ret):
        x = strip(x)
        if x == ('i', 0):
            s.ob(v.implies(c, none), 'none', 'an event is returned unless the table is empty')
            continue
        last = page_index(lambda p: any(is_call(y, 'rbtree_max') for y in walk(p)))(x)
        d = lin(last) if last is not None else {}
        s.ob(len(d) == 2 and d.get(()) == -1 and any(t != () and is_path(t, 'MemtablePage.events_count') for t in d), 'last',
             'the last event of the last page is returned')


def table_walk(prog, res):
    s = Spec(prog, res, 'memtable_iterator_open', interest=['memtable_seek', 'rbtree_next', 'list_append'],
             stores=ITER)
    v = s.v
    some = s.positive(lambda x: is_path(x, 'Memtable.count'))
    sk = v.calls('memtable_seek')
    s.exactly(sk, some, 'seek', 'an iterator is positioned at the key unless the table is empty')
    for e in sk:
        s.ob(strip(e.args[1]) == ('a', 2) and strip(e.args[0]) == ('a', 1) and is_path(e.args[2], 'MemtableIterator.page')
             and is_path(e.args[3], 'MemtableIterator.page_pos'), 'seek-at', 'at the key', e.where())
    pos = lambda x: x[0] == 'ld' and is_path(x, 'MemtableIterator.page_pos')
    cnt = lambda x: is_path(x, 'MemtablePage.events_count')
    past = s.rel('sge', pos, cnt)
    nx = v.calls('rbtree_next')
    s.exactly(nx, s.and_(some, past), 'next', 'a position past the last event of the page continues with the next page')
    for e in nx:
        s.ob(has_path(e.args[1], 'MemtableIterator.page'), 'next-of', 'behind the page found', e.where())
    got = s.or_(*[s.not_(v.eq(e.value, ('i', 0))) for e in nx])
    cur = v.stores_of('MemtableIterator', 'current')
    at = [e for e in cur if any(strip(x) != ('i', 0) for _, x in gates(e.args[1]))]
    s.exactly(at, s.and_(some, s.or_(s.not_(past), got)), 'current', 'the iterator has an event if there is one at or behind the key')
    for e in at:
        isnext = lambda p: any(is_call(y, 'rbtree_next') for y in walk(p))
        ok = True
        for c, x in gates(e.args[1]):
            k = s.and_(c, e.cond)
            nxt = page_index(isnext)(x)
            if nxt is not None:
                ok = ok and (nxt == ('i', 0) or pos(nxt)) and v.implies(k, past)
            else:
                ix = page_index(lambda p: is_path(p, 'MemtableIterator.page'))(x)
                ok = ok and ix is not None and pos(strip(ix)) and not v.possible(s.and_(k, past))
        s.ob(ok, 'event', 'the event at the position', e.where())
    state_agrees(s, v, 'rbtree_next', s.and_(some, s.and_(past, got)), max([e.order for e in sk] or [-1]))

    s = Spec(prog, res, 'memtable_iterator_next', interest=['rbtree_next'], stores=ITER)
    v = s.v
    has = s.not_(s.rel('eq', lambda x: is_path(x, 'MemtableIterator.current'), 0))
    more = s.lrel('lt', [(lambda x: is_path(x, 'MemtableIterator.page_pos'), 1), (lambda x: is_path(x, 'MemtablePage.events_count'), -1)], 1)
    nx = v.calls('rbtree_next')
    s.exactly(nx, s.and_(has, s.not_(more)), 'page', 'the next page is used behind the last event of a page')
    got = s.or_(*[s.not_(v.eq(e.value, ('i', 0))) for e in nx])
    for e in nx:
        s.ob(has_path(e.args[1], 'MemtableIterator.page'), 'page-of', 'behind the current one', e.where())
    fin = s.final(v.stores_of('MemtableIterator', 'current'))
    for c, x in fin:
        if strip(x) == ('i', 0):
            s.ob(v.implies(c, s.and_(has, s.and_(s.not_(more), s.not_(got)))), 'end', 'the iterator ends behind the last event only', None,
                 v.show(c))
            continue
        nxt = page_index(lambda p: any(is_call(y, 'rbtree_next') for y in walk(p)))(x)
        ix = page_index(lambda p: is_path(p, 'MemtableIterator.page'))(x)
        if nxt is not None:
            s.ob(nxt == ('i', 0) and not v.possible(s.and_(c, more)), 'first', 'it continues with the first event of the next page')
        else:
            d = lin(ix) if ix is not None else {}
            s.ob(len(d) == 2 and d.get(()) == 1 and any(t != () and is_path(t, 'MemtableIterator.page_pos') for t in d)
                 and v.implies(c, more), 'step', 'it continues with the next event of the page')
    s.must(has, v.stores_of('MemtableIterator', 'current'), 'moves', 'an iterator moves on')
    state_agrees(s, v, 'rbtree_next', s.and_(has, s.and_(s.not_(more), got)))
    ps = v.stores_of('MemtableIterator', 'page_pos')
    for c, x in s.final(ps):
        if strip(x) == ('i', 0):
            s.ob(not v.possible(s.and_(c, more)), 'pos-zero', 'the position starts over with a page')
        else:
            d = lin(x)
            s.ob(len(d) == 2 and d.get(()) == 1 and v.implies(c, more), 'pos-step', 'the position follows')
    s.must(has, ps, 'pos', 'the position follows')


def state_agrees(s, v, nextname, cond, since=-1):
    """page and position are those of the next page when it is used"""
    for f in ('page', 'page_pos'):
        got = False
        rest = cond
        for e in sorted(v.stores_of('MemtableIterator', f), key=lambda e: -e.order):
            if e.order < since:
                continue
            for c, x in gates(e.args[1]):
                k = s.and_(rest, s.and_(c, e.cond))
                if not v.possible(k):
                    continue
                x = strip(x)
                if f == 'page':
                    ok = any(is_call(y, nextname) for y in walk(x))
                else:
                    ok = x == ('i', 0)
                s.ob(ok, 'state-' + f, 'page and position agree with the event', e.where())
                got = True
            rest = s.and_(rest, s.not_(e.cond))
        s.ob(got and not v.possible(rest), 'state-set-' + f, 'page and position agree with the event')


def tables(prog, res):
    s = Spec(prog, res, 'memtable_page_allocate', interest=['heap_allocate'], stores=[('MemtablePage', 'events_count')])
    v = s.v
    for e in s.one(v.calls('heap_allocate'), 'alloc', 'a page is allocated'):
        d = lin(e.args[1])
        head = prog.structs['MemtablePage']['size']
        ok = len(d) == 2 and d.get((), 0) >= head and any(t != () and is_path(t, 'Memtable.size_page') and q >= 8 for t, q in d.items())
        s.ob(ok, 'size', 'a page has room for all of its events', e.where())
    s.ob(all(strip(x) == ('i', 0) for e in v.stores_of('MemtablePage', 'events_count') for _, x in gates(e.args[1]))
         and bool(v.stores_of('MemtablePage', 'events_count')), 'empty', 'a new page is empty')
    s = Spec(prog, res, 'part_allocate', interest=['memtable_init'])
    for e in s.one(s.v.calls('memtable_init'), 'init', 'the memory tables are initialised'):
        a, b = strip(e.args[1]), strip(e.args[2])
        s.ob(a[0] == 'i' and b[0] == 'i' and 0 < b[1] < a[1], 'sizes', 'a page is split into two parts with events', e.where())


@rule('R01')
def r01(prog, res):
    parts(prog, res, compare_order, find, search_page, search_in_page, insert, table_set, table_unset, seek, max_event, table_walk, tables)


# ------------------------------------------------------------------ R02
def region_index(e):
    """index of the region an address or load names in the index data"""
    e = strip(e)
    while e[0] in ('ld', 'fld') and not (e[0] == 'ld' and is_path(e, 'Buf.start')):
        e = strip(e[1])
    if e[0] == 'idx' and is_path(e[1], 'Buf.start'):
        return e[2]
    if e[0] == 'ld' and is_path(e, 'Buf.start'):
        return ('i', 0)
    return None


def region_max(e):
    e = strip(e)
    return region_index(e) if e[0] == 'ld' and is_path(e, 'IndexRegion.max') else None


def index_walk(prog, res):
    s = Spec(prog, res, 'index_iterator_search')
    clamped = binary_search(s, region_max, lambda e: e == ('a', 1), lambda t: is_path(t, 'Index.regions'), False)

    s = Spec(prog, res, 'index_iterator_open', interest=['index_iterator_search'], stores=[('IndexIterator', 'current'), ('IndexIterator', 'pos')])
    v = s.v
    some = s.and_(s.not_(s.rel('eq', lambda x: x == ('a', 1), 0)), s.not_(s.rel('eq', lambda x: is_path(x, 'Index.regions'), 0)))
    nokey = s.rel('eq', lambda x: x == ('a', 3), 0)
    sr = v.calls('index_iterator_search')
    s.exactly(sr, s.and_(some, s.not_(nokey)), 'search', 'the region of an id is searched')
    for e in sr:
        s.ob(strip(e.args[1])[0] == 'ld' and is_path(e.args[1], 'Event.id') and origin(e.args[1]) == ('a', 3), 'id', 'by the id of the key', e.where())
    found = strip(sr[0].value) if sr else None
    below = 0
    for x in s.terms(lambda t: region_max(t) is not None and strip(region_max(t)) == found):
        below = s.or_(below, s.or_(*[v.cmp('ult', x, y) for y in s.terms(lambda t: is_path(t, 'Event.id')) if s.compared(x, y)] or [0]))
    n = lambda t: is_path(t, 'Index.regions')
    P = lambda x: lin(x)
    F = {plain(found): 1} if found else None
    for nm, cond in (('current', None), ('pos', None)):
        fin = s.final(v.stores_of('IndexIterator', nm))
        got = 0
        for c, x in fin:
            x = strip(x)
            if nm == 'current':
                ix = region_index(x) if x != ('i', 0) else None
            else:
                ix = x
            c1 = s.and_(c, some)
            if not v.possible(c1):
                continue
            k0, k1 = s.and_(c1, nokey), s.and_(c1, s.not_(nokey))
            if ix is None:
                s.ob(not v.possible(k0), 'first', 'without a key the first region is used')
                over = s.rel('ge', lambda t: P(t) in (F, ladd(F, {(): 1})), n)
                s.ob(v.implies(k1, over), 'end', 'with a key there is no region only behind the last one', None, v.show(k1))
                continue
            d = P(ix)
            if v.possible(k0):
                s.ob(d == {}, 'first', 'without a key the first region is used')
            if v.possible(k1):
                ok = d == F and (not clamped or not v.possible(s.and_(k1, below))) \
                    or d == ladd(F, {(): 1}) and v.implies(k1, below)
                s.ob(ok, 'at-' + nm, 'the first region which ends at or above the id is used', None, v.show(k1))
        s.ob(v.implies(some, s.or_(*[c for c, _ in fin] or [0])), 'set-' + nm, 'the iterator is positioned')

    s = Spec(prog, res, 'index_iterator_next', stores=[('IndexIterator', 'current'), ('IndexIterator', 'pos')])
    v = s.v
    ps = v.stores_of('IndexIterator', 'pos')
    isp = lambda x: lin(x).get(()) == 1 and len(lin(x)) == 2 and any(t != () and is_path(t, 'IndexIterator.pos') for t in lin(x))
    s.must(1, ps, 'pos', 'the next region is used')
    for e in ps:
        s.ob(all(isp(x) for _, x in gates(e.args[1])), 'pos-one', 'the next region is used', e.where())
    for c, x in s.final(v.stores_of('IndexIterator', 'current')):
        x = strip(x)
        over = s.or_(s.lrel('ge', [(lambda t: is_path(t, 'IndexIterator.pos'), 1), (n, -1)], 1))
        if x == ('i', 0):
            s.ob(v.implies(c, over), 'end', 'the iterator ends behind the last region only', None, v.show(c))
        else:
            s.ob(region_index(x) is not None and isp(region_index(x)) and v.implies(c, s.not_(over)), 'current', 'the region at the position is used',
                 None, v.show(c))


def region_walk(prog, res):
    s = Spec(prog, res, 'region_iterator_search', interest=['compare', 'region_get'], outs=[2])

    def ri(e):
        e = strip(e)
        return arg(e, 1) if is_call(e, 'region_get') and is_path(arg(e, 0), 'RegionIterator.region') else None
    binary_search(s, ri, lambda e: e == ('a', 1), lambda t: is_path(t, 'Region.events'), True, 2)


def region_layout(prog, res):
    s = Spec(prog, res, 'region_get')
    v = s.v
    head = prog.structs['Region']['size']
    for c, x in gates(v.ret):
        d = lin_bytes(x)
        # region + header + 4 * events + offset[pos]
        ev = [t for t in d if t != () and is_path(t, 'Region.events')]
        off = [t for t in d if t != () and t[0] == 'ld' and t not in ev]
        base = [t for t in d if t == ('a', 0)]
        ok = len(d) == 4 and len(ev) == len(off) == len(base) == 1 and d.get(()) == head and d[ev[0]] == 4 and d[off[0]] == 1 and d[base[0]] == 1
        if ok:
            o = lin_bytes(off[0][1])
            ok = o == {('a', 0): 1, (): head, ('a', 1): 4}
        s.ob(ok, 'layout', 'an event is found behind the offsets, at its offset', None, str(d)[:300])


def region_pos(prog, res):
    s = Spec(prog, res, 'region_iterator_set_pos', interest=['region_get'], stores=[('RegionIterator', 'current'), ('RegionIterator', 'pos')])
    v = s.v
    # a position below zero does not exist
    neg = v.cmp('slt', ('a', 1), ('i', 0)) if s.compared(('a', 1), ('i', 0)) else 0
    inside = s.rel('lt', lambda x: x == ('a', 1), lambda t: is_path(t, 'Region.events'))
    seen = 0
    for c, x in s.final(v.stores_of('RegionIterator', 'current')):
        x = strip(x)
        seen = s.or_(seen, c)
        if x == ('i', 0):
            s.ob(v.implies(c, s.or_(neg, s.not_(inside))), 'end', 'the iterator ends behind the last event only', None, v.show(c))
        else:
            s.ob(is_call(x, 'region_get') and strip(arg(x, 1)) == ('a', 1) and v.implies(c, inside), 'event', 'the event at the position is used')
    s.ob(v.implies(1, seen), 'set', 'the event is set')
    for c, x in s.final(v.stores_of('RegionIterator', 'pos')):
        s.ob(strip(x) == ('a', 1) or not v.possible(s.and_(c, s.and_(inside, s.not_(neg)))), 'pos', 'the position follows')
    s.ob(v.implies(s.and_(inside, s.not_(neg)), v.any(v.stores_of('RegionIterator', 'pos'))), 'pos-set', 'the position follows')

    s = Spec(prog, res, 'region_iterator_open', interest=['region_iterator_search', 'region_iterator_set_pos'],
             stores=[('RegionIterator', 'region'), ('RegionIterator', 'comparator'), ('RegionIterator', 'current')])
    v = s.v
    some = s.positive(lambda x: is_path(x, 'Region.events'))
    nokey = s.rel('eq', lambda x: x == ('a', 3), 0)
    sp, sr = v.calls('region_iterator_set_pos'), v.calls('region_iterator_search')
    s.must(some, sp, 'pos', 'the iterator is positioned unless the region is empty')
    s.must(1, v.stores_of('RegionIterator', 'current'), 'reset', 'an iterator forgets the event of another region')
    s.before(v.stores_of('RegionIterator', 'region'), sr + sp, 'region', 'in the region given')
    for e in v.stores_of('RegionIterator', 'region'):
        s.ob(strip(e.args[1]) == ('a', 1), 'region-arg', 'in the region given', e.where())
    for e in sp:
        for c, x in gates(e.args[1]):
            k = s.and_(c, e.cond)
            x = strip(x)
            ok = x == ('i', 0) and v.implies(k, nokey) or is_call(x, 'region_iterator_search') and strip(arg(x, 1)) == ('a', 3) \
                and not v.possible(s.and_(k, nokey))
            s.ob(ok, 'at', 'at the key, or at the first event', e.where(), v.show(k))

    s = Spec(prog, res, 'region_iterator_next', interest=['region_iterator_set_pos'])
    has = s.not_(s.rel('eq', lambda x: is_path(x, 'RegionIterator.current'), 0))
    s.exactly(s.v.calls('region_iterator_set_pos'), has, 'next', 'an iterator which has an event moves on')
    for e in s.v.calls('region_iterator_set_pos'):
        d = lin(e.args[1])
        s.ob(len(d) == 2 and d.get(()) == 1 and any(t != () and is_path(t, 'RegionIterator.pos') for t in d), 'one', 'by one', e.where())


def lin_bytes(e):
    """linear form of an address in bytes"""
    e = strip(e)
    if e[0] == 'idx' and len(e) > 3:
        return ladd(lin_bytes(e[1]), {t: c * e[3] for t, c in lin(e[2]).items()})
    if e[0] == 'bin' and e[1] in ('add', 'sub'):
        return ladd(lin_bytes(e[2]), lin_bytes(e[3]), 1 if e[1] == 'add' else -1)
    return lin(e)


def part_walk(prog, res):
    ST = [('PartIterator', 'current')]
    s = Spec(prog, res, 'part_iterator_open', interest=['index_iterator_open', 'index_iterator_at', 'reader_open', 'reader_execute',
                                                        'region_iterator_open', 'region_iterator_has', 'part_iterator_next'], stores=ST)
    v = s.v
    io, ro, rx, ri, nx = [v.calls(n) for n in ('index_iterator_open', 'reader_open', 'reader_execute', 'region_iterator_open', 'part_iterator_next')]
    s.must(1, io, 'index', 'the index of the file is searched')
    for e in io:
        s.ob(strip(e.args[3]) == ('a', 2) and is_path(e.args[1], 'Part.index') and is_path(e.args[2], 'Part.index_data')
             and origin(e.args[1]) == origin(e.args[2]) == ('a', 1), 'index-key', 'for the key', e.where())
    at = s.terms(lambda x: is_call(x, 'index_iterator_at'))
    some = s.or_(*[s.not_(v.eq(x, ('i', 0))) for x in at])
    s.exactly(ri, some, 'region', 'the region found is opened')
    s.before(ro, rx, 'reader', 'a reader is opened first')
    s.before(rx, ri, 'read', 'the region is read')
    for e in rx:
        s.ob(is_call(e.args[1], 'index_iterator_at') or is_path(e.args[1], 'PartIterator.current'), 'read-which', 'the region found is read', e.where())
    for e in ri:
        s.ob(strip(e.args[3]) == ('a', 2) and is_call(e.args[1], 'reader_execute'), 'region-key', 'at the key', e.where())
    has = s.or_(*[s.not_(v.eq(x, ('i', 0))) for x in s.terms(lambda x: is_call(x, 'region_iterator_has'))])
    s.must(s.and_(some, s.not_(has)), nx, 'next', 'a key behind the last event of the region continues with the next one')
    s.never(nx, has, 'next-only', 'but not otherwise')

    s = Spec(prog, res, 'part_iterator_next', interest=['index_iterator_next', 'index_iterator_at', 'reader_execute', 'region_iterator_open',
                                                        'region_iterator_has', 'region_iterator_next'], stores=ST)
    v = s.v
    cur = s.not_(s.rel('eq', lambda x: is_path(x, 'PartIterator.current'), 0))
    rn, inx, rx, ri = [v.calls(n) for n in ('region_iterator_next', 'index_iterator_next', 'reader_execute', 'region_iterator_open')]
    rn0 = [e for e in rn if not e.loops]
    s.exactly(rn0, cur, 'step', 'the iterator moves on in its region')
    hasts = s.terms(lambda x: is_call(x, 'region_iterator_has'))
    has = s.or_(*[s.not_(v.eq(x, ('i', 0))) for x in hasts])
    at = s.terms(lambda x: is_call(x, 'index_iterator_at'))
    more = s.or_(*[s.not_(v.eq(x, ('i', 0))) for x in at])
    s.must(s.and_(cur, s.not_(has)), inx, 'index', 'behind the last event of a region the next region is used')
    s.never(inx, has, 'index-only', 'not before')
    s.must(s.and_(cur, s.and_(s.not_(has), more)), ri, 'open', 'which is opened')
    s.before(rx, ri, 'read', 'after it has been read')
    for e in ri:
        s.ob(strip(e.args[3]) == ('i', 0) and is_call(e.args[1], 'reader_execute'), 'open-at', 'at its first event', e.where())
    for e in rx:
        s.ob(is_call(e.args[1], 'index_iterator_at') or is_path(e.args[1], 'PartIterator.current'), 'read-which', 'the region of the index iterator is read',
             e.where())
    s.once(inx, 'index-once', 'one region after the other')
    s.once(rn0, 'step-once', 'by one event')
    for e in ri + inx + rx:
        s.ob(bool(e.loops), 'repeat', 'until a region has events', e.where())


def file_order(prog, res):
    """events of one id never spread over two regions: a search by id starts with one region"""
    s = Spec(prog, res, 'writer_add', interest=['region_writer_add', 'region_writer_stop', 'region_writer_reset', 'region_writer_start'])
    v = s.v
    W = ('a', 0)
    meta = ('fld', ('fld', W, 'Writer', 'region_writer'), 'RegionWriter', 'meta')
    st = s.lrel('gt', [(('ld', ('fld', meta, 'Buf', 'position')), 1), (('ld', ('fld', meta, 'Buf', 'start')), -1)])
    sid = s.test_eq(lambda x: is_path(x, 'Event.id') and origin(x) == ('a', 1), lambda x: is_path(x, 'Event.id') and has_path(x, 'RegionWriter.data'))
    stop, start, add = v.calls('region_writer_stop'), v.calls('region_writer_start', 'region_writer_reset'), v.calls('region_writer_add')
    s.ob(s.made(s.and_(st, sid)), 'one-region', 'a region does not end between two events of one id')
    s.never(stop, s.and_(st, sid), 'one-region', 'a region does not end between two events of one id')
    s.never(start, s.and_(st, sid), 'one-region-start', 'no new region starts between two events of one id')
    s.before(stop, start, 'stop', 'a region is completed before the next one starts', st)
    s.must(1, add, 'add', 'every event is added')
    for e in add:
        s.ob(strip(e.args[1]) == ('a', 1), 'add-event', 'every event is added', e.where())
    for e in add:
        s.ob(all(x.order < e.order for x in stop + start), 'add-last', 'to the region it belongs to', e.where())

    s = Spec(prog, res, 'region_writer_add', interest=['buf_write'], stores=[('Region', 'events')])
    v = s.v
    w = v.calls('buf_write')
    data = [e for e in w if is_path(e.args[0], 'RegionWriter.data')]
    meta = [e for e in w if is_path(e.args[0], 'RegionWriter.meta')]
    s.must(1, data, 'data', 'the event is written to the region')
    s.must(1, meta, 'offset', 'its offset is written')
    for e in data:
        d = lin(e.args[2])
        head = prog.structs['Event']['size']
        s.ob(strip(e.args[1]) == ('a', 1) and d.get(()) == head and len(d) == 2 and any(t != () and is_path(t, 'Event.data_size') and q == 1 for t, q in d.items()),
             'data-size', 'completely', e.where(), str(d))
    for e in meta:
        # the offset is what the data buffer holds before the event is added
        x = e.guard.get(strip(e.args[1]))
        ok = x is not None and all(data_size(y) for _, y in gates(x)) if x is not None else None
        s.ob(ok is None or ok, 'offset-value', 'the offset is where the event begins', e.where(), str(x)[:200])
        s.ob(all(e.order < x.order for x in data) or x is not None, 'offset-before', 'computed before the event is added', e.where())
    ev = v.stores_of('Region', 'events')
    s.must(1, ev, 'count', 'the events of a region are counted')
    for e in ev:
        s.ob(all(lin(x).get(()) == 1 and len(lin(x)) == 2 for _, x in gates(e.args[1])), 'count-one', 'one by one', e.where())

    s = Spec(prog, res, 'index_writer_add', interest=['region_writer_min', 'region_writer_max'], stores=[
        ('IndexRegion', 'min'), ('IndexRegion', 'max'), ('Index', 'regions')])
    v = s.v
    for f in ('min', 'max'):
        st = v.stores_of('IndexRegion', f)
        s.must(1, st, f, 'the index knows the %s id of a region' % ('lowest' if f == 'min' else 'highest'))
        for e in st:
            x = strip(e.args[1])
            s.ob(x[0] == 'ld' and is_path(x, 'Event.id') and is_call(origin(x), 'region_writer_' + f), f + '-id', 'which is the id of its %s event'
                 % ('first' if f == 'min' else 'last'), e.where())
    st = v.stores_of('Index', 'regions')
    s.must(1, st, 'regions', 'the regions are counted')
    s = Spec(prog, res, 'region_writer_max')
    for c, x in gates(s.v.ret):
        d = lin_bytes(x)
        off = [t for t in d if t != () and t[0] == 'ld' and t[1][0] == 'idx']
        base = [t for t in d if t != () and is_path(t, 'RegionWriter.data', 'Buf.start')]
        ok = len(d) == 2 and len(off) == len(base) == 1
        if ok:
            o = lin_bytes(off[0][1])
            ev = [t for t in o if t != () and is_path(t, 'Region.events')]
            ok = len(ev) == 1 and o[ev[0]] == 4 and o.get(()) == prog.structs['Region']['size'] - 4 \
                and any(t != () and is_path(t, 'RegionWriter.meta', 'Buf.start') for t in o)
        s.ob(ok, 'last', 'the last event of a region is the one of the last offset', None, str(d)[:200])
    s = Spec(prog, res, 'region_writer_min')
    for c, x in gates(s.v.ret):
        s.ob(strip(x)[0] == 'ld' and is_path(x, 'RegionWriter.data', 'Buf.start'), 'first', 'the first event of a region is the first one written')


def data_size(y):
    d = lin(y)
    return len(d) == 2 and any(t != () and is_path(t, 'RegionWriter.data', 'Buf.position') and q == 1 for t, q in d.items()) \
        and any(t != () and is_path(t, 'RegionWriter.data', 'Buf.start') and q == -1 for t, q in d.items())


@rule('R02')
def r02(prog, res):
    parts(prog, res, index_walk, region_walk, region_layout, region_pos, part_walk, file_order)
