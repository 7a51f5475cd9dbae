"""J01: what is encoded is decoded again."""
from cond import View, gates, plain, root, show
from ir import Broken, walk
from report import parts, rule
from rules_file import errors
from rules_read import arg
from spec import Spec, has_path, is_call, is_path, ladd, lin, loop_range, strip

BITS = {'i1': 1, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64}
KINDS = {'MAP': 'map', 'ARRAY': 'array', 'INT': 'integer', 'STRING': 'raw'}


class Depends(Exception):
    pass


class Case:
    """what one function does when some of the values it tests are known: a table row.

    known: function from a term to its number, or None. The conditions of the effects are evaluated, nothing is run."""

    def __init__(self, v, known, outs=()):
        self.v, self.known, self.outs = v, known, outs
        self.memo = {}
        self.stores = [e for e in v.events if e.kind == 'store']

    # ---- numbers
    def num(self, e):
        k = self.known(e)
        if k is not None:
            return k
        if e[0] == 'i':
            return e[1]
        if e[0] == 'b2i':
            return self.num(e[1])
        if e[0] == 'bdd':
            t = self.truth(e[1])
            return None if t is None else int(t)
        if e[0] == 'gate':
            x = self.pick(e)
            return None if x is None else self.num(x)
        if e[0] == 'cast':
            n = self.num(e[4])
            if n is None or e[2] not in BITS or e[3] not in BITS:
                return None
            if e[1] == 'trunc':
                return n & ((1 << BITS[e[3]]) - 1)
            n &= (1 << BITS[e[2]]) - 1
            if e[1] == 'sext' and n >> (BITS[e[2]] - 1):
                n -= 1 << BITS[e[2]]
            return n
        if e[0] == 'bin':
            a, b = self.num(e[2]), self.num(e[3])
            if a is None or b is None:
                return None
            f = {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'and': lambda: a & b, 'or': lambda: a | b,
                 'shl': lambda: a << b if 0 <= b < 64 else 0}.get(e[1])
            return f() if f else None
        return None

    def atom(self, a):
        xs = a[1:] if a[0] == 'eq' else a[2:]
        x, y = (self.num(z) if isinstance(z, tuple) else None for z in xs)
        if x is None or y is None:
            return None
        if a[0] == 'eq':
            return x == y or (x - y) % (1 << 64) == 0
        m = 1 << 64
        if a[1] == 'u':
            return x % m < y % m
        sg = lambda n: (n + (m >> 1)) % m - (m >> 1)
        return sg(x) < sg(y)

    def truth(self, c):
        """True, False or None (depends on something else)"""
        if c < 2:
            return bool(c)
        if c in self.memo:
            return self.memo[c]
        v, lo, hi = self.v.b.tab[c]
        t = self.atom(self.v.b.vars[v])
        if t is None:
            a, b = self.truth(lo), self.truth(hi)
            r = a if a == b else None
        else:
            r = self.truth(hi if t else lo)
        self.memo[c] = r
        return r

    def on(self, e):
        t = self.truth(e.cond)
        if t is None:
            raise Depends('%s depends on more than the value: %s' % (e.where(), self.v.show(e.cond)[:200]))
        return t

    def pick(self, g):
        xs = [x for c, x in gates(g) if self.truth(c)]
        xs = list(dict.fromkeys(xs))
        return xs[0] if len(xs) == 1 else None

    # ---- linear forms
    def seq(self, e):
        """memory version a load sees"""
        return max([n for k in e[2:] for n in k], default=0)

    def out(self, n, upto):
        r = None
        for e in self.stores:
            if e.name == ('arg', n) and e.args[0] == ('a', n) and e.seq <= upto and self.on(e):
                r = e
        return r

    def lin(self, e, upto=None):
        if e[0] == 'gate':
            x = self.pick(e)
            if x is None:
                raise Depends('a value has several alternatives')
            return self.lin(x)
        if e[0] == 'i':
            return {(): e[1]} if e[1] else {}
        k = self.known(e)
        if k is not None and self.tagged(e):
            return {(): k} if k else {}
        if e[0] == 'bdd' or e[0] == 'b2i':
            k = self.num(e)
            if k is None:
                raise Depends('a truth value is not known')
            return {(): k} if k else {}
        if e[0] == 'bin' and e[1] in ('add', 'sub'):
            return ladd(self.lin(e[2]), self.lin(e[3]), 1 if e[1] == 'add' else -1)
        if e[0] == 'idx':
            d = self.lin(e[2])
            sz = e[3] if len(e) > 3 else 1
            return ladd(self.lin(e[1]), {t: c * sz for t, c in d.items()})
        if e[0] == 'cast':
            if e[1] in ('zext', 'sext'):
                d = self.lin(e[4])
                for t in d:
                    if t and t[0] == 'byte' and t[2] is None and len(d) == 1:
                        return {('byte', t[1], e[2], e[1]): 1}
                return d
            if e[1] == 'trunc':
                return self.lin(e[4])
            if e[1] in ('fpext', 'fptrunc'):
                return {('fp', e[1], plain(e[4])): 1}
        if e[0] == 'ld' and e[1][0] == 'a' and e[1][1] in self.outs:
            s = self.out(e[1][1], self.seq(e))
            if s is not None:
                return self.lin(s.args[1])
            return {('start', e[1][1]): 1}
        if e[0] == 'ld':
            try:
                d = self.lin(e[1])
            except RecursionError:
                raise Depends('address')
            if d.get(('start', 0)) == 1 and not set(d) - {('start', 0), ()}:
                return {('byte', d.get((), 0), None, None): 1}
        return {plain(strip(e)): 1}

    def tagged(self, e):
        return getattr(self.known, 'constant', False)


def known_value(n, isit):
    def f(e):
        return n if isit(e) else None
    return f


def known_tag(n):
    """the byte at the start"""
    def f(e):
        e = plain(e)
        return n if e == ('ld', ('ld', ('a', 0))) else None
    f.constant = True
    return f


def row(v, known, outs, width=None):
    """{'throws', 'adv', 'bytes', 'out', 'copy', 'calls'} of one case"""
    c = Case(v, known, outs)
    r = {'throws': False, 'adv': {}, 'bytes': {}, 'out': {}, 'copy': [], 'calls': [], 'where': v.fn.where(), 'case': c}
    done = False
    for e in v.events:
        if not c.on(e):
            continue
        if e.kind == 'throw' or e.name in ('data_error', 'error_data', 'error_throw_as'):
            r['throws'] = True
        elif e.kind == 'store' and e.name[0] == 'at':
            a = c.lin(e.args[0])
            if a.get(('start', 0)) != 1 or set(a) - {('start', 0), ()}:
                raise Depends('a store at an unknown place')
            x = c.pick(e.args[1]) if e.args[1][0] == 'gate' else e.args[1]
            r['bytes'][a.get((), 0)] = (e.inst.st, c.lin(e.args[1]), x)
            r['where'] = e.where()
        elif e.kind == 'store' and e.name[0] == 'arg':
            n = e.name[1]
            d = c.lin(e.args[1])
            if n == 0:
                r['adv'] = ladd(d, {('start', 0): 1}, -1)
            else:
                d = {(t[:2] + (e.inst.st, '') if t and t[0] == 'byte' and t[2] is None else t): k for t, k in d.items()}
                r['out'][n] = d
                r['where'] = e.where()
        elif e.kind == 'call' and e.name == 'llvm.memcpy':
            r['copy'].append((c.lin(e.args[0]), plain(e.args[1]), c.lin(e.args[2])))
        elif e.kind == 'call':
            r['calls'].append(e)
    return r


def view(prog, name, **kw):
    fs = prog.byname.get(name)
    if not fs:
        return None
    kw.setdefault('interest', ['data_error', 'llvm.memcpy'])
    kw.setdefault('opaque', ['data_error'])
    return View(prog, fs[0], **kw)


def intervals(v, isit, lo, hi):
    """maximal intervals on which every comparison of the value with a constant has one answer"""
    cut = {lo, hi + 1}
    for a in v.b.vars:
        xs = a[1:] if a[0] == 'eq' else a[2:]
        for x, y in (xs, xs[::-1]):
            if isinstance(x, tuple) and isinstance(y, tuple) and any(isit(z) for z in walk(x)) and y[0] == 'i':
                k = y[1] % (1 << 64) if y[1] < 0 and hi >= 1 << 63 else y[1]
                off = lin(x).get((), 0)
                for z in (k, k - off):
                    cut |= {z, z + 1}
    for b in (7, 8, 15, 16, 31, 32, 63):
        cut.add(1 << b)
    cut = sorted(x for x in cut if lo <= x <= hi + 1)
    return [(a, b - 1) for a, b in zip(cut, cut[1:])]


def samples(a, b):
    return sorted({a, b, (a + b) // 2})


def table(prog, res):
    """writers, readers, sizes and tests of types agree"""
    E = prog.enum
    tags = {}
    for K in KINDS:
        n = 'INTV' if K == 'INT' else K + 'V'
        tags[K] = E('MN_%s0' % n)
    total = 0
    readers = {}
    spec = [('map', 'MAP', 0, (1 << 31) - 1, 1), ('array', 'ARRAY', 0, (1 << 31) - 1, 1), ('integer', 'INT', 0, (1 << 64) - 1, 1),
            ('raw', 'STRING', 0, (1 << 31) - 1, 2)]
    for what, K, lo, hi, n in spec:
        rv = view(prog, 'data_read_' + what, outs=[0, 1, 2])
        if rv is None:
            raise Broken('data_read_%s is gone' % what)
        rows = readers[what] = {}
        for t in range(256):
            try:
                rows[t] = row(rv, known_tag(t), (0, 1, 2))
            except Depends as x:
                res.ob(False, 'data_read_%s:tag' % what, rv.fn.where(), 'data_read_%s(): what is read is decided by the tag' % what, str(x))
                rows[t] = None
        for fixed in ('', '32'):
            name = 'data_write_' + ('string' if what == 'raw' and fixed else what) + fixed
            if what == 'integer' and fixed:
                continue
            wv = view(prog, name, outs=[0, ('at', 0)])
            if wv is None:
                if fixed:
                    continue
                raise Broken('%s is gone' % name)
            vi = 2 if name == 'data_write_raw' else 1
            isit = lambda e, vi=vi: e == ('a', vi)
            sname = 'data_size_' + ('string' if what == 'raw' else what) + fixed
            sv = view(prog, sname)
            if sv is None:
                raise Broken('%s is gone' % sname)
            sit = lambda e: e == ('a', 0)
            cuts = sorted({x for iv in intervals(wv, isit, lo, hi) for x in iv} | {x for iv in intervals(sv, sit, lo, hi) for x in iv})
            ivs = intervals(wv, isit, lo, hi)
            ivs = sorted({(max(a, c), min(b, d)) for a, b in ivs for c, d in intervals(sv, sit, lo, hi) if max(a, c) <= min(b, d)})
            for a, b in ivs:
                for x in samples(a, b):
                    total += 1
                    key = '%s:%s' % (name, 'small' if b < 32 else 'bits%d' % max(b.bit_length() + 1, 8))
                    try:
                        w = row(wv, known_value(x, isit), (0,))
                    except Depends as d:
                        res.ob(False, key, wv.fn.where(), '%s(): what is written is decided by the value' % name, str(d))
                        continue
                    bad = match(w, rows, x, a, b, ('a', vi), n, name == 'data_write_raw', what == 'raw' and fixed)
                    res.ob(bad is None, key, w['where'],
                           '%s(): data_read_%s reads the value which was written' % (name, what), bad)
                    # size
                    sc = Case(sv, known_value(x, sit))
                    try:
                        size = sc.lin(sv.ret)
                    except Depends as d:
                        size = str(d)
                    want = {(('a', 0) if t == ('a', vi) else t): c for t, c in w['adv'].items()}
                    res.ob(size == want, sname + ':size', sv.fn.where(), '%s(): room for what %s writes' % (sname, name),
                           '%d: %s, written: %s' % (x, size, want))
        # each tag belongs to the reader of its kind only
        want = set(range(E('MN_%sV0' % K if K != 'INT' else 'MN_INTV0'), E('MN_%s' % (K + '64' if K == 'INT' else K + '32')) + 1))
        got = {t for t, r in rows.items() if r is not None and not r['throws']}
        sent = {t for t in want}
        res.ob(got <= sent, 'data_read_%s:type' % what, rv.fn.where(), 'data_read_%s(): data of another type is refused' % what,
               'also read: %s' % sorted(got - sent)[:8])
        istype(prog, res, 'data_is_' + ('string' if what == 'raw' else what), got)
    simple(prog, res, readers)
    res.count('value classes', total)
    res.need('value classes', 40)
    for t in range(256):
        who = [w for w, rows in readers.items() if rows.get(t) and not rows[t]['throws']]
        res.ob(len(who) <= 1, 'tag:%d' % t, view_where(prog, 'data_read_map'), 'a tag belongs to one type', str(who))
    return readers


def view_where(prog, name):
    return prog.byname[name][0].where()


def istype(prog, res, name, tags):
    v = view(prog, name)
    if v is None:
        return
    got = set()
    for t in range(256):
        c = Case(v, lambda e, t=t: t if plain(e) == ('ld', ('a', 0)) else None)
        n = c.num(v.ret)
        if n is None:
            res.ob(False, name + ':depends', v.fn.where(), '%s(): the tag decides' % name)
            return
        if n:
            got.add(t)
    res.ob(got == tags, name + ':tags', v.fn.where(), '%s(): true for what the reader of the type accepts' % name,
           'differs for: %s' % sorted(got ^ tags)[:8])


def match(w, rows, x, a, b, arg, n, raw, fixed):
    """None if the reader restores what the writer wrote, else what is wrong"""
    if w['throws']:
        return 'not written'
    tag = w['bytes'].get(0)
    if tag is None or tag[0] != 'i8':
        return 'no tag of one byte is written'
    t = (tag[1].get((), 0) + tag[1].get(arg, 0) * x) % 256
    if set(tag[1]) - {(), arg} or tag[1].get(arg, 0) not in (0, 1):
        return 'the tag is computed in another way'
    if tag[1].get(arg) and b - a > 255:
        return 'values share a tag'
    r = rows[t]
    if r is None or r['throws']:
        return 'tag %d is refused when read (value %d)' % (t, x)
    got = r['out'].get(n)
    head = dict(r['adv'])
    if n == 2:
        # the size read is added to the position
        same = lambda d: {(t[:2] if t and t[0] == 'byte' else t): k for t, k in d.items()}
        head = ladd(same(head), same(got or {}), -1)
    whead = dict(w['adv'])
    if raw:
        whead = ladd(whead, {arg: 1}, -1)
    if whead != head:
        return 'value %d: written %s bytes, read %s' % (x, whead, head)
    if n == 2 and not fixed:
        at = {('start', 0): 1}
        if r['out'].get(1) != ladd(at, head):
            return 'the data does not begin behind the header when read'
        if x > 0 and (len(w['copy']) != 1 or w['copy'][0][0] != ladd(at, whead) or w['copy'][0][1] != ('a', 1) or w['copy'][0][2] != {arg: 1}):
            return 'value %d: the data is not copied behind the header in its size' % x
    if got is None:
        return 'nothing is read'
    if not set(got) - {()}:
        return None if got.get((), 0) == x else 'value %d is read as %d (tag %d)' % (x, got.get((), 0), t)
    if len(got) != 1 or list(got.values()) != [1] or next(iter(got))[0] != 'byte':
        return 'what is read is computed in another way: %s' % got
    _, off, width, ext = next(iter(got))
    p = w['bytes'].get(off)
    if p is None or p[0] != width or p[1] != {arg: 1}:
        return 'value %d: byte %d: written %s, read %s' % (x, off, p and p[0], width)
    bits = BITS[width]
    top = (1 << bits) - 1 if ext == 'zext' or bits == 64 else (1 << (bits - 1)) - 1
    if b > top:
        return 'values up to %d do not fit into %d bits' % (b, bits)
    if head != {(): off + bits // 8} or off != 1:
        return 'header of %s bytes for a number at %d of %d bits' % (head, off, bits)
    return None


def simple(prog, res, readers):
    """bool, null and real"""
    E = prog.enum
    rv, wv = view(prog, 'data_read_bool', outs=[0, 1]), view(prog, 'data_write_bool', outs=[0, ('at', 0)])
    rows = readers['bool'] = {t: row(rv, known_tag(t), (0, 1)) for t in range(256)}
    for x in (0, 1):
        w = row(wv, known_value(x, lambda e: plain(strip(e)) == ('a', 1)), (0,))
        t = w['bytes'].get(0, (0, {}))[1]
        r = rows[t.get((), 0) % 256]
        ok = not set(t) - {()} and not r['throws'] and r['out'].get(1, {}).get((), 0) == x and not set(r['out'].get(1, {})) - {()}
        res.ob(ok and w['adv'] == r['adv'] == {(): 1}, 'data_write_bool:value', w['where'], 'data_write_bool(): data_read_bool reads the value which was written',
               'value %d: written %s, read %s' % (x, w['adv'], r['out']))
    istype(prog, res, 'data_is_bool', {t for t, r in rows.items() if not r['throws']})
    rv, wv = view(prog, 'data_read_null', outs=[0]), view(prog, 'data_write_null', outs=[0, ('at', 0)])
    rows = readers['null'] = {t: row(rv, known_tag(t), (0,)) for t in range(256)}
    w = row(wv, lambda e: None, (0,))
    t = w['bytes'].get(0, (0, {}))[1]
    r = rows[t.get((), 0) % 256]
    res.ob(not r['throws'] and w['adv'] == r['adv'] == {(): 1} and len([1 for x in rows.values() if not x['throws']]) == 1, 'data_write_null:value', w['where'],
           'data_write_null(): data_read_null reads it and nothing else')
    istype(prog, res, 'data_is_null', {t for t, r in rows.items() if not r['throws']})
    # real: the tag decides the width
    rv, wv = view(prog, 'data_read_real', outs=[0, 1]), view(prog, 'data_write_real', outs=[0, ('at', 0)])
    if rv is None or wv is None:
        return
    rows = readers['real'] = {}
    for t in range(256):
        rows[t] = row(rv, known_tag(t), (0, 1))
    good = {t for t, r in rows.items() if not r['throws']}
    tagev = [e for e in wv.events if e.kind == 'store' and e.name == ('at', 0) and e.inst.st == 'i8']
    for e in tagev:
        t = e.args[1][1] % 256 if e.args[1][0] == 'i' else None
        pay = [p for p in wv.events if p.kind == 'store' and p.name == ('at', 0) and p.inst.st != 'i8' and wv.possible(wv.b.and_(p.cond, e.cond))]
        adv = [p for p in wv.events if p.kind == 'store' and p.name == ('arg', 0) and wv.possible(wv.b.and_(p.cond, e.cond))]
        n = {'float': 4, 'double': 8}
        ok = t in good and len(pay) == 1 and lin(pay[0].args[0]).get((), 0) == 1 and len(adv) >= 1 \
            and rows[t]['adv'] == {(): 1 + n.get(pay[0].inst.st, 0)} and all(lin(p.args[1]).get((), 0) == 1 + n.get(pay[0].inst.st, 0) for p in adv)
        res.ob(ok, 'data_write_real:width', e.where(), 'data_write_real(): data_read_real reads the width which was written')
    res.ob(bool(tagev), 'data_write_real:tag', wv.fn.where(), 'data_write_real(): a tag is written')
    istype(prog, res, 'data_is_real', good)


# ------------------------------------------------------------------ values inside values
READERS = ('data_read_map', 'data_read_array', 'data_read_raw', 'data_read_integer', 'data_read_bool', 'data_read_null', 'data_read_real')


def restrict(v, c, known, memo):
    case = memo.setdefault('case', Case(v, known))

    def go(n):
        if n < 2:
            return n
        if n in memo:
            return memo[n]
        a, lo, hi = v.b.tab[n]
        t = case.atom(v.b.vars[a])
        memo[n] = go(hi if t else lo) if t is not None else v.b.ite(v.b.mk(a, 0, 1), go(hi), go(lo))
        return memo[n]
    return go(c)


class Under:
    """the effects of a view which remain when the tag is known"""

    def __init__(self, s, t, arg):
        v = self.v = s.v
        self.s = s
        memo = {}

        def known(e):
            return t if plain(e) == ('ld', ('ld', ('a', arg))) else None
        self.cond = lambda c: restrict(v, c, known, memo)
        self.evs = []
        for e in v.events:
            c = self.cond(e.cond)
            if c and e.kind != 'ret':
                self.evs.append((e, c))
        self.loops = {k: self.cond(v.body(k)) for k in v.loops if self.cond(v.body(k))}

    def calls(self, *names):
        return [(e, c) for e, c in self.evs if e.kind == 'call' and str(e.name).split('@')[0] in names]

    def reads(self):
        return [(e.name, c) for e, c in self.calls(*READERS)]

    def errors(self):
        return [(e, c) for e, c in self.evs if e.kind == 'throw' or e.name in ('error_data', 'data_error', 'error_throw_as')]


def counter(v, k, local):
    """the local variable counts down by one in every iteration and nothing else changes it in the loop"""
    fn, body, edge, rc = v.loops[k]
    sts = [i for b in body for i in fn.blocks[b] if i.op == 'store' and i.o[1] == ['v', local[1]]]
    if len(sts) != 1:
        return False
    i = sts[0]
    d = fn.insts.get(i.o[0][1]) if i.o[0][0] == 'v' else None
    if d is None or d.op != 'add' and d.op != 'sub':
        return False
    src = fn.insts.get(d.o[0][1]) if d.o[0][0] == 'v' else None
    step = d.o[1][1] if d.o[1][0] == 'i' else 0
    step = step if d.op == 'add' else -step
    if step > 1 << 31:
        step -= 1 << 32
    return src is not None and src.op == 'load' and src.o[0] == ['v', local[1]] and step == -1 and i.block in must_pass(fn, k[1], body)


def must_pass(fn, header, body):
    """blocks on every way around the loop"""
    out = set()
    for b in body:
        seen, work, free = set(), [header] if b != header else [], False
        while work:
            x = work.pop()
            for y in fn.blocks[x][-1].succ or ():
                if y == header:
                    free = True
                elif y in body and y != b and y not in seen:
                    seen.add(y)
                    work.append(y)
        if not free:
            out.add(b)
    return out


def times(u, k, local):
    """the loop does as many iterations as the number in the local variable (None: the number is not negative)"""
    v, B = u.v, u.loops[k]
    pairs = {tuple(sorted((a[1:] if a[0] == 'eq' else a[2:]), key=repr)) for a in (v.b.vars[n] for n in v.b.support(B))}
    if not v.single_exit(k) or len(pairs) != 1:
        return False
    xs = next(iter(pairs))
    isl = lambda x: isinstance(x, tuple) and plain(strip(x)) == ('ld', local)
    for x in xs:
        if isl(x):
            c = v.cmp('sgt', x, ('i', 0))
            ne = v.b.not_(v.eq(x, ('i', 0)))
            other = [y for y in xs if y is not x][0]
            if (B == c or B == ne) and other[0] == 'i':
                return counter(v, k, local)
            phi = strip(other)
            if phi[0] == 'phi':
                r = loop_range(v, k, phi)
                return r is not None and r[2] in (1, -1) and plain_lin(ladd(r[1], r[0], -1)) in \
                    ({('ld', local): 1, (): -1}, {('ld', local): -1, (): 1})
    for x in xs:
        p = strip(x) if isinstance(x, tuple) else ('i',)
        if p[0] == 'phi':
            r = loop_range(v, k, p)
            return r is not None and r[2] == -1 and plain_lin(ladd(r[0], r[1], -1)) == {('ld', local): 1, (): -1}
    return False


def plain_lin(d):
    return {(plain(strip(t)) if t else t): c for t, c in d.items()}


def accepted(readers, what):
    return {t for t, r in readers[what].items() if r is not None and not r['throws']}


def skip(prog, res, readers):
    name = 'data_skip'
    s = Spec(prog, res, name, interest=list(READERS) + [name])
    for what in ('map', 'array', 'raw', 'integer', 'bool', 'null', 'real'):
        for t in sorted(accepted(readers, what)):
            u = Under(s, t, 0)
            r = u.reads()
            key = '%s:%s' % (name, what)
            ok = r == [('data_read_' + what, 1)] and not u.errors()
            s.ob(ok, key, 'a value is skipped by the reader of its type', None, 'tag %d: %s' % (t, r))
            sk = u.calls(name)
            per = {'map': 2, 'array': 1}.get(what, 0)
            if not per:
                s.ob(not sk, key + ':parts', 'a plain value has no parts')
                continue
            ks = {e.loops for e, c in sk}
            if not s.ob(len(sk) == per and len(ks) == 1 and len(next(iter(ks))) == 1, key + ':parts', 'every element is skipped, the key and the value of a map',
                        None, 'tag %d: %d values per element' % (t, len(sk))):
                continue
            k = next(iter(ks))[0]
            local = u.calls('data_read_' + what)[0][0].args[1]
            s.ob(all(c == u.loops.get(k) for e, c in sk) and u.cond(s.v.entry(k)) == 1 and times(u, k, local), key + ':count',
                 'as many elements are skipped as there are', sk[0][0].where())
            s.ob(all(e.args[0] == ('a', 0) for e, c in sk), key + ':pos', 'the position which is advanced is the one which was passed', sk[0][0].where())
    for t in range(256):
        if not any(t in accepted(readers, w) for w in readers):
            u = Under(s, t, 0)
            s.ob(not u.reads() and s.v.any([e for e, c in u.errors()]) and any(c == 1 for e, c in u.errors()), name + ':unknown', 'a tag of no type is an error')


def text(e, n=1):
    return e.args[n][1] if e.args[n][0] == 's' else None


def export(prog, res, readers):
    name = 'json_export_as'
    fs = prog.byname.get(name)
    if not fs:
        raise Broken(name + ' is gone')
    s = Spec(prog, res, fs[0], interest=list(READERS) + [name, 'buf_write', 'snprintf'])
    v, b = s.v, s.v.b
    pos = 3
    for what in ('map', 'array', 'raw', 'integer', 'bool', 'null', 'real'):
        for t in sorted(accepted(readers, what)):
            u = Under(s, t, pos)
            key = '%s:%s' % (name, what)
            rd = u.calls(*READERS)
            if not s.ob([(e.name, c) for e, c in rd] == [('data_read_' + what, 1)] and not u.errors(), key, 'a value is printed by its type',
                        None, 'tag %d: %s' % (t, [e.name for e, c in rd])):
                continue
            rd = rd[0][0]
            wr = u.calls('buf_write')
            s.ob(all(e.args[0] == ('a', 0) for e, c in wr) and all(e.args[2] == ('i', len(text(e))) for e, c in wr if text(e) is not None),
                 key + ':text', 'texts are written in their length')
            lit = lambda x: [(e, c) for e, c in wr if text(e) == x]
            if what in ('null',):
                s.ob([c for e, c in lit('null')] == [1] and len(wr) == 1, key + ':value', 'null is printed')
            elif what == 'bool':
                val = s.test(lambda x: plain(strip(x)) == ('ld', rd.args[1]))
                out = [(b.and_(c, g), x, e) for e, c in wr for g, x in gates(e.args[1]) if b.and_(c, g) != 0]
                size = lambda e, x: strip(e.args[2]) == ('i', len(x[1])) or is_call(e.args[2], 'strlen') and strip(e.args[2])[2][0] == e.args[1]
                put = lambda w: s.or_(0, *[c for c, x, e in out if x == ('s', w) and size(e, x)])
                ok = put('true') == val and put('false') == b.not_(val) and all(x in (('s', 'true'), ('s', 'false')) for c, x, e in out) and len(out) == 2
                s.ob(ok, key + ':value', 'true and false are printed as such')
            elif what in ('integer', 'real'):
                pr = u.calls('snprintf')
                ok = len(pr) == 1 and len(wr) == 1 and pr[0][1] == wr[0][1] == 1 and \
                    plain(strip(pr[0][0].args[3])) == ('ld', rd.args[1]) and pr[0][0].args[2][1] in (('%li', '%lli', '%ld', '%lld') if what == 'integer' else ('%f', '%g', '%e')) and \
                    wr[0][0].args[1] == pr[0][0].args[0] and strip(wr[0][0].args[2]) == strip(pr[0][0].value)
                s.ob(ok, key + ':value', 'the number which was read is printed')
            elif what == 'raw':
                quoted(s, u, rd, wr, key)
            else:
                nested(s, u, rd, wr, key, name, what, pos)
    for t in range(256):
        if not any(t in accepted(readers, w) for w in readers):
            u = Under(s, t, pos)
            s.ob(any(c == 1 for e, c in u.errors()), name + ':unknown', 'a tag of no type is an error')


def quoted(s, u, rd, wr, key):
    """" escaped characters " """
    v, b = s.v, s.v.b
    out = [(e, c) for e, c in wr if not e.loops]
    ins = [(e, c) for e, c in wr if e.loops]
    ks = {e.loops for e, c in ins}
    if not s.ob([text(e) for e, c in out] == ['"', '"'] and all(c == 1 for e, c in out) and len(ks) == 1 and len(next(iter(ks))) == 1,
                key + ':quotes', 'a string is printed in quotes'):
        return
    k = next(iter(ks))[0]
    B = u.loops.get(k, 0)
    chars = [(e, c) for e, c in ins if text(e) is None]
    esc = [(e, c) for e, c in ins if text(e) is not None]
    if not s.ob(len(chars) == 1 and chars[0][1] == B and chars[0][0].args[2] == ('i', 1) and out[0][0].order < chars[0][0].order < out[1][0].order,
                key + ':characters', 'every character is printed between the quotes'):
        return
    a = plain(strip(chars[0][0].args[1]))
    r = loop_range(v, k, a[2]) if a[0] == 'idx' else None
    s.ob(a[0] == 'idx' and plain(strip(a[1])) == ('ld', rd.args[1]) and r is not None and r[0] == {} and r[2] == 1
         and plain_lin(r[1]) == {('ld', rd.args[2]): 1, (): -1} and v.single_exit(k), key + ':range', 'the characters from the first to the last of the string are printed',
         chars[0][0].where())
    ch = lambda x: x[0] == 'ld' and plain(x[1]) == a
    need = s.or_(s.rel('eq', lambda x: ch(strip(x)), ord('"')), s.rel('eq', lambda x: ch(strip(x)), ord('\\')))
    s.ob(len(esc) == 1 and text(esc[0][0]) == '\\' and esc[0][1] == s.and_(B, need) and esc[0][0].order < chars[0][0].order, key + ':escape',
         'a backslash is printed before a quote or backslash, and only there', chars[0][0].where())


def nested(s, u, rd, wr, key, name, what, pos):
    v, b = s.v, s.v.b
    sub = u.calls(name)
    local = rd.args[1]
    styles = {}
    for e, c in sub:
        styles.setdefault(e.loops, []).append((e, c))
    whole = 0
    for loops, evs in styles.items():
        per = 2 if what == 'map' else 1
        if not s.ob(len(loops) == 1 and len(evs) == per, key + ':parts', 'the key and value of every element are printed once', evs[0][0].where()):
            continue
        k = loops[0]
        E, B = u.cond(v.entry(k)), u.loops.get(k, 0)
        whole = b.or_(whole, E)
        ab = b.and_(B, E)
        s.ob(all(b.and_(c, E) == ab for e, c in evs) and all(e.args[0] == ('a', 0) and e.args[pos] == ('a', pos) for e, c in evs), key + ':every', 'each element is printed',
             evs[0][0].where())
        Bk = b.exists(B, b.support(E)) if E != 1 else B
        save = u.loops.get(k)
        u.loops[k] = Bk
        s.ob(times(u, k, local), key + ':count', 'as many elements are printed as there are', evs[0][0].where())
        u.loops[k] = save
        here = [(e, c) for e, c in wr if e.loops == loops and b.and_(c, E) != 0]
        sep = [(e, c) for e, c in here if (text(e) or '').startswith(',')]
        last = evs[-1][0].order
        ok = False
        if len(sep) == 1:
            # exactly one comparison decides besides the loop
            sup = b.support(sep[0][1]) - b.support(ab)
            cnt = [c for c in decided(s, local, v, k)]
            ok = sep[0][0].order > last and any(b.and_(ab, m) == b.and_(sep[0][1], E) for m in cnt)
            if sep[0][0].order < evs[0][0].order:
                ok = any(b.and_(ab, m) == b.and_(sep[0][1], E) for m in first(s, v, k))
        s.ob(ok, key + ':separator', 'a comma is printed between two elements and only there', evs[0][0].where(),
             '; '.join(v.show(c)[:300] for e, c in sep))
        if what == 'map':
            col = [(e, c) for e, c in here if (text(e) or '').strip() == ':']
            s.ob(len(col) == 1 and b.and_(col[0][1], E) == ab and evs[0][0].order < col[0][0].order < evs[1][0].order, key + ':colon',
                 'a colon is printed between key and value', evs[0][0].where())
        other = [e for e, c in here if (text(e) is None or text(e).strip() not in ('', ',', ':'))]
        s.ob(not other, key + ':other', 'nothing else is printed with an element', other[0].where() if other else None)
        for o, c0 in (('[{'[what == 'map'], 0), (']}'[what == 'map'], 1)):
            br = [(e, c) for e, c in wr if not e.loops and (text(e) or '').strip() == o and b.and_(c, E) != 0]
            s.ob(len(br) == 1 and b.and_(br[0][1], E) == E and (br[0][0].order < evs[0][0].order) == (c0 == 0), key + ':brackets' + o, 'the elements are printed in brackets', evs[0][0].where())
    s.ob(whole == 1, key + ':all', 'the elements are printed in every style')


def decided(s, local, v, k):
    """'this is not the last element', in the ways in which the code may ask it"""
    out = []
    for x in s.terms(lambda x: plain(strip(x)) == ('ld', local)):
        # after the counter was decremented its old value is compared with one
        out += [v.cmp('sgt', x, ('i', 1)), v.b.not_(v.eq(x, ('i', 1)))]
    for x in s.terms(lambda x: strip(x)[0] == 'bin' and any(y == ('ld', local) for y in walk(plain(x)))):
        d = plain_lin(lin(x))
        if d == {('ld', local): 1, (): -1}:
            out += [v.cmp('sgt', x, ('i', 0)), v.b.not_(v.eq(x, ('i', 0)))]
    phi = lambda x: strip(x)[0] == 'phi' and strip(x)[2] == k[0] and v.frameobj[k[0]].fn.insts[strip(x)[1]].block == k[1]
    c = s.lrel('lt', [(phi, 1), (('ld', local), -1)], 1)
    if s.made(c):
        out.append(c)
    c = s.lrel('ne', [(phi, 1), (('ld', local), -1)], 1)
    if s.made(c):
        out.append(c)
    return out


def first(s, v, k):
    phi = lambda x: strip(x)[0] == 'phi' and strip(x)[2] == k[0] and v.frameobj[k[0]].fn.insts[strip(x)[1]].block == k[1]
    out = []
    for x in s.terms(phi):
        r = loop_range(v, k, strip(x))
        if r and r[0] == {} and r[2] == 1:
            out += [v.cmp('sgt', x, ('i', 0)), v.b.not_(v.eq(x, ('i', 0)))]
    return out


# ------------------------------------------------------------------ encode_*: room, then the value
def encoders(prog, res):
    names = sorted(n for n in prog.byname if n.startswith('encode_') and prog.byname[n][0].where().split(':')[0].endswith('lib/encode.h'))
    res.count('encoders', len(names))
    res.need('encoders', 8)
    writers = [n for n in prog.byname if n.startswith('data_write_')]
    for name in names:
        f = prog.byname[name][0]
        W = [w for w in writers if w != 'data_write_string']
        s = Spec(prog, res, f, interest=['buf_reserve'] + W)
        v = s.v
        rv, wr = v.calls('buf_reserve'), v.calls(*W)
        if not s.ob(len(rv) == len(wr) == 1 and rv[0].cond == wr[0].cond == 1 and rv[0].order < wr[0].order
                    and rv[0].args[0] == ('a', 0) and strip(wr[0].args[0]) == strip(rv[0].value), 'order', 'room is reserved and the value is written there'):
            continue
        w = wr[0]
        wn = w.name.split('@')[0]
        wv = view(prog, wn, outs=[0, ('at', 0)])
        raw = wn == 'data_write_raw'
        # the values come from the arguments
        ps = [plain(strip(x)) for x in w.args[1:]]
        want = {'encode_raw': [[('a', 1), ('a', 2)]], 'encode_cstr': None, 'encode_buf': None, 'encode_string': None}.get(name, [[('a', 1)], []])
        if want is not None:
            s.ob(ps in want, 'value', 'the value which was passed is written', w.where())
        elif name == 'encode_cstr':
            s.ob(ps[0] == ('a', 1) and is_call(w.args[2], 'strlen') and plain(strip(strip(w.args[2])[2][0])) == ('a', 1), 'value', 'the whole string is written', w.where())
        else:
            S, a, z = ('Buf', 'start', 'position') if name == 'encode_buf' else ('Str', 'pos', 'end')
            ld = lambda f: ('ld', ('fld', ('a', 1), S, f))
            s.ob(ps[0] == ld(a) and plain_lin(lin(w.args[2])) == {ld(z): 1, ld(a): -1}, 'value', 'the whole content is written', w.where())
        n = 2 if raw else 1
        if len(w.args) <= n:
            size = Case(v, lambda e: None).num(rv[0].args[1])
            r = row(wv, lambda e: None, (0,))
            s.ob({(): size} == r['adv'], 'room', 'the room which is reserved is the room which is used', rv[0].where(), '%s, %s' % (size, r['adv']))
            continue
        if 'real' in name:
            continue
        term = plain(strip(w.args[n]))
        hi = (1 << 64) - 1 if wn == 'data_write_integer' else 1 if wn == 'data_write_bool' else (1 << 31) - 1
        wis = lambda e: plain(e) == ('a', n)
        vis = lambda e: plain(strip(e)) == term
        cuts = {c for iv in intervals(wv, wis, 0, hi) + intervals(v, vis, 0, hi) for c in iv}
        bad = None
        for x in sorted(cuts):
            r = row(wv, known_value(x, wis), (0,))
            adv = r['adv'].get((), 0) + x * r['adv'].get(('a', n), 0)
            size = Case(v, known_value(x, vis)).num(rv[0].args[1])
            if size is None or size % (1 << 32) != adv % (1 << 32):
                bad = bad or 'value %d: %s bytes reserved, %d written' % (x, size, adv)
        s.ob(bad is None, 'room', 'the room which is reserved is the room which is used', rv[0].where(), bad)
    reserve(prog, res)


def reserve(prog, res):
    """a buffer has the room which was asked for, and keeps its content"""
    s = Spec(prog, res, 'buf_reserve', interest=['mn_realloc'], stores=['*'])
    v, b = s.v, s.v.b
    f = lambda n: ('ld', ('fld', ('a', 0), 'Buf', n))
    al = v.calls('mn_realloc')
    need = s.lrel('lt', [(lambda x: plain(strip(x)) == f('end'), 1), (lambda x: plain(strip(x)) == f('position'), -1), (lambda x: plain(strip(x)) == ('a', 1), -1)])
    if not s.one(al, 'grow', 'a buffer without enough room is enlarged'):
        return
    s.exactly(al, need, 'grow', 'a buffer is enlarged if it has less room than asked for')
    a = al[0]
    s.ob(plain(strip(a.args[0])) == f('start'), 'content', 'the content is kept', a.where())
    new = lambda x: plain(strip(x)) == plain(a.value)
    for fld in ('start', 'position', 'end'):
        st = v.stores_of('Buf', fld)
        s.ob(bool(st) and v.equal(v.any(st), a.cond), fld, 'the buffer is described again when it was moved', a.where())
        for e in st:
            for c, x in gates(e.args[1]):
                if not v.possible(b.and_(c, e.cond)):
                    continue
                d = lin(x)
                base = [t for t in d if t != () and new(t)]
                rest = plain_lin({t: k for t, k in d.items() if t not in base})
                ok = len(base) == 1 and d[base[0]] == 1
                if fld == 'start':
                    ok = ok and not rest
                elif fld == 'position':
                    ok = ok and rest == {f('position'): 1, f('start'): -1}
                else:
                    sizes = [plain_lin(lin(y)) for c2, y in gates(a.args[1]) if v.possible(b.and_(c, c2, e.cond))]
                    ok = ok and sizes == [rest]
                s.ob(ok, fld + ':value', 'the new %s of the buffer is where it was in the content' % fld, e.where())
    # the new size is at least what is used and what is asked for
    used = {f('position'): 1, f('start'): -1, ('a', 1): 1}
    for c, y in gates(a.args[1]):
        k = b.and_(c, a.cond)
        if not v.possible(k):
            continue
        d = plain_lin(lin(y))
        ok = d == used
        if not ok:
            form = [((lambda x, t=t: plain(strip(x)) == t), n) for t, n in ladd(d, used, -1).items() if t != ()]
            ge = s.lrel('ge', form, ladd(d, used, -1).get((), 0))
            ok = s.made(ge) and v.implies(k, ge)
            if not ok:
                ok = larger(s, k, y, used)
        s.ob(ok, 'size', 'the new size holds what is there and what was asked for', a.where(), v.show(k)[:300])


def larger(s, k, y, used):
    """the code compares this size with the needed one"""
    v = s.v
    for a in v.b.vars:
        if a[0] != 'lt' or not isinstance(a[2], tuple) or not isinstance(a[3], tuple):
            continue
        x, z = a[2], a[3]
        for p, q in ((x, z), (z, x)):
            if plain_lin(lin(p)) == plain_lin(lin(y)) and plain_lin(lin(q)) == used:
                if v.implies(k, v.cmp(a[1] + 'ge', p, q)):
                    return True
    return False


# ------------------------------------------------------------------ JSON text to values
ENCODE = ('encode_array32', 'encode_map32', 'encode_raw', 'encode_null', 'encode_bool', 'encode_integer', 'encode_real')


def truthy(x):
    return int(x[1] != 0) if x[0] in ('i', 'bdd') else None


def told(s, pred, n, within=None):
    """the code compares such a term with the number (in the atoms of a condition)"""
    out = None
    for k, a in enumerate(list(s.v.b.vars)):
        if a[0] == 'eq' and isinstance(a[1], tuple) and isinstance(a[2], tuple) and (within is None or k in within):
            for x, y in ((a[1], a[2]), (a[2], a[1])):
                if y == ('i', n) and pred(strip(x)):
                    c = s.v.eq(x, y)
                    out = c if out is None else s.or_(out, c)
    return s.fresh() if out is None else out


def vlin(e):
    """linear form which tells the values of a variable at different times apart"""
    e = strip(e)
    if e[0] == 'i':
        return {(): e[1]} if e[1] else {}
    if e[0] == 'bin' and e[1] in ('add', 'sub'):
        return ladd(vlin(e[2]), vlin(e[3]), 1 if e[1] == 'add' else -1)
    if e[0] == 'idx':
        return ladd(vlin(e[1]), vlin(e[2]))
    return {e: 1}


class Token(Under):
    """the effects of json_read when the next character is known"""

    def __init__(self, s, t):
        v = self.v = s.v
        self.s = s
        memo = {}

        def known(e):
            return t if e[0] == 'call' and e[1].split('@')[0] == 'json_next' and plain(strip(e[2][1])) == ('a', 1) else None
        self.cond = lambda c: restrict(v, c, known, memo)
        self.evs = [(e, c) for e, c in ((e, self.cond(e.cond)) for e in v.events) if c and e.kind != 'ret']
        self.loops = {k: self.cond(v.body(k)) for k in v.loops if self.cond(v.body(k)) and self.cond(v.entry(k))}
        self.rets = [(self.cond(c), x) for c, x in gates(v.ret) if self.cond(c)] if v.ret else []

    def good(self):
        """the value was accepted"""
        return self.s.or_(0, *[c for c, x in self.rets if x != ('i', -1)])

    def encoded(self):
        return self.calls(*ENCODE)


def parse(prog, res):
    fs = prog.byname.get('json_read')
    if not fs:
        raise Broken('json_read is gone')
    s = Spec(prog, res, fs[0], interest=list(ENCODE) + ['json_next', 'json_read', 'json_read_escaped', 'data_write_array32', 'data_write_map32', 'memcmp'],
             stores=[('Json', 'pos')])
    v, b = s.v, s.v.b
    here = lambda x: plain(strip(x)) == ('idx', ('ld', ('fld', ('a', 0), 'Json', 'json')), ('ld', ('fld', ('a', 0), 'Json', 'pos')), 1)
    buf = lambda e: plain(strip(e.args[0])) == ('fld', ('a', 0), 'Json', 'buf')
    for ch, word, enc, val in (('n', 'null', 'encode_null', None), ('t', 'true', 'encode_bool', 1), ('f', 'false', 'encode_bool', 0)):
        u = Token(s, ord(ch))
        key = 'json_read:' + word
        en = u.encoded()
        cmpc = [(e, c) for e, c in u.calls('memcmp') if text(e) == word and e.args[2] == ('i', len(word)) and here(e.args[0])]
        ok = [e.name for e, c in en] == [enc] and buf(en[0][0]) and (val is None or truthy(en[0][0].args[1]) == val)
        if not s.ob(ok and len(cmpc) == 1, key, 'the word %s is read as such' % word, en[0][0].where() if en else None):
            continue
        eq = s.rel('eq', lambda x: x == cmpc[0][0].value, 0)
        want = s.and_(cmpc[0][1], eq)
        s.ob(en[0][1] == want == u.good(), key + ':accepted', 'exactly the word %s is accepted' % word, en[0][0].where(), v.show(en[0][1])[:200])
        st = [(e, c) for e, c in u.evs if e.kind == 'store' and c != 0]
        s.ob(len(st) == 1 and st[0][1] == want and lin(st[0][0].args[1]).get((), 0) == len(word), key + ':length', 'the word %s is consumed' % word, en[0][0].where())
    group(s, '[', ']', 'encode_array32', 'data_write_array32', 1)
    group(s, '{', '}', 'encode_map32', 'data_write_map32', 2)
    string(s, buf)
    number(s, buf)
    escaped(prog, res)
    following(prog, res)


def following(prog, res):
    """the next character which is not blank; the whole text"""
    s = Spec(prog, res, prog.byname['json_next'][0], stores=[('Json', 'pos')])
    v = s.v
    posn = {('ld', ('fld', ('a', 0), 'Json', 'pos')): 1}
    begin = {('a', 1): 1, **posn}
    own = [p for k in v.loops for p in phis(v, k) if [plain_lin(lin(x)) for x in v.phi(p)[0]] == [begin]]
    P, Z = (lambda x: is_path(x, 'Json.pos') or x in own), (lambda x: is_path(x, 'Json.json_size'))
    past = s.lrel('gt', [(lambda x: is_path(x, 'Json.pos'), 1), (('a', 1), 1), (Z, -1)])
    here = s.not_(past)
    lt, eq = s.lrel('lt', [(P, 1), (Z, -1)]), s.lrel('eq', [(P, 1), (Z, -1)])
    sp = [a for a in v.b.vars if a[0] == 'eq' and any(is_call(x, '__ctype_b_loc') for y in a[1:] for x in walk(y)) and any(x == ('i', 8192) for y in a[1:] for x in walk(y))]
    at = lambda x: isinstance(x, tuple) and x[:1] == ('ld',) and x[1][:1] == ('idx',) and is_path(x[1][1], 'Json.json') and P(strip(x[1][2]))
    sp = [a for a in sp if any(at(x) for y in a[1:] for x in walk(y))]
    st = v.stores_of('Json', 'pos')
    again = [(c, ladd(lin(x), {p: 1}, -1)) for p in own for c, x in v.phi_steps(p)] + \
        [(e.cond, ladd(plain_lin(lin(e.args[1])), posn, -1)) for e in st if e.loops]
    if not s.ob(len(v.loops) == 1 and bool(again) and len(sp) == 1, 'blanks', 'blanks are skipped'):
        return
    blank = s.not_(v.eq(*sp[0][1:]))
    c = s.or_(0, *[c for c, d in again])
    s.ob(v.equal(c, s.and_(here, lt, blank)), 'blank', 'what is skipped is blank', None, v.show(c)[:300])
    s.ob(all(d == {(): 1} for c, d in again), 'step', 'blanks are skipped one by one')
    by = lambda f: s.or_(0, *[c for c, x in gates(v.ret) if f(x)])
    fail, none, char = by(lambda x: x == ('i', -1)), by(lambda x: x == ('i', 0)), by(lambda x: at(strip(x)))
    s.ob(v.equal(fail, past), 'past', 'skipping more than there is fails, and nothing else', None, v.show(fail)[:200])
    s.ob(v.implies(s.not_(s.or_(fail, none, char)), s.and_(here, lt, blank)) and v.implies(s.and_(here, eq), none) and not v.possible(s.and_(none, lt)) and
         v.implies(s.and_(here, lt, s.not_(blank)), char) and not v.possible(s.and_(char, eq)), 'end', 'nothing is returned at the end of the text, the character before it')
    out = [e for e in st if not e.loops]
    first = [e for e in out if plain_lin(lin(e.args[1])) == begin]
    last = [e for e in out if own and strip(e.args[1]) in own]
    s.ob(v.equal(v.any(last if own else first), here) and len(first) + len(last) == len(out), 'skip', 'the characters which were asked for are skipped, and the blanks behind them')
    s = Spec(prog, res, 'json_parse', interest=['json_read'], throws=True, stores=[('Json', 'pos'), ('Json', 'json'), ('Json', 'json_size')])
    v = s.v
    rd = v.calls('json_read')
    if s.ob(len(rd) == 1 and rd[0].cond == 1 and plain(strip(rd[0].args[0])) == ('a', 0) and rd[0].args[1] == ('i', 0), 'all', 'the text is read from its start'):
        err = s.or_(0, *[e.cond for e in errors(s)])
        s.ob(v.implies(v.eq(rd[0].value, ('i', -1)), err) and v.implies(err, s.not_(v.cmp('sgt', rd[0].value, ('i', 0)))), 'error', 'a text which cannot be read is an error', None, v.show(err)[:200])
        ld = lambda f: ('ld', ('fld', ('a', 1), 'Str', f))
        want = {'pos': {}, 'json': {ld('pos'): 1}, 'json_size': {ld('end'): 1, ld('pos'): -1}}
        for f in sorted(want):
            e = [e for e in v.stores_of('Json', f) if e.order < rd[0].order]
            d = plain_lin(lin(e[-1].args[1])) if e else None
            s.ob(bool(e) and e[-1].cond == 1 and {t: n for t, n in d.items() if n} == want[f], 'start:' + f, 'reading starts at the first character of the text which was passed and knows its size', e[-1].where() if e else None, str(d))


def group(s, a, z, begin, end, per):
    """[ v, v ] or { k : v, k : v }"""
    v, b = s.v, s.v.b
    u = Token(s, ord(a))
    key = 'json_read:' + a + z
    be, en, rd = u.calls(begin), u.calls(end), u.calls('json_read')
    if not s.ob(len(be) == 1 and be[0][1] == 1 and len(en) >= 1 and len(rd) == per and len({e.loops for e, c in rd}) == 1 and len(rd[0][0].loops) == 1, key,
                'an array or map is read element by element'):
        return
    k = rd[0][0].loops[0]
    nx = [(e, c) for e, c in u.calls('json_next') if plain(strip(e.args[1])) != ('a', 1)]
    # the count which is stored at the end is the number of elements
    for e, c in en:
        x = e.args[1]
        d = lin(x)
        ps = [t for t in d if t != ()]
        ok = False
        if len(ps) == 1 and strip(ps[0])[0] == 'phi' and d[ps[0]] == 1:
            phi = strip(ps[0])
            init, step = v.phi(phi)
            ok = init == [('i', 0)] and all(ladd(lin(y), {phi: 1}, -1) == {(): 1} for y in step) and d.get((), 0) == 1 and phi[2] == k[0] \
                and v.frameobj[phi[2]].fn.insts[phi[1]].block == k[1]
        s.ob(ok, key + ':count', 'the number of elements which were read is recorded', e.where())
        # where: the place at which the header was written
        cell = e.guard.get(e.args[0])
        d = vlin(cell) if cell is not None and cell[0] != 'gate' else {}
        f = lambda x, n: x[0] == 'ld' and is_path(x, 'Buf', 'x') is False and plain(x)[1][0] == 'fld' and plain(x)[1][2:4] == ('Buf', n)
        starts = [t for t in d if t != () and f(t, 'start')]
        posn = [t for t in d if t != () and f(t, 'position')]
        ok = d.get((), 0) == 0 and len(posn) == 1 and d[posn[0]] == 1 and len(starts) == 2 and sorted(d[t] for t in starts) == [-1, 1]
        if ok:
            old = [t for t in starts if d[t] == -1][0]
            ok = early(be[0][0], posn[0]) and early(be[0][0], old) and not early(be[0][0], [t for t in starts if d[t] == 1][0])
        s.ob(ok, key + ':header', 'the number of elements is recorded in the header of this value, wherever the buffer is now', e.where())
    # accepted: closed in the loop, or empty
    E = u.cond(v.entry(k))
    g = u.good()
    some = s.or_(0, *[c for e, c in en])
    s.ob(v.implies(some, g) and not v.possible(s.and_(E, g, s.not_(some))), key + ':recorded', 'whenever a value with elements is accepted its header is completed')
    ends = [c for e, c in u.evs if e.kind == 'store' and e.name == ('Json', 'pos') and lin(e.args[1]).get((), 0) == 1]
    s.ob(v.equal(s.or_(0, *ends), g), key + ':closed', 'the closing bracket is consumed')
    # which characters are told apart
    for e, c in rd:
        later = [s.and_(c2, E) for e2, c2 in u.evs if e2.order > e.order and e2.kind in ('call', 'store')]
        okc = all(not v.possible(s.and_(c2, v.eq(e.value, ('i', -1)))) for c2 in later if c2) and not v.possible(s.and_(g, v.eq(e.value, ('i', -1)), E))
        s.ob(okc, key + ':failed', 'an element which cannot be read fails the whole value', e.where())
        if per == 2 and e is rd[0][0]:
            s.ob(all(not v.possible(s.and_(c2, s.not_(v.eq(e.value, ('i', ord('"')))))) for c2 in later if c2), key + ':key', 'a key is a string', e.where())
    atoms = set(v.b.vars)
    want = {ord(z), ord(',')} | ({ord(':')} if per == 2 else set())
    seen = {y[1] for a_ in v.b.vars if a_[0] == 'eq' for x, y in ((a_[1], a_[2]), (a_[2], a_[1]))
            if isinstance(x, tuple) and isinstance(y, tuple) and x in [n[0].value for n in nx] and y[0] == 'i'}
    s.ob(want <= seen and not seen - want - {0, -1}, key + ':separators', 'elements are separated and closed by their characters', None, str(sorted(seen)))
    # after a closing character nothing more is read; another element is read after a comma only
    for e, c in nx:
        if e.loops and e.loops[0] == k and not u.cond(v.entry(k)) == 0:
            isv = v.eq(e.value, ('i', ord(z)))
            comma = v.eq(e.value, ('i', ord(',')))
            st = s.or_(0, *[c2 for e2, c2 in u.evs if e2.kind == 'store'])
            if ('eq', e.value, ('i', ord(','))) in atoms or ('eq', ('i', ord(',')), e.value) in atoms:
                again = s.or_(0, *[u.cond(c2) for p in phis(v, k) for c2, x in v.phi_steps(p)])
                if again:
                    s.ob(not v.possible(s.and_(again, s.not_(comma))), key + ':comma', 'another element is read after a comma only', e.where())
                    s.ob(not v.possible(s.and_(g, E, s.not_(isv))), key + ':end', 'the value ends with its bracket', e.where())


def phis(v, k):
    return [('phi', i.id, k[0]) for i in v.frameobj[k[0]].fn.blocks[k[1]] if i.op == 'phi']


def early(e, ld):
    """was this loaded before the effect"""
    return max([n for k in ld[2:] for n in k], default=0) <= e.seq


def string(s, buf):
    v, b = s.v, s.v.b
    u = Token(s, ord('"'))
    key = 'json_read:string'
    out = u.calls('encode_raw', 'json_read_escaped')
    raw, esc = u.calls('encode_raw'), u.calls('json_read_escaped')
    if not s.ob(len(raw) == 1 and len(esc) <= 1 and len(u.loops) == 1, key, 'a string is read up to its closing quote'):
        return
    k = next(iter(u.loops))
    g = u.good()
    s.ob(s.or_(0, *[c for e, c in out]) == g and not v.possible(s.and_(raw[0][1], esc[0][1] if esc else 0)), key + ':once', 'a string which is accepted is stored once')
    for e, c in out:
        first, size = vlin(e.args[1]), vlin(e.args[2])
        P = [t for t in first if t != () and is_path(t, 'Json.pos')]
        ok = len(P) == 1 and first[P[0]] == 1 and first.get((), 0) == 1 and len(first) == 3 and size.get(P[0]) == -1 and \
            size.get((), 0) == -1 and len(size) == 3 and early_of(v, k, P[0])
        s.ob(ok, key + ':bounds', 'what is between the quotes is stored', e.where(), '%s; %s' % (sorted(map(str, first)), sorted(map(str, size))))
    B = u.loops[k]
    ps = phis(v, k)
    steps = {p: [(u.cond(c), x) for c, x in v.phi_steps(p)] for p in ps}
    for p in ps:
        if v.phi(p)[0] != [('i', 0)]:
            return
    again = s.or_(0, *[c for p in ps[:1] for c, x in steps[p]])
    nz = {p: s.not_(v.eq(p, ('i', 0))) for p in ps}

    def next_of(p):
        out = 0
        for c, x in steps[p]:
            out = s.or_(out, s.and_(c, nz[x] if x in nz else truthy(x) if truthy(x) is not None else s.not_(v.eq(x, ('i', 0)))))
        return out
    flags = [p for p in ps if b.support(again) & b.support(nz[p])]
    marks = [p for p in ps if p not in flags]
    ch = lambda x: x[0] == 'ld' and x[1][0] == 'idx' and is_path(x[1][1], 'Json.json') and is_path(x[1][2], 'Json.pos')
    within = b.support(B) | b.support(again) | {n for p in ps for c, x in steps[p] for n in b.support(c)}
    slash, quote = told(s, ch, 92, within), told(s, ch, 34, within)
    if not s.ob(s.made(slash) and s.made(quote), key + ':told', 'backslash and quote are told apart from other characters'):
        return
    if len(flags) == 1:
        f = nz[flags[0]]
        s.ob(v.equal(s.and_(next_of(flags[0]), again), s.and_(again, s.not_(f), slash)), key + ':slash', 'a backslash quotes the next character, one which is quoted itself does not', None, v.show(s.and_(next_of(flags[0]), again))[:600] + '\n' + v.show(s.and_(again, s.not_(f), slash))[:600])
        s.ob(v.equal(again, s.and_(B, s.not_(s.and_(s.not_(f), quote, s.not_(slash))))), key + ':end', 'the string ends with the first quote which is not escaped')
        if marks and esc:
            m = nz[marks[0]]
            s.ob(v.equal(s.and_(next_of(marks[0]), again), s.and_(again, s.or_(m, s.and_(s.not_(f), slash)))), key + ':marked', 'a string with a backslash is unescaped')
            s.ob(esc[0][1] == s.and_(g, m) and raw[0][1] == s.and_(g, s.not_(m)), key + ':unescaped', 'a string with a backslash is unescaped, another one is stored as it is')
    s.ob(bool(esc), key + ':escaped', 'escapes are removed from a string')


def early_of(v, k, ld):
    """loaded before the loop changed it"""
    fn, body, edge, rc = v.loops[k]
    first = [e.seq for e in v.events if e.loops and e.loops[0] == k]
    return not first or max([n for q in ld[2:] for n in q], default=0) < min(first)


def number(s, buf):
    v, b = s.v, s.v.b
    key = 'json_read:number'
    for t in '0123456789-':
        u = Token(s, ord(t))
        en = u.calls('encode_integer')
        if not s.ob(len(en) == 1 and buf(en[0][0]), key, 'a number is read'):
            return
        e, c = en[0]
        minus = told(s, lambda x: x[0] == 'ld' and has_path(x, 'Json.json') and not in_loop(x), ord('-'))
        for c2, x in gates(e.args[1]):
            k = s.and_(u.cond(c2), c)
            if not k:
                continue
            d = lin(x)
            ps = [p for p in d if p != ()]
            ok = len(ps) == 1 and strip(ps[0])[0] == 'phi' and abs(d[ps[0]]) == 1 and not d.get((), 0)
            if ok:
                phi = strip(ps[0])
                init, step = v.phi(phi)
                ok = init == [('i', 0)]
                for y in step:
                    dy = lin(y)
                    rest = [q for q in dy if q not in ((), phi)]
                    ok = ok and dy.get(phi) == 10 and dy.get((), 0) == -48 and len(rest) == 1 and dy[rest[0]] == 1 and has_path(rest[0], 'Json.json')
                ok = ok and s.made(minus) and v.implies(k, minus if d[ps[0]] < 0 else s.not_(minus))
            s.ob(ok, key + ':value', 'a number is the value of its digits, negative after a minus', e.where(), show(x, v)[:200])
        s.ob(v.implies(c, u.good()), key + ':accepted', 'a number which is stored is accepted', e.where())


def in_loop(x):
    return any(y[0] == 'phi' for y in walk(x))


def escaped(prog, res):
    """the inverse of the escapes of json_export_as"""
    fs = prog.byname.get('json_read_escaped')
    if not fs:
        raise Broken('json_read_escaped is gone')
    s = Spec(prog, res, fs[0], interest=['encode_raw', 'buf_write'])
    v, b = s.v, s.v.b
    wr, en = v.calls('buf_write'), v.calls('encode_raw')
    if not s.ob(len(wr) >= 1 and len(en) == 1 and en[0].cond == 1 and len({e.loops for e in wr}) == 1 and len(wr[0].loops) == 1 and all(e.args[2] == ('i', 1) for e in wr), 'form',
                'a string is unescaped character by character and stored'):
        return
    k = wr[0].loops[0]
    B = v.body(k)
    ps = phis(v, k)
    s.ob(v.equal(v.any(wr), B) and all(not v.possible(b.and_(x.cond, y.cond)) for x in wr for y in wr if x is not y), 'each', 'every character is written once', wr[0].where())
    ps = [p for p in ps if v.phi(p)[0] == [('i', 0)]]
    if not s.ob(len(ps) == 1, 'index', 'the characters are taken from the first one on'):
        return
    p = ps[0]
    at = lambda n: (lambda x: strip(x)[0] == 'ld' and strip(x)[1][0] == 'idx' and plain(strip(strip(x)[1][1])) == ('a', 1)
                    and lin(strip(x)[1][2]) == ({p: 1, (): n} if n else {p: 1}))
    inr = v.cmp('slt', p, ('a', 2))
    nxt = s.lrel('lt', [(p, 1), (('a', 2), -1)], 1)
    esc = s.and_(told(s, at(0), 92), nxt, s.or_(told(s, at(1), 92), told(s, at(1), 34)))
    s.ob(v.equal(B, inr) and v.single_exit(k), 'range', 'up to the last character', wr[0].where())
    two = 0
    ok = True
    for c, x in v.phi_steps(p):
        d = ladd(lin(x), {p: 1}, -1)
        ok = ok and d in ({(): 1}, {(): 2})
        if d == {(): 2}:
            two = s.or_(two, c)
    s.ob(ok and v.equal(two, s.and_(B, esc)), 'step', 'a backslash is taken together with a quote or backslash behind it, and only then', wr[0].where(), v.show(two)[:300])
    for e in wr:
        cells = [(c, e.guard.get(x, ('ld', x)) if x[0] in ('al',) else ('ld', x)) for c, x in gates(e.args[1])]
        for c, y in [(b.and_(c, c2), y) for c, cell in cells for c2, y in gates(cell)]:
            c = s.and_(c, e.cond)
            if not v.possible(c):
                continue
            y = strip(y)
            s.ob(at(1)(y) and v.implies(c, esc) or at(0)(y) and v.implies(c, s.not_(esc)), 'character', 'the escaped character is written, or the character itself', e.where(),
                 '%s when %s' % (show(y, v), v.show(c)[:200]))
    src = plain(strip(wr[0].args[0]))
    e = en[0]
    d = plain_lin(lin(e.args[2]))
    f = lambda n: ('ld', ('fld', src, 'Buf', n))
    s.ob(plain(strip(e.args[0])) == ('fld', ('a', 0), 'Json', 'buf') and plain(strip(e.args[1])) == f('start') and d == {f('position'): 1, f('start'): -1}
         and e.order > wr[0].order and all(plain(strip(x.args[0])) == src for x in wr), 'stored', 'the unescaped string is stored', e.where())


@rule('J01')
def j01(prog, res):
    readers = {}

    def first_part(prog, res):
        readers.update(table(prog, res))
    parts(prog, res, first_part, lambda p, r: skip(p, r, readers), lambda p, r: export(p, r, readers), encoders, parse)
