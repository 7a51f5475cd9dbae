"""E02: what is printed is what was passed, and it fits."""
import re
from ir import Broken, walk
from report import parts, rule
from spec import lin, ladd, strip, is_path, origin

EXTERNAL = {'snprintf': 2, 'fprintf': 1, 'printf': 0, 'sprintf': 1, 'dprintf': 1}
CONV = re.compile(r'%([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?(hh|h|ll|l|z|j|t)?([diouxXcsfgeEpn%])')
INF = float('inf')
# digits of the largest number
DIGITS = {('d', 32): 11, ('u', 32): 10, ('x', 32): 8, ('d', 64): 20, ('u', 64): 20, ('x', 64): 16}


def base(key):
    return key.split('@')[0]


def conversions(text):
    """[(what, width, precision, flags)]: what is one of i32 i64 ptr double"""
    out, n = [], 0
    pos = 0
    while True:
        p = text.find('%', pos)
        if p < 0:
            return out
        m = CONV.match(text, p)
        if not m:
            return None
        pos = m.end()
        flags, width, prec, size, c = m.groups()
        if c == '%':
            continue
        for w in (width, prec):
            if w == '*':
                out.append(('i32', 'star', None, None))
        kind = 'ptr' if c in 'spn' else 'double' if c in 'fgeE' else 'i64' if size in ('l', 'll', 'z', 'j', 't') else 'i32'
        out.append((kind, c, width, prec))


def printf_like(prog):
    """key or external name -> number of the argument with the format, and whether the values follow it"""
    fmt = {k: (n, True) for k, n in EXTERNAL.items()}
    fmt['vsnprintf'] = (2, False)
    fmt['vfprintf'] = (1, False)
    work = ['vsnprintf', 'vfprintf']
    while work:
        n = work.pop()
        for i in prog.calls_of(n):
            take(prog, fmt, work, i, fmt[n][0])
        # through a function pointer
        for f in prog.functions.values():
            for i in f.calls():
                if i.callee and i.callee[0] != 'f' and n in prog.targets(i):
                    take(prog, fmt, work, i, fmt[n][0])
    return fmt


def take(prog, fmt, work, i, n):
    e = i.fn.expr(i.o[n])
    if e[0] == 'a' and i.fn.key not in fmt:
        fmt[i.fn.key] = (e[1], i.fn.vararg)
        if not i.fn.vararg:
            work.append(i.fn.key)


def type_of(f, o):
    if o[0] == 'v':
        return f.insts[o[1]].t
    if o[0] == 'i':
        return 'i%d' % o[2]
    if o[0] == 'a':
        return f.args[o[1]][2]
    if o[0] in ('s', 'f', 'g', 'null', 'n'):
        return 'ptr'
    return '?'


def ctype(prog, f, e):
    """the C type of a pointer value, or None"""
    k = e[0]
    if k == 'a':
        return f.args[e[1]][1]
    if k == 'ld' and e[1][0] == 'fld':
        fd = field(prog, e[1])
        return fd and fd['type']
    if k == 'fld':
        fd = field(prog, e)
        return fd and re.sub(r'\[\d*\]$', '', fd['type']) + '*'
    if k == 'al':
        at = f.insts[e[1]].at if e[1] in f.insts else None
        at = str(at)
        m = re.match(r'\[\d+ x i8\]$', at)
        if m or at == 'i8':
            return 'char*'
        return at + '*'
    return None


def field(prog, e):
    for d in prog.structs.get(e[2], {}).get('fields', ()):
        if d['name'] == e[3]:
            return d
    return None


CHARS = {'char*', 'uint8_t*', 'unsigned char*', 'int8_t*', 'signed char*', 'void*'}


def arguments(prog, res):
    """the values passed are what the format asks for"""
    fmt = printf_like(prog)
    for k, (n, follow) in sorted(fmt.items()):
        res.count('printf_functions')
        sites = list(prog.calls_of(k))
        if k in prog.functions and not follow:
            sites += [i for f in prog.functions.values() for i in f.calls() if i.callee and i.callee[0] != 'f' and k in prog.targets(i)]
        for i in sites:
            f = i.fn
            res.count('formatted_calls')
            res.fn(f)
            where = i.where()
            texts = formats(f, f.expr(i.o[n]))
            if texts is None:
                e = f.expr(i.o[n])
                passed = e[0] == 'a' and fmt.get(f.key, (None,))[0] == e[1] and not follow
                res.ob(passed, 'format:%s:%s' % (f.key, base(k)), where, 'the format given to %s() is not one: a %% in it is taken for a conversion' % base(k))
                continue
            for text in texts:
                one(prog, res, f, i, k, n, follow, text, where)
    res.need('printf_functions', 12)
    res.need('formatted_calls', 250)


def formats(f, e, seen=()):
    e = strip(e)
    if e[0] == 's':
        return [e[1]]
    if e[0] == 'v' and e[1] not in seen:
        i = f.insts[e[1]]
        ops = i.o if i.op == 'phi' else i.o[1:] if i.op == 'select' else None
        if ops:
            out = []
            for o in ops:
                t = formats(f, f.expr(o), seen + (e[1],))
                if t is None:
                    return None
                out += t
            return out
    return None


def one(prog, res, f, i, k, n, follow, text, where):
    key = '%s:%s:%d' % (f.key, base(k), abs(hash_of(text)) % 100000)
    conv = conversions(text)
    res.ob(conv is not None, 'conversion:' + key, where, 'the format %r has an unknown conversion' % text)
    if conv is None or not follow:
        if not follow:
            # the values come in a list somebody else checked; a constant format takes none
            res.ob(not conv, 'values:' + key, where, 'the format %r is given no values' % text)
        return
    vals = i.o[n + 1:]
    res.ob(len(vals) == len(conv), 'number:' + key, where, '%s() gets %d values for the %d conversions of %r' % (base(k), len(vals), len(conv), text))
    for a, (o, (kind, c, w, p)) in enumerate(zip(vals, conv)):
        res.count('values_formatted')
        t = type_of(f, o)
        if t == '?':
            continue
        if t in ('i8', 'i16', 'i1'):
            t = 'i32'
        res.ob(t == kind, 'type:%s:%d' % (key, a), where, '%s() gets a value of type %s for conversion %%%s of %r' % (base(k), t, c, text))
        if c != 'star' and kind in ('i32', 'i64'):
            res.ob(not shortened(prog, f, f.expr(o)), 'short:%s:%d' % (key, a), where, '%s() prints only a part of a number for conversion %%%s of %r' % (base(k), c, text))
        if c == 's' and t == 'ptr':
            e = f.expr(o)
            ct = ctype(prog, f, e)
            res.ob(ct is None or ct in CHARS, 'string:%s:%d' % (key, a), where, '%s() prints a %s as a string' % (base(k), ct))
            # the text of a Str has no end
            if is_path(e, 'Str.pos') and e[0] == 'ld':
                ok = (whole(f.expr(vals[a - 1]), e) if p == '*' and a else terminated(prog, f, e[1][1]))
                res.ob(ok, 'ends:%s:%d' % (key, a), where, '%s() prints a string beyond its end' % base(k))


def shortened(prog, f, e):
    """is this what is left of a larger number: an id, a size, a position"""
    while e[0] == 'cast':
        if e[1] == 'trunc':
            x = strip(e[-1])
            return any(declared_wide(prog, f, y) for y in walk(x)) if x[0] == 'bin' else declared_wide(prog, f, x)
        e = e[-1]
    return False


def declared_wide(prog, f, e):
    """a number which is declared with 64 bits in memory or as an argument"""
    ct = f.args[e[1]][1] if e[0] == 'a' else (field(prog, e[1]) or {}).get('type') if e[0] == 'ld' and e[1][0] == 'fld' else None
    return ct is not None and re.sub(r'(const|volatile|_Atomic) *', '', str(ct)).strip() in ('uint64_t', 'int64_t', 'size_t', 'ssize_t', 'atomic_u64')


ENDED = {'str_strndup', 'str_strdup', 'str_copy', 'str_set_cstr', 'str_init', 'str_free'}
# reads only
READS = {'str_size', 'str_of', 'str_u8', 'str_empty', 'str_compare', 'str_compare_raw', 'str_compare_cstr', 'str_compare_case'}


def terminated(prog, f, e, seen=()):
    """is the text of a Str followed by a 0"""
    e = strip(e)
    at = (f.key, e) if e[0] in ('al', 'a') else e[2:] if e[0] == 'fld' else None
    if at is None:
        return False
    if at in seen:
        return True
    seen = seen + (at,)
    if e[0] == 'a':
        sites = [i for g in prog.functions.values() for i in g.calls() if f.key in prog.targets(i)]
        return bool(sites) and all(terminated(prog, i.fn, i.fn.expr(i.o[e[1]]), seen) for i in sites)
    fns = [f] if e[0] == 'al' else list(prog.functions.values())

    def same(g, o):
        x = strip(g.expr(o))
        return x == e if e[0] == 'al' else x[0] == 'fld' and x[2:] == e[2:]
    found = False
    for g in fns:
        for i in g.all('call', 'store'):
            if i.op == 'store':
                x = strip(g.expr(i.o[1]))
                if x[0] == 'fld' and x[2] == 'Str' and x[3] in ('pos', 'end') and (strip(x[1]) == e if e[0] == 'al' else strip(x[1])[0] == 'fld' and strip(x[1])[2:] == e[2:]):
                    return False
                continue
            for n, o in enumerate(i.o):
                if not same(g, o):
                    continue
                name = base(i.callee[1]) if i.callee and i.callee[0] == 'f' else ''
                if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove') or name in ('memcpy', 'memmove'):
                    if n == 0:
                        found = True
                        if not terminated(prog, g, g.expr(i.o[1]), seen):
                            return False
                elif name in ('str_strndup', 'str_strdup', 'str_copy', 'str_set_cstr') and n == 0:
                    found = True
                elif name in ENDED or name in READS or name.startswith('llvm.') or n != 0 and name in ENDED:
                    pass
                elif name in prog.functions and changes(prog, name, n):
                    return False
    return found


def changes(prog, k, n, seen=()):
    """may the function make its argument n a text which does not end"""
    if (k, n) in seen:
        return False
    seen = seen + ((k, n),)
    f = prog.functions[k]
    for i in f.all('store'):
        x = f.expr(i.o[1])
        if x[0] == 'fld' and x[2] == 'Str' and strip(x[1]) == ('a', n):
            return True
    for i in f.calls():
        for m, o in enumerate(i.o):
            if strip(f.expr(o)) == ('a', n):
                name = i.callee[1] if i.callee and i.callee[0] == 'f' else None
                if name is None:
                    return True
                if name in ENDED or name in READS:
                    continue
                if name.startswith('llvm.memcpy') and m == 0:
                    return True
                if name in prog.functions and changes(prog, name, m, seen):
                    return True
    return False


def whole(size, at):
    """is size the size of the string at"""
    s = strip(size)
    while s[0] == 'cast':
        s = strip(s[4])
    if s[0] != 'bin' or s[1] != 'sub':
        return False
    a, b = strip(s[2]), strip(s[3])
    return b == strip(at) and a[0] == 'ld' and a[1][0] == 'fld' and a[1][2:] == ('Str', 'end') and a[1][1] == at[1][1]


def hash_of(text):
    h = 0
    for c in text:
        h = (h * 131 + ord(c)) & 0xffffffff
    return h


# ------------------------------------------------------------------ sizes
def array_size(prog, f, e):
    """bytes of the array an expression is the start of"""
    if e[0] == 'al':
        m = re.match(r'\[(\d+) x i8\]$', str(f.insts[e[1]].at))
        return int(m.group(1)) if m else None
    if e[0] == 'fld':
        fd = field(prog, e)
        return fd['size'] if fd and '[' in fd['type'] else None
    return None


def capacity(prog, res, f, i, d, s, key, depth=0):
    """the size passed is no more than there is"""
    e, z = f.expr(d), f.expr(s)
    off = {}
    e = strip(e)
    while e[0] == 'idx':
        off = ladd(off, lin(e[2]))
        e = strip(e[1])
    if e[0] == 'a' and depth < 4:
        zz = strip(z)
        if off or zz[0] not in ('a', 'i'):
            return 'not known'
        for c in prog.calls_of(f.key):
            sz = c.o[zz[1]] if zz[0] == 'a' else s
            bad = capacity(prog, res, c.fn, c, c.o[e[1]], sz, key, depth + 1)
            if bad:
                return bad
        return None
    cap = array_size(prog, f, e)
    if cap is None:
        return 'not known'
    d = ladd(ladd({(): cap}, off, -1), lin(wide(z)), -1)
    if set(d) - {()}:
        return 'not known'
    return None if d.get((), 0) >= 0 else '%d bytes less' % -d[()]


def wide(e):
    e = strip(e)
    while e[0] == 'cast':
        e = strip(e[4])
    return e


class Range:
    """upper bounds of the values of one function"""

    def __init__(self, prog, f):
        self.prog, self.f = prog, f
        self.edges = {}
        self.memo = {}
        self._dom = {}

    def dominating(self, b):
        """edges of conditional branches every path to block b takes: [(cond expr, taken)]"""
        if b in self._dom:
            return self._dom[b]
        f, out = self.f, []
        for blk in range(len(f.blocks)):
            t = f.blocks[blk][-1]
            if t.op != 'br' or not t.o or len(set(t.succ)) != 2:
                continue
            for taken, s in ((True, t.succ[0]), (False, t.succ[1])):
                if b != 0 and not self.reaches(b, (blk, s)):
                    out.append((t, taken))
        self._dom[b] = out
        return out

    def reaches(self, b, without):
        seen, work = {0}, [0]
        while work:
            x = work.pop()
            for s in self.f.blocks[x][-1].succ or []:
                if (x, s) != without and s not in seen:
                    seen.add(s)
                    work.append(s)
        return b in seen

    def limit(self, t, taken, v):
        """what the branch says about v"""
        e = self.f.expr(t.o[0])
        neg = False
        while e[0] in ('not',):
            neg, e = not neg, e[1]
        if e[0] != 'cmp':
            return INF
        op, a, b = e[1], strip(e[2]), strip(e[3])
        yes = taken != neg
        if b == v and a[0] == 'i':
            a, b = b, a
            op = {'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}.get(op, op)
        if b[0] != 'i':
            return INF
        # a + constant compared
        d = ladd(lin(wide(a)), lin(wide(v)), -1)
        if set(d) - {()}:
            return INF
        k = b[1] - d.get((), 0)
        if not yes:
            op = {'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt', 'eq': 'ne', 'ne': 'eq'}[op]
        return k - 1 if op in ('slt', 'ult') else k if op in ('sle', 'ule', 'eq') else INF

    def upper(self, e, blk, edge=None, seen=()):
        e = strip(e)
        if e[0] == 'i':
            return e[1]
        best = INF
        for t, taken in self.dominating(blk):
            best = min(best, self.limit(t, taken, e))
        if edge is not None:
            t = self.f.blocks[edge[0]][-1]
            if t.op == 'br' and t.o and len(set(t.succ)) == 2:
                best = min(best, self.limit(t, t.succ[0] == edge[1], e))
        return min(best, self.defined(e, blk, edge, seen))

    def defined(self, e, blk, edge, seen):
        k = e[0]
        if k == 'cast':
            return self.upper(e[4], blk, edge, seen)
        if k == 'bin' and e[1] == 'add':
            return self.upper(e[2], blk, edge, seen) + self.upper(e[3], blk, edge, seen)
        if k == 'bin' and e[1] == 'sub' and e[3][0] == 'i':
            return self.upper(e[2], blk, edge, seen) - e[3][1]
        if k == 'v' and e[1] not in seen:
            i = self.f.insts[e[1]]
            seen = seen + (e[1],)
            if i.op == 'phi':
                return max(self.upper(self.f.expr(o), p, (p, i.block), seen) for o, p in zip(i.o, i.inc))
            if i.op == 'select':
                c = self.f.expr(i.o[0])
                return max(self.chosen(c, True, self.f.expr(i.o[1]), i.block, seen), self.chosen(c, False, self.f.expr(i.o[2]), i.block, seen))
            if i.op == 'call' and i.callee[0] == 'f':
                return self.printed(i)
        return INF

    def chosen(self, c, yes, e, blk, seen):
        class T:
            pass
        best = INF
        if c[0] == 'cmp':
            x = strip(e)
            op, b = c[1], strip(c[3])
            if strip(c[2]) == x and b[0] == 'i':
                if op in ('slt', 'ult', 'sle', 'ule') and yes:
                    best = b[1] - (op[1:] == 'lt')
                if op in ('sgt', 'ugt', 'sge', 'uge') and not yes:
                    best = b[1] - (op[1:] == 'ge')
        return min(best, self.upper(e, blk, None, seen))

    def printed(self, i):
        """the longest text a call can make"""
        f, n = self.f, base(i.callee[1])
        if n == 'strftime':
            t = formats(f, f.expr(i.o[2]))
            return INF if t is None else max(len(re.sub(r'%[dmyHMSeIjUW]', '00', x)) if not re.search(r'%[^dmyHMS]', x) else INF for x in t)
        if n != 'snprintf':
            return INF
        texts = formats(f, f.expr(i.o[2]))
        if texts is None:
            return INF
        return max(self.length(t, i) for t in texts)

    def length(self, text, i):
        conv = conversions(text)
        if conv is None:
            return INF
        total = len(CONV.sub(lambda m: '%' if m.group(5) == '%' else '', text))
        vals = i.o[3:]
        prec = None
        for (kind, c, w, p), o in zip(conv, vals):
            if c == 'star':
                return INF
            n = INF
            if c in 'diuxX':
                t = {'i': 'd', 'X': 'x'}.get(c, c)
                n = DIGITS[(t, 64 if kind == 'i64' else 32)]
                e = self.f.expr(o)
                if e[0] == 'cast' and e[1] == 'zext' and e[2] in ('i8', 'i16') and t == 'x':
                    n = 2 if e[2] == 'i8' else 4
            elif c == 'f':
                n = 1 + 309 + 1 + (int(p) if p else 6)
            elif c == 'c':
                n = 1
            elif c == 's':
                n = text_length(self.prog, self.f, self.f.expr(o))
            if w and w != '*':
                n = max(n, int(w))
            total += n
        return total


def text_length(prog, f, e, seen=()):
    """the longest string an expression can be"""
    e = strip(e)
    if e[0] == 's':
        return len(e[1])
    size = array_size(prog, f, e)
    if size is not None:
        return size - 1
    if e in ((), ('i', 0), ('null',)):
        return 0
    if (f.key, e) in seen:
        return 0
    seen = seen + ((f.key, e),)
    if e[0] == 'v':
        i = f.insts[e[1]]
        ops = i.o if i.op == 'phi' else i.o[1:] if i.op == 'select' else None
        if ops:
            return max(text_length(prog, f, f.expr(o), seen) for o in ops)
    if e[0] == 'a':
        sites = [i for g in prog.functions.values() for i in g.calls() if f.key in prog.targets(i)]
        if sites:
            return max(text_length(prog, i.fn, i.fn.expr(i.o[e[1]]), seen) for i in sites)
    if e[0] == 'ld' and e[1][0] == 'fld':
        S, F = e[1][2:]
        out = 0
        for g in prog.functions.values():
            for i in g.all('store'):
                a = g.expr(i.o[1])
                if a[0] == 'fld' and a[2:] == (S, F):
                    out = max(out, text_length(prog, g, g.expr(i.o[0]), seen))
        return out
    return INF


def sizes(prog, res):
    """a text is not longer than its buffer says"""
    for n, d, s in (('snprintf', 0, 1), ('vsnprintf', 0, 1), ('strftime', 0, 1)):
        for i in sorted(prog.calls_of(n), key=lambda i: i.where()):
            f = i.fn
            res.fn(f)
            res.count('buffers')
            bad = capacity(prog, res, f, i, i.o[d], i.o[s], f.key)
            key = '%s:%s' % (f.key, show_dest(f.expr(i.o[d])))
            res.ob(not bad, 'size:' + key, i.where(), '%s() in %s() is told a size of the buffer which is %s' % (n, f.name, bad))
            lengths(prog, res, f, i, n)
    res.need('buffers', 30)
    res.need('lengths', 8)


def show_dest(e):
    e = strip(e)
    while e[0] == 'idx':
        e = strip(e[1])
    return '%s.%s' % e[2:4] if e[0] == 'fld' else e[0]


def lengths(prog, res, f, i, n):
    """where the length of the text is used it is the length of what is there"""
    d, z = strip(f.expr(i.o[0])), wide(f.expr(i.o[1]))
    off = {}
    while d[0] == 'idx':
        off = ladd(off, lin(d[2]))
        d = strip(d[1])
    total = ladd(lin(z), off)
    rng = Range(prog, f)
    cap = total.get((), 0) if not set(total) - {()} else None
    for u, o in uses(f, i):
        e = f.expr(o)
        if cap is None:
            res.ob(False, 'length:%s:%s' % (f.key, u.where()), u.where(), '%s() uses the length of a text whose buffer is not known' % f.name)
            continue
        res.count('lengths')
        if u.op == 'store':
            a = f.expr(u.o[1])
            if a[0] == 'fld':
                ok = stored(prog, f, a, cap)
                res.ob(ok, 'length:%s:%s.%s' % (f.key, a[2], a[3]), u.where(), '%s() keeps the length of a text which was cut off' % f.name)
                continue
        m = rng.upper(e, u.block)
        res.ob(m < cap, 'length:%s:%s' % (f.key, base(u.callee[1]) if u.op == 'call' and u.callee[0] == 'f' else u.op), u.where(),
               '%s() uses the length a text would have had if the buffer of %d bytes were larger' % (f.name, cap))


def uses(f, i):
    """instructions which use a length, directly or after calculating with it"""
    seen, work, out = set(), [i.id], []
    while work:
        v = work.pop()
        if v in seen:
            continue
        seen.add(v)
        for b in f.blocks:
            for u in b:
                for o in u.o or ():
                    if o == ['v', v]:
                        if u.op == 'sub' and u.o[1] == o:
                            # what is left, see capacity()
                            continue
                        if u.op in ('phi', 'select') or u.op in ('add', 'sub', 'sext', 'zext', 'trunc', 'bin', 'cast', 'freeze'):
                            work.append(u.id)
                        elif u.op in ('icmp', 'cmp', 'br', 'switch'):
                            pass
                        else:
                            out.append((u, o))
                if u.op == 'gep' and any(x == ['v', v] for p in u.path or () for x in (p if isinstance(p, (list, tuple)) else ())):
                    out.append((u, ['v', v]))
    return out


def stored(prog, f, a, cap):
    """the field is within the buffer when the function ends or throws: every store of
    a longer value is followed by a comparison of the field and a store of a constant"""
    loads = [l for l in f.all('load') if f.expr(l.o[0]) == a]
    st = [s for s in f.all('store') if f.expr(s.o[1]) == a]
    fixed = [s for s in st if strip(f.expr(s.o[0]))[0] == 'i' and f.expr(s.o[0])[1] < cap]
    for t in (b[-1] for b in f.blocks):
        if t.op != 'br' or not t.o:
            continue
        e = f.expr(t.o[0])
        neg = False
        while e[0] == 'not':
            neg, e = not neg, e[1]
        if e[0] != 'cmp' or strip(e[3])[0] != 'i' or strip(e[2]) not in [('ld', a)] + [strip(f.expr(['v', l.id])) for l in loads]:
            continue
        k, op = strip(e[3])[1], e[1]
        over = t.succ[1] if neg else t.succ[0]
        if not (op in ('sge', 'uge') and k <= cap or op in ('sgt', 'ugt') and k <= cap - 1):
            if not (op in ('slt', 'ult') and k <= cap or op in ('sle', 'ule') and k <= cap - 1):
                continue
            over = t.succ[0] if neg else t.succ[1]
        if any(s.block == over for s in fixed) and all(s in fixed or (s.block == t.block and s.idx < t.idx) for s in st):
            return True
    return False


@rule('E02')
def e02(prog, res):
    parts(prog, res, arguments, sizes)
