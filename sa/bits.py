"""Which input bit ends up in which bit of the output: a dataflow analysis on
the domain of known bits and origins of bits, for functions whose control flow
does not depend on data (the loops of an encoder over an array of fixed size).

A value is a tuple of bits, lowest first: 0, 1, or (array argument, byte, bit).
A byte read from a constant table at an unknown index is ('table', text, index).
"""
from ir import Broken

LIMIT = 20000


class Unknown(Broken):
    """the function is not of the kind this analysis decides"""


def width(t):
    if t and t[0] == 'i' and t[1:].isdigit():
        return int(t[1:])
    raise Unknown('type %s' % t)


def const(n, w):
    return tuple((n >> k) & 1 for k in range(w))


def number(x):
    if not isinstance(x, tuple) or any(b not in (0, 1) for b in x):
        return None
    return sum(b << k for k, b in enumerate(x))


def signed(n, w):
    return n - (1 << w) if n >> (w - 1) & 1 else n


def run(fn):
    """{(argument, offset): byte} of what the function stores"""
    vals, mem = {}, {}
    prev, cur = None, 0
    steps = 0

    def get(o, w=None):
        if o[0] == 'i':
            return const(o[1] & ((1 << o[2]) - 1), o[2])
        if o[0] == 'v':
            return vals[o[1]]
        if o[0] == 'a':
            return ('ptr', ('a', o[1]), 0)
        if o[0] == 's':
            return ('ptr', ('s', o[1]), 0)
        raise Unknown('operand %s' % o[0])

    while True:
        new = {}
        for i in fn.blocks[cur]:
            if i.op == 'phi':
                new[i.id] = get(i.o[i.inc.index(prev)])
        vals.update(new)
        for i in fn.blocks[cur]:
            steps += 1
            if steps > LIMIT:
                raise Unknown('does not end')
            if i.op == 'phi':
                continue
            if i.op == 'ret':
                return mem
            if i.op == 'br':
                if len(i.succ) == 1:
                    to = i.succ[0]
                else:
                    c = number(get(i.o[0]))
                    if c is None:
                        raise Unknown('control flow depends on data')
                    to = i.succ[0] if c else i.succ[1]
                break
            if i.op == 'getelementptr':
                p = get(i.o[0])
                if p[0] != 'ptr' or len(i.path or ()) != 1 or i.path[0][0] != 'e':
                    raise Unknown('address')
                x = get(i.path[0][1])
                n = number(x)
                if n is not None and isinstance(p[2], int):
                    vals[i.id] = ('ptr', p[1], p[2] + signed(n, len(x)) * i.path[0][3])
                elif p[1][0] == 's' and p[2] == 0 and i.path[0][3] == 1:
                    vals[i.id] = ('ptr', p[1], x)
                else:
                    raise Unknown('address')
            elif i.op == 'load':
                p = get(i.o[0])
                if p[0] != 'ptr' or width(i.t) != 8:
                    raise Unknown('load')
                if (p[1], p[2]) in mem:
                    vals[i.id] = mem[(p[1], p[2])]
                elif p[1][0] == 's':
                    vals[i.id] = const(ord(p[1][1][p[2]]), 8) if isinstance(p[2], int) else ('table', p[1][1], p[2])
                else:
                    vals[i.id] = tuple((p[1], p[2], k) for k in range(8))
            elif i.op == 'store':
                x, p = get(i.o[0]), get(i.o[1])
                if p[0] != 'ptr' or not isinstance(p[2], int) or width(i.st) != 8:
                    raise Unknown('store')
                mem[(p[1], p[2])] = x
            elif i.op in ('sext', 'zext', 'trunc'):
                x, w = get(i.o[0]), width(i.t)
                if not isinstance(x, tuple) or x and x[0] in ('ptr', 'table'):
                    raise Unknown('conversion')
                vals[i.id] = x[:w] + (x[-1] if i.op == 'sext' else 0,) * max(0, w - len(x))
            elif i.op == 'icmp':
                a, b = get(i.o[0]), get(i.o[1])
                m, n = number(a), number(b)
                if m is None or n is None:
                    raise Unknown('comparison')
                if i.pred[0] == 's':
                    m, n = signed(m, len(a)), signed(n, len(b))
                r = {'eq': m == n, 'ne': m != n}.get(i.pred)
                if r is None:
                    r = {'lt': m < n, 'le': m <= n, 'gt': m > n, 'ge': m >= n}[i.pred[1:]]
                vals[i.id] = (int(r),)
            elif i.op in ('shl', 'lshr', 'ashr'):
                x, n = get(i.o[0]), number(get(i.o[1]))
                w = len(x)
                if n is None:
                    raise Unknown('shift')
                if i.op == 'shl':
                    vals[i.id] = ((0,) * n + x)[:w]
                else:
                    vals[i.id] = x[n:] + (x[-1] if i.op == 'ashr' else 0,) * min(n, w)
            elif i.op in ('and', 'or', 'xor', 'add', 'sub', 'mul', 'srem', 'urem', 'sdiv', 'udiv'):
                a, b = get(i.o[0]), get(i.o[1])
                w = len(a)
                m, n = number(a), number(b)
                if m is not None and n is not None:
                    if i.op[0] == 's' and i.op != 'sub':
                        m, n = signed(m, w), signed(n, w)
                    if i.op[1:] in ('rem', 'div'):
                        if n == 0:
                            raise Unknown('division')
                        q = abs(m) // abs(n) * (1 if (m < 0) == (n < 0) else -1)
                        r = q if i.op[1:] == 'div' else m - q * n
                    else:
                        r = {'and': m & n, 'or': m | n, 'xor': m ^ n, 'add': m + n, 'sub': m - n, 'mul': m * n}[i.op]
                    vals[i.id] = const(r & ((1 << w) - 1), w)
                    continue
                out = []
                if i.op == 'add' and all(x == 0 or y == 0 for x, y in zip(a, b)):
                    op = 'or'       # no carry
                else:
                    op = i.op
                if op == 'mul' and n is not None and n and n & (n - 1) == 0:
                    vals[i.id] = ((0,) * (n.bit_length() - 1) + a)[:w]
                    continue
                for x, y in zip(a, b):
                    if y in (0, 1):
                        x, y = y, x
                    if op == 'and' and x in (0, 1):
                        out.append(y if x else 0)
                    elif op in ('or', 'xor') and x == 0:
                        out.append(y)
                    elif op == 'or' and x == 1:
                        out.append(1)
                    elif op in ('and', 'or') and x == y:
                        out.append(x)
                    else:
                        raise Unknown('arithmetic on data')
                vals[i.id] = tuple(out)
            else:
                raise Unknown(i.op)
        else:
            raise Unknown('block')
        prev, cur = cur, to
