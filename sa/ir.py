"""The program model: /repo/monotone compiled to LLVM IR, exported as JSON by
irdump, and read back as functions, blocks, instructions and normalised value
expressions.

Expressions are tuples:
  ('i', n) ('s', text) ('f', function) ('g', global) ('a', argno) ('al', id)
  ('v', id)                 value of a call, phi or anything not modelled
  ('fld', base, S, f)       address of field f of struct S
  ('idx', base, e)          address of an element
  ('ld', addr)              value stored at addr
  ('cmp', pred, a, b) ('not', e) ('bin', op, a, b) ('sel', c, a, b)
  ('cast', op, from, to, e) an integer conversion
  ('b2i', e)                a boolean used as an integer
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('SA_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
INCLUDE = ['runtime', 'runtime/runtime', 'runtime/lib', 'runtime/config',
           'cloud', 'cloud/cloud', 'cloud/s3', 'engine', 'engine/io',
           'engine/storage', 'engine/wal', 'engine/engine', 'main',
           'main/command', 'main/main', 'main/api']


THROW = 'exception_mgr_throw'


class Broken(Exception):
    """The analysis itself cannot give an answer."""


def exporter():
    """path of irdump, built if it is not there (or older than its source)"""
    src = os.path.join(HERE, 'irdump.cpp')
    out = os.path.join(HERE, 'build', 'irdump')
    if os.path.exists(out) and os.path.getmtime(out) >= os.path.getmtime(src):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    flags = subprocess.check_output(['llvm-config-18', '--cxxflags'], text=True).split()
    flags = [f for f in flags if not f.startswith('-O')]
    tmp = out + '.%d' % os.getpid()
    subprocess.check_call(['g++', '-O1', '-w'] + flags + ['-fno-rtti', src, '-o', tmp,
                          '-L/usr/lib/llvm-18/lib', '-lLLVM-18'])
    os.rename(tmp, out)
    return out


def compile_repo(repo=REPO, release=False):
    """compile every unit of the library and return the exported document"""
    dump = exporter()
    top = os.path.join(repo, 'monotone')
    units = []
    for d, _, files in os.walk(top):
        units += [os.path.join(d, f) for f in files if f.endswith('.c')]
    units.sort()
    if len(units) < 40:
        raise Broken('only %d units found under %s' % (len(units), top))
    tmp = tempfile.mkdtemp(prefix='sa.')
    try:
        inc = ['-I' + os.path.join(top, d) for d in INCLUDE]

        def one(u):
            out = os.path.join(tmp, os.path.relpath(u, top).replace('/', '_') + '.bc')
            p = subprocess.run(['clang-18', '-w', '-std=gnu11', '-O0', '-g', '-Xclang',
                                '-disable-O0-optnone', '-Xclang', '-disable-llvm-passes']
                               + (['-DNDEBUG'] if release else []) + inc + ['-emit-llvm', '-c', u, '-o', out],
                               capture_output=True, text=True, cwd=tmp)
            return u, out, p
        outs = []
        with ThreadPoolExecutor(8) as ex:
            for u, out, p in ex.map(one, units):
                if p.returncode:
                    raise Broken('clang failed on %s:\n%s' % (u, p.stderr[-2000:]))
                outs.append(out)
        js = os.path.join(tmp, 'ir.json')
        with open(js, 'wb') as f:
            p = subprocess.run([dump, os.path.join(HERE, 'functions.txt')] + outs, stdout=f, stderr=subprocess.PIPE)
        if p.returncode:
            raise Broken('irdump failed: ' + p.stderr.decode()[-2000:])
        with open(js) as f:
            doc = json.load(f)
        doc['units'] = units
        return doc
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


class Inst:
    __slots__ = ('fn', 'id', 'op', 'o', 'callee', 'path', 'pred', 'succ', 'cases',
                 'default', 'inc', 'line', 't', 'frm', 'at', 'st', 'block', 'idx', 'lf')

    def __init__(self, fn, d, block, idx):
        self.fn = fn
        self.id = d['id']
        self.op = d['op']
        self.o = d['o']
        self.callee = d.get('callee')
        self.path = d.get('path')
        self.pred = d.get('pred')
        self.succ = d.get('succ')
        self.cases = d.get('cases')
        self.default = d.get('default')
        self.inc = d.get('inc')
        self.line = d.get('l')
        self.t = d.get('t')
        self.frm = d.get('from')
        self.at = d.get('at')
        self.st = d.get('st')
        self.lf = d.get('lf')
        self.block = block
        self.idx = idx

    def where(self):
        return '%s:%s' % (self.fn.relfile(self.lf), self.line or '?')

    def __repr__(self):
        return '<%s %%%d %s %s>' % (self.fn.key, self.id, self.op, self.where())


class Function:
    def __init__(self, prog, key, d):
        self.prog = prog
        self.key = key
        self.name = d['name']
        self.file = d['file']
        self.line = d['line']
        self.args = d['args']           # [name, di type, ir type, unsigned]
        self.noreturn = d['noreturn']
        self.local = d['local']
        self.vararg = bool(d.get('vararg'))
        self.ret = d['ret']
        self.ditype = d.get('ditype')
        self.diuns = d.get('diuns')
        self.names = {int(k): v for k, v in d['names'].items()}
        self.blocks = []
        self.insts = {}
        for b, ins in enumerate(d['blocks']):
            lst = [Inst(self, i, b, n) for n, i in enumerate(ins)]
            self.blocks.append(lst)
            for i in lst:
                self.insts[i.id] = i
        if not any(b and b[-1].op == 'ret' for b in self.blocks):
            self.noreturn = True
        last = self.line
        for b in self.blocks:
            for i in b:
                if i.line:
                    last = i.line
                else:
                    i.line = last
        self._expr = {}
        self._pure = None

    def relfile(self, lf=None):
        f = lf or self.file
        p = self.prog.repo.rstrip('/') + '/'
        return f[len(p):] if f.startswith(p) else f

    def where(self):
        return '%s:%d' % (self.relfile(), self.line)

    def __repr__(self):
        return self.key

    def all(self, *ops):
        for b in self.blocks:
            for i in b:
                if not ops or i.op in ops:
                    yield i

    def calls(self):
        for b in self.blocks:
            for i in b:
                if i.op == 'call' and not (i.callee[0] == 'f' and i.callee[1].startswith('llvm.')):
                    yield i

    def has_setjmp(self):
        return any(i.callee[0] == 'f' and i.callee[1] in ('_setjmp', 'setjmp') for i in self.calls())

    def preds(self):
        if not hasattr(self, '_preds'):
            p = [[] for _ in self.blocks]
            for n, b in enumerate(self.blocks):
                for s in (b[-1].succ or []):
                    p[s].append(n)
            self._preds = p
        return self._preds

    # ---- expressions
    def expr(self, o):
        k = o[0]
        if k == 'v':
            return self.iexpr(o[1])
        if k == 'a':
            return ('a', o[1])
        if k == 'i':
            return ('i', o[1])
        if k == 'null':
            return ('i', 0)
        if k == 'f':
            return ('f', o[1])
        if k == 'g':
            return ('g', o[1])
        if k == 's':
            return ('s', o[1])
        if k == 'ce':
            d = o[1]
            if d['op'] == 'getelementptr':
                return self._gep(self.expr(d['ops'][0]), d['path'])
            return ('ce', d['op'])
        return (k,)

    def _gep(self, base, path):
        for e in path:
            if e[0] == 'f':
                base = ('fld', base, e[1], self.prog.field_name(e[1], e[3], e[2]))
            else:
                ix = self.expr(e[1])
                if e[0] == 'e' and ix == ('i', 0):
                    continue
                # container_of: a step back from the embedded member
                if e[0] == 'e' and ix[0] == 'i' and ix[1] < 0 and len(e) > 3 and e[3] == 1 \
                        and base[0] == 'fld' and self.prog.field_off(base[2], base[3]) == -ix[1]:
                    base = base[1]
                    continue
                if e[0] == 'x' and ix == ('i', 0):
                    continue
                base = ('idx', base, ix)
        return base

    def iexpr(self, id):
        e = self._expr.get(id)
        if e is None:
            self._expr[id] = ('v', id)      # cycles through a phi
            e = self._mk(self.insts[id])
            self._expr[id] = e
        return e

    def _mk(self, i):
        op = i.op
        if op == 'alloca':
            return ('al', i.id)
        if op == 'getelementptr':
            return self._gep(self.expr(i.o[0]), i.path)
        if op == 'load':
            return ('ld', self.expr(i.o[0]))
        if op in ('zext', 'sext', 'trunc'):
            e = self.expr(i.o[0])
            if e[0] == 'i':
                return e if op != 'zext' or e[1] >= 0 else ('i', e[1] & ((1 << int(i.frm[1:])) - 1))
            if i.frm == 'i1':
                return ('b2i', e)
            if e[0] == 'b2i':
                return e[1] if i.t == 'i1' else e
            if op == 'trunc' and i.t == 'i1':
                return e
            return ('cast', op, i.frm, i.t, e)
        if op in ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast', 'freeze'):
            return self.expr(i.o[0])
        if op == 'icmp':
            a, b = self.expr(i.o[0]), self.expr(i.o[1])
            p = i.pred
            if a[0] == 'i' and b[0] != 'i':
                a, b = b, a
                p = {'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'ult': 'ugt',
                     'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}.get(p, p)
            if b == ('i', 0) and a[0] == 'b2i' and p in ('ne', 'eq'):
                return a[1] if p == 'ne' else neg(a[1])
            return ('cmp', p, a, b)
        if op == 'xor' and i.t == 'i1' and i.o[1][0] == 'i' and i.o[1][1] in (-1, 1):
            return neg(self.expr(i.o[0]))
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor',
                  'shl', 'lshr', 'ashr'):
            return ('bin', op, self.expr(i.o[0]), self.expr(i.o[1]))
        if op == 'select':
            return ('sel', self.expr(i.o[0]), self.expr(i.o[1]), self.expr(i.o[2]))
        if op == 'call' and i.callee[0] == 'f':
            n = i.callee[1]
            if n.startswith('llvm.expect') or n.startswith('llvm.threadlocal.address'):
                return self.expr(i.o[0])
            f = self.prog.functions.get(n)
            if f is not None:
                r = f.pure_expr()
                if r:
                    return subst(r, [self.expr(o) for o in i.o])
        return ('v', i.id)

    def pure_expr(self):
        """the returned expression of a function which only reads (one block)"""
        if self._pure is None:
            self._pure = False
            if len(self.blocks) == 1 and self.blocks[0][-1].op == 'ret' and self.blocks[0][-1].o:
                ok = True
                for i in self.blocks[0]:
                    if i.op in ('store', 'alloca', 'cmpxchg', 'atomicrmw', 'fence'):
                        ok = False
                    if i.op == 'call' and i.callee[0] != 'f':
                        ok = False
                    elif i.op == 'call' and not i.callee[1].startswith('llvm.expect') \
                            and not i.callee[1].startswith('llvm.threadlocal'):
                        f = self.prog.functions.get(i.callee[1])
                        if f is None or not f.pure_expr():
                            ok = False
                if ok:
                    e = self.expr(self.blocks[0][-1].o[0])
                    if not mentions(e, lambda x: x[0] in ('v', 'al')):
                        self._pure = e
        return self._pure


def neg(e):
    if e[0] == 'not':
        return e[1]
    if e[0] == 'cmp':
        p = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt',
             'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}.get(e[1])
        if p:
            return ('cmp', p, e[2], e[3])
    return ('not', e)


def subst(e, args):
    if e[0] == 'a':
        return args[e[1]] if e[1] < len(args) else ('undef',)
    r = tuple(subst(x, args) if isinstance(x, tuple) else x for x in e)
    if r[0] == 'not':
        return neg(r[1])
    return r


def mentions(e, pred):
    if pred(e):
        return True
    return any(isinstance(x, tuple) and mentions(x, pred) for x in e)


def walk(e):
    yield e
    for x in e:
        if isinstance(x, tuple):
            yield from walk(x)


def strip_casts(e):
    while e[0] in ('cast', 'b2i'):
        e = e[-1]
    return e


def show(e, fn=None):
    k = e[0]
    if k == 'i':
        return str(e[1])
    if k == 's':
        return json.dumps(e[1])
    if k in ('f', 'g'):
        return e[1]
    if k == 'a':
        return fn.args[e[1]][0] if fn and e[1] < len(fn.args) and fn.args[e[1]][0] else 'arg%d' % e[1]
    if k in ('v', 'al'):
        if fn and e[1] in fn.names:
            return fn.names[e[1]][0]
        if fn and e[1] in fn.insts and fn.insts[e[1]].op == 'call' and fn.insts[e[1]].callee[0] == 'f':
            return fn.insts[e[1]].callee[1] + '()'
        return '%%%d' % e[1]
    if k == 'fld':
        return '%s.%s' % (show(e[1], fn), e[3])
    if k == 'idx':
        return '%s[%s]' % (show(e[1], fn), show(e[2], fn))
    if k == 'ld':
        return show(e[1], fn) if e[1][0] in ('fld', 'idx', 'g', 'al') else '*' + show(e[1], fn)
    if k == 'cmp':
        return '(%s %s %s)' % (show(e[2], fn), e[1], show(e[3], fn))
    if k == 'bin':
        return '(%s %s %s)' % (show(e[2], fn), e[1], show(e[3], fn))
    if k == 'not':
        return '!' + show(e[1], fn)
    if k in ('cast', 'b2i'):
        return show(e[-1], fn)
    return str(e)


class Program:
    def __init__(self, doc, repo=REPO):
        self.repo = repo
        self.units = doc['units']
        self.structs = doc['structs']
        self.enums = {k: {n: v for n, v in e['values']} for k, e in doc['enums'].items()}
        self.globals = doc['globals']
        self.declares = doc['declares']
        self._fn = {}
        self._off = {}
        for s, d in self.structs.items():
            for f in d['fields']:
                self._fn.setdefault((s, f['off']), f['name'])
                self._off[(s, f['name'])] = f['off']
        self.functions = {k: Function(self, k, d) for k, d in doc['functions'].items()}
        self.byname = {}
        for f in self.functions.values():
            self.byname.setdefault(f.name, []).append(f)
        self._noreturn()
        self._points_to()

    def _noreturn(self):
        """a function which on every path calls one that does not return does not return either"""
        ends = lambda i: i.op == 'call' and i.callee[0] == 'f' and (
            self.functions[i.callee[1]].noreturn if i.callee[1] in self.functions else self.declares.get(i.callee[1], {}).get('noreturn'))
        work = True
        while work:
            work = False
            for f in self.functions.values():
                if f.noreturn or not f.blocks:
                    continue
                seen, todo, ret = {0}, [0], False
                while todo and not ret:
                    b = f.blocks[todo.pop()]
                    if any(ends(i) for i in b):
                        continue
                    ret = bool(b) and b[-1].op == 'ret'
                    for x in (b[-1].succ or []) if b else []:
                        if x not in seen:
                            seen.add(x)
                            todo.append(x)
                if not ret:
                    f.noreturn = work = True

    def ncalls(self):
        return sum(1 for f in self.functions.values() for i in f.calls())

    # ---- lookup
    def field_name(self, s, off, idx):
        return self._fn.get((s, off), '#%d' % idx)

    def field_off(self, s, f):
        return self._off.get((s, f))

    def field(self, s, f):
        for x in self.structs.get(s, {}).get('fields', []):
            if x['name'] == f:
                return x
        return None

    def fn(self, name):
        """the function with this name; a vanished anchor breaks the analysis"""
        l = self.byname.get(name, [])
        if len(l) == 1:
            return l[0]
        if not l:
            raise Broken('anchor function %s() is not in the program' % name)
        raise Broken('anchor function %s() is ambiguous' % name)

    def has(self, name):
        return name in self.byname

    def enum(self, name):
        for e in self.enums.values():
            if name in e:
                return e[name]
        raise Broken('anchor enumerator %s is not in the program' % name)

    def enum_of(self, name):
        """the enum (name -> value) which has this enumerator"""
        for e in self.enums.values():
            if name in e:
                return e
        raise Broken('anchor enumerator %s is not in the program' % name)

    # ---- points-to: function addresses and field addresses, by field
    def _points_to(self):
        pts = {}
        edges = {}
        seeds = []

        def node(fn, e):
            k = e[0]
            if k == 'a':
                return ('arg', fn.key, e[1])
            if k in ('v',):
                return ('val', fn.key, e[1])
            if k == 'ld':
                return cell(fn, e[1])
            if k == 'f':
                n = ('const',) + e
                seeds.append((n, ('f', e[1])))
                return n
            if k == 'fld':
                n = ('const', 'fld', e[2], e[3])
                seeds.append((n, ('&', e[2], e[3])))
                return n
            if k == 'g':
                n = ('const', 'g', e[1])
                seeds.append((n, ('g', e[1])))
                return n
            if k in ('cast', 'b2i'):
                return node(fn, e[-1])
            return None

        def cell(fn, a):
            if a[0] == 'fld':
                return ('cell', a[2], a[3])
            if a[0] == 'al':
                return ('alloca', fn.key, a[1])
            if a[0] == 'g':
                return ('gcell', a[1])
            if a[0] == 'idx':
                return cell(fn, a[1])
            return None

        def edge(a, b):
            if a is not None and b is not None:
                edges.setdefault(a, set()).add(b)

        # constant initializers
        def init(v, dest):
            if isinstance(v, dict):
                if 'array' in v:
                    for x in v['array']:
                        init(x, dest)
                elif 'struct' in v:
                    st = self.structs.get(v['struct'], {}).get('fields', [])
                    for n, x in enumerate(v['v']):
                        if n < len(st):
                            init(x, ('cell', v['struct'], st[n]['name']))
            elif isinstance(v, list) and v and v[0] == 'f':
                seeds.append((dest, ('f', v[1])))
        for g, d in self.globals.items():
            init(d['init'], ('gcell', g))
        indirect = []
        for f in self.functions.values():
            for i in f.all():
                if i.op == 'store':
                    edge(node(f, f.expr(i.o[0])), cell(f, f.expr(i.o[1])))
                elif i.op == 'phi':
                    for o in i.o:
                        edge(node(f, f.expr(o)), ('val', f.key, i.id))
                elif i.op == 'select':
                    for o in i.o[1:]:
                        edge(node(f, f.expr(o)), ('val', f.key, i.id))
                elif i.op == 'ret' and i.o:
                    edge(node(f, f.expr(i.o[0])), ('ret', f.key))
                elif i.op == 'call':
                    if i.callee[0] == 'f':
                        if i.callee[1] in self.functions:
                            for n, o in enumerate(i.o):
                                edge(node(f, f.expr(o)), ('arg', i.callee[1], n))
                            edge(('ret', i.callee[1]), ('val', f.key, i.id))
                    elif i.callee[0] == 'v':
                        indirect.append((f, i, node(f, f.expr(i.callee))))
                    elif i.callee[0] == 'a':
                        indirect.append((f, i, ('arg', f.key, i.callee[1])))
        bound = set()
        work = []

        def add(n, v):
            s = pts.setdefault(n, set())
            if v not in s:
                s.add(v)
                work.append((n, v))
        for n, v in seeds:
            add(n, v)
        by_node = {}
        for f, i, n in indirect:
            by_node.setdefault(n, []).append((f, i))
        while work:
            n, v = work.pop()
            for m in edges.get(n, ()):
                add(m, v)
            if v[0] == 'f' and v[1] in self.functions:
                for f, i in by_node.get(n, ()):
                    if (f.key, i.id, v[1]) in bound:
                        continue
                    bound.add((f.key, i.id, v[1]))
                    for k, o in enumerate(i.o):
                        a = node(f, f.expr(o))
                        if a is not None:
                            edge(a, ('arg', v[1], k))
                            for x in list(pts.get(a, ())):
                                add(('arg', v[1], k), x)
                            while seeds:
                                s = seeds.pop()
                                add(*s)
        self.pts = pts
        self._node = node
        self._indirect = {(f.key, i.id): n for f, i, n in indirect}
        # call graph
        self.callers = {}
        self._callees = {}
        for f in self.functions.values():
            for i in f.calls():
                for c in self.targets(i):
                    self.callers.setdefault(c, []).append(i)

    def points_to(self, fn, e):
        n = self._node(fn, e)
        return self.pts.get(n, set()) if n is not None else set()

    def targets(self, i):
        """names of the functions a call instruction may call"""
        c = i.callee
        if c[0] == 'f':
            return [c[1]]
        r = self._callees.get((i.fn.key, i.id))
        if r is None:
            n = self._indirect.get((i.fn.key, i.id))
            r = sorted(v[1] for v in self.pts.get(n, ()) if v[0] == 'f') if n else []
            self._callees[(i.fn.key, i.id)] = r
        return r

    def reach(self, roots, stop=(THROW,)):
        """functions reachable from the roots over the call graph (guards run by
        a throw belong to the function which pushed them)"""
        seen = set()
        work = list(roots)
        while work:
            k = work.pop()
            if k in seen:
                continue
            seen.add(k)
            f = self.functions.get(k)
            if not f or k in stop:
                continue
            for i in f.calls():
                work += self.targets(i)
        return seen

    def reaching(self, targets):
        """functions from which one of the targets can be reached"""
        seen = set()
        work = list(targets)
        while work:
            k = work.pop()
            if k in seen:
                continue
            seen.add(k)
            if k == THROW:
                continue
            for i in self.callers.get(k, ()):
                work.append(i.fn.key)
        return seen

    def calls_of(self, name):
        """call sites whose callee may be this function"""
        return self.callers.get(name, [])


_prog = {}


def program(release=False):
    """the program as the debug build compiles it, or with the assertions off"""
    if release not in _prog:
        _prog[release] = Program(compile_repo(release=release))
    return _prog[release]
