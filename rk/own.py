"""Ownership of resources: a path sensitive data flow analysis over the flow graph with exception edges.

The state knows, for every memory cell that can be named (a local, an object behind a parameter, a heap object), whether it holds a
resource, which one, and for every resource whether it is held or released.  Undecided branches are followed both ways; callees whose
body is known are followed, all others may throw unless they are C functions or marked otherwise.  Sizes are kept as expressions."""
import re
from .common import *

ACQ = {'aligned_alloc': ('malloc', 'null'), 'malloc': ('malloc', 'null'), 'calloc': ('malloc', 'null'), 'operator new(unsigned long)': ('new', 'throw'),
       'operator new[](unsigned long)': ('new[]', 'throw'), 'operator new(unsigned long, std::nothrow_t const&)': ('new', 'null'),
       'operator new[](unsigned long, std::nothrow_t const&)': ('new[]', 'null'), 'open': ('fd', -1), 'open64': ('fd', -1), 'dup': ('fd', -1), 'openat': ('fd', -1),
       'fopen': ('FILE', 'null'), 'fopen64': ('FILE', 'null'), 'fdopen': ('FILE', 'null')}
REL = {'free': 'malloc', 'cfree': 'malloc', 'close': 'fd', 'fclose': 'FILE'}
DELETE = re.compile(r'^operator delete(\[\])?\(void\*')
ZINIT = re.compile(r'^(inflate|deflate)Init2?_$')
ZEND = re.compile(r'^(inflate|deflate)End$')
NAME = {'malloc': 'memory', 'new': 'an object', 'new[]': 'memory', 'fd': 'a file descriptor', 'FILE': 'a file', 'z': 'a zlib stream', 'thread': 'a thread'}
QUIET = re.compile(r'^llvm\.|^__cxa_(begin|end)_catch|^__cxa_free_exception|^__cxa_allocate|^__errno_location')
DEPTH = 14


class TooMany(Exception):
    pass


class State:
    __slots__ = ('mem', 'tok', 'conds', 'log')

    def __init__(self):
        self.mem, self.tok, self.conds, self.log = {}, {}, frozenset(), ()

    def clone(self):
        s = State()
        s.mem, s.tok, s.conds, s.log = dict(self.mem), dict(self.tok), self.conds, self.log
        return s

    def key(self):
        return (frozenset(self.mem.items()), frozenset(self.tok.items()), self.conds)


def depth(e, d=0):
    return d if not isinstance(e, tuple) else max([depth(x, d + 1) for x in e if isinstance(x, tuple)] or [d])


def syms(e):
    if isinstance(e, tuple):
        if e and e[0] in ('sym', 'phi'):
            yield e
        else:
            for x in e:
                yield from syms(x)


def ev(e, env, w=64):
    """value of an expression of sizes"""
    if e is None:
        return None
    if e[0] == 'i':
        return e[1]
    if e[0] in ('sym', 'phi'):
        return env.get(e)
    if e[0] == 'x':
        op, a, b = e[1], ev(e[2], env), ev(e[3], env) if len(e) > 3 else None
        if a is None or (len(e) > 3 and b is None):
            return None
        m = (1 << 64) - 1
        try:
            return {'add': lambda: a + b & m, 'sub': lambda: a - b & m, 'mul': lambda: a * b & m, 'and': lambda: a & b, 'or': lambda: a | b, 'xor': lambda: a ^ b,
                    'shl': lambda: a << b & m, 'lshr': lambda: a >> b, 'udiv': lambda: a // b, 'urem': lambda: a % b, 'eq': lambda: int(a == b), 'ne': lambda: int(a != b),
                    'ult': lambda: int(a < b), 'ugt': lambda: int(a > b), 'ule': lambda: int(a <= b), 'uge': lambda: int(a >= b),
                    'min': lambda: min(a, b), 'max': lambda: max(a, b)}[op]()
        except (KeyError, ZeroDivisionError):
            return None
    return None


class Own:
    """bad(rule, Inst, message)"""

    def __init__(self, M, bad, light=False, limit=20000, keep=None):
        self.M, self.bad, self.light, self.limit = M, bad, light, limit
        self.keep = keep                        # symbols whose conditions are recorded
        self.steps, self.found = 0, []          # found: releases of initial values (discovery)
        self.bodies = {F.name: F for F in M.functions.values()}
        self.used = set()

    # ---------------------------------------------------------------- values
    def ref(self, env, frame, r):
        if 'v' in r:
            if r['v'] in env:
                return env[r['v']]
            return None
        if 'c' in r:
            w = r.get('w', 32)
            return ('i', int(r['c']) & ((1 << w) - 1), w)
        if r.get('null'):
            return ('null',)
        if 'a' in r:
            return env.get(('a', r['a']))
        if 'g' in r:
            return ('ptr', ('g', r['g']), 0)
        if r.get('undef'):
            return ('undef',)
        return None

    def read(self, s, p, ty):
        """value of a cell"""
        k = (p[1], p[2])
        if k in s.mem:
            return s.mem[k]
        root = p[1]
        if root[0] == 'tok' and root[2] == 'new' and isinstance(root[1][0], int):
            return ('undef',)
        if root[0] == 'init' or root[0] == 'obj':
            if ty == 'ptr' or self.is_res(root, p[2]):
                return ('ptr', ('init', k), 0)
            if ty in ('i64', 'i32'):
                return ('sym', k)
        return None

    def is_res(self, root, off):
        return False

    def calc(self, s, env, frame, I):
        op = I.op
        R = lambda o: self.ref(env, frame, o)
        if op == 'getelementptr':
            b = R(I.ops[0])
            if not b or b[0] != 'ptr':
                return b if b and b[0] == 'null' else None
            if I.d.get('var') or b[2] is None or 'off' not in I.d:
                return ('ptr', b[1], None)
            n = b[2] + I.d['off']
            return ('ptr', b[1], n if n <= 4096 else None)
        if op == 'load':
            p = R(I.ops[0])
            self.touch(s, I, p)
            if p and p[0] == 'ptr' and p[2] is not None:
                return self.read(s, p, I.ty)
            return None
        if op in ('zext', 'sext', 'trunc', 'freeze', 'bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast'):
            v = R(I.ops[0])
            if v and v[0] == 'i':
                m = re.match(r'i(\d+)', I.ty)
                w = int(m.group(1)) if m else v[2]
                n = v[1]
                if op == 'sext' and n >> (v[2] - 1) & 1:
                    n -= 1 << v[2]
                return ('i', n & ((1 << w) - 1), w)
            return v
        if op == 'icmp':
            return self.cmp(s, I.d['pred'], R(I.ops[0]), R(I.ops[1]))
        if op == 'select':
            c = R(I.ops[0])
            t = self.truth(s, c)
            a, b = R(I.ops[1]), R(I.ops[2])
            if t is not None:
                return a if t else b
            if a == b:
                return a
            return ('sel', c, a, b) if depth(c) < 6 else None
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'udiv', 'urem'):
            a, b = R(I.ops[0]), R(I.ops[1])
            if a and b and a[0] == b[0] == 'i':
                e = ev(('x', op, a, b), {})
                return ('i', e & ((1 << a[2]) - 1), a[2]) if e is not None else None
            if I.ty == 'i1' and op in ('and', 'or', 'xor'):
                x, y = self.truth(s, a), self.truth(s, b)
                if op == 'xor' and y is not None and a is not None:
                    return ('not', a) if y else a
                if x is not None and y is not None:
                    return ('i', int({'and': x and y, 'or': x or y, 'xor': x != y}[op]), 1)
                if op == 'and' and (x is False or y is False):
                    return ('i', 0, 1)
                if op == 'or' and (x or y):
                    return ('i', 1, 1)
                return (op, a, b)
            if a and b and a[0] in ('i', 'sym', 'x', 'phi') and b[0] in ('i', 'sym', 'x', 'phi'):
                e = ('x', op, a, b)
                return e if depth(e) < 9 else None
            return None
        return None

    def cmp(self, s, p, a, b):
        if a is None or b is None:
            return None
        sw = {'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle'}
        if a[0] in ('null', 'i') and b[0] not in ('null', 'i'):
            a, b, p = b, a, sw.get(p, p)
        if a[0] == 'sel':
            x, y = self.cmp(s, p, a[2], b), self.cmp(s, p, a[3], b)
            return ('sel', a[1], x, y) if x is not None and y is not None else None
        if a[0] == 'i' and b[0] == 'i':
            x, y, w = a[1], b[1], a[2]
            if p[0] == 's':
                x, y = [v - (1 << w) if v >> (w - 1) & 1 else v for v in (x, y)]
            return ('i', int({'eq': x == y, 'ne': x != y, 'lt': x < y, 'gt': x > y, 'le': x <= y, 'ge': x >= y}[p[-2:]]), 1)
        if a[0] == 'null' and b[0] == 'null':
            return ('i', int(p in ('eq', 'ule', 'uge')), 1)
        if a[0] == 'ptr' and b[0] == 'null' and p in ('eq', 'ne'):
            if a[1][0] == 'init':
                return ('isnull', a[1], p == 'eq')
            return ('i', int(p == 'ne'), 1)
        if a[0] == 'tok' and b[0] == 'i':
            y = b[1] - (1 << b[2]) if b[1] >> (b[2] - 1) & 1 else b[1]
            if y < 0:
                r = {'eq': 0, 'ne': 1, 'sgt': 1, 'sge': 1, 'slt': 0, 'sle': 0}.get(p)
            else:
                r = {'slt': 0 if y == 0 else None, 'sge': 1 if y == 0 else None}.get(p)
            return ('i', r, 1) if r is not None else None
        if a[0] == 'ptr' and b[0] == 'ptr' and p in ('eq', 'ne'):
            if a[1] == b[1] and a[2] is not None and a[2] == b[2]:
                return ('i', int(p == 'eq'), 1)
            if a[1] != b[1] and a[1][0] in ('al', 'tok', 'obj', 'init') and b[1][0] in ('al', 'tok', 'obj', 'init'):
                return ('i', int(p == 'ne'), 1)
            return None
        if a[0] == 'code' and b[0] == 'i' and b[1] == 0 and p in ('eq', 'ne'):
            return ('i', int(p == 'ne'), 1)
        if a[0] in ('sym', 'x', 'phi') and b[0] in ('i', 'sym', 'x', 'phi') and p[0] != 's':
            return ('x', p, a, b)
        if a[0] in ('sel', 'and', 'or', 'not', 'isnull') and b[0] == 'i' and b[1] == 0 and p in ('eq', 'ne'):
            return ('not', a) if p == 'eq' else a
        return None

    def truth(self, s, v):
        if v is None:
            return None
        if v[0] == 'i':
            return v[1] != 0
        if v[0] == 'x':
            if v in [c for c, t in s.conds]:
                return dict(s.conds)[v]
            return None
        if v[0] == 'not':
            t = self.truth(s, v[1])
            return None if t is None else not t
        if v[0] == 'sel':
            c = self.truth(s, v[1])
            if c is None:
                x, y = self.truth(s, v[2]), self.truth(s, v[3])
                return x if x == y else None
            return self.truth(s, v[2] if c else v[3])
        if v[0] in ('and', 'or'):
            x, y = self.truth(s, v[1]), self.truth(s, v[2])
            if v[0] == 'and':
                return False if x is False or y is False else (True if x and y else None)
            return True if x or y else (False if x is False and y is False else None)
        return None

    def assume(self, s, v, t):
        if v and v[0] == 'not':
            return self.assume(s, v[1], not t)
        if v and v[0] == 'x' and v[1] in ('eq', 'ne', 'ult', 'ugt', 'ule', 'uge'):
            L = list(syms(v))
            if all(x[0] == 'sym' for x in L):
                s.conds = s.conds | {(v, t)}
        elif v and v[0] == 'and' and t or v and v[0] == 'or' and not t:
            self.assume(s, v[1], t)
            self.assume(s, v[2], t)

    # ---------------------------------------------------------------- resources
    def touch(self, s, I, p):
        """an access through a pointer"""
        if p and p[0] == 'ptr' and p[1][0] == 'tok' and s.tok.get(p[1][1], ('', 'held'))[1] == 'freed':
            self.bad('nothing is used after its release', I, '%s is used after its release' % NAME[p[1][2]])
        if p and p[0] == 'null' and not self.light:
            pass

    def fresh(self, s, kind, I, frame, extra=None):
        n = 0
        while (I.i, frame, n) in s.tok:
            n += 1
        t = (I.i, frame, n)
        if n > 2:
            t = (I.i, frame, 2)
        s.tok[t] = (kind, 'held', I.where(), extra)
        return t

    def value_of(self, t, kind):
        return ('tok', t, kind) if kind == 'fd' else ('ptr', ('tok', t, kind), 0)

    def token(self, v):
        if v and v[0] == 'tok':
            return v[1], v[2]
        if v and v[0] == 'ptr' and v[1][0] == 'tok':
            return v[1][1], v[1][2]
        return None

    def release(self, s, I, v, kind, fn):
        if v is None or v == ('undef',):
            if v == ('undef',) and not self.light:
                self.bad('only what was acquired is released', I, '%s is called for a value that was never set' % fn)
            return
        if v[0] == 'sel':
            for x in v[2:]:
                self.release(s, I, x, kind, fn)
            return
        if v[0] == 'ptr' and v[1][0] == 'init':
            self.found.append((v[1][1], kind, I))
            return
        if v[0] == 'sym' and kind == 'fd' and isinstance(v[1], tuple) and len(v[1]) == 2 and isinstance(v[1][0], tuple):
            self.found.append((v[1], kind, I))
            return
        t = self.token(v)
        if t is None:
            if v[0] == 'ptr' and v[1][0] in ('al', 'obj', 'g'):
                self.bad('only what was acquired is released', I, '%s is called for something that was not acquired' % fn)
            return
        st = s.tok.get(t[0])
        if st is None:
            return
        if st[1] == 'freed':
            self.bad('released exactly once', I, '%s acquired at %s is released a second time' % (NAME[t[1]], st[2]))
            return
        if t[1] != kind:
            self.bad('released with the function that belongs to it', I, '%s acquired as %s is released with %s' % (NAME[t[1]], t[1], fn))
        s.tok[t[0]] = (st[0], 'freed') + st[2:]
        if kind in ('new[]', 'malloc') and not self.light:
            for (r, off), x in s.mem.items():
                if x and x[0] == 'ptr' and x[1] == ('tok', t[0], t[1]):
                    for (r2, off2), y in s.mem.items():
                        if r2 == r and y and y[0] == 'tok' and y[2] == 'thread' and s.tok.get(y[1], ('', ''))[1] == 'held':
                            self.bad('nothing is used after its release', I, 'memory is released while the thread that the object started may still use it')

    def place(self, s, v):
        return (v[1], v[2]) if v and v[0] == 'ptr' and v[2] is not None else None

    def call(self, s, I, env, frame):
        """alternatives [(state, value, 'ret' | 'throw')], or None for a call that is not known"""
        d = I.dem or ''
        a = [self.ref(env, frame, o) for o in I.ops]
        if d in ACQ:
            kind, fail = ACQ[d]
            n = s.clone()
            size = a[-1] if kind in ('malloc', 'new', 'new[]') and a else None
            t = self.fresh(n, kind, I, frame, size)
            out = [(n, self.value_of(t, kind), 'ret')]
            f = s.clone()
            out.append((f, ('null',) if fail == 'null' else (('i', 0xffffffff, 32) if fail == -1 else None), 'throw' if fail == 'throw' else 'ret'))
            return out
        m = DELETE.match(d)
        if m or d in REL:
            self.release(s, I, a[0] if a else None, REL.get(d) or ('new[]' if m.group(1) else 'new'), d.split('(')[0])
            return [(s, None, 'ret')]
        if ZINIT.match(d):
            p = self.place(s, a[0])
            if p is None:
                return [(s, None, 'ret')]
            self.over(s, I, p)
            n = s.clone()
            t = self.fresh(n, 'z', I, frame)
            n.mem[(p[0], ('r', p[1]))] = ('tok', t, 'z')
            return [(n, ('i', 0, 32), 'ret'), (s.clone(), ('code',), 'ret')]
        if ZEND.match(d):
            p = self.place(s, a[0])
            if p is not None:
                self.release(s, I, s.mem.get((p[0], ('r', p[1]))), 'z', d)
            return [(s, None, 'ret')]
        m = re.match(r'^(.*\b)?std::thread::(~?thread\b|joinable|join|detach|operator=|swap)', d)
        if m:
            return self.thread(s, I, m.group(2), a, frame, d)
        m = re.search(r'\bstd::(min|max)<unsigned long>', d)
        if m and len(a) == 2:
            x = [self.read(s, q, 'i64') if q and q[0] == 'ptr' and q[2] is not None else None for q in a]
            if None not in x:
                k = (('tmp', I.i, frame), 0)
                s.mem[k] = ('x', m.group(1), x[0], x[1])
                return [(s, ('ptr', k[0], 0), 'ret')]
        for v in a:
            t = self.token(v)
            if t and s.tok.get(t[0], ('', ''))[1] == 'freed' and not QUIET.search(d):
                self.bad('nothing is used after its release', I, '%s is used by %s after its release' % (NAME[t[1]], d.split('(')[0]))
        return None

    def over(self, s, I, p):
        old = s.mem.get((p[0], ('r', p[1])))
        t = self.token(old)
        if t and s.tok.get(t[0], ('', ''))[1] == 'held':
            self.bad('released exactly once', I, '%s acquired at %s is overwritten' % (NAME[t[1]], s.tok[t[0]][2]))

    def thread(self, s, I, what, a, frame, d):
        p = self.place(s, a[0] if a else None)
        if p is None:
            return [(s, None, 'ret')]
        k = (p[0], ('r', p[1]))
        cur = s.mem.get(k)
        held = None if cur is None else cur[0] == 'tok' and s.tok.get(cur[1], ('', ''))[1] == 'held'
        if what == 'thread':
            if len(a) == 1:
                s.mem[k] = ('none',)
                return [(s, None, 'ret')]
            if 'thread(std::thread&&)' in d:
                q = self.place(s, a[1])
                s.mem[k] = s.mem.get((q[0], ('r', q[1]))) if q else None
                if q:
                    s.mem[(q[0], ('r', q[1]))] = ('none',)
                return [(s, None, 'ret')]
            n, f = s.clone(), s.clone()
            t = self.fresh(n, 'thread', I, frame)
            n.mem[k] = ('tok', t, 'thread')
            return [(n, None, 'ret'), (f, None, 'throw')]
        if what == 'operator=':
            if held:
                self.bad('a thread is joined before it is replaced or destroyed', I, 'a running thread is replaced by another')
            q = self.place(s, a[1])
            if q:
                kq = (q[0], ('r', q[1]))
                s.mem[k] = s.mem.get(kq)
                s.mem[kq] = ('none',)
            else:
                s.mem.pop(k, None)
            return [(s, a[0], 'ret')]
        if what in ('join', 'detach'):
            if held is False:
                self.bad('a thread is joined only if it runs', I, 'std::thread::%s is called although no thread may have been started (or it was joined before): std::system_error' % what)
                return [(s, None, 'ret')]
            if held:
                x = s.tok[cur[1]]
                s.tok[cur[1]] = (x[0], 'freed') + x[2:]
                if what == 'detach':
                    self.bad('a thread is joined before it is replaced or destroyed', I, 'a thread that uses the object is detached')
            else:
                self.found.append((k, 'thread', I))
            return [(s, None, 'ret')]
        if what == 'joinable':
            return [(s, ('i', int(held), 1) if held is not None else None, 'ret')]
        if what == '~thread':
            if held:
                self.bad('a thread is joined before it is replaced or destroyed', I, 'a std::thread is destroyed while its thread runs')
            return [(s, None, 'ret')]
        return [(s, None, 'ret')]

    def may_throw(self, I):
        d = I.dem or ''
        if I.d.get('nounwind') or QUIET.search(d):
            return False
        if d in ACQ or d in REL:
            return ACQ.get(d, ('', ''))[1] == 'throw'
        if not d:
            return True                         # indirect
        return '(' in d or d in ('__cxa_throw', '__cxa_rethrow')

    # ---------------------------------------------------------------- control flow
    def run(self, F, args, s, frame=(), start=None):
        """[(state, 'ret' | 'throw', value, Inst)]"""
        self.used.add(F.name)
        F_live = self.live(F)
        env = {('a', i): v for i, v in enumerate(args)}
        work, seen, out = [], set(), []
        if start is None:
            work.append((0, None, env, s, 0))
        else:
            for I in F.insts():
                if I.op == 'alloca':
                    env[I.i] = ('ptr', ('al', frame, I.i), 0)
                elif I.op == 'getelementptr' and not I.d.get('var'):
                    v = self.calc(s, env, frame, I)
                    if v is not None:
                        env[I.i] = v
            work.append((start.blk, None, env, s, start.pos))
        heads = {h for _, h in F.back_edges()}
        while work:
            b, prev, env, s, pos = work.pop()
            self.steps += 1
            if self.steps > self.limit:
                raise TooMany()
            env = dict(env)
            if pos == 0:
                new = {}
                for I in F.blocks[b]:
                    if I.op != 'phi':
                        break
                    v = None
                    for o, p in zip(I.ops, I.d['in']):
                        if p == prev:
                            v = self.ref(env, frame, o)
                    if b in heads and v and v[0] in ('i', 'x', 'phi', 'sym') and prev is not None and F.dominates(b, prev):
                        v = ('phi', I.i, frame)
                        s = s.clone()
                        s.conds = frozenset((c, t) for c, t in s.conds if v not in list(syms(c)))
                    if b in heads and v and v[0] == 'ptr' and prev is not None and F.dominates(b, prev) and env.get(I.i) is not None and env[I.i] != v:
                        v = ('ptr', v[1], None)
                    new[I.i] = v
                env.update(new)
                k = (b, frozenset((x, v) for x, v in env.items() if v is not None and (not isinstance(x, int) or x in F_live[b] or x in new)), s.key())
                if k in seen:
                    continue
                seen.add(k)
            cur = [(env, s)]
            ended = False
            for I in F.blocks[b][pos:]:
                if I.op == 'phi':
                    continue
                nxt = []
                for env, s in cur:
                    if I.is_call:
                        nxt += self.do_call(F, I, env, s, frame, work, out)
                    elif I.op == 'alloca':
                        env[I.i] = ('ptr', ('al', frame, I.i), 0)
                        nxt.append((env, s))
                    elif I.op == 'store':
                        s = self.store(s, I, self.ref(env, frame, I.ops[0]), self.ref(env, frame, I.ops[1]))
                        nxt.append((env, s))
                    elif I.op in ('br', 'switch', 'unreachable'):
                        nxt.append((env, s))
                    elif I.op == 'ret':
                        out.append((s, 'ret', self.ref(env, frame, I.ops[0]) if I.ops else None, I))
                    elif I.op == 'resume':
                        out.append((s, 'throw', None, I))
                    else:
                        v = self.calc(s, env, frame, I)
                        if v is None:
                            env.pop(I.i, None)
                        else:
                            env[I.i] = v
                        nxt.append((env, s))
                cur = nxt
                if not cur:
                    break
            L = F.blocks[b][-1]
            for env, s in cur:
                if L.op == 'br' and L.ops:
                    v = self.ref(env, frame, L.ops[0])
                    t = self.truth(s, v)
                    for x in ((True, False) if t is None else (t,)):
                        n = s.clone() if t is None else s
                        if t is None:
                            self.assume(n, v, x)
                        e = env if t is not None else dict(env)
                        e2, n2 = self.narrow(e, n, v, x)
                        work.append((F.succ[b][0 if x else 1], b, e2, n2, 0))
                elif L.op == 'switch':
                    for x in set(F.succ[b]):
                        work.append((x, b, dict(env), s.clone(), 0))
                elif L.op == 'br':
                    work.append((F.succ[b][0], b, env, s, 0))
        return out

    def narrow(self, env, s, v, x):
        """an undecided selection or null test is decided in the branch"""
        if v and v[0] == 'isnull' and False:
            pass
        return env, s

    def store(self, s, I, v, p):
        self.touch(s, I, p)
        if not p or p[0] != 'ptr':
            return s
        s = s.clone()
        if p[2] is None:
            return s
        vty = I.d.get('vty') or ''
        if vty not in ('ptr', 'i64', 'i32', 'i16', 'i8', 'i1'):
            for o in range(0, 16, 8) if vty in ('<2 x ptr>', '<2 x i64>') else ():
                s.mem.pop((p[1], p[2] + o), None)
            return s
        if self.light and not (v and (self.token(v) or v[0] in ('null', 'i', 'ptr'))):
            v = None
        s.mem[(p[1], p[2])] = v
        return s

    def do_call(self, F, I, env, s, frame, work, out):
        d = I.dem or ''
        if d.startswith('llvm.mem') and len(I.ops) >= 3:
            self.copy(s, env, frame, I)
            return [(env, s)]
        if d.startswith('llvm.') or d in ('__cxa_begin_catch', '__cxa_end_catch'):
            return [(env, s)]
        if d in ('__clang_call_terminate', 'std::terminate()', 'abort', 'exit', '_exit', '__assert_fail'):
            return []
        alt = self.call(s, I, env, frame)
        if alt is None:
            G = self.bodies.get(I.fn)
            if G is not None and len(frame) < DEPTH and I.fn not in [x[1] for x in frame] and (not self.light or self.relevant(G)):
                a = [self.ref(env, frame, o) for o in I.ops]
                R = self.run(G, a, s.clone(), frame + ((I.i, I.fn),))
                alt, seen = [], set()
                for s2, k, v, J in R:
                    for key in [x for x in s2.mem if x[0][0] == 'al' and x[0][1] == frame + ((I.i, I.fn),)]:
                        del s2.mem[key]
                    kk = (s2.key(), k, v)
                    if kk not in seen:
                        seen.add(kk)
                        alt.append((s2, v, k))
            elif d in ('__cxa_throw', '__cxa_rethrow'):
                alt = [(s, None, 'throw')]
            else:
                alt = [(s.clone(), None, 'ret')] if not I.d.get('noret') else []
                if self.may_throw(I):
                    alt.append((s.clone(), None, 'throw'))
        res = []
        for s2, v, k in alt:
            e = dict(env)
            if k == 'throw':
                if I.op == 'invoke':
                    work.append((I.d['unwind'], I.blk, e, s2, 0))
                else:
                    out.append((s2, 'throw', None, I))
                continue
            if v is None:
                e.pop(I.i, None)
            else:
                e[I.i] = v
            if I.op == 'invoke':
                work.append((I.d['normal'], I.blk, e, s2, 0))
            else:
                res.append((e, s2))
        return res

    def relevant(self, G):
        """a callee that touches resources"""
        if not hasattr(self, '_rel'):
            self._rel = {}
        if G.name not in self._rel:
            self._rel[G.name] = False
            self._rel[G.name] = any(I.is_call and (I.dem in ACQ or I.dem in REL or DELETE.match(I.dem or '') or ZINIT.match(I.dem or '') or ZEND.match(I.dem or '') or 'std::thread::' in (I.dem or '')
                                                   or (I.fn in self.bodies and self.bodies[I.fn] is not G and len(self.bodies[I.fn].blocks) < 80 and self.relevant(self.bodies[I.fn]))) for I in G.insts())
        return self._rel[G.name]

    def copy(self, s, env, frame, I):
        if I.dem.startswith('llvm.memset'):
            p = self.ref(env, frame, I.ops[0])
            n = self.ref(env, frame, I.ops[2])
            v = self.ref(env, frame, I.ops[1])
            self.touch(s, I, p)
            if p and p[0] == 'ptr' and p[2] is not None and n and n[0] == 'i' and v and v[0] == 'i' and v[1] == 0 and n[1] <= 256:
                for o in range(0, n[1], 8):
                    s.mem[(p[1], p[2] + o)] = ('null',)
            return
        p, q, n = [self.ref(env, frame, o) for o in I.ops[:3]]
        self.touch(s, I, p)
        self.touch(s, I, q)
        if p and q and p[0] == q[0] == 'ptr' and p[2] is not None and q[2] is not None and n and n[0] == 'i' and n[1] <= 256:
            for o in range(0, n[1], 4):
                v = self.read(s, ('ptr', q[1], q[2] + o), 'ptr' if o % 8 == 0 else 'i32')
                if v is not None:
                    s.mem[(p[1], p[2] + o)] = v

    def live(self, F):
        if not hasattr(self, '_lv'):
            self._lv = {}
        if F.name in self._lv:
            return self._lv[F.name]
        n = len(F.blocks)
        use, defs, pu = [set() for _ in range(n)], [set() for _ in range(n)], [set() for _ in range(n)]
        for b in range(n):
            for I in F.blocks[b]:
                L = [o['v'] for o in I.ops if 'v' in o] + [r['v'] for r, sc in I.d.get('var') or () if 'v' in r]
                if I.op == 'phi':
                    for o, p in zip(I.ops, I.d['in']):
                        if 'v' in o:
                            pu[p].add(o['v'])
                else:
                    use[b] |= {v for v in L if v not in defs[b]}
                defs[b].add(I.i)
        live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for b in reversed(range(n)):
                o = set(pu[b])
                for x in F.succ[b]:
                    o |= live[x]
                new = use[b] | (o - defs[b])
                if new != live[b]:
                    live[b], ch = new, True
        self._lv[F.name] = live
        return live
