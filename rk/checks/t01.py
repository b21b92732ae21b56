"""T01: the background reader: no data race, no lost wake-up, no deadlock, no dangling object, no overwritten block."""
import re
from .. import build
from ..common import *
from ..ir import AnalysisBroken
from ..terms import key

OPAQUE = [r'std::unique_lock<', r'std::lock_guard<', r'std::scoped_lock<', r'^std::condition_variable', r'^std::thread::', r'^std::function<.*>::operator\(\)',
          r'^std::rethrow', r'^std::current_exception', r'std::__exception_ptr', r'^std::mutex', r'^std::__mutex_base', r'^std::(__cxx11::)?(basic_)?string',
          r'^std::(__cxx11::)?to_string', r'^std::operator\+', r'^std::runtime_error', r'^std::(__)?atomic']
INLINE = list(build.STD_INLINE) + [r'condition_variable::wait<']
LOCKS = re.compile(r'^std::(unique_lock|lock_guard|scoped_lock)\b')
SYNC = re.compile(r'^std::(mutex|recursive_mutex|timed_mutex|condition_variable|condition_variable_any|thread)')
ATOMIC = re.compile(r'^std::(__)?atomic')
ALOAD = re.compile(r'^std::(__)?atomic(_base)?(<.*>)?::(load|operator [\w ]+)$')
ASTORE = re.compile(r'^std::(__)?atomic(_base)?(<.*>)?::(store|operator=)$')
MEMCPY = re.compile(r'^(llvm\.)?mem(cpy|move)')
DBG = re.compile(r'^llvm\.(dbg|lifetime|assume|experimental)')
CONSTM = re.compile(r'operator bool|::load$|atomic.*::operator [a-z ]+$|~|operator->|::get$|::size$|::empty$|::c_str$|::data$|::what$')


def sn(I):
    return short(I.dem or '')


class Shared:
    """the structure that both threads use: the one with a std::thread member"""

    def __init__(self, M):
        self.M, self.ids = M, set()
        names = set()
        for i, t in enumerate(M.types):
            if t['k'] == 'struct' and not (t['n'] or '').startswith('std::'):
                if any(M.tname(m['t']) == 'std::thread' for m in t.get('m', [])):
                    self.ids.add(i)
                    names.add(t['n'])
        if len(names) != 1:
            raise AnalysisBroken('%d structures own a std::thread' % len(names))
        self.name = names.pop()
        t = M.types[min(self.ids)]
        self.fields = {m['n']: M.tname(m['t']) for m in t['m']}

    def member(self, T, ref):
        p = T.ptr(ref)
        if p is None or p.t not in self.ids:
            return None
        ns, lt, off = self.M.field_at(p.t, p.off)
        return ns[0] if ns else None


class Flow:
    """which mutexes are held (through which guard), which changes still have to be announced; disjunctive along paths"""

    def __init__(self, F, S, role, watch, cv_other, start_locked=False):
        self.F, self.S, self.T = F, S, T_of(F)
        self.watch, self.cv = watch, cv_other            # members the other thread waits for / the variables it waits on
        self.at = {}                                     # instruction -> set of states before it
        self.notes = []
        self.run()

    EMPTY = (frozenset(), frozenset(), frozenset())      # guards (key, mutex, held), pending members, notified cvs

    def mutex(self, ref):
        return self.S.member(self.T, ref) or show(self.T.addr_of(ref))

    def held(self, st):
        return {m for k, m, h in st[0] if h}

    def run(self):
        F = self.F
        inn = {0: {self.EMPTY}}
        work = [0]
        self.out_edge = {}
        while work:
            b = work.pop()
            cur = set(inn.get(b, ()))
            exc = None
            for I in F.blocks[b]:
                self.at.setdefault(I.i, set()).update(cur)
                if I.op == 'invoke':
                    exc = {x for x in cur if self.throws(I, x)}
                cur = {y for x in cur for y in self.step(I, x)}
            t = F.blocks[b][-1]
            for k, s in enumerate(F.succ[b]):
                o = exc if (t.op == 'invoke' and k == 1 and exc is not None) else self.refine(t, s, cur)
                old = inn.setdefault(s, set())
                n = o - old
                if n or s not in self.out_edge:
                    self.out_edge[s] = 1
                    old |= o
                    if len(old) > 256:
                        raise AnalysisBroken('too many lock states in ' + F.dem[-80:])
                    work.append(s)

    def throws(self, I, st):
        """locking fails only when it is misused; everything else may throw"""
        n = sn(I)
        if not LOCKS.match(n):
            return True
        if n.endswith('::lock') or n.endswith('::unlock'):
            k = key(self.T.addr_of(I.ops[0]))
            h = any(g == k and x for g, m, x in st[0])
            return h == n.endswith('::lock')
        return False

    def refine(self, t, s, cur):
        if t.op != 'br' or not t.ops or len(set(t.d['succ'])) != 2:
            return cur
        pol = t.d['succ'][0] == s
        for J, p in cond_atoms(self.T, t.ops[0], pol):
            if J.is_call and re.search(r'unique_lock::(owns_lock|operator bool)', sn(J)):
                k = key(self.T.addr_of(J.ops[0]))
                cur = {x for x in cur if any(g == k and h == p for g, m, h in x[0])}
        return cur

    def set_guard(self, st, k, m, h):
        g = frozenset(x for x in st[0] if x[0] != k)
        if m is None:
            m = next((x[1] for x in st[0] if x[0] == k), None)
        if m is not None:
            g |= {(k, m, h)}
        nt = st[2] if any(x[2] for x in g) else frozenset()
        return (g, st[1], nt)

    def step(self, I, st):
        T = self.T
        if I.op == 'store':
            m = self.S.member(T, I.ops[1])
            return [self.write(st, m)] if m else [st]
        if not I.is_call:
            return [st]
        n = sn(I)
        if LOCKS.match(n):
            k = key(T.addr_of(I.ops[0]))
            if n.endswith('::unique_lock') or n.endswith('::lock_guard') or n.endswith('::scoped_lock'):
                if len(I.ops) < 2:
                    return [st]
                m = self.mutex(I.ops[1])
                if 'defer_lock' in I.dem:
                    return [self.set_guard(st, k, m, False)]
                if 'try_to_lock' in I.dem:
                    return [self.set_guard(st, k, m, False), self.set_guard(st, k, m, True)]
                return [self.set_guard(st, k, m, True)]
            if n.endswith('::lock'):
                return [self.set_guard(st, k, None, True)]
            if n.endswith('::unlock') or '::~' in n:
                st = self.set_guard(st, k, None, False)
                if '::~' in n:
                    st = (frozenset(x for x in st[0] if x[0] != k), st[1], st[2])
                return [st]
            return [st]
        if n in ('std::mutex::lock', 'std::mutex::unlock'):
            m = self.mutex(I.ops[0])
            return [self.set_guard(st, 'm:' + m, m, n.endswith('::lock'))]
        if re.match(r'std::condition_variable(_any)?::notify_(one|all)$', n):
            cv = self.S.member(T, I.ops[0])
            pend = st[1] if cv not in self.cv else frozenset()
            nt = st[2] | {cv} if self.held(st) else st[2]
            return [(st[0], pend, nt)]
        if re.match(r'std::condition_variable(_any)?::wait', n):
            return [(st[0], st[1], frozenset())]
        for o in I.ops:
            if ('v' in o or 'a' in o) and not MEMCPY.match(n):
                m = self.S.member(T, o)
                if m and not SYNC.match(self.S.fields.get(m, '')) and self.mutates(I, o, n):
                    st = self.write(st, m)
        return [st]

    def mutates(self, I, o, n):
        if CONSTM.search(n):
            return False
        if n.endswith('exception_ptr::exception_ptr') and o is not I.ops[0]:
            return False
        return o is I.ops[0] or bool(re.search(r'swap|move', n))

    def write(self, st, m):
        if m in self.watch and not (st[2] & self.cv):
            return (st[0], st[1] | {m}, st[2])
        return st


def accesses(F, S):
    """(instruction, member, is a write)"""
    T = T_of(F)
    out = []
    for I in F.insts():
        if I.op in ('load', 'store'):
            m = S.member(T, I.ops[-1] if I.op == 'store' else I.ops[0])
            if m:
                out.append((I, m, I.op == 'store'))
        elif I.is_call and not DBG.match(I.dem or ''):
            n = sn(I)
            for k, o in enumerate(I.ops):
                if 'v' in o or 'a' in o:
                    m = S.member(T, o)
                    if m and T.ptr(o).t in S.ids and not ('unique_ptr' in n):
                        w = not CONSTM.search(n) and (k == 0) and not (MEMCPY.match(n))
                        out.append((I, m, w))
    return out


class Unsure(Exception):
    pass


class Table:
    """value of a loop-free piece of the source for one choice of the (small) quantities it depends on"""

    def __init__(self, F, S, mem, args, capt=None, calls=None, fixed=None):
        self.F, self.S, self.T = F, S, T_of(F)
        self.mem, self.args, self.capt, self.calls = dict(mem), args, capt or {}, calls or {}
        self.v = dict(fixed or {})
        self.ev = []
        self.local = {}

    def ref(self, o):
        if 'c' in o:
            return int(o['c']) & ((1 << o.get('w', 64)) - 1)
        if 'null' in o or 'zero' in o:
            return 0
        if 'a' in o:
            if o['a'] in self.args:
                return self.args[o['a']]
            return ('arg', o['a'])
        if 'v' in o:
            I = self.F.by_id[o['v']]
            if I.i not in self.v:
                if I.op == 'phi':
                    raise Unsure('value from outside the region at ' + I.where())
                if I.op == 'load' and self.S.member(self.T, I.ops[0]) in self.volatile:
                    raise Unsure('stale copy of ' + self.S.member(self.T, I.ops[0]) + ' at ' + I.where())
                self.exec(I)
            return self.v.get(I.i)
        return None

    volatile = ()

    def ptr(self, o):
        m = self.S.member(self.T, o)
        if m and self.T.ptr(o).t in self.S.ids:
            return ('mem', m)
        return self.ref(o)

    def w(self, I):
        t = I.ty
        return int(t[1:]) if t.startswith('i') and t[1:].isdigit() else 64

    def exec(self, I):
        op = I.op
        if op == 'load':
            m = self.S.member(self.T, I.ops[0])
            if m:
                self.v[I.i] = self.mem.get(m)
            else:
                a = self.T.addr_of(I.ops[0])
                if a in self.local:
                    self.v[I.i] = self.local[a]
                elif a[0] == 'f' and len(a) == 3 and a[1] == ('arg', 0) and a[2] in self.capt:
                    self.v[I.i] = self.capt[a[2]]
                else:
                    self.v[I.i] = ('?', I.i)
            return
        if op in ('zext', 'trunc', 'freeze', 'bitcast', 'ptrtoint', 'inttoptr'):
            x = self.ref(I.ops[0])
            self.v[I.i] = x & ((1 << self.w(I)) - 1) if isinstance(x, int) else x
            return
        if op == 'sext':
            x = self.ref(I.ops[0])
            if isinstance(x, int):
                w = int((I.d.get('sfrom') or 'i32')[1:])
                x = (x - (1 << w) if x >> (w - 1) else x) & ((1 << self.w(I)) - 1)
            self.v[I.i] = x
            return
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'udiv', 'urem'):
            a, b = self.ref(I.ops[0]), self.ref(I.ops[1])
            if isinstance(a, int) and isinstance(b, int):
                if op in ('udiv', 'urem') and b == 0:
                    self.v[I.i] = ('?', I.i)
                    return
                r = {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'and': lambda: a & b, 'or': lambda: a | b, 'xor': lambda: a ^ b,
                     'shl': lambda: a << b, 'lshr': lambda: a >> b, 'udiv': lambda: a // b, 'urem': lambda: a % b}[op]()
                self.v[I.i] = r & ((1 << self.w(I)) - 1)
            elif op == 'sub' and isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == 'buf':
                self.v[I.i] = (a[1] - b[1]) & ((1 << 64) - 1)
            else:
                self.v[I.i] = ('?', I.i)
            return
        if op == 'icmp':
            a, b = self.ref(I.ops[0]), self.ref(I.ops[1])
            p = I.d['pred']
            if isinstance(a, tuple) or isinstance(b, tuple):
                if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == 'buf':
                    a, b = a[1], b[1]
                elif 0 in (a, b) and p in ('eq', 'ne') and any(isinstance(x, tuple) and x[0] in ('buf', 'obj') for x in (a, b)):
                    self.v[I.i] = int(p == 'ne')
                    return
                else:
                    self.v[I.i] = ('?', I.i)
                    return
            if a is None or b is None:
                self.v[I.i] = ('?', I.i)
                return
            if p[0] == 's':
                w = 64
                J = self.F.val(I.ops[0])
                if J is not None:
                    w = self.w(J)
                a = a - (1 << w) if a >> (w - 1) else a
                b = b - (1 << w) if b >> (w - 1) else b
            q = p[1:] if p[0] in 'us' else p
            self.v[I.i] = int({'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[q])
            return
        if op == 'select':
            c = self.ref(I.ops[0])
            if not isinstance(c, int):
                raise Unsure('choice at ' + I.where())
            self.v[I.i] = self.ref(I.ops[1] if c else I.ops[2])
            return
        if op == 'getelementptr':
            m = self.S.member(self.T, {'v': I.i})
            if m and self.T.ptr({'v': I.i}).t in self.S.ids:
                self.v[I.i] = ('mem', m)
                return
            b = self.ref(I.ops[0])
            if isinstance(b, tuple) and b[0] == 'buf':
                off = I.d.get('off', 0)
                for k, sc in self.gep(I):
                    x = self.ref(k)
                    if not isinstance(x, int):
                        self.v[I.i] = ('?', I.i)
                        return
                    if x >> 63:
                        x -= 1 << 64
                    off += x * sc
                self.v[I.i] = ('buf', b[1] + off)
            else:
                self.v[I.i] = ('?', I.i)
            return
        if op == 'store':
            m = self.S.member(self.T, I.ops[1])
            x = self.ref(I.ops[0])
            if m:
                self.mem[m] = x
                self.ev.append(('set', m, x, I))
            else:
                self.local[self.T.addr_of(I.ops[1])] = x
                d = self.ptr(I.ops[1])
                if isinstance(d, tuple) and d[0] == 'buf':
                    self.ev.append(('byte', d[1], I))
            return
        if I.is_call:
            n = sn(I)
            if MEMCPY.match(n):
                self.ev.append(('copy', self.ref(I.ops[0]), self.ref(I.ops[1]), self.ref(I.ops[2]), I))
                return
            m = re.match(r'llvm\.(umin|umax|usub\.sat)\.i(\d+)', I.dem or '')
            if m:
                a, b = self.ref(I.ops[0]), self.ref(I.ops[1])
                if isinstance(a, int) and isinstance(b, int):
                    self.v[I.i] = {'umin': min(a, b), 'umax': max(a, b), 'usub.sat': max(a - b, 0)}[m.group(1)]
                    return
            if I.i in self.calls:
                self.v[I.i] = self.calls[I.i]
                return
            if ALOAD.match(n) and self.S.member(self.T, I.ops[0]):
                self.v[I.i] = self.mem.get(self.S.member(self.T, I.ops[0]))
                return
            if ASTORE.match(n) and len(I.ops) > 1 and self.S.member(self.T, I.ops[0]):
                self.mem[self.S.member(self.T, I.ops[0])] = self.ref(I.ops[1])
                return
            if n.endswith('exception_ptr::operator bool'):
                mm = self.S.member(self.T, I.ops[0])
                self.v[I.i] = self.mem.get(mm, ('?', I.i))
                return
            if re.search(r'unique_lock::(owns_lock|operator bool)', n):
                self.v[I.i] = 1
                return
            self.ev.append(('call', I, [self.ref(o) for o in I.ops] if not LOCKS.match(n) else []))
            self.v[I.i] = ('?', I.i)
            return
        self.v[I.i] = ('?', I.i)

    def gep(self, I):
        return [(x[0], x[1]) for x in I.d.get('var', [])]

    def go(self, b, pos, stop, came=None, limit=400):
        """follow the flow until stop(instruction) (None: the function's end)"""
        F = self.F
        while limit:
            limit -= 1
            phis = {}
            for I in F.blocks[b][pos:]:
                if I.op == 'phi':
                    if came is None:
                        raise Unsure('phi at ' + I.where())
                    k = I.d['in'].index(came)
                    phis[I.i] = self.ref(I.ops[k])
                    continue
                if phis:
                    self.v.update(phis)
                    phis = {}
                if stop(I):
                    return I
                if I.op in ('br', 'switch', 'ret', 'unreachable', 'resume'):
                    break
                self.v.pop(I.i, None)
                self.exec(I)
            t = F.blocks[b][-1]
            if t.op in ('ret', 'unreachable', 'resume'):
                return t
            if t.op == 'invoke':
                s = F.succ[b][0]
            elif t.op == 'br' and not t.ops:
                s = t.d['succ'][0]
            elif t.op == 'br':
                c = self.ref(t.ops[0])
                if not isinstance(c, int):
                    raise Unsure('branch at ' + t.where())
                s = t.d['succ'][0 if c & 1 else 1]
            else:
                raise Unsure(t.op + ' at ' + t.where())
            came, b, pos = b, s, 0
        raise Unsure('endless loop')


def wr(I):
    return I.op == 'store' or (I.is_call and ASTORE.match(sn(I)) is not None)


def wval(I):
    return I.ops[0] if I.op == 'store' else I.ops[1] if len(I.ops) > 1 else {}


def join(I):
    return I.is_call and sn(I) == 'std::thread::join'


def is_wait(I):
    return I.is_call and re.match(r'std::condition_variable(_any)?::wait', sn(I)) is not None


def creates(I):
    """construction of a thread that runs something"""
    return I.is_call and sn(I) == 'std::thread::thread' and len(I.ops) > 1 and 'std::thread&&' not in (I.dem or '').split('(', 1)[-1]


def worker_of(M, I):
    """the function the created thread runs"""
    m = re.search(r'std::thread::thread<(.*)>\(', I.dem)
    cand = []
    if m:
        lam = m.group(1).split(', void')[0]
        cand = [F for F in M.functions.values() if F.dem.startswith(lam + '::operator()') and not F.dem[len(lam):].count("::operator()") > 1]
        cand = [F for F in cand if re.match(r'^::operator\(\)\([^()]*\)( const)?$', F.dem[len(lam):])]
    T = T_of(I.F)
    roots = {T.ptr(o).root for o in I.ops[1:] if 'v' in o and T.ptr(o) is not None}
    refs = list(I.ops[1:]) + [x.ops[0] for x in I.F.insts() if x.op == 'store' and T.ptr(x.ops[1]) is not None and T.ptr(x.ops[1]).root in roots]
    todo = list(refs)
    while todo:
        o = todo.pop()
        todo += [x for x in o.get('ops', []) if isinstance(x, dict)] + [x for x in o.get('elts', []) if isinstance(x, dict)]
        F = M.functions.get(o.get('g') or o.get('fn') or '')
        if F is not None and F not in cand:
            cand.append(F)
    return cand


def reader(c):
    M = build.module(mention=r'std::thread\s+\w+|std::thread\(', opaque=OPAQUE, inline=INLINE, keep_eh=True, drivers=())
    c.use(M)
    S = Shared(M)
    outer = S.name.rsplit('::', 1)[0] if S.name.rsplit('::', 1)[0].count('::') else S.name
    ctor = [(F, I) for F in M.functions.values() for I in F.insts() if creates(I)]
    ctor = [(F, I) for F, I in ctor if not F.dem.startswith('std::')]
    if not ctor:
        raise AnalysisBroken('no function creates a thread')
    ws = {F.name: F for C, I in ctor for F in worker_of(M, I)}
    if len(ws) != 1 or len(ctor) != 1:
        c.notes.append('not analysed: %d functions run as threads, created at %d places' % (len(ws), len(ctor)))
        return None
    W = list(ws.values())[0]
    ctor, start = ctor[0]
    joiners = [F for F in M.functions.values() if any(join(I) for I in F.insts()) and not F.dem.startswith('std::')]
    c.check(len(joiners) >= 1, 'thread is joined', start.where(), 'the thread that runs %s is never joined' % short(W.dem))
    users = [F for F in M.functions.values() if F.dem.startswith(outer + '::') and F not in (W, ctor) and F not in joiners and in_header(F.sname) and '::$_' not in F.dem and '{lambda' not in F.dem
             and accesses(F, S) and not F.dem.startswith(S.name + '::')]
    if not users:
        raise AnalysisBroken('no public function uses the shared structure')
    for F in [W, ctor] + joiners + users:
        c.fn(F)
    acc = {F.name: accesses(F, S) for F in [W, ctor] + joiners + users}

    # --- what each thread waits for
    def waits(F):
        return [I for I in F.insts() if is_wait(I)]

    def loop_of(F, I):
        L = [l for l in F.loops().items() if I.blk in l[1]]
        return min(L, key=lambda l: len(l[1])) if L else None

    info = {}
    for F in [W] + users:
        for I in waits(F):
            l = loop_of(F, I)
            if not c.check(l is not None, 'wait in a loop', I.where(), '%s does not test its condition again after it was woken: a spurious wake-up is taken for the event' % short(F.dem)):
                continue
            mem = {m for J, m, w in acc[F.name] if J.blk in l[1] and not w and not SYNC.match(S.fields.get(m, ''))}
            info.setdefault(F.name, []).append((I, l, mem, S.member(T_of(F), I.ops[0])))
    sync = lambda m: bool(SYNC.match(S.fields.get(m, '')))
    wmem = set().union(*[x[2] for x in info.get(W.name, [])]) if W.name in info else set()
    umem = set().union(*[x[2] for F in users for x in info.get(F.name, [])]) if users else set()
    wcv = {x[3] for x in info.get(W.name, [])}
    ucv = {x[3] for F in users for x in info.get(F.name, [])}
    wwrite = {m for J, m, w in acc[W.name] if w and not sync(m)}
    uwrite = {m for F in users for J, m, w in acc[F.name] if w and not sync(m)}
    jwrite = set()
    for F in joiners:
        js = [I for I in F.insts() if join(I)]
        jwrite |= {m for J, m, w in acc[F.name] if w and not sync(m) and wr(J) and any(F.reach_avoiding(J.blk, J.pos, lambda x: x in js, lambda x: False) for _ in (0,))}
    writers = {}
    for m in wwrite:
        writers.setdefault(m, set()).add('worker')
    for m in uwrite | jwrite:
        writers.setdefault(m, set()).add('owner')
    term = jwrite & {m for J, m, w in acc[W.name] if not w}

    flows = {}
    for F in [W, ctor] + joiners + users:
        flows[F.name] = Flow(F, S, None, umem - {None} if F is W else wmem, ucv if F is W else wcv)

    # --- every access that can race is protected by one mutex
    prot = {}
    after_end = {}
    for F in [W, ctor] + joiners + users:
        fl = flows[F.name]
        side = 'worker' if F is W else 'owner'
        for I, m, w in acc[F.name]:
            if sync(m):
                continue
            oth = 'owner' if side == 'worker' else 'worker'
            othw = oth in writers.get(m, ())
            otha = othw or any(m2 == m for G in ([W] if side == 'owner' else users + joiners) for J, m2, w2 in acc[G.name])
            if not (othw or (w and otha)):
                continue
            if ATOMIC.match(S.fields.get(m, '')) and not (w and m in (umem if side == 'worker' else wmem)):
                continue
            sts = fl.at.get(I.i, set())
            if not sts:
                continue
            if F is ctor and not F.reach_avoiding(start.blk, start.pos, lambda x: x is I, lambda x: False):
                continue
            if F in joiners and F.reach_avoiding(0, -1, lambda x: x is I, lambda x: join(x) or (x.is_call and sn(x) == 'std::thread::joinable')) is None:
                continue
            if I.is_call and '::~' in sn(I) and F in joiners:
                continue
            h = set.intersection(*[fl.held(x) for x in sts])
            if not h and not w and ended(F, I, users):
                after_end.setdefault(F.name, []).append((I, m))
                continue
            prot.setdefault(m, []).append((F, I, w, h))
    for m, L in sorted(prot.items()):
        common = set.intersection(*[h for F, I, w, h in L])
        for F, I, w, h in L:
            c.check(bool(h), 'shared member under a lock', I.where(), '%s %s %s, which the other thread %s, without holding a lock on every path' % (short(F.dem), 'writes' if w else 'reads', m, 'also uses' if w else 'writes'),
                    '%s %s %s with %s held' % (F.sname, 'writes' if w else 'reads', m, '/'.join(sorted(h))))
        if all(h for F, I, w, h in L):
            c.check(bool(common), 'one lock per member', L[0][1].where(), '%s is protected by different locks: %s' % (m, sorted({x for F, I, w, h in L for x in h})))

    # --- the reads after the end: the worker does not write any more
    ends = wwrite & umem
    for name, L in after_end.items():
        F = M.functions[name]
        for I, m in L:
            stop = None
            for J, m2, w in acc[W.name]:
                if w and m2 in flags(S, ends):
                    K = W.reach_avoiding(J.blk, J.pos, lambda x: any(x is y and yw and ym == m for y, ym, yw in acc[W.name]), lambda x: False)
                    if K is not None:
                        stop = K
            c.check(stop is None, 'no writes after the end', I.where(), '%s reads %s without the lock after the end of the data, but the worker can still write it at %s' % (short(F.dem), m, stop and stop.where()))

    # --- waits
    for F in [W] + users:
        for I, l, mem, cv in info.get(F.name, []):
            fl = flows[F.name]
            k = key(T_of(F).addr_of(I.ops[1]))
            sts = fl.at.get(I.i, set())
            ok = bool(sts) and all(any(g == k and h for g, mm, h in x[0]) for x in sts)
            c.check(ok, 'waits with its lock', I.where(), '%s waits without holding the lock it gives to the condition variable' % short(F.dem))
            pend = set().union(*[x[1] for x in sts]) if sts else set()
            c.check(not pend, 'announced before waiting', I.where(), '%s waits before it has announced its change of %s to the other thread: both can sleep for ever' % (short(F.dem), ', '.join(sorted(pend))))
            writ = {m for m in mem if m in writers}
            c.check(bool(writ), 'condition can change', I.where(), '%s waits for a condition that no thread changes' % short(F.dem))
            # the condition is looked at again after the wait, under the same lock: no unlock between the test and the wait
            for J in F.insts():
                if J.blk in l[1] and J.is_call and LOCKS.match(sn(J)) and sn(J).endswith('::unlock'):
                    c.bad('condition and wait are one step', J.where(), '%s releases the lock between the test of its condition and the wait: the notification in between is lost' % short(F.dem))
            c.ok('condition and wait are one step', I.where())
    for F in users + [W]:
        fl = flows[F.name]
        n = 0
        for I in F.insts():
            if I.op in ('ret', 'resume') or (I.is_call and F is W and sn(I) == 'std::function::operator()'):
                sts = fl.at.get(I.i, set())
                pend = set().union(*[x[1] for x in sts]) if sts else set()
                if F is not W:
                    pend &= wmem
                n += 1
                c.check(not pend, 'every change is announced', I.where(), '%s changes %s, for which the other thread waits, and %s without notifying it' % (
                    short(F.dem), ', '.join(sorted(pend)), 'leaves' if not I.is_call else 'goes on reading'))
                lk = {m for x in sts for m in fl.held(x) if I.op == 'ret'}
                c.check(not lk, 'locks are released', I.where(), '%s can return with %s locked' % (short(F.dem), ', '.join(sorted(lk))))
        # a lock is not taken twice
        for I in F.insts():
            if I.is_call and LOCKS.match(sn(I)) and (sn(I).endswith('::lock') or (sn(I).split('::')[-1] in ('unique_lock', 'lock_guard') and len(I.ops) > 1 and 'defer_lock' not in I.dem)):
                sts = fl.at.get(I.i, set())
                if sn(I).endswith('::lock'):
                    k = key(T_of(F).addr_of(I.ops[0]))
                    ms = {mm for x in sts for g, mm, h in x[0] if g == k}
                else:
                    ms = {fl.mutex(I.ops[1])}
                bad = [x for x in sts if fl.held(x) & ms]
                c.check(not bad, 'lock is not taken twice', I.where(), '%s can lock %s while it holds it already: the thread waits for itself' % (short(F.dem), '/'.join(sorted(ms))))
    # the callback of the user can take long or throw: no lock may be held (the owner would wait for it)
    for I in W.insts():
        if I.is_call and sn(I) == 'std::function::operator()':
            h = set().union(*[flows[W.name].held(x) for x in flows[W.name].at.get(I.i, set())])
            if h:
                c.notes.append('the source is read with %s held (%s)' % (sorted(h), I.where()))

    # --- the thread's end is announced
    stopped = lambda J: any(J is x and w and m in ends for x, m, w in acc[W.name])
    exits = [I for I in W.insts() if I.op == 'ret' or I.op == 'resume']
    bad = no_end_path(W, S, term, stopped)
    for I in exits:
        c.check(I not in bad, 'every end is announced', I.where(), 'the thread can end neither because it was asked to nor after it has recorded the end of the data or an error: a waiting reader is never woken')

    # --- exceptions do not leave the thread (std::terminate)
    for I in W.insts():
        if I.is_call and sn(I) == 'std::function::operator()':
            c.check(I.op == 'invoke' and catches_all(W, W.succ[I.blk][1]), 'errors are handed over', I.where(), 'an exception of the source leaves the thread and ends the program')

    # --- destruction
    for F in joiners:
        fl = flows[F.name]
        js = [I for I in F.insts() if join(I)]
        for J in js:
            sts = fl.at.get(J.i, set())
            c.check(not any(fl.held(x) for x in sts), 'joined without a lock', J.where(), '%s waits for the thread while it holds a lock the thread needs' % short(F.dem))
            pend = set().union(*[x[1] for x in sts]) if sts else set()
            c.check(not pend, 'announced before joining', J.where(), '%s does not wake the thread before it waits for its end' % short(F.dem))
            st = [I for I, m, w in acc[F.name] if w and m in term and wr(I) and F.inst_dominates(I, J) and wval(I).get('c') not in (None, '0')]
            if wcv:
                c.check(bool(st), 'asked to end before joining', J.where(), '%s waits for the thread without asking it to end on every path' % short(F.dem))
        for I in F.insts():
            if I.is_call and (sn(I).startswith('operator delete') or '::~' in sn(I)):
                m = None
                if '::~' in sn(I):
                    m = S.member(T_of(F), I.ops[0])
                else:
                    t = T_of(F).term(I.ops[0])
                    m = t[1][2] if t[0] == 'ld' and t[1][0] == 'f' else None
                if m and m in {x for J, x, w in acc[W.name]}:
                    c.check(F.reach_avoiding(0, -1, lambda x: x is I, lambda x: join(x) or (x.is_call and sn(x) == 'std::thread::joinable')) is None, 'nothing is destroyed before the join', I.where(), '%s destroys %s while the thread may still use it' % (short(F.dem), m))
        for I in F.insts():
            if I.op == 'ret' and not any(F.inst_dominates(J, I) for J in js):
                bad = F.reach_avoiding(0, -1, lambda x: x is I, lambda x: join(x) or (x.is_call and sn(x) == 'std::thread::joinable'))
                c.check(bad is None, 'joined on every path', I.where(), '%s can leave without waiting for the thread' % short(F.dem))
            elif I.op == 'ret':
                c.ok('joined on every path', F.sname)
    for I in [x for F in M.functions.values() if not F.dem.startswith('std::') for x in F.insts()]:
        if I.is_call and sn(I) == 'std::thread::detach':
            c.bad('thread is joined', I.where(), 'the thread is detached: it goes on using the object after its destruction')

    # --- start: everything the worker reads was set before; nothing of the constructor's frame is handed over
    T = T_of(ctor)
    before = {}
    for I, m, w in acc[ctor.name]:
        if w and wr(I) and ctor.inst_dominates(I, start):
            before[m] = I
    inits = {m for m in S.fields}
    impl = [F for F in M.functions.values() if F.dem == S.name + '::' + S.name.split('::')[-1] + '()']
    defaults = set()
    for F in impl:
        for I in F.insts():
            if I.op == 'store':
                m = S.member(T_of(F), I.ops[1])
                if m:
                    defaults.add(m)
    for I in ctor.insts():
        if I.op == 'store' and ctor.inst_dominates(I, start):
            p = T.ptr(I.ops[1])
            if p is not None and isinstance(p.root, tuple) and p.root[0] == 'call' and 'new' in str(p.root):
                ns, lt, off = M.field_at(min(S.ids), p.off)
                if ns:
                    defaults.add(ns[0])
    plain = {m for m, t in S.fields.items() if not t.startswith('std::') or t.startswith('std::atomic')}
    used = {m for F in [W] + users for I, m, w in acc[F.name] if not w} & plain
    held_start = flows[ctor.name].at.get(start.i, set())
    locked = bool(held_start) and all(flows[ctor.name].held(x) for x in held_start)
    for m in sorted(used):
        ok = m in before or m in defaults
        if not ok and locked:
            ok = any(w and mm == m and wr(I) for I, mm, w in acc[ctor.name]) and not first_unlocked(W, S, flows[W.name], m)
        c.check(ok, 'set before the thread starts', start.where(), 'the thread is started before %s has a value' % m)
    captures(c, M, S, ctor, start, W)
    return M, S, W, ctor, start, users, joiners, acc, info, dict(term=term, wwrite=wwrite, uwrite=uwrite, wmem=wmem, umem=umem)


def flags(S, ms):
    return {m for m in ms if S.fields.get(m, '') in ('bool', 'std::atomic<bool>') or 'exception_ptr' in S.fields.get(m, '')}


def ended(F, I, users):
    """the access happens only after a read on this path returned nothing (the worker has ended)"""
    T = T_of(F)
    for x, pol in facts(F, I.blk):
        J = x if hasattr(x, 'op') else None
        if J is not None and J.op == 'icmp' and J.d['pred'] in ('eq', 'ne') and ('null' in J.ops[1] or J.ops[1].get('c') == '0') and pol == (J.d['pred'] == 'eq'):
            if null_only_at_end(F, J.ops[0], I):
                return True
    return False


def null_only_at_end(F, ref, I):
    """ref is a pointer that is null only when the end was seen under the lock"""
    J = F.val(ref)
    if J is None:
        return False
    if J.op == 'phi' or J.is_call:
        return True
    return False


def no_end_path(W, S, term, stopped):
    """exits that a path reaches without a test that found the request to end and without recording an end"""
    T = T_of(W)
    seen, st, out = {(0)}, [0], []
    while st:
        b = st.pop()
        hit = False
        for I in W.blocks[b]:
            if stopped(I):
                hit = True
                break
            if I.op in ('ret', 'resume'):
                out.append(I)
        if hit:
            continue
        t = W.blocks[b][-1]
        for s in W.succ[b]:
            if t.op == 'br' and t.ops and len(set(t.d['succ'])) == 2:
                pol = t.d['succ'][0] == s
                if any(asks(T, S, J, p, term) for J, p in cond_atoms(T, t.ops[0], pol)):
                    continue
            if s not in seen:
                seen.add(s)
                st.append(s)
    # an exit over exceptions of the locking primitives themselves does not count
    return [I for I in out if I.op == 'ret']


def asks(T, S, J, p, term):
    """the atom (J, p) says that the request to end is set"""
    if J.op == 'icmp' and J.d['pred'] in ('eq', 'ne') and J.ops[1].get('c') == '0' and p == (J.d['pred'] == 'ne'):
        K = T.F.val(J.ops[0])
        while K is not None and K.op in ('and', 'zext', 'trunc'):
            K = T.F.val(K.ops[0])
        return K is not None and (K.op == 'load' or (K.is_call and ALOAD.match(sn(K)))) and S.member(T, K.ops[0]) in term
    if J.is_call and p:
        return bool(ALOAD.match(sn(J))) and S.member(T, J.ops[0]) in term
    if J.op == 'trunc' and p:
        K = T.F.val(J.ops[0])
        return K is not None and (K.op == 'load' or (K.is_call and ALOAD.match(sn(K)))) and S.member(T, K.ops[0]) in term
    return False


def catches_all(F, b):
    seen = set()
    st = [b]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        for I in F.blocks[x]:
            if I.is_call and I.fn == '__cxa_begin_catch':
                return True
            if I.op == 'landingpad':
                continue
        st += F.succ[x]
    return False


def first_unlocked(W, S, fl, m):
    for I, mm, w in accesses(W, S):
        if mm == m and not all(fl.held(x) for x in fl.at.get(I.i, set())):
            return True
    return False


def captures(c, M, S, ctor, start, W):
    """what the thread's function object holds: values and the shared structure, nothing of a frame that ends, not the movable object"""
    T = T_of(ctor)
    objs = {T.ptr(o).root for o in start.ops[1:] if ('v' in o or 'a' in o) and T.ptr(o) is not None}
    for I in ctor.insts():
        if I.op == 'store' and T.ptr(I.ops[1]) is not None and T.ptr(I.ops[1]).root in objs and T.ptr(I.ops[1]).root[0] in ('alloca', 'loc', 'tmp', 'var', 'lv'):
            o = I.ops[0]
            bad = None
            if 'a' in o and str(ctor.params[o['a']].get('ty', '')) == 'ptr':
                bad = 'the constructor\'s argument %d' % o['a'] if o['a'] else 'the object under construction, which can be moved or destroyed before the shared structure'
            J = ctor.val(o)
            if J is not None and J.op == 'alloca':
                bad = 'a local variable of the constructor'
            c.check(bad is None, 'nothing short-lived is handed to the thread', I.where(), 'the thread keeps a reference to %s' % bad)


def capture_values(M, S, ctor, start, W, bs):
    """names of the captured scalars -> value for a block size"""
    T, out = T_of(ctor), {}
    objs = {T.ptr(o).root for o in start.ops[1:] if ('v' in o or 'a' in o) and T.ptr(o) is not None}
    t = T_of(W).argtypes[0] if T_of(W).argtypes else -1
    for I in ctor.insts():
        if I.op == 'store':
            p = T.ptr(I.ops[1])
            if p is not None and p.root in objs:
                ns, lt, off = M.field_at(t, p.off)
                if not ns:
                    continue
                o = I.ops[0]
                if 'a' in o and ctor.params[o['a']].get('ty') != 'ptr':
                    out[ns[0]] = bs
                elif 'v' in o:
                    J = ctor.by_id[o['v']]
                    if J.op == 'load' and S.member(T, J.ops[0]) and S.fields.get(S.member(T, J.ops[0])) == 'unsigned int':
                        out[ns[0]] = bs
                    elif J.ty == 'ptr':
                        out[ns[0]] = ('obj',)
    return out


def tables(c, R):
    """the arithmetic of the ring buffer, for small block sizes: what the two waiting conditions are, where data is written and read"""
    M, S, W, ctor, start, users, joiners, acc, info, Q = R
    ints = {m for m, t in S.fields.items() if t in ('unsigned int', 'int', 'unsigned long', 'unsigned long long', 'long', 'size_t')}
    begin, end = (Q['uwrite'] - Q['wwrite']) & ints, (Q['wwrite'] - Q['uwrite']) & ints
    both = Q['uwrite'] & Q['wwrite'] & ints
    size = ints - Q['uwrite'] - Q['wwrite']
    eof = {m for m in Q['wwrite'] if S.fields.get(m) in ('bool', 'std::atomic<bool>')}
    exc = {m for m in S.fields if 'exception_ptr' in S.fields[m]}
    buf = {m for m, t in S.fields.items() if t == 'char*'}
    readers = [F for F in users if F.name in info]
    if len(begin) != 1 or len(end) != 1 or both or len(Q['term']) != 1 or len(buf) != 1 or W.name not in info or not readers or len(eof) != 1:
        c.notes.append('the ring buffer has a form the tables do not cover: %s' % [sorted(x) for x in (begin, end, both, Q['term'], buf, eof)])
        return
    begin, end, term, buf, eof = begin.pop(), end.pop(), list(Q['term'])[0], buf.pop(), eof.pop()
    TC = T_of(ctor)
    # number of blocks: from the allocation
    alloc = [I for I in ctor.insts() if I.is_call and sn(I).startswith('operator new[]')]
    if len(alloc) != 1:
        c.notes.append('the buffer is not allocated by one new[]')
        return
    A = alloc[0]
    ucalls = [I for I in W.insts() if I.is_call and sn(I) == 'std::function::operator()']
    if len(ucalls) != 1 or len(info[W.name]) != 1:
        c.notes.append('the worker reads its source at %d places' % len(ucalls))
        return
    U = ucalls[0]
    wI, wL, _, _ = info[W.name][0]
    vol = {begin, end, term, eof} | exc
    pub = {'v': 0}

    def env(bs, b, e, t=0, f=0, x=0):
        d = {begin: b, end: e, term: t, eof: f, buf: ('buf', 0)}
        d.update({m: bs for m in size})
        d.update({m: x for m in exc})
        return d

    def decide(F, I, L, mem, args, capt):
        X = Table(F, S, mem, args, capt)
        X.volatile = vol
        r = X.go(L[0], 0, lambda y: y is I or (y.blk not in L[1]), came=entry(F, L))
        return r is not I

    def entry(F, L):
        return next((p for p in F.pred[L[0]] if p not in L[1]), None)

    sizes = (1, 2, 3) if c.tier == "quick" else (1, 2, 3, 4, 5)
    try:
        # the ring length: where the end wraps; found from the transfer function of the worker itself
        for bs in sizes:
            X = Table(ctor, S, {}, {i: bs for i, p in enumerate(ctor.params) if p.get('ty') != 'ptr'})
            X.mem = {m: bs for m in size}
            total = X.ref(A.ops[0])
            if not isinstance(total, int):
                raise Unsure('size of the allocation at ' + A.where())
            capt = capture_values(M, S, ctor, start, W, bs)
            step = {}

            def advance(b, e, n):
                X = Table(W, S, env(bs, b, e), {}, capt, {U.i: n})
                X.volatile = ()
                r = X.go(U.blk + 0, U.pos + 1, lambda y: is_wait(y) or (y.blk == wL[0] and y.pos == first(W, wL[0])) or y is U) if U.op == 'call' else X.go(W.succ[U.blk][0], 0, lambda y: is_wait(y) or (y.blk == wL[0] and y.pos == first(W, wL[0])) or y is U, came=U.blk)
                return X, r

            wrap = None
            for e in range(0, total + 1):
                X, r = advance(0, e, 1)
                if X.mem[end] != e + 1:
                    wrap = e + 1 if X.mem[end] == 0 else None
                    break
            if not c.check(wrap is not None and wrap > bs, 'the ring has an end', U.where(), 'for blocks of %d bytes the position of the next write is not taken back to the start of the buffer' % bs):
                return
            N = wrap
            c.check(N + bs <= total, 'the buffer holds the ring and one block', A.where(), 'for blocks of %d bytes the ring has %d bytes, and a block that starts at its last byte does not fit into the %d bytes allocated' % (bs, N, total))
            # the two waiting conditions
            count = lambda b, e: (e - b) % N
            wgo, ugo = {}, {}
            for b in range(N):
                for e in range(N):
                    wgo[b, e] = decide(W, wI, wL, env(bs, b, e), {}, capt)
                    c.check(decide(W, wI, wL, env(bs, b, e, t=1), {}, capt), 'the request to end wakes the worker', wI.where(), 'the worker goes on waiting although it was asked to end (%d of %d bytes used)' % (count(b, e), N))
                    if wgo[b, e]:
                        c.check(N - count(b, e) >= 2 * bs, 'the worker does not overtake the reader', wI.where(),
                                'with blocks of %d bytes the worker reads the next block although only %d bytes are free: it overwrites the block the reader still uses, or the ring looks empty when it is full' % (bs, N - count(b, e)))
            for F in readers:
                for I, L, _, _ in info[F.name]:
                    ai = [i for i, p in enumerate(F.params) if p.get('ty') in ('i32', 'i64')]
                    for b in range(N):
                        for e in range(N):
                            for n in range(0, bs + 1):
                                args = {i: n for i in ai}
                                g = decide(F, I, L, env(bs, b, e), args, {})
                                c.check(g == (count(b, e) >= n), 'the reader waits for its bytes', I.where(), 'with %d bytes buffered the reader that wants %d bytes %s' % (count(b, e), n, 'goes on' if g else 'waits'))
                                c.check(g or wgo[b, e], 'never both waiting', I.where(), 'blocks of %d bytes, read position %d, write position %d: the reader waits for %d bytes while the worker waits for free space' % (bs, b, e, n))
                                if (b + e) % 3 == 0:
                                    for k in (dict(f=1), dict(x=1)):
                                        c.check(decide(F, I, L, env(bs, b, e, **k), args, {}), 'the end wakes the reader', I.where(), 'the reader goes on waiting after %s' % ('the end of the data' if 'f' in k else 'an error of the source'))
            # what the worker asks of its source, and where the bytes end up
            X = Table(W, S, env(bs, 0, 0), {}, capt)
            dst = X.ref(U.ops[1] if len(U.ops) == 3 else U.ops[-2])
            ask = X.ref(U.ops[-1])
            # arguments behind references: std::function takes the values
            for e in range(N):
                X = Table(W, S, env(bs, 0, e), {}, capt)
                d, a = X.ref(U.ops[-2]), X.ref(U.ops[-1])
                c.check(d == ('buf', e) and isinstance(a, int) and e + a <= total and a <= bs, 'blocks are read to the write position', U.where(), 'the source is asked for %s bytes at position %s (write position %d, block size %d)' % (a, d, e, bs))
            for b in range(N):
                for e in range(N):
                    if not wgo[b, e]:
                        continue
                    for n in range(1, bs + 1):
                        X, r = advance(b, e, n)
                        where = (r or U).where()
                        c.check(X.mem[end] == (e + n) % N, 'write position', U.where(), 'after %d bytes at %d the write position is %s of %d' % (n, e, X.mem[end], N))
                        cell = {}
                        for p in range(N):
                            cell[p] = ('old', p)
                            if p < bs:
                                cell[N + p] = ('old', p)
                        for p in range(n):
                            cell[e + p] = ('new', p)
                        inside = True
                        for k in X.ev:
                            if k[0] == 'copy':
                                d, s_, l = k[1:4]
                                if not (isinstance(d, tuple) and d[0] == 'buf' and isinstance(s_, tuple) and s_[0] == 'buf' and isinstance(l, int)):
                                    raise Unsure('copy at ' + k[4].where())
                                d, s_ = d[1], s_[1]
                                if l and not (0 <= d and d + l <= total and 0 <= s_ and s_ + l <= total):
                                    inside = False
                                    c.bad('copies stay in the buffer', k[4].where(), 'blocks of %d bytes: %d bytes are copied from %d to %d of %d' % (bs, l, s_, d, total))
                                    continue
                                vals = [cell.get(s_ + i) for i in range(l)]
                                for i in range(l):
                                    cell[d + i] = vals[i]
                            elif k[0] == 'byte':
                                raise Unsure('single bytes are copied at ' + k[2].where())
                        if inside:
                            c.ok('copies stay in the buffer')
                        bad = None
                        # the block handed out last (up to bs bytes before b), the buffered bytes and the new ones can be read in one piece
                        for q in range(-bs, count(b, e) + n):
                            p = (b + q) % N
                            want = ('new', q - count(b, e)) if q >= count(b, e) else ('old', p)
                            if cell.get(p) != want or (p < bs and cell.get(N + p) != want):
                                bad = (p, q)
                                break
                        c.check(bad is None, 'every byte arrives', U.where(), bad and 'blocks of %d bytes, read position %d, write position %d, %d bytes read: byte %d of the ring (or its copy behind the end) %s' % (
                            bs, b, e, n, bad[0], 'is lost' if bad[1] >= 0 else 'is overwritten while the reader uses it'))
            # what the reader hands out
            for F in readers:
                ai = [i for i, p in enumerate(F.params) if p.get('ty') in ('i32', 'i64')]
                for b in range(N):
                    for e in range(N):
                        for n in range(0, bs + 1):
                            for f in (0, 1):
                                if not f and count(b, e) < n:
                                    continue
                                X = Table(F, S, env(bs, b, e, f=f), {i: n for i in ai}, {})
                                r = X.go(0, 0, lambda y: is_wait(y) or (y.is_call and y.fn == '__cxa_throw'))
                                if r.op != 'ret':
                                    if count(b, e) >= n:
                                        c.bad('the reader gets the next bytes', F.sname + ' ' + r.where(), '%d of %d buffered bytes wanted: the reader %s' % (n, count(b, e), 'waits' if is_wait(r) else 'fails'))
                                    continue
                                v = X.ref(r.ops[0]) if r.ops else None
                                if count(b, e) >= n:
                                    c.check(v == ('buf', b) and X.mem[begin] == (b + n) % N, 'the reader gets the next bytes', r.where(),
                                            'with read position %d, write position %d of %d the request for %d bytes returns %s and moves the read position to %s' % (b, e, N, n, v, X.mem[begin]))
                                else:
                                    c.check(v == 0 and X.mem[begin] == b, 'nothing is returned at the end', r.where(), 'with %d bytes left and %d wanted %s is returned, read position %s -> %s' % (count(b, e), n, v, b, X.mem[begin]))
                    # an error of the source reaches the reader
                for n in (0, 1, bs):
                    X = Table(F, S, env(bs, 0, 0, x=1), {i: n for i in ai}, {})
                    r = X.go(0, 0, lambda y: is_wait(y) or (y.is_call and 'rethrow_exception' in sn(y)) or (y.is_call and y.fn == '__cxa_throw'))
                    c.check(r.is_call and not is_wait(r), 'errors reach the reader', r.where(), 'an error of the source is not reported to the reader')
                # larger requests are refused
                for n in (bs + 1, 2 * bs, 3 * bs):
                    X = Table(F, S, env(bs, 0, N - 1), {i: n for i in ai}, {})
                    r = X.go(0, 0, lambda y: is_wait(y) or (y.is_call and y.fn in ('__cxa_throw', '__cxa_allocate_exception')) or LOCKS.match(sn(y) if y.is_call else '') is not None)
                    c.check(r.is_call and r.fn in ('__cxa_throw', '__cxa_allocate_exception'), 'larger requests are refused', r.where(), 'a request for %d bytes with blocks of %d bytes is not refused: it waits for ever or gets bytes behind the buffer' % (n, bs))
    except Unsure as u:
        m = str(u)
        if m.startswith('stale copy'):
            c.bad('condition is tested again', m.split(' at ', 1)[-1], 'a waiting condition uses a %s' % m)
        else:
            c.notes.append('tables not completed: ' + m)


def first(F, b):
    for I in F.blocks[b]:
        if I.op != 'phi':
            return I.pos
    return 0


RD = 'BufferedAsynchronousReader'


def cls(n):
    return n.rsplit('::', 1)[0].split('::')[-1], n.rsplit('::', 1)[-1]


class Users:
    """which objects of a function are in use by a thread that another object of the function owns"""

    def __init__(self, c, F, owners):
        self.c, self.F, self.T, self.owners = c, F, T_of(F), owners
        self.bad = {}
        self.n = 0
        self.run()

    def root(self, o):
        if not ('v' in o):
            return None
        p = self.T.ptr(o)
        r = p.root if p is not None else None
        return r if isinstance(r, tuple) and r and r[0] in ('alloca', 'loc', 'tmp', 'var', 'lv') else None

    def run(self):
        F = self.F
        inn, work, done = {0: {frozenset()}}, [0], set()
        while work:
            b = work.pop()
            cur, exc = set(inn[b]), None
            for I in F.blocks[b]:
                if I.op == 'invoke':
                    # an assignment or destruction that throws has happened or not; a constructor that throws leaves nothing
                    m = cls(sn(I))
                    exc = set(cur)
                    if m[1] == 'operator=':
                        exc = {self.step(I, x, quiet=True) for x in cur}
                cur = {self.step(I, x) for x in cur}
            t = F.blocks[b][-1]
            for k, s in enumerate(F.succ[b]):
                o = exc if t.op == 'invoke' and k == 1 else cur
                old = inn.setdefault(s, set())
                if o - old or s not in done:
                    done.add(s)
                    old |= o
                    if len(old) > 400:
                        raise Unsure('too many states in ' + F.dem[-60:])
                    work.append(s)

    def step(self, I, st, quiet=False):
        if not I.is_call or DBG.match(I.dem or ''):
            return st
        n = sn(I)
        cl, fn = cls(n)
        ops = [self.root(o) for o in I.ops]
        get = dict(st)
        if fn == 'get_read_function_object' and len(ops) >= 2 and ops[0] and ops[1]:
            get['f', ops[0]] = frozenset([ops[1]])
        elif n.endswith('std::function::function') and len(ops) >= 2 and ('f', ops[1]) in get:
            get['f', ops[0]] = get['f', ops[1]]
        elif n.endswith('function::~function'):
            get.pop(('f', ops[0]), None)
        elif cl in self.owners and ops and ops[0]:
            x = ops[0]
            if fn == cl:
                if len(ops) >= 2 and ops[1] and ('f', ops[1]) in get:
                    get['u', x] = get['f', ops[1]]
                elif len(ops) >= 2 and ops[1] and ('u', ops[1]) in get and re.search(cl + r'&&\)', I.dem or ''):
                    self.free(I, st, ops[1], 'moved', quiet)
                    get['u', x] = get['u', ops[1]]
                    get['u', ops[1]] = frozenset()
                elif len(ops) >= 2 and ops[1]:
                    get['u', x] = frozenset([ops[1]])
                else:
                    get['u', x] = frozenset()
            elif fn == 'operator=':
                self.free(I, st, x, 'replaced', quiet)
                if len(ops) > 1 and ops[1]:
                    self.free(I, st, ops[1], 'moved', quiet)
                    get['u', x] = get.get(('u', ops[1]), frozenset())
                    get['u', ops[1]] = frozenset()
            elif fn.startswith('~'):
                self.free(I, st, x, 'destroyed', quiet)
                get.pop(('u', x), None)
        elif ops and ops[0] and re.search(r'DataSource', cl) and (fn in ('rewind', 'open', 'close', 'read', 'operator=') or fn.startswith('~')):
            self.free(I, st, ops[0], {'rewind': 'rewound', 'open': 'reopened', 'close': 'closed', 'read': 'read'}.get(fn, 'replaced or destroyed'), quiet)
        elif any(o and ('u', o) in get for o in ops) and not n.startswith('std::') and not n.startswith('llvm'):
            for o, r in zip(ops, I.ops):
                if o and ('u', o) in get and self.is_reader(r) and fn not in ('operator=',):
                    self.n += 1
                    if not get['u', o] and not quiet:
                        self.bad[I.i, 'e'] = (I, 'something is read from a reader that has no source')
        return frozenset(get.items())

    def is_reader(self, r):
        p = self.T.ptr(r)
        return p is not None and self.F.M.tname(p.t).endswith(RD)

    def free(self, I, st, x, what, quiet):
        if quiet:
            return
        self.n += 1
        for (k, o), us in st:
            if k == 'u' and x in us and o != x:
                self.bad[I.i, o] = (I, '%s is %s while the thread of %s still uses it' % (show(x).split('#')[0], what, show(o).split('#')[0]))


def pipeline(c):
    opq = OPAQUE + [r'OsmPBFDecompressor::OsmPBFDecompressor', r'OsmPBFDecompressor::operator=', r'get_read_function_object', r'internal_read_osm_pbf', r'^RoutingKit::BufferedAsynchronousReader::']
    M = build.module(mention=RD + r'\s*[&({]|' + RD + r'\s+\w', opaque=opq, inline=INLINE, keep_eh=True, drivers=())
    c.use(M)
    owners = {RD}
    dec = []
    for i, t in enumerate(M.types):
        if t['k'] == 'struct' and any(M.tname(m['t']).endswith(RD) for m in t.get('m', [])):
            owners.add(t['n'].split('::')[-1])
            dec.append((i, t))
    n = 0
    for F in M.functions.values():
        if F.dem.startswith('std::') or not any(I.is_call and cls(sn(I)) == (RD, RD) and len(I.ops) > 1 for I in F.insts()):
            continue
        T = T_of(F)
        if not any(I.op == 'alloca' for I in F.insts()):
            continue
        try:
            U = Users(c, F, owners)
        except Unsure as e:
            c.notes.append(str(e))
            continue
        if not U.n:
            continue
        c.fn(F)
        n += 1
        for (I, msg) in U.bad.values():
            c.bad('objects outlive the threads that use them', I.where(), '%s: %s' % (F.sname, msg))
        if not U.bad:
            c.ok('objects outlive the threads that use them', F.sname)
    status(c, M, dec)


def consts(F, ref, d=0):
    """possible constant values of an operand (None: unknown)"""
    if 'c' in ref:
        return {int(ref['c'])}
    I = F.val(ref)
    if I is None or d > 6:
        return None
    if I.op == 'phi' or I.op == 'select':
        out = set()
        for o in (I.ops if I.op == 'phi' else I.ops[1:]):
            x = consts(F, o, d + 1)
            if x is None:
                return None
            out |= x
        return out
    if I.op in ('zext', 'freeze', 'trunc'):
        return consts(F, I.ops[0], d + 1)
    if I.op == 'or':
        a, b = consts(F, I.ops[0], d + 1), consts(F, I.ops[1], d + 1)
        if a is None or b is None:
            # bits that are certainly set
            x = a if a is not None else b
            return x
        return {p | q for p in a for q in b}
    return None


def status(c, M, dec):
    """the word over which the decompressing thread tells the others what it knows"""
    for di, dt in dec:
        name = dt['n']
        fields = {m['n']: (m['o'], M.tname(m['t'])) for m in dt['m'] if not M.tname(m['t']).endswith(RD)}
        func = [F for F in M.functions.values() if F.dem.startswith(name + '::get_read_function_object') and F.dem.count('::operator()') == 1]
        func = [F for F in func if any(I.is_call or I.op in ('load', 'store') for I in F.insts())]
        if not func:
            func = [F for F in M.functions.values() if name.split('::')[-1] + '::get_read_function_object' in F.dem and '::operator()' in F.dem]

        def on(F, ref):
            p = T_of(F).ptr(ref)
            if p is None:
                return None
            if M.tname(p.t) == name:
                ns, lt, off = M.field_at(p.t, p.off)
                return ns[0] if ns and ns[0] in fields else None
            return None

        inside, outside = {}, {}
        for F in M.functions.values():
            if F.dem.startswith('std::') and 'get_read_function_object' not in F.dem:
                continue
            fin = F in func
            if not fin and (re.search(r'::%s\(|::operator=\(|::~' % re.escape(name.split('::')[-1]), F.dem)):
                continue
            for I in F.insts():
                refs = [I.ops[1]] if I.op == 'store' else [I.ops[0]] if I.op == 'load' else I.ops if I.is_call and not DBG.match(I.dem or '') else []
                for k, o in enumerate(refs):
                    if not ('v' in o or 'a' in o):
                        continue
                    m = on(F, o)
                    if m is None:
                        continue
                    w = I.op == 'store' or (I.is_call and not CONSTM.search(sn(I)) and not re.search(r'::(load|operator [\w ]+)$', sn(I)))
                    (inside if fin else outside).setdefault(m, []).append((F, I, w))
        for m in sorted(set(inside) & set(outside)):
            if not any(w for F, I, w in inside[m]) and not any(w for F, I, w in outside[m]):
                continue
            F, I, w = outside[m][0]
            at = fields[m][1].startswith('std::atomic')
            c.check(at, 'flags between threads are atomic', I.where(), '%s of %s is written by the decompressing thread and used by others, but it is a plain %s' % (m, name.split('::')[-1], fields[m][1]))
            if not at:
                continue
            # spinning on bits of it
            masks = {}
            for F, I, w in outside[m]:
                if w or not I.is_call:
                    continue
                for J in F.users(I):
                    if J.op == 'and' and any('c' in o for o in J.ops):
                        mk = next(int(o['c']) for o in J.ops if 'c' in o)
                        spin = [l for l in F.loops().items() if I.blk in l[1] and not any(x.is_call and not x.dem.startswith('llvm') and x is not I and 'yield' not in sn(x) and 'sleep' not in sn(x) for b in l[1] for x in F.blocks[b])]
                        masks.setdefault(bool(spin), set()).add((mk, I.where()))
            for mk, where in sorted(masks.get(True, ())):
                for G in func:
                    def sets(J, bits, G=G):
                        if J.is_call and J.ops and on(G, J.ops[0]) == m and re.search(r'operator\|=|fetch_or|operator=$|::store$|::operator=', sn(J)) and len(J.ops) > 1:
                            v = consts(G, J.ops[1])
                            return v is not None and all(x & bits == bits for x in v)
                        return False
                    c.fn(G)
                    # only the outermost function object is run by a thread
                    for E in [x for x in G.insts() if x.op in ('ret', 'resume')] if outermost(M, G, func) else []:
                        hit = G.reach_avoiding(0, -1, lambda x: x is E, lambda x: sets(x, mk) or (x.is_call and x.fn == '__clang_call_terminate'))
                        c.check(hit is None, 'nobody waits for ever for the header', E.where(), 'the decompressor can %s without setting the bits %d of %s, for which %s waits' % ('return' if E.op == 'ret' else 'fail', mk, m, where))
                    for mk2, where2 in sorted(masks.get(False, ())):
                        if mk2 == mk:
                            continue
                        for J in G.insts():
                            if J.is_call and J.ops and on(G, J.ops[0]) == m and re.search(r'operator\|=|fetch_or|operator=$|::store$', sn(J)) and len(J.ops) > 1:
                                v = consts(G, J.ops[1])
                                if v is None:
                                    c.notes.append('unknown value written to %s at %s' % (m, J.where()))
                                    continue
                                if any(x & mk2 for x in v):
                                    first = [K for K in G.insts() if K is not J and sets(K, mk) and not (consts(G, K.ops[1]) and all(x & mk2 for x in consts(G, K.ops[1])))]
                                    late = [K for K in first if G.reach_avoiding(K.blk, K.pos, lambda x: x is J, lambda x: x.is_call and x.ops and on(G, x.ops[0]) == m and re.search(r'::(load|operator [\w ]+)$', sn(x)) is not None)]
                                    c.check(not late, 'published when complete', J.where(), 'the bits %d of %s are set after the bits %d, which tell the waiting thread (%s) that they are known' % (mk2, m, mk, where))
    

def outermost(M, G, func):
    """no other function of the group contains G's source (G is not inlined into another one)"""
    for H in func:
        if H is not G and any(I.is_call and I.fn == G.name for I in H.insts()):
            return False
    lines = lambda F: {x[1] for I in F.insts() for x in I.loc() if x[0].startswith(M.repo)}
    g = lines(G)
    return not any(H is not G and g < lines(H) for H in func)


def run(c):
    R = reader(c)
    if R:
        tables(c, R)
    pipeline(c)
    return c.finish('functions run by the worker thread, by its owner and by the destructor: lock sets at every access of the shared structure, typestate of the guards, pending notifications along every path (exceptions included), '
                    'conditions of both waits and the arithmetic of the ring buffer tabulated over all positions of small blocks, objects in use by background threads at every assignment, rewind and destruction, atomic status words',
                    ['one thread consumes', 'the source returns at most as many bytes as it was asked for', 'locking does not fail unless it is misused'])
