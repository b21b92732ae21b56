"""S01: shared indexes and inputs are never modified by code that only reads them; no mutable process-wide state."""
import re
from .. import build
from ..common import *

SYNC = re.compile(r'std::(mutex|__mutex_base|unique_lock|lock_guard|condition_variable|atomic|__atomic_base|recursive_mutex|once_flag)')
MEMW = re.compile(r'^(llvm\.)?mem(cpy|move|set)|^llvm\.mem(cpy|move|set)|^(strcpy|strcat|strncpy|fread|read|recv)$')


def raw_argtypes(F):
    n = len(F.params)
    out = [None] * n
    k = 1 if n and F.params[0].get('sret') else 0
    pv = F.d.get('pvars', [])
    if len(pv) == n - k:
        for j, p in enumerate(pv):
            out[k + j] = p['t']
    elif len(F.sig) - 1 == n - k:
        for j in range(n - k):
            out[k + j] = F.sig[1 + j]
    return out


def raw_member(M, t, off):
    """declared (unstripped) type of the member that starts at byte `off` of type t"""
    while True:
        s = M.strip(t)
        if s is None or s < 0:
            return None
        ty = M.types[s]
        if ty['k'] == 'array':
            b = M.strip(ty['b'])
            sz = M.types[b]['sz'] if b is not None and b >= 0 else 0
            if not sz:
                return None
            off %= sz
            t = ty['b']
            continue
        if ty['k'] != 'struct' or M.is_leaf_class(ty['n']):
            return t if off == 0 else None
        best = None
        for m in ty['m']:
            mt = M.strip(m['t'])
            sz = M.types[mt]['sz'] if mt is not None and mt >= 0 else 0
            if m['o'] <= off < m['o'] + max(sz, 1):
                best = m
        if best is None:
            return None
        off -= best['o']
        t = best['t']


class Const:
    """which memory is reached through a pointer or reference to constant data"""

    def __init__(self, F):
        self.F, self.M, self.T = F, F.M, T_of(F)
        self.raw = raw_argtypes(F)
        self.memo = {}

    def is_closure(self, t):
        if t is None or t < 0:
            return True
        ty = self.M.types[t]
        n = ty['n'] or ''
        return ty['k'] == 'struct' and (n == '' or 'lambda' in n or n.endswith('::') or '$_' in n or re.search(r'Ul.*E\d*_', ty.get('id') or '') is not None or 'anon' in n)

    def ref(self, o, n=0):
        """reason why the object a pointer operand designates must not be written, or None"""
        if n > 40:
            return None
        if 'a' in o:
            a = o['a']
            t = self.raw[a]
            if t is None or self.F.params[a]['ty'] != 'ptr':
                return None
            p = self.T.argtypes[a]
            if a == 0 and '::operator()' in self.F.dem and self.is_closure(p):
                return None
            if self.M.is_const_pointee(t):
                return 'constant parameter "%s"' % (self.T.argnames[a],)
            return None
        if 'v' in o:
            return self.inst(self.F.by_id[o['v']], n)
        if 'ce' in o and o.get('ops'):
            return self.ref(o['ops'][0], n + 1)
        return None

    def inst(self, I, n=0):
        if I.i in self.memo:
            return self.memo[I.i]
        self.memo[I.i] = None
        r = self._inst(I, n)
        self.memo[I.i] = r
        return r

    def _inst(self, I, n):
        if I.op in ('getelementptr', 'bitcast', 'freeze', 'addrspacecast'):
            return self.ref(I.ops[0], n + 1)
        if I.op == 'load' and I.ty == 'ptr':
            p = self.T.ptr(I.ops[0])
            base = self.ref(I.ops[0], n + 1)
            t = raw_member(self.M, p.t, p.off) if p.t is not None and p.t >= 0 else None
            root = p.root
            if root[0] == 'alloca':
                return None
            if t is not None and self.M.is_ptr(t):
                if self.is_closure(self.M.pointee(t)) and self.M.pointee(t) >= 0:
                    return None
                if self.M.is_const_pointee(t):
                    nm = show(self.T.addr(p), self.T)
                    return 'pointer to constant "%s"' % nm
                # references captured by a closure do not inherit constness
                if p.t is not None and p.t >= 0 and self.is_closure(self.M.strip(p.t)):
                    return None
                tn = self.M.tname(t)
                if SYNC.search(tn):
                    return None
                return base
            return base
        if I.op in ('phi', 'select'):
            for o in (I.ops if I.op == 'phi' else I.ops[1:]):
                r = self.ref(o, n + 1)
                if r:
                    return r
        if I.is_call and I.ty == 'ptr' and I.ops:
            if re.search(r'unique_ptr<.*>::(operator->|operator\*|get)\(\)', I.dem):
                p = self.T.ptr_inst(I)
                return self.ref(I.ops[0], n + 1)
            if re.search(r'std::vector<.*>::(begin|end|data|operator\[\]|at|front|back|rbegin|rend)\(', I.dem) and I.dem.endswith('const'):
                return self.ref(I.ops[0], n + 1)
        return None


def params(dem):
    m = re.search(r'\((.*)\)( const)?( &|&&)?$', dem)
    if not m:
        return None, False
    s = dem
    # last top level parenthesis group
    s = re.sub(r'( const)?( \[clone.*\])?$', '', s)
    d = 0
    cut = 0
    for i in range(len(s) - 1, -1, -1):
        if s[i] == ')':
            d += 1
        elif s[i] == '(':
            d -= 1
            if d == 0:
                cut = i
                break
    parts, d, cur = [], 0, ''
    for c in s[cut + 1:-1]:
        if c in '<([{':
            d += 1
        if c in '>)]}':
            d -= 1
        if c == ',' and d == 0:
            parts.append(cur.strip())
            cur = ''
        else:
            cur += c
    if cur.strip():
        parts.append(cur.strip())
    return parts, bool(re.search(r'\) const( \[clone.*\])?$', dem))


def may_write(I, k):
    """can callee of call I modify what its k-th pointer argument designates?"""
    dem = I.dem
    if not dem:
        return False
    s = short(dem)
    if s.startswith('llvm.'):
        return bool(re.match(r'llvm\.mem(cpy|move|set)', s)) and k == 0
    ps, cst = params(dem)
    if ps is None:
        # C functions
        return bool(MEMW.match(s)) and k == (1 if s in ('read', 'recv') else 0)
    n = len(I.ops)
    sret = bool(I.d.get('sret')) if 'sret' in I.d else None
    j = k - (n - len(ps))
    extra = n - len(ps)
    if j < 0:
        # this or sret
        if extra == 2 and k == 0:
            return True       # sret
        if extra == 1 and re.search(r'::~?\w[\w<>:, *&()]*$', s) is None:
            return False
        if SYNC.search(dem.split('(')[0]):
            return False
        return not cst if ('::' in s and extra >= 1 and is_method(dem)) else False
    p = ps[j]
    if re.search(r'const ?[&*]$', p) or re.search(r'\bconst\*?&?$', p):
        return False
    if SYNC.search(p):
        return False
    if p.endswith('&&') or p.endswith('&') or p.endswith('*'):
        return True
    if re.match(r'__gnu_cxx::__normal_iterator<.*', p):
        return not re.match(r'__gnu_cxx::__normal_iterator<[^,]*const\*', p)
    return False


def is_method(dem):
    s = short(dem)
    return not re.match(r'^std::(sort|copy|move|fill|swap|reverse|max|min|accumulate|rotate|stable_sort|nth_element|transform|for_each|__\w+)$', s)


NONMUT = re.compile(r'std::(lower_bound|upper_bound|max_element|min_element|find|find_if|count|equal|equal_range|binary_search|is_sorted|all_of|any_of|none_of|for_each|distance|advance|next|prev|begin|end|__|forward|move<|min|max|accumulate|addressof)|__gnu_cxx::|std::function<.*>::(operator\(\)|~function)')


def global_uses(M, ctx, G):
    """constructs that modify the global after its initialisation"""
    out = []
    for F in M.functions.values():
        if F.name.startswith(('__cxx_global_var_init', '_GLOBAL__sub_I', '__cxx_global_array')):
            continue
        T = T_of(F)
        for I in F.insts():
            hit = None
            if I.op == 'store':
                if roots_in(T, I.ops[1], G) or (roots_in(T, I.ops[0], G)):
                    hit = I
            elif I.op in ('atomicrmw', 'cmpxchg'):
                if roots_in(T, I.ops[0], G):
                    hit = I
            elif I.is_call:
                if re.search(r'__cxa_(guard|atexit)', I.fn or ''):
                    continue
                for k, o in enumerate(I.ops):
                    if roots_in(T, o, G) and may_write(I, k) and not NONMUT.search(I.dem or ''):
                        hit = I
            if hit is not None:
                out.append(hit)
    return out


def roots_in(T, o, G):
    for _ in range(30):
        if o.get('g') == G:
            return True
        if 'ce' in o and o.get('ops'):
            o = o['ops'][0]
            continue
        if 'v' in o:
            I = T.F.by_id[o['v']]
            if I.op in ('getelementptr', 'bitcast', 'load') and (I.op != 'load' or I.ty == 'ptr'):
                o = I.ops[0]
                continue
        return False
    return False


ALLOWED_GLOBAL = {'RoutingKit::expect_failed': 'flag of the test helper EXPECT; not used by the library itself'}


def run(ctx):
    M = build.module()
    ctx.use(M)
    nst = 0
    for F in M.functions.values():
        if not is_root(F, M):
            continue
        C = Const(F)
        T = C.T
        ctx.fn(F)
        for b in sorted(F.reachable()):
            for I in F.blocks[b]:
                tgt = []
                if I.op == 'store':
                    tgt = [I.ops[1]]
                elif I.op in ('atomicrmw', 'cmpxchg'):
                    continue
                elif I.is_call:
                    if not I.ops or NONMUT.search(I.dem or ''):
                        continue
                    if re.search(r'::~|operator delete|__cxa_|^_Unwind', I.dem or I.fn or ''):
                        continue
                    for k, o in enumerate(I.ops):
                        v = F.val(o)
                        if (v is not None and v.ty == 'ptr') or ('a' in o and F.params[o['a']]['ty'] == 'ptr'):
                            if may_write(I, k):
                                tgt.append(o)
                for o in tgt:
                    why = C.ref(o)
                    ctx.check(not why, 'no-write-through-const', I.where(), '%s %s, which is reached through %s in %s' % ('stores to' if I.op == 'store' else 'lets %s modify' % short(I.dem), show(T.addr_of(o), T), why, short(F.dem)))
    ng = 0
    for n, g in M.globals.items():
        if g.get('decl') or not g.get('dem') or not (g.get('file') or '').startswith(build.REPO):
            continue
        ng += 1
        where = '%s:%s' % ((g.get('file') or '').replace(build.REPO + '/', ''), g.get('line'))
        if g.get('const') or g.get('tls'):
            ctx.ok('no-mutable-global-state', where)
            continue
        if g['dem'] in ALLOWED_GLOBAL:
            continue
        t = g.get('t', -1)
        uses = global_uses(M, ctx, n)
        if uses:
            ctx.bad('no-mutable-global-state', uses[0].where(), 'modifies "%s" (defined at %s), which is shared by all threads' % (g.get('vn') or g['dem'], where))
        else:
            ctx.ok('no-mutable-global-state', where)
    ctx.floor('no-write-through-const', 3000)
    ctx.floor('no-mutable-global-state', 2)
    return ctx.finish('Effect analysis: in every entry point (helpers inlined) no store and no call that can modify its argument reaches memory through a pointer or reference to constant data (parameters, captured or member pointers to shared indexes); and no object with static storage duration is modified after its initialisation.',
                      ['code in the C++ standard library does not modify what it receives as constant', 'the test helper flag of EXPECT is not library state'])
