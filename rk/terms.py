"""Access-path / value terms over the exported IR."""
import re
from .ir import Module, Function, Inst

COMM = {'add', 'mul', 'and', 'or', 'xor', 'umin', 'umax', 'smin', 'smax', 'fadd', 'fmul'}
SWAP = {'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle',
        'eq': 'eq', 'ne': 'ne'}
INV = {'ult': 'uge', 'uge': 'ult', 'ule': 'ugt', 'ugt': 'ule', 'slt': 'sge', 'sge': 'slt', 'sle': 'sgt', 'sgt': 'sle',
       'eq': 'ne', 'ne': 'eq'}


def key(t):
    return repr(t)


class Ptr:
    __slots__ = ('root', 't', 'off')

    def __init__(self, root, t, off):
        self.root, self.t, self.off = root, t, off


def short(dem):
    """function name without return type, template arguments and parameters"""
    s = dem
    # drop parameter list: find last top-level '('
    depth = 0
    cut = None
    i = len(s) - 1
    # strip trailing cv
    s = re.sub(r'\)( const| volatile|&|&&| \[clone .*\])*$', ')', s)
    if s.endswith(')'):
        depth = 0
        for i in range(len(s) - 1, -1, -1):
            if s[i] == ')':
                depth += 1
            elif s[i] == '(':
                depth -= 1
                if depth == 0:
                    cut = i
                    break
        if cut:
            s = s[:cut]
    # remove template args
    out = []
    depth = 0
    i = 0
    while i < len(s):
        if s.startswith('operator', i) and depth == 0:
            m = re.match(r'operator\s*(<<=|>>=|<<|>>|<=|>=|<|>|->|\(\)|\[\]|[^\w\s(]+|\s+[\w:]+)?', s[i:])
            out.append(m.group(0))
            i += len(m.group(0))
            continue
        c = s[i]
        if c == '<':
            depth += 1
        elif c == '>':
            depth -= 1
        elif depth == 0:
            out.append(c)
        i += 1
    s = ''.join(out)
    # drop return type: text up to last space outside parentheses
    if 'operator ' in s:
        p = s.find('operator ')
        h = s[:p].rsplit(' ', 1)[-1]
        return h + s[p:]
    d = 0
    last = 0
    for j, c in enumerate(s):
        if c in '({':
            d += 1
        elif c in ')}':
            d -= 1
        elif c == ' ' and d == 0:
            last = j + 1
    # keep "(anonymous namespace)" intact
    return s[last:]


class Terms:
    def __init__(self, F: Function):
        self.F = F
        self.M = F.M
        self.memo = {}
        self.busy = set()
        self.cut = set()
        self.argtypes = self._argtypes()

    def _argtypes(self):
        F = self.F
        n = len(F.params)
        res = [-1] * n
        names = [None] * n
        k = 0
        if n and F.params[0].get('sret'):
            res[0] = ('own', F.sig[0] if F.sig else -1)
            names[0] = 'sret'
            k = 1
        pv = F.d.get('pvars', [])
        if len(pv) == n - k:
            for j, p in enumerate(pv):
                res[k + j] = ('var', p['t'])
                names[k + j] = p['n'] or ('arg%d' % (k + j))
        elif len(F.sig) - 1 == n - k:
            for j in range(n - k):
                res[k + j] = ('var', F.sig[1 + j])
                vs = F.params[k + j].get('vars', [])
                names[k + j] = vs[0][0] if vs else F.params[k + j].get('nm') or 'arg%d' % (k + j)
        else:
            for j in range(k, n):
                vs = F.params[j].get('vars', [])
                if vs:
                    res[j] = ('var', vs[0][1])
                    names[j] = vs[0][0]
                else:
                    names[j] = F.params[j].get('nm') or 'arg%d' % j
        out = []
        for j in range(n):
            r = res[j]
            if r == -1:
                out.append(-1)
                continue
            kind, t = r
            if F.params[j]['ty'] == 'ptr':
                if kind == 'own':
                    out.append(self.M.strip(t))
                elif self.M.is_ptr(t):
                    out.append(self.M.pointee(t))
                else:
                    out.append(self.M.strip(t))
            else:
                out.append(-1)
        self.argnames = names
        return out

    # ---- pointer resolution
    def ptr(self, ref):
        """Ptr for an operand reference"""
        if 'a' in ref:
            return Ptr(('arg', ref['a']), self.argtypes[ref['a']], 0)
        if 'v' in ref:
            return self.ptr_inst(self.F.by_id[ref['v']])
        if 'g' in ref:
            g = self.M.globals.get(ref['g'])
            return Ptr(('glob', ref['g']), self.M.strip(g.get('t', -1)) if g else -1, 0)
        if 'ce' in ref and 'off' in ref:
            p = self.ptr(ref['ops'][0])
            return Ptr(p.root, p.t, p.off + ref['off'])
        if 'null' in ref:
            return Ptr(('null',), -1, 0)
        return Ptr(self.term(ref), -1, 0)

    def alloca_type(self, I):
        vs = I.d.get('vars')
        if vs:
            for n, t in vs:
                s = self.M.strip(t)
                if s is not None and s >= 0 and not self.M.is_ptr(t):
                    return s
                if I.d.get('aty') == 'ptr':
                    return s
        return self.M_type_by_ir(I.d.get('aty', ''))

    def M_type_by_ir(self, aty):
        m = re.match(r'^%"?(class|struct|union)\.(.*?)"?$', aty)
        if not m:
            return -1
        n = re.sub(r'\.\d+$', '', m.group(2))
        cache = self.M.__dict__.setdefault('_byir', {})
        if not cache:
            for k, ty in enumerate(self.M.types):
                if ty['k'] == 'struct':
                    cache.setdefault(ty['n'], k)
        if n in cache:
            return cache[n]
        # std class templates: pseudo type
        if n.startswith('std::') or n.startswith('__gnu_cxx::'):
            self.M.types.append({'n': n, 'k': 'struct', 'sz': 0, 'm': [], 'ta': [], 'id': '', 'pseudo': 1})
            cache[n] = len(self.M.types) - 1
            return cache[n]
        return -1

    def ptr_inst(self, I):
        k = ('P', I.i)
        if k in self.memo:
            return self.memo[k]
        r = self._ptr_inst(I)
        if not (self.cut and self.cut & self.busy):
            self.cut.clear()
            self.memo[k] = r
        return r

    def _ptr_inst(self, I):
        if I.op == 'alloca':
            vs = I.d.get('vars') or [['tmp', -1]]
            return Ptr(('alloca', I.i, vs[0][0]), self.alloca_type(I), 0)
        if I.op == 'getelementptr':
            b = self.ptr(I.ops[0])
            if 'off' not in I.d:
                return Ptr(('gep?', I.i), -1, 0)
            off = I.d['off']
            var = I.d.get('var', [])
            if not var:
                if b.root[0] == 'data' and b.off == 0:
                    return self._elem(b.root[1], [], off, b.t, I)
                return Ptr(b.root, b.t, b.off + off)
            if b.root[0] == 'data':
                return self._elem(b.root[1], var, b.off + off, b.t, I)
            if b.root[0] == 'at' and b.off == 0 and len(b.root) == 3:
                # &v[i] + j
                scale = max(abs(s) for _, s in var)
                idx = b.root[2]
                for r, s in var:
                    idx = mkadd(idx, mkmul(self.term(r), s // scale if scale else s))
                return Ptr(('at', b.root[1], idx), b.t, off)
            if b.root[0] == 'dend':
                return Ptr(('ix', b.root, self._lin(var), abs(var[0][1])), b.t, off)
            # array member or raw pointer
            names, leaf, rest = self.M.field_at(b.t, b.off) if b.t is not None and b.t >= 0 else ([], -1, b.off)
            scale = max(abs(s) for _, s in var)
            t = b.t
            et = -1
            tt = self.M.strip(b.t)
            if tt is not None and tt >= 0:
                ty = self.M.types[tt]
                if ty['k'] == 'basic' or b.off == 0 and ty['sz'] == scale:
                    et = tt
                else:
                    # array inside struct
                    a = self._array_at(tt, b.off + off)
                    if a:
                        nm, et, rest = a
                        return Ptr(('ix', wrap(b.root, nm), self._lin(var), scale), et, rest)
            base = wrap(b.root, names) if (b.off and names) else (b.root if b.off == 0 else ('off', b.root, b.off))
            idx = self._lin(var)
            if scale and off % scale == 0 and off:
                idx = mkadd(idx, ('c', off // scale))
                off = 0
            elif scale and off:
                q = off // scale
                if q:
                    idx = mkadd(idx, ('c', q))
                    off -= q * scale
            return Ptr(('ix', base, idx, scale), et, off)
        if I.op == 'load':
            t = self.term_inst(I)
            p = self.ptr(I.ops[0])
            ty = self._leaf_type(p)
            if t[0] == 'data' or t[0] == 'dend':
                return Ptr(t, self.elem_type(ty), 0)
            return Ptr(t, self.M.pointee(ty) if ty is not None and ty >= 0 else -1, 0)
        if I.op in ('phi', 'select'):
            t = -1
            ops = I.ops if I.op == 'phi' else I.ops[1:]
            if ('p', I.i) in self.busy:
                self.cut.add(('p', I.i))
                return Ptr(('phi', I.i), -1, 0)
            self.busy.add(('p', I.i))
            roots = []
            for o in ops:
                q = self.ptr(o)
                if t == -1 and q.off == 0:
                    t = q.t
                if q.root != ('phi', I.i):
                    roots.append((q.root, q.t, q.off))
            self.busy.discard(('p', I.i))
            self.cut.discard(('p', I.i))
            if roots and all(r == roots[0] for r in roots):
                return Ptr(*roots[0])
            return Ptr(('phi' if I.op == 'phi' else 'selp', I.i), t, 0)
        if I.is_call:
            t = self.term_inst(I)
            ty = -1
            if re.search(r'unique_ptr<.*>::(operator->|operator\*|get)', I.dem) and I.ops:
                p = self.ptr(I.ops[0])
                lt = self._leaf_type(p)
                if lt is not None and lt >= 0 and self.M.types[lt].get('ta'):
                    ty = self.M.strip(self.M.types[lt]['ta'][0])
                return Ptr(('uptr', self.addr(p)), ty, 0)
            return Ptr(t, ty, 0)
        return Ptr(self.term_inst(I), -1, 0)

    def _array_at(self, t, off):
        nm = []
        while True:
            t = self.M.strip(t)
            if t is None or t < 0:
                return None
            ty = self.M.types[t]
            if ty['k'] == 'array':
                return nm, self.M.strip(ty['b']), off
            if ty['k'] != 'struct':
                return None
            best = None
            for m in ty['m']:
                if m['o'] <= off:
                    mt = self.M.strip(m['t'])
                    sz = self.M.types[mt]['sz'] if mt is not None and mt >= 0 else 0
                    if off < m['o'] + max(sz, 1):
                        best = m
            if best is None:
                return None
            nm = nm + [best['n']]
            off -= best['o']
            t = best['t']

    def _lin(self, var):
        scale = max(abs(s) for _, s in var)
        t = None
        for r, s in var:
            x = mkmul(self.term(r), s // scale if scale else s)
            t = x if t is None else mkadd(t, x)
        return t

    def _elem(self, V, var, off, et, I):
        sz = None
        if var:
            sz = max(abs(s) for _, s in var)
        if et is not None and et >= 0 and self.M.types[et]['sz']:
            sz = self.M.types[et]['sz']
        if not sz:
            sz = 1
        idx = None
        for r, s in var:
            x = mkmul(self.term(r), s // sz if s % sz == 0 else s)
            idx = x if idx is None else mkadd(idx, x)
        q, rest = divmod(off, sz)
        if idx is None:
            idx = ('c', q)
        elif q:
            idx = mkadd(idx, ('c', q))
        return Ptr(('at', V, idx), et, rest)

    def elem_type(self, ty):
        if ty is not None and ty >= 0:
            ta = self.M.types[ty].get('ta')
            if ta:
                return self.M.strip(ta[0])
        return -1

    def _leaf_type(self, p):
        if p.t is None or p.t < 0:
            return -1
        return self.M.field_at(p.t, p.off)[1]

    def leaf(self, p):
        """(addr term, leaf type, rest offset)"""
        root = p.root
        if root[0] == 'data':
            root = ('at', root[1], ('c', 0))
        if p.t is None or p.t < 0:
            return (root if p.off == 0 else ('off', root, p.off)), -1, 0
        names, t, rest = self.M.field_at(p.t, p.off)
        a = wrap(root, names)
        return a, t, rest

    def addr(self, p):
        a, t, rest = self.leaf(p)
        return a if not rest else ('off', a, rest)

    def addr_of(self, ref):
        return self.addr(self.ptr(ref))

    def obj_of(self, ref):
        """address term of the whole object a pointer operand designates (no descent at offset 0)"""
        p = self.ptr(ref)
        if p.off == 0:
            return p.root
        return self.addr(p)

    # ---- values
    def term(self, ref):
        if 'v' in ref:
            return self.term_inst(self.F.by_id[ref['v']])
        if 'a' in ref:
            return ('arg', ref['a'])
        if 'c' in ref:
            return ('c', int(ref['c']) if not (ref['w'] > 1 and int(ref['c']) >= 1 << (ref['w'] - 1) and False) else int(ref['c']))
        if 'f' in ref:
            return ('fc', ref['f'])
        if 'null' in ref:
            return ('null',)
        if 'undef' in ref:
            return ('undef',)
        if 'g' in ref:
            return ('glob', ref['g'])
        if 'fn' in ref:
            return ('fn', ref['fn'])
        if 'ce' in ref:
            return ('ce', ref['ce'], tuple(self.term(o) for o in ref['ops']))
        if 'elts' in ref:
            return ('vec', tuple(self.term(o) for o in ref['elts']))
        if 'zero' in ref:
            return ('zero',)
        if 'agg' in ref:
            return ('agg', tuple(self.term(o) for o in ref['agg']))
        return ('k?', str(sorted(ref)))

    def term_inst(self, I):
        m = self.memo.get(I.i)
        if m is not None:
            return m
        if I.i in self.busy:
            self.cut.add(I.i)
            return ('phi', I.i)
        self.busy.add(I.i)
        r = self._term(I)
        self.busy.discard(I.i)
        self.cut.discard(I.i)
        if not (self.cut and self.cut & self.busy):      # a term that was cut at a value under construction is not kept
            self.cut.clear()
            self.memo[I.i] = r
        return r

    def _term(self, I):
        op = I.op
        if op == 'load':
            p = self.ptr(I.ops[0])
            a, t, rest = self.leaf(p)
            if t is not None and t >= 0 and I.ty == 'ptr' and self.M.types[t]['n'].startswith('std::vector'):
                if rest == 0:
                    return ('data', a)
                if rest == 8:
                    return ('dend', a)
                if rest == 16:
                    return ('dcap', a)
            return ('ld', a if not rest else ('off', a, rest))
        if op == 'phi':
            return ('phi', I.i)
        if op in ('alloca', 'getelementptr'):
            p = self.ptr_inst(I)
            return ('addr', self.addr(p))
        if op in ('zext', 'sext', 'bitcast', 'freeze', 'inttoptr', 'ptrtoint', 'fpext', 'fptrunc'):
            if op in ('zext',) and I.d.get('sfrom') == 'i1':
                return self.term(I.ops[0])
            return self.term(I.ops[0])
        if op == 'trunc':
            x = self.term(I.ops[0])
            return x
        if op in ('sitofp', 'uitofp', 'fptoui', 'fptosi', 'fneg'):
            return (op, self.term(I.ops[0]))
        if op in ('icmp', 'fcmp'):
            a, b = self.term(I.ops[0]), self.term(I.ops[1])
            p = I.d['pred']
            return mkcmp(p, a, b)
        if op == 'select':
            return ('sel', self.term(I.ops[0]), self.term(I.ops[1]), self.term(I.ops[2]))
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            a, b = self.term(I.ops[0]), self.term(I.ops[1])
            return mkbin(op, a, b, I.ty)
        if I.is_call:
            n = short(I.dem) if I.dem else '<indirect>'
            if n.startswith('llvm.'):
                base = n.split('.')[1]
                if base in COMM:
                    return mkbin(base, self.term(I.ops[0]), self.term(I.ops[1]), I.ty)
                return (base,) + tuple(self.term(o) for o in I.ops)
            if re.search(r'unique_ptr<.*>::(operator->|operator\*|get)', I.dem):
                return ('uptr', self.addr(self.ptr(I.ops[0])))
            return ('call', n, I.i)
        if op == 'extractvalue':
            return ('ev', self.term(I.ops[0]), tuple(I.d['idx']))
        return (op, I.i)

    # μ-expansion of a phi for structural comparison
    def mu(self, t, depth=6, env=None):
        env = env or {}
        if not isinstance(t, tuple) or not t:
            return t
        if t[0] == 'phi':
            if t[1] in env:
                return ('mu', env[t[1]])
            if depth == 0:
                return ('mu?',)
            I = self.F.by_id[t[1]]
            e = dict(env)
            e[t[1]] = len(e)
            if I.op == 'phi' or I.op == 'select':
                xs = set()
                ops = I.ops if I.op == 'phi' else I.ops[1:]
                for o in ops:
                    x = self.mu(self.term(o), depth - 1, e)
                    if x != ('mu', e[t[1]]):
                        xs.add(x)
                return ('phi',) + tuple(sorted(xs, key=key))
            return t
        if t[0] == 'call':
            I = self.F.by_id[t[2]]
            args = []
            for o in I.ops:
                if 'v' in o or 'a' in o:
                    v = self.F.by_id.get(o.get('v')) if 'v' in o else None
                    if (v is not None and v.ty == 'ptr') or ('a' in o and self.F.params[o['a']]['ty'] == 'ptr'):
                        args.append(self.mu(self.addr(self.ptr(o)), depth - 1, env) if depth > 0 else ('?',))
                        continue
                args.append(self.mu(self.term(o), depth - 1, env) if depth > 0 else ('?',))
            return ('call', t[1]) + tuple(args)
        return tuple(self.mu(x, depth, env) if isinstance(x, tuple) else x for x in t)


def wrap(root, names):
    a = root
    for n in names:
        a = ('f', a, n)
    return a


def mkadd(a, b):
    return mkbin('add', a, b)


def mkmul(a, c):
    if c == 1:
        return a
    return mkbin('mul', a, ('c', c))


def mkcmp(p, a, b):
    if p in SWAP:
        # constants right, otherwise order by key
        if a[0] == 'c' and b[0] != 'c' or (b[0] != 'c' and a[0] != 'c' and key(a) > key(b)):
            a, b, p = b, a, SWAP[p]
    return ('cmp', p, a, b)


def mkbin(op, a, b, ty=None):
    if op == 'sub' and b[0] == 'c':
        op, b = 'add', ('c', -b[1])
    if op == 'sub' and a[0] == 'dend' and b == ('data', a[1]):
        return ('bytes', a[1])
    if op in ('lshr', 'ashr', 'sdiv', 'udiv') and a[0] == 'bytes' and b[0] == 'c':
        return ('size', a[1])
    if op in COMM:
        if a[0] == 'c' and b[0] == 'c' and op in ('add', 'mul'):
            return ('c', a[1] + b[1] if op == 'add' else a[1] * b[1])
        if op == 'add':
            if b[0] == 'c':
                b = ('c', _sgn(b[1], ty))
            if a[0] == 'c':
                a = ('c', _sgn(a[1], ty))
        if a[0] == 'c' or (b[0] != 'c' and key(a) > key(b)):
            a, b = b, a
        if op == 'add' and b[0] == 'c':
            if a[0] == 'add' and a[2][0] == 'c':
                return mkbin('add', a[1], ('c', a[2][1] + b[1]), ty)
            if b[1] == 0:
                return a
            if a[0] == 'c':
                return ('c', a[1] + b[1])
    return (op, a, b)


def _sgn(v, ty):
    for w in (8, 16, 32, 64):
        if ty == 'i%d' % w and v >= 1 << (w - 1):
            return v - (1 << w)
    if ty is None and v >= 1 << 63:
        return v - (1 << 64)
    return v


def show(t, T=None, depth=0):
    if not isinstance(t, tuple):
        return str(t)
    if not t:
        return '()'
    k = t[0]
    if k == 'arg':
        n = T.argnames[t[1]] if T and t[1] < len(T.argnames) else None
        return n or 'arg%d' % t[1]
    if k == 'alloca':
        return '%s#%d' % (t[2], t[1])
    if k == 'glob':
        return t[1]
    if k == 'f':
        return '%s.%s' % (show(t[1], T), t[2])
    if k == 'ld':
        return show(t[1], T)
    if k == 'at':
        return '%s[%s]' % (show(t[1], T), show(t[2], T))
    if k == 'ix':
        return '%s[%s]' % (show(t[1], T), show(t[2], T))
    if k == 'data':
        return show(t[1], T) + '.data'
    if k == 'dend':
        return show(t[1], T) + '.end'
    if k == 'size':
        return show(t[1], T) + '.size'
    if k == 'c':
        return str(t[1])
    if k == 'phi' and len(t) == 2 and isinstance(t[1], int):
        n = ''
        if T:
            vs = T.F.by_id[t[1]].d.get('vars')
            if vs:
                n = vs[0][0]
        return 'φ%s%d' % (n, t[1])
    if k == 'cmp':
        return '(%s %s %s)' % (show(t[2], T), t[1], show(t[3], T))
    if k in ('add', 'mul', 'sub', 'and', 'or', 'shl', 'lshr', 'umin', 'umax') and len(t) == 3:
        return '%s(%s, %s)' % (k, show(t[1], T), show(t[2], T))
    if k == 'call' and len(t) == 3 and isinstance(t[2], int):
        return '%s@%d' % (t[1], t[2])
    if k == 'addr':
        return '&' + show(t[1], T)
    if k == 'uptr':
        return '*' + show(t[1], T)
    return '%s(%s)' % (k, ', '.join(show(x, T) for x in t[1:]))


def subterms(t):
    if isinstance(t, tuple):
        yield t
        for x in t[1:]:
            if isinstance(x, tuple):
                yield from subterms(x)


def dump(F, out=print):
    T = Terms(F)
    out('== %s  %s:%d' % (F.dem, F.file, F.line))
    for bi, b in enumerate(F.blocks):
        if bi not in F.reachable():
            continue
        out(' b%d: preds %s' % (bi, F.pred[bi]))
        for I in b:
            if I.op == 'store':
                v = T.term(I.ops[0])
                out('   store %s = %s   @%s' % (show(T.addr_of(I.ops[1]), T), show(v, T), I.where()))
            elif I.is_call:
                args = []
                for o in I.ops:
                    x = F.by_id.get(o.get('v')) if 'v' in o else None
                    if (x is not None and x.ty == 'ptr') or ('a' in o and F.params[o['a']]['ty'] == 'ptr'):
                        args.append('&' + show(T.addr_of(o), T))
                    else:
                        args.append(show(T.term(o), T))
                out('   %%%d = %s(%s)  @%s' % (I.i, short(I.dem), ', '.join(args), I.where()))
            elif I.op == 'br':
                if I.ops:
                    out('   br %s ? b%d : b%d' % (show(T.term(I.ops[0]), T), I.d['succ'][0], I.d['succ'][1]))
                else:
                    out('   br b%d' % I.d['succ'][0])
            elif I.op == 'phi':
                out('   %%%d = phi%s %s' % (I.i, I.d.get('vars', [['']])[0][0], [(show(T.term(o), T), bb) for o, bb in zip(I.ops, I.d['in'])]))
            elif I.op == 'ret':
                out('   ret %s' % (show(T.term(I.ops[0]), T) if I.ops else ''))
            elif I.op == 'switch':
                out('   switch %s %s' % (show(T.term(I.ops[0]), T), list(zip(['def'] + I.d['cases'], I.d['succ']))))
            elif I.op in ('cmpxchg', 'atomicrmw', 'unreachable', 'resume', 'landingpad'):
                out('   %s %s' % (I.op, [show(T.term(o), T) for o in I.ops]))
