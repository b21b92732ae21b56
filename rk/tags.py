"""Decision tables of functions that branch on the values of tags (C strings looked up by key).

A path sensitive data flow analysis over the flow graph: the abstract state knows, for every key, whether it is absent, which literal
its value equals or which literals and characters it differs from; integers and pointers into literals are propagated as constants.
A branch that the state does not decide is followed both ways.  Branches on the log callback carry no information; any other branch
on something unknown marks the path as `unsure` and nothing is concluded from it."""
import re
from .common import *

MAXOFF, MAXINT = 40, 64
NULL_INTOLERANT = re.compile(r'^(strcmp|strncmp|strlen|strcpy|strncpy|strchr|strstr|atoi|atol|strtol|strtoul|strtod|strcasecmp|memcmp|memcpy)$|basic_string|std::operator\+|std::allocator|char_traits')


class TooMany(Exception):
    pass


class Facts:
    """what is known about the value of one key"""
    __slots__ = ('null', 'full', 'ch', 'nch', 'neq', 'npre')

    def __init__(self, null=None, full=None, ch=(), nch=(), neq=(), npre=()):
        self.null, self.full = null, full
        self.ch, self.nch, self.neq, self.npre = dict(ch), frozenset(nch), frozenset(neq), frozenset(npre)

    def key(self):
        return (self.null, self.full, tuple(sorted(self.ch.items())), self.nch, self.neq, self.npre)

    def copy(self):
        return Facts(self.null, self.full, self.ch, self.nch, self.neq, self.npre)

    def char(self, off):
        if self.full is not None:
            return ord(self.full[off]) if off < len(self.full) else (0 if off == len(self.full) else None)
        return self.ch.get(off)

    def decide(self, atom):
        k = atom[0]
        if k == 'null':
            return self.null
        if k == 'eq':
            off, s = atom[1:]
            if self.full is not None and off <= len(self.full):
                return self.full[off:] == s
            if (off, s) in self.neq:
                return False
            for o, c in self.ch.items():
                if o >= off:
                    e = ord(s[o - off]) if o - off < len(s) else (0 if o - off == len(s) else None)
                    if e is not None and e != c:
                        return False
            for o, c in self.nch:
                if o >= off and o - off <= len(s) and (ord(s[o - off]) if o - off < len(s) else 0) == c:
                    return False
            for o, p in self.npre:
                if o >= off and s[o - off:].startswith(p):
                    return False
            return None
        if k == 'ch':
            off, c = atom[1:]
            x = self.char(off)
            if x is not None:
                return x == c
            if (off, c) in self.nch:
                return False
            return None
        if k == 'pre':
            off, s = atom[1:]
            cs = [self.char(off + i) for i in range(len(s))]
            if all(x is not None for x in cs):
                return all(x == ord(y) for x, y in zip(cs, s))
            if any(x is not None and x != ord(y) for x, y in zip(cs, s)) or (off, s) in self.npre:
                return False
            return None
        return None

    def assume(self, atom, v, keep=False):
        f = self.copy()
        k = atom[0]
        if k == 'null':
            f.null = v
        elif k == 'eq':
            off, s = atom[1:]
            f.null = False
            if v:
                pre = [f.char(i) for i in range(off)]
                if all(x is not None for x in pre):
                    f.full, f.ch, f.nch, f.neq, f.npre = ''.join(chr(x) for x in pre) + s, {}, frozenset(), frozenset(), frozenset()
                else:
                    for i, x in enumerate(s + '\0'):
                        f.ch[off + i] = ord(x)
            else:
                f.neq |= {(off, s)}
        elif k == 'ch':
            off, c = atom[1:]
            f.null = False
            if v:
                if c or keep or all(f.char(i) is not None for i in range(off)):
                    f.ch[off] = c
                if c == 0 and all(f.char(i) is not None for i in range(off)):
                    f.full = ''.join(chr(f.char(i)) for i in range(off))
                    f.ch, f.nch, f.neq, f.npre = {}, frozenset(), frozenset(), frozenset()
            elif c != 0 or keep:
                f.nch |= {(off, c)}
        elif k == 'pre':
            off, s = atom[1:]
            f.null = False
            if v:
                for i, x in enumerate(s):
                    f.ch[off + i] = ord(x)
            else:
                f.npre |= {(off, s)}
        return f

    def literal(self):
        return self.full


class State:
    def __init__(self):
        self.env, self.mem, self.facts, self.unsure, self.extra, self.trace = {}, {}, {}, None, (), ()

    def clone(self):
        s = State()
        s.env, s.mem, s.facts, s.unsure, s.extra, s.trace = dict(self.env), dict(self.mem), dict(self.facts), self.unsure, self.extra, self.trace
        return s

    def f(self, key):
        return self.facts.get(key) or Facts()

    def text(self):
        out = []
        for k in sorted(self.facts):
            f = self.facts[k]
            if f.null:
                out.append('no %s' % k)
            elif f.full is not None:
                out.append('%s=%s' % (k, f.full))
            elif f.ch:
                out.append('%s=%s…' % (k, ''.join(chr(f.ch[i]) if i in f.ch and f.ch[i] else '?' for i in range(max(f.ch) + 1))))
            elif f.null is False:
                out.append('%s=(other)' % k)
        return ', '.join(out) or 'any tags'


class Tags:
    def __init__(self, M, F, lookup=r'TagMap::operator\[\]', hook=None, on=None, limit=60000, widen=False, plain=False, branch=None):
        self.widen, self.plain, self.branch = widen, plain, branch
        """hook(state, Inst) -> None | list of (value, extra) alternatives for a call; on(state, Inst) is told about every call and store"""
        self.M, self.F, self.T = M, F, T_of(F)
        self.lookup, self.hook, self.on, self.limit = re.compile(lookup), hook, on, limit
        self.nullbad = []
        self.headers = {h for _, h in F.back_edges()}
        self.live = self._live()
        self.chars = {I.i for I in F.insts() if I.op == 'alloca' and self.is_chars(I)}

    def is_chars(self, I):
        if re.match(r'\[\d+ x i8\]', str(I.d.get('aty') or '')):
            return True
        t = self.T.alloca_type(I)
        if t is None or t < 0:
            return False
        ty = self.M.types[self.M.strip(t)] if self.M.strip(t) is not None else self.M.types[t]
        return ty.get('k') == 'array' and 'char' in str(ty) or any(U.op == 'load' and U.ty == 'i8' or U.op == 'store' and U.d.get('vty') == 'i8' for G in self.F.users(I) if G.op == 'getelementptr' for U in self.F.users(G))

    def _live(self):
        F = self.F
        n = len(F.blocks)
        use, defs = [set() for _ in range(n)], [set() for _ in range(n)]
        pu = [set() for _ in range(n)]
        def refs(I):
            for o in I.ops:
                if 'v' in o:
                    yield o['v']
            for r, s in I.d.get('var') or ():
                if 'v' in r:
                    yield r['v']
        for b in range(n):
            for I in F.blocks[b]:
                if I.op == 'phi':
                    for o, p in zip(I.ops, I.d['in']):
                        if 'v' in o:
                            pu[p].add(o['v'])
                else:
                    for v in refs(I):
                        if v not in defs[b]:
                            use[b].add(v)
                defs[b].add(I.i)
        live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for b in reversed(range(n)):
                out = set(pu[b])
                for s in F.succ[b]:
                    out |= live[s]
                new = use[b] | (out - defs[b])
                if new != live[b]:
                    live[b] = new
                    ch = True
        return live

    # ---- values
    def ref(self, s, r):
        if 'v' in r:
            I = self.F.by_id[r['v']]
            if I.op == 'alloca':
                return ('al', I.i, 0)
            return s.env.get(r['v'])
        if 'c' in r:
            w = r.get('w', 32)
            n = int(r['c'])
            if n < 0:
                n &= (1 << w) - 1
            return ('i', n, w)
        if r.get('null'):
            return ('null',)
        if 'a' in r:
            return ('arg', r['a'], 0) if ('arg', r['a']) not in s.env else s.env[('arg', r['a'])]
        if 'g' in r:
            return self.glob(r['g'], 0)
        if r.get('ce') == 'getelementptr' and 'off' in r:
            b = self.ref(s, r['ops'][0])
            return self.shift(b, r['off'])
        return None

    def glob(self, g, off):
        G = self.M.globals.get(g) or {}
        ini = G.get('init')
        if isinstance(ini, dict):
            if ini.get('str') is not None:
                return ('lit', ini['str'].split('\0')[0], off)
            if ini.get('zero') and re.match(r'\[\d+ x i8\]', G.get('ty', '')):
                return ('lit', '', off)
        return ('g', g, off)

    def shift(self, p, n):
        if p is None:
            return None
        if p[0] in ('lit', 'tag', 'g', 'al', 'arg'):
            o = p[2] + n
            if p[0] == 'tag' and o > MAXOFF:
                return None
            if p[0] == 'al' and n and (p[1] in self.chars or o > 4096):
                return None
            if p[0] == 'lit' and o > len(p[1]) + 1:
                return None
            return (p[0], p[1], o)
        return None

    def elt(self, g, off, sz):
        G = self.M.globals.get(g) or {}
        ini = G.get('init')
        if not isinstance(ini, dict):
            return None
        flat = {}

        def lay(x, o):
            """offsets of the scalars of a constant; returns (size, alignment)"""
            L = x.get('agg') or x.get('elts')
            if L is None:
                if x.get('zero') or x.get('undef'):
                    return None
                n = max(1, x['w'] // 8) if 'w' in x else 8
                flat[o] = x
                return n, n
            p, al = 0, 1
            for y in L:
                q = lay(y, 0)
                if q is None:
                    return None
                p = (p + q[1] - 1) // q[1] * q[1]
                lay(y, o + p)
                p += q[0]
                al = max(al, q[1])
            return (p + al - 1) // al * al, al
        if ini.get('str') is None and lay(ini, 0) and off in flat:
            return self.ref(State(), flat[off])
        return None

    def calc(self, s, I):
        op = I.op
        if op in ('zext', 'sext', 'trunc', 'freeze', 'bitcast', 'ptrtoint', 'inttoptr'):
            v = self.ref(s, I.ops[0])
            if v and v[0] == 'i':
                m = re.match(r'i(\d+)', I.ty)
                w = int(m.group(1)) if m else v[2]
                n = v[1]
                if op == 'sext' and n >> (v[2] - 1) & 1:
                    n -= 1 << v[2]
                return ('i', n & ((1 << w) - 1), w)
            if v and v[0] == 'bool' and op in ('zext', 'freeze', 'trunc'):
                return v
            return v if v and v[0] in ('ch', 'cmp', 'tag', 'lit', 'g', 'al', 'null') else None
        if op == 'getelementptr':
            b = self.ref(s, I.ops[0])
            if b is None or 'off' not in I.d:
                return None
            n = I.d['off']
            for r, sc in I.d.get('var') or ():
                v = self.ref(s, r)
                if not v or v[0] != 'i':
                    return None
                x = v[1]
                if x >> (v[2] - 1) & 1:
                    x -= 1 << v[2]
                n += x * sc
            return self.shift(b, n)
        if op == 'load':
            p = self.ref(s, I.ops[0])
            if p is None:
                return None
            if p[0] == 'lit' and I.ty == 'i8':
                return ('i', ord(p[1][p[2]]) & 255, 8) if 0 <= p[2] < len(p[1]) else (('i', 0, 8) if p[2] == len(p[1]) else None)
            if p[0] == 'tag' and I.ty == 'i8':
                self.need(s, p[1], I)
                c = s.f(p[1]).char(p[2])
                return ('i', c & 255, 8) if c is not None else ('ch', p[1], p[2])
            if p[0] == 'g':
                return self.elt(p[1], p[2], 8 if I.ty == 'ptr' else 4)
            if p[0] == 'al':
                return s.mem.get((p[1], p[2]))
            return None
        if op in ('icmp',):
            return self.cmp(s, I.d['pred'], self.ref(s, I.ops[0]), self.ref(s, I.ops[1]))
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'udiv', 'urem', 'sdiv'):
            a, b = self.ref(s, I.ops[0]), self.ref(s, I.ops[1])
            if I.ty == 'i1' and op in ('and', 'or', 'xor'):
                return self.logic(s, op, a, b)
            if a and b and a[0] == b[0] == 'i':
                x, y, w = a[1], b[1], a[2]
                if op in ('udiv', 'urem', 'sdiv') and y == 0:
                    return None
                if op in ('shl', 'lshr') and y >= w:
                    return None
                r = {'add': x + y, 'sub': x - y, 'mul': x * y, 'and': x & y, 'or': x | y, 'xor': x ^ y, 'shl': x << (y if op == 'shl' else 0), 'lshr': x >> (y if op == 'lshr' else 0),
                     'udiv': x // (y or 1), 'urem': x % (y or 1), 'sdiv': x // (y or 1)}[op]
                return ('i', r & ((1 << w) - 1), w)
            return None
        if op == 'select':
            c = self.truth(s, self.ref(s, I.ops[0]))
            if c is None:
                a, b = self.ref(s, I.ops[1]), self.ref(s, I.ops[2])
                if a is not None and a == b:
                    return a
                if I.ty == 'i1':
                    cc = self.ref(s, I.ops[0])
                    if b == ('i', 0, 1):
                        return self.logic(s, 'and', cc, a)
                    if a and a[0] == 'i' and a[1] == 1:
                        return self.logic(s, 'or', cc, b)
                return ('sel', self.ref(s, I.ops[0]), a, b) if self.ref(s, I.ops[0]) else None
            return self.ref(s, I.ops[1] if c else I.ops[2])
        return None

    def logic(self, s, op, a, b):
        x, y = self.truth(s, a), self.truth(s, b)
        if op == 'and' and (x is False or y is False):
            return ('i', 0, 1)
        if op == 'or' and (x is True or y is True):
            return ('i', 1, 1)
        if x is not None and y is not None:
            return ('i', int({'and': x and y, 'or': x or y, 'xor': x != y}[op]), 1)
        if op in ('and', 'or'):
            if x is not None:
                return b
            if y is not None:
                return a
        if op == 'xor' and y is not None:
            return a if not y else (('bool', a[1], a[2], not a[3]) if a and a[0] == 'bool' else (('not', a) if a else None))
        if op == 'xor' and x is not None:
            return self.logic(s, op, b, a)
        if a and b:
            return (op, a, b)
        return None

    def cmp(self, s, p, a, b):
        if a is None or b is None:
            return None
        if a[0] == 'null' or (a[0] == 'i' and b[0] != 'i') or (a[0] == 'lit' and b[0] == 'tag'):
            sw = {'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle'}
            a, b, p = b, a, sw.get(p, p)
        if a[0] == 'null' and b[0] == 'null':
            return ('i', int(p == 'eq'), 1)
        if b[0] == 'null':
            if a[0] == 'tag' and p in ('eq', 'ne') and a[2] == 0:
                return ('bool', a[1], ('null',), p == 'eq')
            if a[0] in ('lit', 'g', 'al') and p in ('eq', 'ne'):
                return ('i', int(p == 'ne'), 1)
            return None
        if a[0] == 'i' and b[0] == 'i':
            x, y, w = a[1], b[1], max(a[2], b[2])
            if p[0] == 's':
                x = x - (1 << w) if x >> (w - 1) & 1 else x
                y = y - (1 << w) if y >> (w - 1) & 1 else y
            q = p[-2:]
            return ('i', int({'eq': x == y, 'ne': x != y, 'lt': x < y, 'gt': x > y, 'le': x <= y, 'ge': x >= y}[q]), 1)
        if a[0] == 'cmp' and b[0] == 'i' and b[1] == 0 and p in ('eq', 'ne'):
            return ('bool', a[1], a[2], p == 'eq')
        if a[0] == 'bool' and b[0] == 'i' and p in ('eq', 'ne'):
            return ('bool', a[1], a[2], a[3] == ((b[1] != 0) == (p == 'eq')))
        if a[0] == 'ch' and b[0] == 'i' and p in ('eq', 'ne'):
            return ('bool', a[1], ('ch', a[2], b[1] & 255), p == 'eq')
        if a[0] in ('g', 'al', 'lit') and b[0] == a[0] and a[1] == b[1] and p in ('eq', 'ne'):
            return ('i', int((a[2] == b[2]) == (p == 'eq')), 1)
        return None

    def truth(self, s, v):
        if v is None:
            return None
        if v[0] == 'i':
            return v[1] != 0
        if v[0] == 'bool':
            d = s.f(v[1]).decide(v[2])
            return None if d is None else (d == v[3])
        if v[0] == 'not':
            t = self.truth(s, v[1])
            return None if t is None else not t
        if v[0] in ('and', 'or', 'xor'):
            x, y = self.truth(s, v[1]), self.truth(s, v[2])
            if v[0] == 'and':
                return False if x is False or y is False else (True if x and y else None)
            if v[0] == 'or':
                return True if x or y else (False if x is False and y is False else None)
            return None if x is None or y is None else x != y
        if v[0] == 'sel':
            c = self.truth(s, v[1])
            return None if c is None else self.truth(s, v[2] if c else v[3])
        return None

    def atoms(self, v):
        if v is None:
            return
        if v[0] == 'bool':
            yield v
        elif v[0] in ('and', 'or', 'xor', 'not', 'sel'):
            for x in v[1:]:
                if isinstance(x, tuple):
                    yield from self.atoms(x)

    def split(self, s, v):
        """[(state, truth)] for an i1 value"""
        t = self.truth(s, v)
        if t is not None:
            return [(s, t)]
        for a in self.atoms(v):
            if s.f(a[1]).decide(a[2]) is None:
                out = []
                for x in (True, False):
                    n = s.clone()
                    n.facts[a[1]] = s.f(a[1]).assume(a[2], x, v[0] != 'bool')
                    out += [(n, x == v[3])] if v[0] == 'bool' else self.split(n, v)
                return out
        out = []
        for x in (True, False):
            n = s.clone()
            out.append((n, x))
        return out + [None]

    def expand(self, s, v, d=0):
        """[(state, value)] without undecided selections"""
        if not (v and v[0] == 'sel') or d > 6:
            return [(s, v)]
        out = []
        for r in self.split(s, v[1]):
            if r is not None:
                out += self.expand(r[0], v[2] if r[1] else v[3], d + 1)
        return out

    def need(self, s, key, I):
        if s.f(key).null is not False and not s.unsure and not key.startswith('<'):
            self.nullbad.append((key, I, s.text()))
        # from here on the value must have been there
        f = s.f(key).copy()
        f.null = False
        s.facts[key] = f

    def call(self, s, I):
        """alternatives: list of (value, extra) or None"""
        d = I.dem or ''
        if self.lookup.search(d):
            k = self.ref(s, I.ops[-1])
            if k and k[0] == 'lit':
                return [(('tag', k[1][k[2]:], 0), None)]
            return None
        vals = [self.ref(s, o) for o in I.ops]
        if I.op == 'call' and d.startswith('llvm.dbg'):
            return None
        if NULL_INTOLERANT.search(d) and not re.search(r'llvm\.', d):
            for v in vals:
                if v and v[0] == 'tag':
                    self.need(s, v[1], I)
                elif v and v[0] == 'null' and re.match('str', d):
                    self.nullbad.append(('a null pointer', I, s.text()))
        if re.match(r'(strcmp|strncmp)$', d):
            n = None
            if d == 'strncmp':
                if not vals[2] or vals[2][0] != 'i':
                    return None
                n = vals[2][1]
            a, b = vals[0], vals[1]
            if a and b and a[0] == 'lit' and b[0] == 'tag':
                a, b = b, a
            if a and b and a[0] == b[0] == 'lit':
                x, y = a[1][a[2]:], b[1][b[2]:]
                if n is not None:
                    x, y = x[:n], y[:n]
                return [(('i', 0 if x == y else 1, 32), None)]
            if a and b and a[0] == 'tag' and b[0] == 'lit':
                y = b[1][b[2]:]
                at = ('pre', a[2], y[:n]) if n is not None and n <= len(y) else ('eq', a[2], y)
                return [(('cmp', a[1], at), None)]
            return None
        m = re.search(r'\bstd::(min|max)<(unsigned )?(int|long|char|short)[^(]*>\([^,]*, [^,]*\)$', d)
        if m and len(vals) == 2 and all(v and v[0] == 'al' for v in vals):
            x, y = s.mem.get(vals[0][1:]), s.mem.get(vals[1][1:])
            if x and y and x[0] == y[0] == 'i':
                less = y[1] < x[1] if m.group(1) == 'min' else x[1] < y[1]
                return [(vals[1] if less else vals[0], None)]
            return None
        if re.search(r'char_traits<char>::compare', d):
            return None
        for v in vals:
            if v and v[0] == 'al':
                for k in [k for k in s.mem if k[0] == v[1]]:
                    del s.mem[k]
        return None

    def key(self, b, prev, s):
        L = self.live[b]
        phis = {o['v'] for I in self.F.blocks[b] if I.op == 'phi' for o in I.ops if 'v' in o}
        env = frozenset((k, v) for k, v in s.env.items() if v is not None and (k in L or k in phis or not isinstance(k, int)))
        return (b, prev if any(I.op == 'phi' for I in self.F.blocks[b]) else -1, env, frozenset(s.mem.items()), tuple((k, s.facts[k].key()) for k in sorted(s.facts)), s.unsure is not None, s.extra)

    def run(self, state=None, start=0):
        """[(state, returned value, ret instruction)]"""
        s = state or State()
        work, seen, out, steps = [(start, None, s)], set(), [], 0
        F = self.F
        while work:
            b, prev, s = work.pop()
            k = self.key(b, prev, s)
            if k in seen:
                continue
            seen.add(k)
            steps += 1
            if steps > self.limit:
                raise TooMany()
            new = {}
            for I in F.blocks[b]:
                if I.op != 'phi':
                    break
                v = None
                for o, p in zip(I.ops, I.d['in']):
                    if p == prev:
                        v = self.ref(s, o)
                if b in self.headers and v and v[0] == 'i' and MAXINT < v[1] and v[2] > 8 and prev is not None and F.dominates(b, prev) and v != s.env.get(I.i):
                    v = None
                if self.widen and s.unsure and b in self.headers and v and v[0] == 'i' and F.dominates(b, prev):
                    v = None
                new[I.i] = v
            s.env.update(new)
            cur = [s]
            for I in F.blocks[b]:
                if I.op == 'phi':
                    continue
                nxt = []
                for s in cur:
                    if I.op in ('call', 'invoke'):
                        if self.on:
                            self.on(self, s, I)
                        alt = self.hook(self, s, I) if self.hook else None
                        if alt is None:
                            alt = self.call(s, I)
                        if alt is None:
                            s.env[I.i] = None
                            nxt.append(s)
                        else:
                            for i, (v, ex) in enumerate(alt):
                                n = s.clone() if len(alt) > 1 else s
                                n.env[I.i] = v
                                if ex is not None:
                                    n.extra = ex
                                nxt.append(n)
                    elif I.op == 'store':
                        if self.on:
                            self.on(self, s, I)
                        p = self.ref(s, I.ops[1])
                        v = self.ref(s, I.ops[0])
                        if p and p[0] == 'al' and I.d.get('vty') != 'i8':
                            s.mem[(p[1], p[2])] = v
                        nxt.append(s)
                    elif I.op in ('br', 'switch', 'ret', 'unreachable', 'resume'):
                        nxt.append(s)
                    else:
                        s.env[I.i] = self.calc(s, I)
                        nxt.append(s)
                cur = nxt
            for s in cur:
                self.leave(s, b, work, out)
        return out

    def neutral(self, ref):
        """a branch on the log callback tells nothing"""
        I = self.F.val(ref)
        if self.plain and self.plain_cond(I):
            return True
        return I is not None and I.is_call and re.search(r'std::function<void \(std::.*basic_string.*\)>::operator bool|std::operator[!=]=<void', I.dem or '') is not None

    def plain_cond(self, I):
        """a branch on a character of a buffer or on a loop counter"""
        if I is None or I.op not in ('icmp', 'switch'):
            return False

        def ok(ref, d=0, seen=None):
            seen = seen if seen is not None else set()
            J = self.F.val(ref)
            if J is None:
                return 'a' not in ref
            if J.i in seen:
                return True
            seen.add(J.i)
            if J.op == 'alloca':
                return True
            if J.op == 'load':
                return J.ty == 'i8'
            if J.is_call:
                return False
            if J.op in ('phi', 'getelementptr', 'add', 'sub', 'zext', 'sext', 'trunc', 'freeze', 'select'):
                return d < 12 and all(ok(o, d + 1, seen) for o in J.ops)
            return False
        return all(ok(o) for o in I.ops)

    def leave(self, s, b, work, out):
        F = self.F
        I = F.blocks[b][-1]
        if I.op == 'ret':
            v = self.ref(s, I.ops[0]) if I.ops else None
            if v and v[0] in ('bool', 'and', 'or', 'xor', 'not'):
                for r in self.split(s, v):
                    if r is not None:
                        out.append((r[0], ('i', int(r[1]), 1), I))
            else:
                for n, x in self.expand(s, v):
                    out.append((n, x, I))
            return
        if I.op == 'br' and I.ops:
            v = self.ref(s, I.ops[0])
            r = self.split(s, v)
            if r and r[-1] is None:
                r = r[:-1]
                if not self.neutral(I.ops[0]):
                    for n, x in r:
                        n.unsure = n.unsure or I
            for n, x in r:
                if self.branch:
                    self.branch(self, n, I, x)
                work.append((F.succ[b][0 if x else 1], b, n))
            return
        if I.op == 'switch':
            v = self.ref(s, I.ops[0])
            tgt = self.switch(s, I, v)
            for n, t in tgt:
                work.append((t, b, n))
            return
        for t in F.succ[b]:
            work.append((t, b, s.clone()))

    def switch(self, s, I, v):
        F = self.F
        cs = [(int(c), t) for c, t in self.cases(I)]
        dflt = self.default(I)
        if v and v[0] == 'i':
            w = v[2]
            for c, t in cs:
                if c & ((1 << w) - 1) == v[1]:
                    return [(s, t)]
            return [(s, dflt)]
        if v and v[0] == 'ch':
            out, rest = [], s
            for c, t in cs:
                at = ('ch', v[2], c & 255)
                d = rest.f(v[1]).decide(at)
                if d is not False:
                    n = rest.clone()
                    n.facts[v[1]] = n.f(v[1]).assume(at, True)
                    out.append((n, t))
                if d is True:
                    return out
                rest = rest.clone()
                rest.facts[v[1]] = rest.f(v[1]).assume(at, False)
            return out + [(rest, dflt)]
        out = []
        for t in set(F.succ[I.blk]):
            n = s.clone()
            if not (self.plain and self.plain_cond(I)):
                n.unsure = n.unsure or I
            out.append((n, t))
        return out

    def cases(self, I):
        return list(zip(I.d.get('cases') or [], I.d['succ'][1:]))

    def default(self, I):
        return I.d['succ'][0]
