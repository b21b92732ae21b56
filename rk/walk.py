"""Abstract interpretation of one region of a flow graph (a loop body or a function) under a finite abstraction: chosen leaves
(enumerators, validity of ids, shapes of small lists) have abstract values, everything else is symbolic.  Branches that depend on
chosen leaves only are resolved, all others are followed both ways.  Loops inside the region are entered at most once per trace."""
from .common import *

M64 = (1 << 64) - 1


class TooMany(Exception):
    pass


class State:
    def __init__(self, W):
        self.W = W
        self.phi, self.mem, self.path, self.ev, self.x, self.inst = {}, {}, [], [], {}, {}

    def clone(self):
        s = State(self.W)
        s.phi, s.mem, s.path, s.ev, s.inst = dict(self.phi), dict(self.mem), list(self.path), list(self.ev), dict(self.inst)
        s.x = {k: (list(v) if isinstance(v, list) else v) for k, v in self.x.items()}
        return s

    # value of a term on this trace
    def res(self, t, d=0):
        if not isinstance(t, tuple) or not t or d > 40:
            return t
        if t[0] == 'phi' and len(t) == 2:
            return self.phi.get(t[1], t)
        if t[0] == 'call' and len(t) == 3:
            return t
        if t[0] == 'ld':
            a = self.resa(t[1], d + 1)
            if a in self.mem:
                return self.mem[a]
            return ('ld', a)
        if t[0] == 'sel':
            c = self.eval(t[1])
            if c is not None:
                return self.res(t[2] if c else t[3], d + 1)
        r = tuple(self.res(x, d + 1) if isinstance(x, tuple) else x for x in t)
        if r[0] == 'f' and isinstance(r[1], tuple) and r[1] and r[1][0] == 'addr':
            r = ('f', r[1][1]) + r[2:]
        return r

    def resa(self, a, d=0):
        """address"""
        r = self.res(a, d)
        if isinstance(r, tuple) and r and r[0] == 'addr':
            r = r[1]
        return r

    def val(self, ref):
        I = self.W.F.val(ref)
        while I is not None:
            if I.i in self.inst:
                return self.inst[I.i]
            if I.op not in ('trunc', 'zext', 'sext', 'freeze'):
                break
            I = self.W.F.val(I.ops[0])
        return self.res(self.W.T.term(ref))

    def addr(self, ref):
        return self.resa(self.W.T.addr_of(ref))

    def pointed(self, ref):
        """the value a pointer operand points to"""
        a = self.addr(ref)
        return self.mem.get(a, ('ld', a))

    def eval(self, t, d=0):
        t = self.res(t) if d == 0 else t
        return self._ev(t, d)

    def _ev(self, t, d):
        if not isinstance(t, tuple) or not t or d > 40:
            return None
        v = self.W.leaf(self, t)
        if v is not None:
            return v
        h = t[0]
        if h == 'c':
            return t[1]
        if h == 'fc':
            try:
                return float(t[1])
            except ValueError:
                return None
        if h == 'null':
            return 0
        if h == 'cmp':
            a, b = self._ev(t[2], d + 1), self._ev(t[3], d + 1)
            if a is None or b is None:
                if t[2] == t[3] and t[1] in ('eq', 'ule', 'uge', 'sle', 'sge'):
                    return 1
                if t[2] == t[3] and t[1] in ('ne', 'ult', 'ugt', 'slt', 'sgt'):
                    return 0
                return None
            p = t[1]
            if not isinstance(a, float) and not isinstance(b, float) and p[0] != 's':
                a, b = a & M64, b & M64
                if p in ('eq', 'ne') and ((a >> 32) == 0xffffffff) != ((b >> 32) == 0xffffffff) and (a & 0xffffffff) == (b & 0xffffffff):
                    a = b              # -1 in 32 and in 64 bits
            p = p[-2:] if p[-2:] in ('eq', 'ne', 'lt', 'gt', 'le', 'ge') else p
            return int({'eq': a == b, 'ne': a != b, 'lt': a < b, 'gt': a > b, 'le': a <= b, 'ge': a >= b}.get(p, 0)) if p in ('eq', 'ne', 'lt', 'gt', 'le', 'ge') else None
        if h in ('and', 'or', 'xor', 'add', 'sub', 'mul', 'shl', 'lshr') and len(t) == 3:
            a, b = self._ev(t[1], d + 1), self._ev(t[2], d + 1)
            if h == 'and' and (a == 0 or b == 0):
                return 0
            if h == 'or' and (a == 1 or b == 1) and (a in (0, 1, None)) and (b in (0, 1, None)) and self.is_bool(t[1]) and self.is_bool(t[2]):
                return 1
            if a is None or b is None or isinstance(a, float) or isinstance(b, float):
                return None
            if h == 'and' and b == 0xffffffff:
                return a & 0xffffffff
            return {'and': a & b, 'or': a | b, 'xor': a ^ b, 'add': a + b, 'sub': a - b, 'mul': a * b, 'shl': a << (b & 63), 'lshr': (a & M64) >> (b & 63)}[h]
        if h in ('fadd', 'fsub', 'fmul', 'fdiv') and len(t) == 3:
            a, b = self._ev(t[1], d + 1), self._ev(t[2], d + 1)
            if a is None or b is None or (h == 'fdiv' and b == 0):
                return None
            return {'fadd': a + b, 'fsub': a - b, 'fmul': a * b, 'fdiv': a / b if b else 0}[h]
        if h == 'sel':
            c = self._ev(t[1], d + 1)
            if c is None:
                return None
            return self._ev(t[2] if c else t[3], d + 1)
        return None

    def is_bool(self, t):
        return isinstance(t, tuple) and t and (t[0] == 'cmp' or t in (('c', 0), ('c', 1)) or (t[0] == 'xor' and self.is_bool(t[1])))


class Walk:
    def __init__(self, F, leaf, on=None, limit=4000):
        """leaf(state, term) -> int/float or None;  on(state, Inst) is called for every instruction"""
        self.F, self.T, self.leaf, self.on, self.limit = F, T_of(F), leaf, on, limit

    def run(self, start, stop, came=None, state=None, region=None, stop_pos=None):
        """all traces from the begin of block start until an edge into a block of stop (or a return); yields (state, end)"""
        s = state or State(self)
        s.W = self
        work = [(s, came, start)]
        n = 0
        out = []
        while work:
            s, prev, b = work.pop()
            n += 1
            if n > self.limit * 10 or len(out) > self.limit:
                raise TooMany()
            if region is not None and b not in region:
                out.append((s, ('leave', prev, b)))
                continue
            # phis read their operands at once
            new = {}
            for I in self.F.blocks[b]:
                if I.op != 'phi':
                    break
                if prev is not None:
                    for o, p in zip(I.ops, I.d['in']):
                        if p == prev:
                            new[I.i] = s.val(o)
            again = None
            if b in s.path and b != start:
                again = self.F.loops().get(b)      # one turn of an inner loop is over: leave it
                if again is None or s.path.count(b) > 1:
                    continue
            s.phi.update(new)
            s.path.append(b)
            t = None
            for I in self.F.blocks[b]:
                if I.op == 'store':
                    a = s.addr(I.ops[1])
                    v = s.val(I.ops[0])
                    r = a
                    while r and r[0] in ('f', 'off'):
                        r = r[1]
                    if r and r[0] == 'alloca':
                        s.mem[a] = v
                if self.on and I.op != 'phi':
                    self.on(s, I)
                t = I
            if t is None or t.op in ('ret', 'unreachable', 'resume'):
                out.append((s, (t.op if t else 'end', b, None)))
                continue
            succ = self.next(s, b, t)
            if again is not None:
                succ = [x for x in self.F.succ[b] if x not in again]
            uniq = []
            for x in succ:
                if x not in uniq:
                    uniq.append(x)
            for k, x in enumerate(uniq):
                z = s if k == len(uniq) - 1 else s.clone()
                if x in stop:
                    out.append((z, ('stop', b, x)))
                else:
                    work.append((z, b, x))
        return out

    def next(self, s, b, t):
        if t.op == 'br' and t.ops and len(t.d['succ']) == 2:
            c = s.eval(self.T.term(t.ops[0]))
            if c is None:
                return list(t.d['succ'])
            return [t.d['succ'][0 if c else 1]]
        if t.op == 'switch':
            c = s.eval(self.T.term(t.ops[0]))
            ss = t.d['succ']
            if c is None:
                return list(ss)
            for v, x in zip(t.d['cases'], ss[1:]):
                if int(v) == c:
                    return [x]
            return [ss[0]]
        return list(self.F.succ[b])
