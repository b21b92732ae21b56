"""Evaluation of expressions (instruction operands) of the analysed program at chosen values of their leaves, with exact bit widths.
Used to compare two expressions of the source for equality as functions of the same quantities."""
import re
from .common import T_of
from .terms import Terms, show


class Eval:
    def __init__(self, F, leaf):
        """leaf(term, Inst or None) -> int or None"""
        self.F, self.T, self.leaf = F, T_of(F), leaf
        self.memo = {}

    def width(self, ty):
        if ty and ty.startswith('i') and ty[1:].isdigit():
            return int(ty[1:])
        return 64

    def ref(self, o, d=0):
        if 'c' in o:
            return int(o['c']) & ((1 << o.get('w', 64)) - 1)
        if 'null' in o or 'zero' in o:
            return 0
        if 'v' in o:
            return self.inst(self.F.by_id[o['v']], d)
        if 'a' in o:
            return self.leaf(('arg', o['a']), None)
        return None

    def inst(self, I, d=0):
        if I.i in self.memo:
            return self.memo[I.i]
        if d > 200:
            return None
        self.memo[I.i] = None
        r = self._inst(I, d)
        if r is not None:
            r = int(r) & ((1 << self.width(I.ty)) - 1)
        self.memo[I.i] = r
        return r

    def _inst(self, I, d):
        t = self.T.term_inst(I)
        x = self.leaf(t, I)
        if x is not None:
            return x
        op = I.op
        if op in ('zext', 'freeze', 'trunc', 'bitcast', 'ptrtoint'):
            return self.ref(I.ops[0], d + 1)
        if op == 'sext':
            v = self.ref(I.ops[0], d + 1)
            if v is None:
                return None
            w = self.width(I.d.get('sfrom') or 'i32')
            return v - (1 << w) if v >= 1 << (w - 1) else v
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'):
            a, b = self.ref(I.ops[0], d + 1), self.ref(I.ops[1], d + 1)
            if op == 'and' and (a == 0 or b == 0):
                return 0
            if a is None or b is None:
                return None
            w = self.width(I.ty)
            if op == 'add':
                return a + b
            if op == 'sub':
                return a - b
            if op == 'mul':
                return a * b
            if op == 'and':
                return a & b
            if op == 'or':
                return a | b
            if op == 'xor':
                return a ^ b
            if op == 'shl':
                return a << b if b < w else 0
            if op == 'lshr':
                return a >> b
            if op == 'ashr':
                return (a - (1 << w) if a >> (w - 1) else a) >> b
            if op in ('udiv', 'urem'):
                return None if b == 0 else (a // b if op == 'udiv' else a % b)
            sa = a - (1 << w) if a >> (w - 1) else a
            sb = b - (1 << w) if b >> (w - 1) else b
            if sb == 0:
                return None
            q = abs(sa) // abs(sb) * (1 if (sa < 0) == (sb < 0) else -1)
            return q if op == 'sdiv' else sa - q * sb
        if op == 'icmp':
            a, b = self.ref(I.ops[0], d + 1), self.ref(I.ops[1], d + 1)
            if a is None or b is None:
                return None
            p = I.d['pred']
            if p[0] == 's':
                w = self.width(self._opty(I))
                a = a - (1 << w) if a >> (w - 1) else a
                b = b - (1 << w) if b >> (w - 1) else b
            return {'eq': a == b, 'ne': a != b, 'ult': a < b, 'slt': a < b, 'ugt': a > b, 'sgt': a > b, 'ule': a <= b, 'sle': a <= b, 'uge': a >= b, 'sge': a >= b}[p]
        if op == 'select':
            c = self.ref(I.ops[0], d + 1)
            if c is None:
                return None
            return self.ref(I.ops[1 if c else 2], d + 1)
        if I.is_call and (I.dem or I.fn or '').startswith('llvm.'):
            n = (I.dem or I.fn).split('.')[1]
            xs = [self.ref(o, d + 1) for o in I.ops]
            if n in ('umin', 'umax') and None not in xs:
                return (min if n == 'umin' else max)(xs)
            if n == 'ctpop' and xs[0] is not None:
                return bin(xs[0]).count('1')
            if n in ('fshl', 'fshr') and None not in xs:
                w = self.width(I.ty)
                k = xs[2] % w
                v = (xs[0] << w) | xs[1]
                return (v >> (w - k)) if n == 'fshl' else (v >> k)
        if op == 'phi':
            vs = {repr(o) for o in I.ops}
            if len(vs) == 1:
                return self.ref(I.ops[0], d + 1)
        return None

    def _opty(self, I):
        for o in I.ops:
            if 'v' in o:
                return self.F.by_id[o['v']].ty
            if 'a' in o:
                return self.F.params[o['a']]['ty']
            if 'c' in o:
                return 'i%d' % o.get('w', 64)
        return 'i64'
