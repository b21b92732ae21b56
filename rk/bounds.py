"""Bounds of pointers into data that was read: cursors (p, e) with p <= e inside one object, on raw SSA references."""
from .common import *


class Bounds:
    def __init__(self, F, sources):
        """sources(I): None, or a reference to the number of bytes the call I makes available (a constant or a value)"""
        self.F = F
        self.src = {}
        for I in F.insts():
            if I.is_call:
                n = sources(I)
                if n is not None:
                    self.src[I.i] = n
        self._lin = {}
        self.busy = set()
        self._ef = {}
        self._data = {}
        self._elem = {}
        self.elems = {}           # containers of ranges: key -> list of (first, second, blk)

    # ---------------------------------------------------------------- values
    def val(self, ref):
        """key of an integer value, conversions that keep the value removed"""
        I = self.F.val(ref)
        while I is not None and I.op in ('zext', 'sext', 'bitcast', 'freeze'):
            ref = I.ops[0]
            I = self.F.val(ref)
        if I is not None:
            return ('v', I.i)
        if 'c' in ref:
            return ('c', int(ref['c']))
        if 'a' in ref:
            return ('a', ref['a'])
        return ('?', str(ref))

    def narrow(self, ref):
        """value of which ref is a truncation"""
        I = self.F.val(ref)
        return I is not None and I.op == 'trunc'

    def lin(self, ref):
        """(base, constant offset)"""
        if 'v' not in ref:
            if 'null' in ref or ref.get('c') == '0' or 'n' in ref:
                return (('null',), 0)
            if 'a' in ref:
                return (('a', ref['a']), 0)
            return (('?', str(sorted(ref.items()))), 0)
        i = ref['v']
        if i not in self._lin:
            I = self.F.by_id[i]
            r = (('v', i), 0)
            if I.op == 'getelementptr':
                b, o = self.lin(I.ops[0])
                if not I.d.get('var'):
                    r = (b, o + I.d['off'])
                elif len(I.d['var']) == 1 and I.d['var'][0][1] == 1:
                    k = self.val(I.d['var'][0][0])
                    if k[0] == 'c':
                        r = (b, o + I.d['off'] + k[1])
                    else:
                        r = (('vg', (b, o), k), I.d['off'])
            elif I.op in ('freeze', 'bitcast'):
                r = self.lin(I.ops[0])
            self._lin[i] = r
        return self._lin[i]

    def data(self, p):
        """does the pointer point into data that was read"""
        b = p[0]
        if b in self._data:
            return self._data[b]
        self._data[b] = False
        r = False
        if b[0] == 'vg':
            r = self.data(b[1])
        elif b[0] == 'v':
            I = self.F.by_id[b[1]]
            if I.i in self.src:
                r = True
            elif I.op in ('phi', 'select'):
                r = any(self.data(self.lin(o)) for o in (I.ops if I.op == 'phi' else I.ops[1:]))
            elif I.op == 'load' and I.ty == 'ptr':
                r = self.elem(I) is not None
        self._data[b] = r
        return r

    def settle(self):
        """least fixed point over phis"""
        ch = True
        while ch:
            old = {k for k, v in self._data.items() if v}
            self._data = {k: True for k in old}
            for I in self.F.insts():
                if I.ty == 'ptr':
                    self.data((('v', I.i), 0))
            ch = {k for k, v in self._data.items() if v} != old

    # ---------------------------------------------------------------- elements of containers of ranges
    def elem(self, I):
        """(container, 'first' or 'second', base of the element) for a load of a part of a stored range"""
        if I.i in self._elem:
            return self._elem[I.i]
        A = T_of(self.F).addr_of(I.ops[0])
        f, x = 'first', A
        if A[0] == 'f' and A[2] in ('first', 'second'):
            f, x = A[2], A[1]
        elif A[0] == 'off' and A[2] == 8:
            f, x = 'second', A[1]
        r = None
        if x[0] == 'at' and x[1] in self.elems:
            base, o = self.lin(I.ops[0])
            r = (f, x, (base, o - (8 if f == 'second' else 0)))
        self._elem[I.i] = r
        return r

    # ---------------------------------------------------------------- facts
    def facts(self, blk, edge=None):
        """comparisons known to hold in blk (and on the edge blk -> edge)"""
        k = (blk, edge)
        if k in self._ef:
            return self._ef[k]
        out = [(f, pol) for f, pol in facts(self.F, blk) if not isinstance(f, tuple) and f.op == 'icmp']
        if edge is not None:
            t = self.F.blocks[blk][-1]
            su = t.d.get('succ', [])
            if t.op == 'br' and len(su) == 2 and su[0] != su[1]:
                c = self.F.val(t.ops[0])
                if c is not None and c.op == 'icmp':
                    out.append((c, su[0] == edge))
        self._ef[k] = out
        return out

    def rels(self, p, fs):
        """(e, bytes) with e - p >= bytes by a comparison; bytes is a value key"""
        out = []
        for f, pol in fs:
            pr = f.d['pred']
            a, b = f.ops
            if pr in ('eq', 'ne'):
                if (pr == 'ne') == pol:
                    x, y = self.lin(a), self.lin(b)
                    if x == p:
                        out.append((y, ('c', 1)))
                    if y == p:
                        out.append((x, ('c', 1)))
                # a difference that is (not) zero
                continue
            q = pr[1:]
            if not pol:
                q = {'lt': 'ge', 'gt': 'le', 'le': 'gt', 'ge': 'lt'}[q]
            for x, y, r in ((a, b, q), (b, a, {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}[q])):
                d = self.diff(x)
                if d is None and r in ('ge', 'gt'):
                    d = self.diff(self.wide(x))        # the lower part of a number is at most the number
                if d is not None:
                    e, s = d
                    n = self.val(y)
                    if pr[0] == 's' and not (n[0] == 'c' and n[1] < 1 << 31):
                        continue          # a length may be negative as a signed number
                    if s == p:
                        if r == 'ge':
                            out.append((e, n))
                        elif r == 'gt':
                            out.append((e, ('c', n[1] + 1) if n[0] == 'c' else n))
                elif self.F.val(x) is not None and self.F.val(x).ty == 'ptr' or 'a' in x:
                    # pointers compared: x < y
                    if r == 'lt' and self.lin(x) == p:
                        out.append((self.lin(y), ('c', 1)))
                    # x + n <= y
                    if r == 'le':
                        l = self.lin(x)
                        if l[0] == p[0] and l[1] > p[1]:
                            out.append((self.lin(y), ('c', l[1] - p[1])))
                        if l[0][0] == 'vg' and l[1] == 0 and l[0][1] == p:
                            pass          # begin + n <= end may overflow
        return out

    def masks(self, fs, low=True):
        """(value, bound, bits): the value is at least (low) or its lower bits are less than bound, by comparisons with constants"""
        out = []
        for f, pol in fs:
            pr = f.d['pred']
            if pr in ('eq', 'ne') and self.val(f.ops[1]) == ('c', 0):
                I = self.F.val(f.ops[0])
                if I is not None and I.op == 'and':
                    m = self.val(I.ops[1])
                    if m[0] == 'c' and m[1] > 0:
                        k = m[1] & -m[1]
                        w = m[1].bit_length()
                        zero = (pr == 'eq') == pol
                        if not zero and low:
                            out.append((self.val(I.ops[0]), k, 64))
                        if zero and not low and m[1] == (1 << w) - k:
                            out.append((self.val(I.ops[0]), k, w))
            elif low and pr[0] == 'u':
                for x, y, q in ((f.ops[0], f.ops[1], {'ugt': 1, 'uge': 0}), (f.ops[1], f.ops[0], {'ult': 1, 'ule': 0})):
                    q2 = pr if pol else {'ult': 'uge', 'ugt': 'ule', 'ule': 'ugt', 'uge': 'ult'}[pr]
                    c = self.val(y)
                    if q2 in q and c[0] == 'c':
                        out.append((self.val(self.wide(x)), c[1] + q[q2], 64))
        return out

    def wide(self, ref):
        """the value of which ref is the lower part"""
        I = self.F.val(ref)
        while I is not None and (I.op in ('trunc', 'zext', 'freeze') or I.op == 'and' and 'c' in I.ops[1]):
            ref = I.ops[0]
            I = self.F.val(ref)
        return ref

    def diff(self, ref):
        """(e, s) if ref is e - s"""
        I = self.F.val(ref)
        while I is not None and I.op in ('freeze',):
            I = self.F.val(I.ops[0])
        if I is None or I.op != 'sub':
            return None
        x, y = (self.F.val(o) for o in I.ops)
        if x is None or y is None or x.op != 'ptrtoint' or y.op != 'ptrtoint':
            return None
        return self.lin(x.ops[0]), self.lin(y.ops[0])

    # ---------------------------------------------------------------- ranges
    def phi(self, p):
        if p[0][0] == 'v':
            I = self.F.by_id[p[0][1]]
            if I.op == 'phi':
                return I
        return None

    def shift(self, p, o):
        return (p[0], p[1] + o)

    def room(self, p, n, blk, edge=None, e=None, d=0):
        """are n bytes at p readable (n: value key); if e is given, also p + n <= e"""
        if n == ('c', 0):
            return e is None or self.valid(p, e, blk, edge, d + 1)
        if d > 150:
            return False
        # directly behind a call that provides the data
        b, o = p
        if b[0] == 'v' and b[1] in self.src and e is None:
            m = self.val(self.src[b[1]])
            if m[0] == 'c' and n[0] == 'c' and o >= 0 and o + n[1] <= m[1]:
                return True
            if o == 0 and m == n:
                return True
        for y, m in self.rels(p, self.facts(blk, edge)):
            if (m == n or m[0] == 'c' and n[0] == 'c' and m[1] >= n[1]) and (e is None or e == y) and self.valid(p, y, blk, edge, d + 1):
                return True
        # a comparison of an earlier position
        if n[0] == 'c':
            for f, pol in self.facts(blk, edge):
                for r in f.ops:
                    dd = self.diff(r)
                    if dd is None:
                        continue
                    e2, s = dd
                    if s[0] == b and s[1] < o:
                        for y, m in self.rels(s, [(f, pol)]):
                            if m[0] == 'c' and m[1] >= n[1] + o - s[1] and (e is None or e == y) and self.valid(s, y, blk, edge, d + 1):
                                return True
            # at most a length that fits
            for v, m, w in self.masks(self.facts(blk, edge)):
                if m >= n[1] and v[0] == 'v' and v != n and d < 5 and self.room(p, v, blk, edge, e, d + 1):
                    return True
        I = self.phi(p)
        if I is not None:
            k = ('room', p, n, e)
            if k in self.busy:
                return True
            self.busy.add(k)
            try:
                ok = True
                for x, q in zip(I.ops, I.d['in']):
                    l = self.shift(self.lin(x), o)
                    if l[0] == ('null',):
                        ok = False
                        break
                    en = e
                    if e is not None:
                        E_ = self.phi(e)
                        if E_ is not None and E_.blk == I.blk:
                            en = self.shift(self.lin(E_.ops[E_.d['in'].index(q)]), e[1])
                    if not self.room(l, n, q, I.blk, en, d + 1):
                        ok = False
                        break
                if ok:
                    return True
            finally:
                self.busy.discard(k)
        # p = q + 1 where ... the end of a sub range
        if b[0] == 'vg' and o == 0:
            pass
        return False

    def valid(self, p, e, blk, edge=None, d=0):
        """p <= e, and everything between them is readable"""
        if d > 150:
            return False
        if p == e:
            return True
        if e[0] == ('null',) and p[0] == ('null',):
            return True
        k = ('valid', p, e)
        if k in self.busy:
            return True
        self.busy.add(k)
        try:
            return self._valid(p, e, blk, edge, d)
        finally:
            self.busy.discard(k)

    def _valid(self, p, e, blk, edge, d):
        b, o = p
        # a range of n bytes
        if e[0][0] == 'vg' and e[1] == 0 and e[0][1] == p:
            n = e[0][2]
            if b[0] == 'v' and b[1] in self.src and o == 0 and self.val(self.src[b[1]]) == n:
                return True
            I = self.F.by_id.get(n[1]) if n[0] == 'v' else None
            at = [(blk, edge)]
            for bb, ed in at:
                if self.room(p, n, bb, ed, None, d + 1):
                    return True
            return False
        if e[0] == b and e[1] > o and b[0] == 'v' and b[1] in self.src:
            m = self.val(self.src[b[1]])
            return m[0] == 'c' and e[1] <= m[1]
        # both chosen by phis of one block, or one of them is
        I, J = self.phi(p), self.phi(e)
        if I is not None and J is not None and I.blk == J.blk:
            return all(self.valid(self.shift(self.lin(x), o), self.shift(self.lin(J.ops[J.d['in'].index(q)]), e[1]), q, I.blk, d + 1) for x, q in zip(I.ops, I.d['in']))
        if I is not None and o == 0 and (J is None or J.blk != I.blk) and self.outside(e, I):
            return all(self.valid(self.lin(x), e, q, I.blk, d + 1) for x, q in zip(I.ops, I.d['in']))
        if J is not None and self.outside(p, J):
            return all(self.valid(p, self.shift(self.lin(x), e[1]), q, J.blk, d + 1) for x, q in zip(J.ops, J.d['in']))
        # behind another position of the range
        if o > 0:
            for s in range(o - 1, -1, -1):
                if self.room((b, s), ('c', o - s), blk, edge, e, d + 1):
                    return True
        # advanced by the length of a part
        if b[0] == 'vg' and o == 0:
            q, n = b[1], b[2]
            if self.room(q, n, blk, edge, e, d + 1):
                return True
        # parts of a stored range
        if b[0] == 'v' and e[0][0] == 'v' and o == 0 and e[1] == 0:
            A, B = self.F.by_id[b[1]], self.F.by_id[e[0][1]]
            if A.op == 'load' and B.op == 'load':
                x, y = self.elem(A), self.elem(B)
                if x and y and x[1] == y[1] and (x[2] == y[2] or x[1][2][0] != 'c') and (x[0], y[0]) == ('first', 'second'):
                    return True
        return False

    def outside(self, e, I):
        """the value e is not computed inside the loop of the phi I"""
        b = e[0]
        while b[0] == 'vg':
            b = b[1][0]
        if b[0] != 'v':
            return True
        D = self.F.by_id[b[1]]
        return D.blk != I.blk and self.F.dominates(D.blk, I.blk) or D.blk == I.blk and D.op == 'phi' and False
