"""Path types of weights: every weight is the length of a path between two nodes.

wtype(term) is ANY (a constant), None (no statement) or a pair (from, to) of node terms.  Sums compose: the length of a
path u->v plus the length of a path v->w is the length of a path u->w.  Nodes are SSA terms; the end points of an arc are
derived from the loop that enumerates the arcs of a node, from the arrays that hold heads and tails, and from lookups."""
import re
from .common import *

ANY = 'any'
BAD = 'bad'                       # a sum of two weights that have no node in common
S, T_ = ('S',), ('T',)
MASK = ('c', 0xffffffff)


def strip(t):
    while isinstance(t, tuple) and t and t[0] == 'and' and t[2] == MASK:
        t = t[1]
    return t


def names(V):
    out = []
    while isinstance(V, tuple):
        if V[0] == 'f':
            out.append(V[2])
            V = V[1]
        elif V[0] in ('ld', 'uptr', 'data', 'addr'):
            V = V[1]
        elif V[0] in ('at', 'ix'):
            out.append('[]')
            V = V[1]
        else:
            break
    return out[::-1]


def fam_of(ns):
    """(family, role) of an array of arcs"""
    if not ns:
        return None
    l = ns[-1]
    p = ns[-2] if len(ns) > 1 else ''
    if l in ('up_head', 'up_tail', 'up_first_out', 'down_head', 'down_first_out', 'down_tail'):
        return (l.split('_')[0], l.split('_', 1)[1])
    if p in ('forward', 'backward') and l in ('head', 'first_out', 'tail'):
        return ('f' if p == 'forward' else 'b', l)
    if l in ('head', 'first_out', 'tail'):
        return ('g', l)
    return None


class Paths:
    def __init__(self, F):
        self.F, self.T = F, T_of(F)
        self._eq = {}
        self._fo = {}
        self.params = {}          # names of vector parameters that stand for a member (recursive helpers): filled by the check
        self.assumed = []         # end points of arcs that are parameters, proved at all call sites
        self.busy = set()
        self.notes = set()
        self.hyp = {}             # types of loop variables under consideration
        self.free_ends = '::build' in F.dem or '::get_extra_weight_distances' in F.dem

    # ---------------------------------------------------------------- nodes
    def nm(self, V):
        return names(V)

    def node(self, t, d=0):
        t = strip(t)
        if not isinstance(t, tuple) or d > 12:
            return t
        if t[0] == 'ld' and isinstance(t[1], tuple):
            A = t[1]
            if A[0] == 'at' and len(A) == 3:
                fr = fam_of(self.nm(A[1]))
                if fr and fr[1] == 'head':
                    return self.head(fr[0], A[2], d + 1)
                if fr and fr[1] == 'tail':
                    return self.tail(fr[0], A[2], d + 1)
            if A[0] == 'alloca' and len(A) == 3:
                v = self.single_store(A)
                return t if v is None else self.node(v, d + 1)
            if A[0] == 'f' and A[2] == 'node':
                a = self.adj(A[1])
                if a:
                    return ('NODE',) + a
        return t

    def adj(self, A):
        """entry i of the list of arcs that enter or leave node x in the working graph: (list, x, i)"""
        if A[0] == 'at' and len(A) == 3 and isinstance(A[1], tuple) and A[1][0] == 'at' and len(A[1]) == 3:
            n = self.nm(A[1][1])
            if n and n[-1] in ('out_', 'in_'):
                return (n[-1], self.node(A[1][2]), strip(A[2]))
        return None

    def single_store(self, A):
        """value of a local variable that is written once"""
        k = ('single', A)
        if k not in self._fo:
            st = [I for I in self.F.insts() if I.op == 'store' and self.T.addr_of(I.ops[1]) == A]
            self._fo[k] = self.T.term(st[0].ops[0]) if len(st) == 1 else None
        return self._fo[k]

    def head(self, fam, a, d=0):
        return self._end(fam, a, 'HEAD', d)

    def tail(self, fam, a, d=0):
        return self._end(fam, a, 'TAIL', d)

    def _end(self, fam, a, which, d):
        a = strip(a)
        if d > 10:
            return (which, fam, a)
        other = 'TAIL' if which == 'HEAD' else 'HEAD'
        if a[0] == 'ld' and a[1][0] == 'at':
            n = self.nm(a[1][1])
            if fam == 'up' and n and n[-1] == 'down_to_up':
                return self._end('down', a[1][2], other, d + 1)
            if len(n) > 1 and n[-2] in ('forward', 'backward') and n[-1] in ('shortcut_first_arc', 'shortcut_second_arc'):
                # halves of a shortcut: the first is a backward arc, the second a forward arc, both leave the middle node
                if fam == ('b' if 'first' in n[-1] else 'f'):
                    o, f = a[1][2], n[-2][0]
                    if which == 'TAIL':
                        return ('MID', f, strip(o))
                    return (self.tail if (f == 'f') == ('first' in n[-1]) else self.head)(f, o, d + 1)
            if n and n[-1] in ('forward_predecessor_arc', 'backward_predecessor_arc') and fam in ('f', 'b'):
                # arc by which a search reached a node; a downward search of the pinned nodes uses the arcs of the other direction
                if n[-1][0] == fam:
                    if which == 'HEAD':
                        return self.node(a[1][2], d + 1)
                    return ('ld', ('at', self.sibling(a[1][1], n[-1][:-3] + 'node'), a[1][2]))
                if which == 'TAIL':
                    return self.node(a[1][2], d + 1)
            c = self.cached(a[1][1], fam)
            if c is not None:
                if which == 'HEAD':
                    return self.node(a[1][2], d + 1)
                return c
        if a[0] == 'call' and fam in ('f', 'b') and a[1].endswith('LocalIDMapper::to_local'):
            return self._end('up', self.T.term(self.F.by_id[a[2]].ops[1]), which, d + 1)
        if a[0] == 'call' and re.search(r'find_arc_(or_return_invalid_)?given_sorted_head$', a[1]):
            I = self.F.by_id[a[2]]
            ops = I.ops[-4:]
            fr = fam_of(self.nm(self.T.addr_of(ops[0])))
            if fr and fr[0] == fam:
                return self.node(self.T.term(ops[3 if which == 'HEAD' else 2]), d + 1)
        if which == 'TAIL':
            x = self.range_tail(fam, a, d)
            if x is not None:
                return x
        return (which, fam, a)

    def sibling(self, V, name):
        if V[0] == 'f':
            return ('f', V[1], name) + V[3:]
        return (V[0], self.sibling(V[1], name)) + V[2:]

    def cached(self, V, fam):
        """local array c with c[head(a)] = a for all arcs a of one node t: returns t"""
        r = V
        while r[0] in ('f',):
            r = r[1]
        if r[0] != 'alloca':
            return None
        k = (V, fam)
        if k in self._fo:
            return self._fo[k]
        self._fo[k] = None
        res = []
        for I in self.F.insts():
            if I.op == 'store':
                A = self.T.addr_of(I.ops[1])
                if A[0] == 'at' and len(A) == 3 and A[1] == V:
                    a = strip(self.T.term(I.ops[0]))
                    h = self.head(fam, a)
                    if self.node(A[2]) != h:
                        return None
                    res.append(self.tail(fam, a))
        if res and all(r == res[0] for r in res) and res[0][0] != 'TAIL':
            self._fo[k] = res[0]
        return self._fo[k]

    # ---------------------------------------------------------------- loops over the arcs of a node
    def web(self, i):
        """phis connected to phi i by constant steps: (sources, steps)"""
        src, steps, seen, st = [], set(), {i}, [i]
        while st:
            j = st.pop()
            I = self.F.by_id[j]
            if I.op != 'phi':
                return None
            for o in I.ops:
                t = strip(self.T.term(o))
                c = 0
                if t[0] in ('add', 'sub') and t[2][0] == 'c':
                    c = t[2][1] if t[0] == 'add' else -t[2][1]
                    c = sgn(c)
                    u = strip(t[1])
                else:
                    u = t
                if u[0] == 'phi' and len(u) == 2 and self.F.by_id[u[1]].op == 'phi' and self._looplike(u[1], i):
                    if c:
                        steps.add(c)
                    if u[1] not in seen:
                        seen.add(u[1])
                        st.append(u[1])
                else:
                    src.append((u, c))
        return src, steps, seen

    def _looplike(self, j, i):
        """phi j belongs to the loop of phi i, or merges the values it may start with"""
        R = self._reach(j)
        return i in R or j not in R

    def _reach(self, i):
        k = ('reach', i)
        if k not in self._fo:
            R, st = set(), [i]
            while st:
                for o in self.F.by_id[st.pop()].ops:
                    t = strip(self.T.term(o))
                    if t[0] in ('add', 'sub') and t[2][0] == 'c':
                        t = strip(t[1])
                    if t[0] == 'phi' and len(t) == 2 and self.F.by_id[t[1]].op == 'phi' and t[1] not in R:
                        R.add(t[1])
                        st.append(t[1])
            self._fo[k] = R
        return self._fo[k]

    def range_tail(self, fam, a, d=0):
        off = 0
        b = a
        if b[0] in ('add', 'sub') and b[2][0] == 'c':
            off = sgn(b[2][1] if b[0] == 'add' else -b[2][1])
            b = strip(b[1])
        if b[0] == 'add':
            fo = [self.first_out(x, fam) for x in (strip(b[1]), strip(b[2]))]
            fo = [x for x in fo if x is not None]
            return fo[0] if len(fo) == 1 else None
        if b[0] != 'phi' or len(b) != 2:
            x = self.first_out(b, fam)
            if x is not None and off == 0:
                return x
            return None
        k = ('rt', fam, b, off)
        if k in self._fo:
            return self._fo[k]
        self._fo[k] = None
        w = self.web(b[1])
        if not w or not w[0]:
            return None
        src, steps, _ = w
        res = []
        for u, c in src:
            x = self.first_out(u, fam)
            if x is not None:
                if steps and all(s < 0 for s in steps):
                    # descending from first_out[x+1]
                    if x[0] in ('add',) and x[2] == ('c', 1) and off + c == -1:
                        res.append(self.node(x[1]))
                    else:
                        return None
                else:
                    res.append(self.node(x))
            elif u[0] in ('c', 'undef', 'null'):
                return None
            elif u[0] == 'phi' or c == 0:
                # starts behind an arc of node x and ends before first_out[x+1]
                x = self.bound_node(w[2], fam)
                y = self.tail(fam, ('add', u, ('c', c - 1)) if c != 1 else u, d + 1)
                if x is None or x != y:
                    return None
                res.append(x)
            else:
                # starts next to another arc of the node
                t = self.tail(fam, u, d + 1)
                res.append(t)
        if res and all(r == res[0] for r in res):
            self._fo[k] = res[0]
        return self._fo[k]

    def bound_node(self, phis, fam):
        res = set()
        for I in self.F.insts():
            if I.op != 'icmp':
                continue
            for k in (0, 1):
                t = strip(self.T.term(I.ops[k]))
                if t[0] in ('add', 'sub') and t[2][0] == 'c':
                    t = strip(t[1])
                if t[0] == 'phi' and len(t) == 2 and t[1] in phis:
                    x = self.first_out(strip(self.T.term(I.ops[1 - k])), fam)
                    if x is not None and x[0] == 'add' and x[2] == ('c', 1):
                        res.add(self.node(x[1]))
        return res.pop() if len(res) == 1 else None

    def first_out(self, t, fam=None):
        """x if t is first_out[x]"""
        if t[0] == 'ld' and t[1][0] == 'at' and len(t[1]) == 3:
            fr = fam_of(self.nm(t[1][1]))
            if fr and fr[1] == 'first_out' and (fam is None or fr[0] == fam):
                return strip(t[1][2])
        return None

    # ---------------------------------------------------------------- equality
    def equalities(self, blk):
        if blk in self._eq:
            return self._eq[blk]
        out = []
        lt = set()
        for f, pol in facts(self.F, blk):
            if isinstance(f, tuple) or f.op != 'icmp':
                continue
            p = f.d['pred']
            a, b = self.node(self.T.term(f.ops[0])), self.node(self.T.term(f.ops[1]))
            if (p == 'eq' and pol) or (p == 'ne' and not pol):
                out.append((a, b))
            elif p in ('ult', 'ugt', 'ule', 'uge', 'slt', 'sgt', 'sle', 'sge'):
                q = p[1:]
                if not pol:
                    q = {'lt': 'ge', 'gt': 'le', 'le': 'gt', 'ge': 'lt'}[q]
                if q == 'ge':
                    a, b, q = b, a, 'le'
                if q == 'le':
                    if (b, a) in lt:
                        out.append((a, b))
                    lt.add((a, b))
        self._eq[blk] = out
        return out

    def same(self, a, b, blk):
        a, b = self.node(a), self.node(b)
        if a == b:
            return True
        if self.phi_pair(a, b) or self.phi_pair(b, a) or self.phi_eq(a, b):
            return True
        eq = self.equalities(blk) + self.assumed
        if not eq:
            return False
        reach, st = {a}, [a]
        while st:
            x = st.pop()
            for u, v in eq:
                for p, q in ((u, v), (v, u)):
                    if p == x and q not in reach:
                        reach.add(q)
                        st.append(q)
        return b in reach

    def phi_eq(self, a, b):
        """two phis that always have the same value"""
        ja, jb = self.loop_var(a), self.loop_var(b)
        if ja is None or jb is None or ja.blk != jb.blk:
            return False
        k = (a, b)
        if k in self.busy:
            return True
        self.busy.add(k)
        try:
            return all(self.same(self.incoming(ja, p), self.incoming(jb, p), p) for p in ja.d['in'])
        finally:
            self.busy.discard(k)

    def loop_var(self, x):
        """the phi behind a node: an integer, or a pointer to where the node is stored"""
        if x[0] == 'phi' and len(x) == 2:
            I = self.F.by_id[x[1]]
            return I if I.op == 'phi' and I.ty != 'ptr' else None
        if x[0] == 'ld' and x[1][0] == 'phi' and len(x[1]) == 2:
            I = self.F.by_id[x[1][1]]
            return I if I.op == 'phi' and I.ty == 'ptr' else None
        return None

    def incoming(self, J, q):
        o = J.ops[J.d['in'].index(q)]
        return self.node(('ld', self.T.addr_of(o)) if J.ty == 'ptr' else self.T.term(o))

    def phi_pair(self, a, b):
        """end point of an arc chosen by a phi, and a node chosen by a phi of the same block"""
        if a[0] not in ('HEAD', 'TAIL') or a[2][0] != 'phi' or len(a[2]) != 2:
            return False
        I = self.F.by_id[a[2][1]]
        if I.op != 'phi':
            return False
        J = self.F.by_id[b[1]] if b[0] == 'phi' and len(b) == 2 else None
        if J is None or J.op != 'phi' or J.blk != I.blk:
            if b[0] != 'arg':
                return False
            J = None
        k = (a, b)
        if k in self.busy:
            return True
        self.busy.add(k)
        try:
            for x, p in zip(I.ops, I.d['in']):
                ta, tb = self.T.term(x), b if J is None else self.T.term(J.ops[J.d['in'].index(p)])
                if ta[0] == 'undef' or tb[0] == 'undef':
                    continue
                if not self.same(self._end(a[1], ta, a[0], 0), self.node(tb), p):
                    return False
            return True
        finally:
            self.busy.discard(k)

    # ---------------------------------------------------------------- weights
    def place(self, A, d=0):
        """type of the weight stored at address A, or None"""
        if A[0] == 'f' and A[2] == 'weight':
            a = self.adj(A[1])
            if a:
                n = ('NODE',) + a
                return (a[1], n) if a[0] == 'out_' else (n, a[1])
            return None
        if A[0] not in ('at', 'ix') or len(A) < 3:
            return None
        n = self.nm(A[1])
        if not n:
            m = re.search(r'::get_extra_weight_distances_to_(targets|sources)\b', self.F.dem)
            r = A[1]
            while r[0] in ('data', 'uptr', 'ld', 'addr') and len(r) > 1:
                r = r[1]
            if m and r == ('arg', 3):
                return (S, self.node(A[2])) if m.group(1) == 'targets' else (self.node(A[2]), T_)
            return None
        l, p = n[-1], n[-2] if len(n) > 1 else ''
        if l in ('forward', 'backward') and p != '[]':
            h, t = self.head('up', A[2]), self.tail('up', A[2])
            return (t, h) if l == 'forward' else (h, t)
        if (l == 'weight' and p in ('forward', 'backward')) or l in ('forward_weight', 'backward_weight'):
            f = (p if l == 'weight' else l)[0]
            h, t = self.head(f, A[2]), self.tail(f, A[2])
            return (t, h) if f == 'f' else (h, t)
        if l == 'forward_tentative_distance' or (l == 'tentative_distance' and 'Dijkstra' in self.F.dem):
            return (S, self.node(A[2]))
        if l == 'backward_tentative_distance':
            return (self.node(A[2]), T_)
        if l == 'input_weight' or (l == 'weight' and 'Dijkstra' in self.F.dem):
            return self.input_arc(strip(A[2]))
        return None

    def input_arc(self, i):
        if 'Dijkstra' in self.F.dem:
            return (self.tail('g', i), self.head('g', i))
        if i[0] == 'ld' and i[1][0] == 'at':
            n = self.nm(i[1][1])
            l = n[-1] if n else ''
            m = re.match(r'(extra_)?(forward|backward)_input_arc_of_cch$', l)
            if m:
                j = strip(i[1][2])
                if m.group(1):
                    if j[0] != 'phi':
                        return None
                    w = self.web(j[1])
                    if not w or len(w[0]) != 1:
                        return None
                    j = w[0][0][0]
                    if not (j[0] == 'ld' and j[1][0] == 'at'):
                        return None
                    j = strip(j[1][2])
                if j[0] == 'call' and j[1].endswith('LocalIDMapper::to_local'):
                    a = strip(self.T.term(self.F.by_id[j[2]].ops[1]))
                    h, t = self.head('up', a), self.tail('up', a)
                    return (t, h) if m.group(2) == 'forward' else (h, t)
        return None

    def wtype(self, t, blk, seen=frozenset(), d=0):
        t = strip(t)
        if not isinstance(t, tuple) or d > 40:
            return None
        h = t[0]
        if h == 'c':
            return ANY
        if h in ('undef', 'null', 'arg'):
            return ANY
        if h == 'ld':
            return self.place(t[1])
        if h == 'lshr' and t[2] == ('c', 32):
            c = strip(t[1])
            if c[0] == 'ld' and c[1][0] == 'f' and c[1][2] == 'node':
                return self.place(('f', c[1][1], 'weight'))
            if c[0] == 'call' and re.search(r'MinIDQueue::pop$', c[1]):
                q = names(self.T.addr_of(self.F.by_id[c[2]].ops[0]))
                for x in q:
                    if x == 'forward_queue':
                        return (S, c)
                    if x == 'backward_queue':
                        return (c, T_)
                if 'Dijkstra' in self.F.dem:
                    return (S, c)
            return None
        if h == 'add':
            a = self.wtype(t[1], blk, seen, d + 1)
            b = self.wtype(t[2], blk, seen, d + 1)
            return self.join(a, b, blk)
        if h == 'call' and t[2] in self.F.by_id:
            I = self.F.by_id[t[2]]
            if re.search(r'OrderedLink::operator\(\)$', t[1]):
                a, b = (self.wtype(self.T.term(o), blk, seen, d + 1) for o in I.ops[-2:])
                return self.link(a, b, blk)
            if re.search(r'TimeDependentWeight::operator\(\)$', t[1]):
                a = strip(self.T.term(I.ops[-2]))
                return (self.tail('g', a), self.head('g', a))
            m = re.search(r'::get_(forward|backward)_weight$', t[1])
            if m:
                return self.arc_weight(m.group(1)[0], self.T.term(I.ops[-1]))
            return None
        if h == 'phi' and len(t) == 2:
            if t[1] in self.hyp:
                return self.hyp[t[1]]
            if t[1] in seen:
                return ANY
            I = self.F.by_id[t[1]]
            if I.op == 'phi':
                r = self.loop_type(I, d)
                if r is not None:
                    return r
            seen = seen | {t[1]}
            if I.op == 'phi':
                r = ANY
                for k, o in enumerate(I.ops):
                    x = self.wtype(self.T.term(o), I.d['in'][k], seen, d + 1)
                    r = self.meet(r, x, blk)
                return r
            return None
        if h == 'sel':
            return self.meet(self.wtype(t[2], blk, seen, d + 1), self.wtype(t[3], blk, seen, d + 1), blk)
        if h in ('mul', 'shl', 'sub') and (h != 'shl' or t[2] != ('c', 32)):
            # a multiple of a length is not the length of a path
            ts = [self.wtype(x, blk, seen, d + 1) for x in t[1:3]]
            if h != 'sub' and sum(isinstance(x, tuple) for x in ts) == 1 and any(x is ANY for x in ts) and any(x[0] == 'c' for x in t[1:3]):
                return BAD
            return None
        if h in ('umin', 'umax'):
            return self.meet(self.wtype(t[1], blk, seen, d + 1), self.wtype(t[2], blk, seen, d + 1), blk)
        return None

    def arc_weight(self, f, a):
        h, t = self.head(f, a), self.tail(f, a)
        return (t, h) if f == 'f' else (h, t)

    def link(self, a, b, blk):
        """the first part of a path, then the second"""
        if a is None or b is None or a is ANY or b is ANY or 'mixed' in (a, b):
            return None
        if a is BAD or b is BAD:
            return BAD
        if a[0] == 'both' or b[0] == 'both':
            return None
        if self.same(a[1], b[0], blk):
            return (a[0], b[1])
        return BAD if all(self.resolved(x) for x in a + b) or self.apart(a, b, blk) else None

    def apart(self, a, b, blk):
        """two paths (no loops) that start at the same node or end at the same node: neither continues the other"""
        if self.same(a[0], b[0], blk) or self.same(a[1], b[1], blk):
            return True
        u, v = a[1], b[0]             # the two ends of one arc
        if {u[0], v[0]} == {'HEAD', 'TAIL'} and u[1:] == v[1:]:
            return True
        for e, x in self.assumed:
            for f, y in self.assumed:
                if x == u and y == v and e[1:] == f[1:] and e[0] != f[0]:
                    return True
        return False

    def loop_type(self, I, d):
        """a weight accumulated by a loop while it walks along a path: the end points are loop variables, too"""
        if I.blk not in {h for _, h in self.F.back_edges()} or d > 4:
            return None
        k = ('loop', I.i)
        if k in self._fo:
            return self._fo[k]
        self._fo[k] = None
        back = [n for n, p in enumerate(I.d['in']) if self.F.dominates(I.blk, p)]
        entry = [n for n in range(len(I.ops)) if n not in back]
        if len(entry) != 1 or not back or I.ty != 'i32':
            return None
        e = entry[0]
        p = I.d['in'][e]
        t0 = self.wtype(self.T.term(I.ops[e]), p, frozenset(), d + 1)
        if not isinstance(t0, tuple) or t0[0] == 'both':
            return None
        phis = [J for J in self.F.blocks[I.blk] if J.op == 'phi' and J.i != I.i]

        var = {('ld', ('phi', J.i)) if J.ty == 'ptr' else ('phi', J.i): J for J in phis}

        def cands(x):
            return [x] + [v for v, J in var.items() if self.same(self.incoming(J, p), x, p)]
        for u in cands(t0[0]):
            for v in cands(t0[1]):
                if u == t0[0] and v == t0[1]:
                    continue
                self.hyp[I.i] = (u, v)
                ok = True
                for n in back:
                    q = I.d['in'][n]
                    ty = self.wtype(self.T.term(I.ops[n]), q, frozenset(), d + 1)
                    if not isinstance(ty, tuple) or ty[0] == 'both':
                        ok = False
                        break
                    w = [self.incoming(var[x], q) if x in var else x for x in (u, v)]
                    if not (self.same(ty[0], w[0], q) and self.same(ty[1], w[1], q)):
                        ok = False
                        break
                del self.hyp[I.i]
                if ok:
                    self._fo[k] = (u, v)
                    return (u, v)
        return None

    def join(self, a, b, blk):
        if a is None or b is None or a is ANY or b is ANY:
            return None
        if a is BAD or b is BAD:
            return BAD
        if a == 'mixed' or b == 'mixed':
            return None
        r = []
        for x in (a[1:] if a[0] == 'both' else (a,)):
            for y in (b[1:] if b[0] == 'both' else (b,)):
                if self.same(x[1], y[0], blk):
                    r.append((x[0], y[1]))
                if self.same(y[1], x[0], blk):
                    r.append((y[0], x[1]))
        if len(r) > 2:
            return None
        if not r:
            return BAD if a[0] != 'both' and b[0] != 'both' and (all(self.resolved(x) for x in a + b) or self.apart(a, b, blk)) else None
        return r[0] if len(r) == 1 else ('both', r[0], r[1])

    def meet(self, a, b, blk):
        if a is ANY:
            return b
        if b is ANY:
            return a
        if a is None or b is None:
            return None
        if a is BAD or b is BAD:
            return BAD
        return a if self.agree(a, b, blk) else 'mixed'

    def agree(self, a, b, blk):
        """True / False / None (not known)"""
        if a is ANY or b is ANY:
            return True
        if a is None or b is None:
            return None
        if a is BAD or b is BAD:
            return False
        if a == 'mixed' or b == 'mixed':
            return None
        if a[0] == 'both':
            return self.agree(a[1], b, blk) or self.agree(a[2], b, blk)
        if b[0] == 'both':
            return self.agree(a, b[1], blk) or self.agree(a, b[2], blk)
        r = [self.same_end(a[0], b[0], blk), self.same_end(a[1], b[1], blk)]
        if all(r):
            return True
        if False in r:
            # definitely different: the path is reversed, or all end points are known
            if self.same(a[0], b[1], blk) or self.same(a[1], b[0], blk):
                return False
            return False if all(self.resolved(x) for x in a + b) else None
        return None

    def same_end(self, a, b, blk):
        if self.free_ends and ((a in (S, T_)) != (b in (S, T_))):
            return None           # a witness search runs between nodes that were put into the queues beforehand
        return self.same(a, b, blk)

    def resolved(self, x):
        """the analysis knows which node this is"""
        x = self.node(x)
        if x[0] == 'TAIL':
            return False
        if x[0] == 'arg' and self.F.d.get('rec'):
            return False
        return True

    def show(self, ty):
        if ty in (ANY, None, BAD, 'mixed'):
            return str(ty)
        if ty[0] == 'both':
            return self.show(ty[1])
        return '%s -> %s' % (self.shown(ty[0]), self.shown(ty[1]))

    def shown(self, n):
        if n == S:
            return 'source'
        if n == T_:
            return 'target'
        if n[0] in ('HEAD', 'TAIL'):
            return '%s(%s)' % (n[0].lower(), show(n[2], self.T))
        if n[0] == 'NODE':
            return 'node of %s[%s][%s]' % (n[1], show(n[2], self.T), show(n[3], self.T))
        return show(n, self.T)


def sgn(c):
    if c >= 1 << 63:
        return c - (1 << 64)
    if (1 << 31) <= c < (1 << 32):
        return c - (1 << 32)
    return c
