"""R01: a query, metric or search object that was used and reset behaves like a new one.

Effects of every method on the members of its object are extracted from the SSA form (container calls, element stores with the
provenance of their index, scalar stores).  Reset methods must undo every effect of the methods they follow, on every path that
the protocol state leaves open; contents that are not undone may only be read where a flag, a queue or this run's own writes
vouch for them."""
import re
from .. import build, kinds
from ..common import *
from ..common import cond_atoms
from ..ir import AnalysisBroken

INV = 4294967295
INF = 2147483647
WHOLE = re.compile(r'^std::(fill|fill_n|__fill\w*)$')


def strip(t):
    while isinstance(t, tuple) and len(t) == 3 and t[0] == 'and' and t[2] == ('c', INV):
        t = t[1]
    return t


class Method:
    def __init__(self, F, cls, M):
        self.F, self.T, self.M = F, T_of(F), M
        self.this = None
        for i, p in enumerate(F.params):
            if not p.get('sret') and any(v[0] == 'this' for v in p.get('vars') or []):
                self.this = i
                break
        self.name = re.sub(r'<.*', '', F.sname)
        self._single = None
        self._effects = None

    # ---- terms
    def single(self):
        """allocas with exactly one store -> stored term"""
        if self._single is None:
            st = {}
            for I in self.F.insts():
                if I.op == 'store' and I.blk in self.F.reachable():
                    a = self.T.addr_of(I.ops[1])
                    st.setdefault(a, []).append(I)
            self._single = {a: v[0] for a, v in st.items() if len(v) == 1 and a[0] in ('alloca', 'var', 'tmp')}
        return self._single

    def res(self, t, n=0):
        t = strip(t)
        if n < 8 and isinstance(t, tuple) and t[0] == 'ld' and t[1] in self.single():
            return self.res(self.T.term(self.single()[t[1]].ops[0]), n + 1)
        return t

    def canon(self, t):
        t = self.res(t)
        if isinstance(t, tuple):
            if t[0] == 'phi':
                return t
            return tuple(self.canon(x) if isinstance(x, tuple) else x for x in t)
        return t

    def member(self, a):
        """name of the member of *this that an address lies in (following no pointer), None otherwise"""
        last = None
        while isinstance(a, tuple) and a[0] in ('f', 'at', 'off', 'data', 'addr'):
            if a[0] == 'f':
                last = a[2]
            a = a[1]
        return last if a == ('arg', self.this) and last is not None else None

    def arg_member(self, ref):
        return self.member(self.T.addr_of(ref))

    def is_scalar_ld(self, t):
        t = strip(t)
        if t[0] == 'ld' and t[1][0] == 'f' and t[1][1] == ('arg', self.this):
            return t[1][2]

    def phi(self, t):
        return self.F.by_id[t[1]] if t[0] == 'phi' and self.F.by_id[t[1]].op == 'phi' else None

    # ---- effects
    def effects(self):
        if self._effects is not None:
            return self._effects
        E = []
        T, F = self.T, self.F
        R = F.reachable()
        bitref = {}
        for I in F.insts():
            if I.blk not in R:
                continue
            if I.op == 'store':
                a = T.addr_of(I.ops[1])
                m = self.member(a)
                if m is None:
                    continue
                v = self.canon(T.term(I.ops[0]))
                if a[0] == 'at' and self.member(a[1]) == m:
                    E.append(('store', m, self.canon(a[2]), v, I))
                else:
                    E.append(('scalar', m, None, v, I))
            elif I.is_call and I.dem and I.ops:
                n = short(I.dem)
                m = self.arg_member(I.ops[0]) if self._isptr(I.ops[0]) else None
                mt = re.match(r'RoutingKit::(TimestampFlags|MinIDQueue|IDSetMinQueue)::(\w+|operator=)$', n)
                if mt and m:
                    arg = self.canon(T.term(I.ops[1])) if len(I.ops) > 1 and not self._isptr(I.ops[1]) else None
                    E.append((mt.group(2), m, arg, None, I))
                elif m and n == 'std::vector::operator[]' and 'bool' in I.dem:
                    bitref[I.i] = (m, self.canon(T.term(I.ops[1])))
                elif n == 'std::_Bit_reference::operator=':
                    b = self.bitref(I, bitref)
                    if b:
                        E.append(('store', b[0], b[1], self.canon(T.term(I.ops[1])), I))
                elif m and re.match(r'std::vector::(push_back|emplace_back|clear|resize|assign|operator=|swap|pop_back|insert|erase)$', n):
                    k = n.split('::')[-1]
                    v = None
                    if k in ('push_back', 'emplace_back'):
                        v = self.canon(self.value_at(I.ops[1]))
                    elif k in ('resize', 'assign') and len(I.ops) > 1 and not self._isptr(I.ops[1]):
                        v = self.canon(T.term(I.ops[1]))
                    E.append((k, m, None, v, I))
                elif m and WHOLE.match(n) and len(I.ops) >= 3:
                    E.append(('fill', m, None, self.canon(self.value_at(I.ops[2])), I))
                elif m and n.startswith('llvm.memset'):
                    E.append(('fill', m, None, self.canon(T.term(I.ops[1])), I))
                elif m and n.startswith('llvm.memcpy'):
                    E.append(('copy', m, None, None, I))
                elif m and n == 'std::reverse':
                    E.append(('permute', m, None, None, I))
                elif WHOLE.match(n) and 'bool' in I.dem:
                    E.append(('fillbits', None, None, None, I))
        self._effects = E
        return E

    def _isptr(self, o):
        if 'v' in o:
            return self.F.by_id[o['v']].ty == 'ptr'
        if 'a' in o:
            return self.F.params[o['a']]['ty'] == 'ptr'
        return 'g' in o or 'null' in o

    def value_at(self, ref):
        if not self._isptr(ref):
            return self.T.term(ref)
        a = self.T.addr_of(ref)
        if a[0] == 'glob' or 'g' in ref:
            g = ref.get('g') or a[1]
            return ('c', INV) if 'invalid_id' in str(g) else ('c', INF) if 'inf_weight' in str(g) else ('glob', g)
        return self.res(('ld', a))

    def bitref(self, I, bitref):
        """the vector<bool> element that a _Bit_reference designates (it is stored to a temporary just before)"""
        a = self.T.addr_of(I.ops[0])
        base = a[1] if a[0] == 'f' else a
        best = None
        for J in self.F.blocks[I.blk][:I.pos] if hasattr(I, 'pos') else []:
            if J.op == 'store':
                b = self.T.addr_of(J.ops[1])
                if (b[1] if b[0] == 'f' else b) == base:
                    t = self.T.term(J.ops[0])
                    if t[0] == 'ev' and t[1][0] == 'call' and t[1][2] in bitref:
                        best = bitref[t[1][2]]
        return best

    # ---- where an index comes from
    def walk(self, t):
        """(start term, parent array, phi) if t runs up a tree from a start node"""
        t = strip(t)
        P = self.phi(t)
        me = t
        if P is None and t[0] == 'ld':
            P = self.phi(t[1])
        if P is None:
            return None
        start = par = None
        for o in P.ops:
            x = self.value_phi(o)
            if me[0] == 'ld' and x[0] == 'addr':
                x = self.canon(('ld', x[1]))
            if x[0] == 'ld' and x[1][0] == 'at' and strip(x[1][2]) == me:
                par = x[1][1]
            elif x != ('phi', P.i):
                if start is not None and start != x:
                    return None
                start = x
        return (start, par, P) if start is not None and par is not None else None

    def value_phi(self, o):
        return self.canon(self.T.term(o))

    def regions(self, t, n=0, seen=()):
        """members (lists of nodes) that determine the set the index runs over; None if unknown"""
        t = self.canon(t)
        if n > 8 or t in seen:
            return None
        seen = seen + (t,)
        w = self.walk(t)
        if w:
            return self.regions(w[0], n + 1, seen)
        for k, m, ix, v, I in self.effects():
            if k in ('push_back', 'emplace_back') and v == t:
                return {m}
        if t[0] == 'ld' and t[1][0] == 'at':
            m = self.member(t[1][1])
            if m:
                own = [v for k, m2, ix, v, I in self.effects() if k == 'store' and m2 == m and v[0] != 'c']
                if own and m in self.recycled:
                    out = set()
                    for v in own:
                        r = self.regions(v, n + 1, seen)
                        if r is None:
                            return None
                        out |= r
                    return out
                return {m}
            P = self.phi(strip(t[1][2]))
            if P is not None:                     # head of an arc: the arcs of which node?
                for o in P.ops:
                    x = self.value_phi(o)
                    if x[0] == 'ld' and x[1][0] == 'at' and x[1][1] != t[1][1]:
                        return self.regions(x[1][2], n + 1, seen)
            # a value that is stored in a list of this object
            for k, m, ix, v, I in self.effects():
                if k == 'store' and v == t and m not in self.clean:
                    return {m}
        return None

    recycled = ()
    clean = {}


def evalc(mt, ref, S):
    """value of a condition when the state member is S (None: unknown)"""
    if 'c' in ref:
        return int(ref['c']) != 0
    I = mt.F.val(ref)
    if I is None:
        return None
    if I.op == 'icmp':
        a, b = mt.T.term(I.ops[0]), mt.T.term(I.ops[1])
        if mt.is_scalar_ld(b) == 'state':
            a, b = b, a
            sw = {'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle'}
        else:
            sw = {}
        if mt.is_scalar_ld(a) == 'state' and b[0] == 'c':
            p = sw.get(I.d['pred'], I.d['pred'])
            x, y = S, b[1]
            return {'eq': x == y, 'ne': x != y, 'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y, 'slt': x < y, 'sle': x <= y, 'sgt': x > y, 'sge': x >= y}[p]
        if a[0] == 'and' and mt.is_scalar_ld(a[1]) == 'state' and a[2][0] == 'c' and b[0] == 'c' and I.d['pred'] in ('eq', 'ne'):
            return ((S & a[2][1]) == b[1]) == (I.d['pred'] == 'eq')
        if a[0] == 'add' and mt.is_scalar_ld(a[1]) == 'state' and a[2][0] == 'c' and b[0] == 'c':
            x, y = (S + a[2][1]) & INV, b[1] & INV
            return {'eq': x == y, 'ne': x != y, 'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y}.get(I.d['pred'])
        return None
    if I.op in ('and', 'or', 'select') and I.ty == 'i1':
        if I.op == 'select':
            c = evalc(mt, I.ops[0], S)
            if c is None:
                a, b = evalc(mt, I.ops[1], S), evalc(mt, I.ops[2], S)
                return a if a == b else None
            return evalc(mt, I.ops[1] if c else I.ops[2], S)
        a, b = evalc(mt, I.ops[0], S), evalc(mt, I.ops[1], S)
        if I.op == 'and':
            return False if a is False or b is False else (True if a and b else None)
        return True if a or b else (False if a is False and b is False else None)
    if I.op == 'xor':
        a = evalc(mt, I.ops[0], S)
        return None if a is None else not a
    return None


def pruned(mt, S):
    """successor function of the control flow graph when the protocol state on entry is S"""
    F = mt.F
    succ = {}
    for b in range(len(F.blocks)):
        s = list(F.succ[b])
        if S is not None and F.blocks[b]:
            L = F.blocks[b][-1]
            if L.op == 'br' and L.ops and len(s) == 2:
                v = evalc(mt, L.ops[0], S)
                if v is not None:
                    s = [s[0] if v else s[1]]
            elif L.op == 'switch' and mt.is_scalar_ld(mt.T.term(L.ops[0])) == 'state' and 'cases' in L.d:
                ss = L.d['succ']
                s = [x for c, x in zip(L.d['cases'], ss[1:]) if int(c) == S] or [ss[0]]
        succ[b] = s
    return succ


def must_pass(mt, blk, S):
    """every path from entry to a return passes blk"""
    F = mt.F
    succ = pruned(mt, S)
    seen, st = set(), [0]
    if blk == 0:
        return True
    while st:
        b = st.pop()
        if b in seen or b == blk:
            continue
        seen.add(b)
        if F.blocks[b] and F.blocks[b][-1].op == 'ret':
            return False
        st.extend(succ[b])
    return True


def enclosing(F, blk):
    """loops that contain blk, innermost first: (header, body)"""
    return sorted([(h, body) for h, body in F.loops().items() if blk in body], key=lambda x: len(x[1]))


def exits(F, body):
    return [(b, s) for b in body for s in F.succ[b] if s not in body]


def latches(F, h, body):
    return [b for b in F.pred[h] if b in body]


def counted(mt, h, body, ix):
    """how the loop (h, body) runs through an index: ('all', list member | None), ('part', why) or ('?', why)"""
    F = mt.F
    base, off = (ix[1], ix[2][1]) if ix[0] == 'add' and ix[2][0] == 'c' else (ix, 0)
    P = mt.phi(base)
    if P is None or P.blk != h:
        return '?', 'index is not the counter of the loop'
    init = step = None
    for o, b in zip(P.ops, P.d.get('in', P.d.get('blocks', []))):
        x = mt.value_phi(o)
        if b in body:
            if x[0] == 'add' and x[1] == ('phi', P.i) and x[2][0] == 'c':
                step = x[2][1]
        else:
            init = x
    if init is None or step not in (1, -1):
        return ('part', 'step %s' % step) if step not in (1, -1, None) else ('?', 'no counter')
    cond = None
    for b, s in exits(F, body):
        L = F.blocks[b][-1]
        if L.op != 'br' or not L.ops:
            continue
        I = F.val(L.ops[0])
        if b == h or F.dominates(b, [x for x in latches(F, h, body)][0]):
            cond = mt.canon(mt.T.term(L.ops[0])) if I is not None else None
            break

    def lst(t):
        if t[0] in ('size', 'bytes'):
            return mt.member(t[1]) or show(t[1])
        return None
    if step == 1:
        if init[0] == 'c' and init[1] + off != 0:
            return 'part', 'it starts at element %d' % (init[1] + off)
        if cond and cond[0] == 'cmp':
            for t in cond[2:]:
                if lst(t):
                    return 'all', lst(t)
                if t[0] == 'add' and lst(t[1]) and t[2][0] == 'c' and t[2][1] < 0:
                    return 'part', 'it ends before the last element'
        return 'all', None
    top = init
    k = off
    if top[0] == 'add' and top[2][0] == 'c':
        k += top[2][1]
        top = top[1]
    if lst(top) and k < -1:
        return 'part', 'it starts before the last element'
    if cond and cond[0] == 'cmp' and cond[3][0] == 'c' and cond[1] in ('eq', 'ne'):
        a = cond[2]
        end = None
        if a == ('phi', P.i):
            end = cond[3][1]
        elif a[0] == 'add' and a[1] == ('phi', P.i) and a[2][0] == 'c':
            end = cond[3][1] - a[2][1]
        if end is not None:
            # the first index that is not visited
            last = end + off
            if last & 0xffffffff not in (INV, INV & 0xffffffff) and last != -1:
                return 'part', 'it stops before the first element'
    return 'all', lst(top)


class Clean:
    """an element-wise or whole clean-up of a member: which nodes it covers"""


def coverage(mt, e):
    """('all',), ('walk', list, end list or None, header, problems) or None for a store effect of a clean value"""
    k, m, ix, v, I = e
    F = mt.F
    w = mt.walk(ix)
    if w:
        start, par, P = w
        h = P.blk
        body = F.loops().get(h)
        if body is None or start[0] != 'ld' or start[1][0] != 'at':
            return None
        L = mt.member(start[1][1])
        if L is None:
            return None
        prob = []
        E = set()
        for b, s in exits(F, body):
            t = F.blocks[b][-1]
            c = mt.canon(mt.T.term(t.ops[0])) if t.op == 'br' and t.ops else None
            ok = False
            if c and c[0] == 'cmp' and c[1] in ('eq', 'ne'):
                for x in c[2:]:
                    if x == ('c', INV) or x == ('c', -1):
                        ok = True
                    if x[0] == 'ld' and x[1][0] == 'at' and mt.member(x[1][1]):
                        E.add(mt.member(x[1][1]))
                        ok = True
                    if x[0] == 'c' and m in mt.clean and x == mt.clean[m]:
                        ok = True
            elif c and c[0] == 'call' and 'operator bool' in c[1]:
                ok = True
            if not ok:
                prob.append('the walk towards the root can end early (%s)' % (show(c)[:80] if c else '?'))
        for b in latches(F, h, body):
            if not F.dominates(I.blk, b):
                prob.append('a node on the way to the root can be skipped')
        top = h
        for oh, ob in enclosing(F, h):
            if oh == h:
                continue
            r = counted(mt, oh, ob, start[1][2])
            if r[0] == 'part':
                prob.append('the loop over %s is not complete: %s' % (L, r[1]))
            elif r[0] == 'all' and r[1] and r[1] != L and r[1] != m:
                prob.append('the loop over %s is bounded by the size of %s' % (L, r[1]))
            for b, s in exits(F, ob):
                if b != oh and not F.dominates(b, latches(F, oh, ob)[0]):
                    prob.append('the loop over %s can be left early' % L)
            if not all(F.dominates(h, b) for b in latches(F, oh, ob)):
                prob.append('an element of %s can be skipped' % L)
            top = oh
            break
        else:
            prob.append('only one element of %s is handled' % L)
        return 'walk', L, E, top, prob
    for h, body in enclosing(F, I.blk):
        r = counted(mt, h, body, ix)
        if r[0] == 'all':
            if all(F.dominates(I.blk, b) for b in latches(F, h, body)) and (r[1] in (None, m) or mt.member_size_ok(r[1])):
                return 'all', h
            return None
    return None


# ------------------------------------------------------------------------------------------------ protocol

Q = 'RoutingKit::'
SPEC = {
    Q + 'ContractionHierarchyQuery': {
        'reset': (['add_source', 'add_target', 'pin_targets', 'pin_sources', 'run', 'run_to_pinned_targets', 'run_to_pinned_sources'], None),
        'reset_source': (['add_source', 'run_to_pinned_targets'], ['pin_targets', 'run_to_pinned_targets']),
        'reset_target': (['add_target', 'run_to_pinned_sources'], ['pin_sources', 'run_to_pinned_sources']),
    },
    Q + 'CustomizableContractionHierarchyQuery': {
        'reset': (['add_source', 'add_target', 'pin_targets', 'pin_sources', 'run', 'run_to_pinned_targets', 'run_to_pinned_sources'], None),
        'reset_source': (['add_source', 'run_to_pinned_targets'], ['pin_targets', 'run_to_pinned_targets']),
        'reset_target': (['add_target', 'run_to_pinned_sources'], ['pin_sources', 'run_to_pinned_sources']),
    },
    Q + 'Dijkstra': {'reset': (['add_source', 'settle'], None)},
    Q + 'CustomizableContractionHierarchyPartialCustomization': {'reset': (['update_arc', 'customize'], None)},
    Q + 'CustomizableContractionHierarchyMetric': {'reset': (['customize'], None)},
}
PINNED = {'pin_targets': ['add_source', 'reset_source', 'run_to_pinned_targets'], 'pin_sources': ['add_target', 'reset_target', 'run_to_pinned_sources']}


def passes(mt, blocks, S):
    """every path from entry to a return passes one of the blocks"""
    F = mt.F
    succ = pruned(mt, S)
    seen, st = set(), [0]
    while st:
        b = st.pop()
        if b in seen or b in blocks:
            continue
        seen.add(b)
        if F.blocks[b] and F.blocks[b][-1].op == 'ret':
            return False
        st.extend(succ[b])
    return True


class Cls:
    def __init__(self, name, M):
        self.name, self.M = name, M
        self.methods = {}
        self.ctors = []
        base = name.split('::')[-1]
        for F in M.functions.values():
            m = re.match(r'^(?:.* )?%s::(~?\w+)(?:<.*>)?\(' % re.escape(name), F.dem.replace(name + '&', '').strip())
            if not m or '$_' in F.dem or "'lambda" in F.dem:
                continue
            if m.group(1).startswith('~') or m.group(1) == 'operator':
                continue
            mt = Method(F, name, M)
            if mt.this is None:
                continue
            mt.name = m.group(1)
            if m.group(1) == base:
                self.ctors.append(mt)
            else:
                self.methods.setdefault(m.group(1), []).append(mt)
        # members that are created filled with a value, with a size only, or empty
        self.clean, self.sized, self.init = {}, {}, {}
        for mt in self.ctors:
            if len(mt.F.params) < 2:
                continue
            for I in mt.F.insts():
                if not I.is_call or not I.dem or not I.ops or not mt._isptr(I.ops[0]):
                    continue
                m = mt.arg_member(I.ops[0])
                n = I.dem
                if m is None:
                    continue
                if re.match(r'std::vector<.*>::vector\(unsigned long, ', n) and len(I.ops) >= 3:
                    self.sized.setdefault(m, mt.canon(mt.T.term(I.ops[1])))
                    if re.match(r'std::vector<.*>::vector\(unsigned long, (unsigned|bool|int|float|double)', n) or len(I.ops) >= 4:
                        v = mt.value_at(I.ops[2])
                        if v[0] == 'c':
                            self.clean[m] = v
                elif re.search(r'(TimestampFlags|MinIDQueue|IDSetMinQueue)::\1\(unsigned', n):
                    self.sized.setdefault(m, mt.canon(mt.T.term(I.ops[1])))
            for k, m, ix, v, I in mt.effects():
                if k == 'scalar':
                    self.init.setdefault(m, []).append((mt, v))
        self.recycled = set()
        for L in list(self.methods.values()) + [self.ctors]:
            for mt in L:
                mt.clean = self.clean
        # arrays of clean values that a method uses as a stack of nodes
        for L in self.methods.values():
            for mt in L:
                rec = set()
                for k, m, ix, v, I in mt.effects():
                    if k == 'store' and m in self.clean and mt.walk(ix) is None and v[0] != 'c':
                        b = ix[1] if ix[0] == 'add' and ix[2][0] == 'c' else ix
                        P = mt.phi(b)
                        if P is not None and P.ty != 'ptr' and any(mt.value_phi(o)[0] == 'add' for o in P.ops):
                            rec.add(m)
                mt.recycled = rec

    def state_after(self, name):
        out = set()
        for mt in self.methods.get(name, []):
            for k, m, ix, v, I in mt.effects():
                if k == 'scalar' and m == 'state' and v[0] == 'c':
                    out.add(v[1])
        return out


def ctor_blocks(C, mt):
    """blocks in which the whole object is replaced by a newly constructed one"""
    base = C.name.split('::')[-1]
    out = set()
    for I in mt.F.insts():
        if I.is_call and I.dem and re.search(r'%s::%s\(' % (re.escape(C.name), base), I.dem) and I.ops and mt._isptr(I.ops[0]):
            a = mt.T.addr_of(I.ops[0])
            while a[0] in ('f', 'at'):
                a = a[1]
            if a[0] == 'alloca' and len(I.ops) >= 2:
                # followed by the move assignment of at least one member
                if any(e[0] in ('operator=', 'copy') and mt.F.inst_dominates(I, e[4]) for e in mt.effects()):
                    out.add(I.blk)
    return out


def drained(mt, m):
    """every path leaves the queue m empty"""
    F = mt.F
    for I in F.calls(r'RoutingKit::(MinIDQueue|IDSetMinQueue)::(empty|size)\b'):
        if mt.arg_member(I.ops[0]) != m:
            continue
        for h, body in enclosing(F, I.blk)[:1]:
            ex = exits(F, body)
            if ex and all(mentions(mt, F.blocks[b][-1], I) for b, s in ex) and passes(mt, {h}, None):
                last = [e[4] for e in mt.effects() if e[0] == 'push' and e[1] == m]
                if all(p.blk in body or F.dominates(p.blk, h) or not reaches(F, h, p.blk) for p in last):
                    return True
    return False


def mentions(mt, br, I):
    if not br.ops:
        return False
    st, seen = [br.ops[0]], set()
    while st:
        r = st.pop()
        if 'v' not in r or r['v'] in seen:
            continue
        seen.add(r['v'])
        if r['v'] == I.i:
            return True
        J = mt.F.by_id[r['v']]
        if J.op in ('icmp', 'xor', 'and', 'or', 'zext', 'trunc', 'select', 'freeze'):
            st.extend(J.ops)
    return False


def reaches(F, a, b):
    seen, st = set(), list(F.succ[a])
    while st:
        x = st.pop()
        if x == b:
            return True
        if x not in seen:
            seen.add(x)
            st.extend(F.succ[x])
    return False


def needs(C, mt):
    """what a method leaves behind: (kind, member, detail, instruction)"""
    out = []
    lists = {m for L in C.methods.values() for x in L for k, m, ix, v, I in x.effects() if k in ('push_back', 'emplace_back')} - set(C.clean)
    for k, m, ix, v, I in mt.effects():
        if k == 'set':
            out.append(('flags', m, None, I))
        elif k == 'push' and not drained(mt, m):
            out.append(('queue', m, None, I))
        elif k in ('push_back', 'emplace_back', 'resize', 'assign') and m in lists:
            out.append(('list', m, None, I))
        elif k == 'store' and m in C.clean and v != C.clean[m]:
            if m in mt.recycled and mt.walk(ix) is None and ix[0] in ('phi', 'add'):
                out.append(('stack', m, ix, I))
                continue
            out.append(('cells', m, mt.regions(ix), I))
    return out


def unresolved(mt):
    """kinds of things that are emptied through a pointer whose target is not known"""
    out = set()
    for I in mt.F.insts():
        if not (I.is_call and I.dem and I.ops and I.blk in mt.F.reachable()):
            continue
        n = short(I.dem)
        k = None
        if re.match(r'RoutingKit::TimestampFlags::(reset_all|operator=)$', n):
            k = 'flags'
        elif re.match(r'RoutingKit::(MinIDQueue|IDSetMinQueue)::(clear|operator=)$', n):
            k = 'queue'
        elif re.match(r'std::vector::(clear|operator=|swap|assign)$', n):
            k = 'list'
        elif WHOLE.match(n) and 'bool' in I.dem or WHOLE.match(n) and '_Bit_iterator' in I.dem:
            out.add('fillbits')
        if k and mt._isptr(I.ops[0]) and mt.arg_member(I.ops[0]) is None:
            a = mt.T.addr_of(I.ops[0])
            while isinstance(a, tuple) and a[0] in ('f', 'at', 'off', 'data', 'addr'):
                a = a[1]
            if a[0] not in ('alloca', 'var', 'tmp', 'arg'):
                out.add(k)
    return out


def undo_rule(ctx, C, rs, name, methods, states, extra=()):
    """rs: reset method; extra: blocks in which everything is new"""
    F = rs.F
    E = rs.effects()
    ends = pairs(C)
    clears = {}
    for k, m, ix, v, I in E:
        if k == 'clear':
            clears.setdefault(m, []).append(I)
    done = {}
    for e in E:
        k, m, ix, v, I = e
        if k == 'store' and m in C.clean and v == C.clean[m]:
            done.setdefault(m, []).append((coverage(rs, e), I))
        elif k in ('fill', 'assign') and m in C.clean and v == C.clean[m] or k == 'fill' and m in C.clean:
            done.setdefault(m, []).append((('all', I.blk), I))
        elif k == 'operator=' and m in C.clean:
            done.setdefault(m, []).append((('all', I.blk), I))
    seen = set()
    for mn in methods:
        for mt in C.methods.get(mn, []):
            after = C.state_after(mn)
            S = states if states is not None else None
            if S is None:
                S = after if after else {None}
            elif after:
                S = {s for s in S if s in after} or S
            for kind, m, d, I in needs(C, mt):
                key = (kind, m, mn, tuple(sorted(d)) if isinstance(d, set) else None)
                if key in seen:
                    continue
                seen.add(key)
                w = '%s (left behind by %s)' % (rs.F.dem[:90], mn)
                if kind in ('flags', 'queue', 'list'):
                    ops = {'flags': ('reset_all', 'operator='), 'queue': ('clear', 'operator='), 'list': ('clear', 'operator=', 'swap')}[kind]
                    bl = {e[4].blk for e in E if e[1] == m and e[0] in ops} | set(extra)
                    if kind == 'queue' and drained(rs, m):
                        bl = {0}
                    good = all(passes(rs, bl, s) for s in S)
                    if not good and kind in unresolved(rs):
                        ctx.notes.append('%s: cannot tell which %s are emptied' % (rs.F.dem[:80], kind))
                        continue
                    ctx.check(good, 'undone', rs.F.dem[:80], '%s is not emptied on every path, but %s adds to it (%s)' % (m, mn, I.where()), '%s: %s' % (w, m))
                elif kind == 'cells':
                    if d is None:
                        ctx.notes.append('%s: cannot tell which elements of %s are written at %s' % (mn, m, I.where()))
                        continue
                    for L in sorted(d):
                        ok = False
                        why = 'nothing restores it'
                        blocks = set(extra)
                        unknown = False
                        for cov, J in done.get(m, []):
                            if cov is None:
                                unknown = True
                                continue
                            if cov[0] == 'all':
                                blocks.add(cov[1])
                                continue
                            _, L2, EE, top, prob = cov
                            if L2 != L:
                                continue
                            p = list(prob)
                            bad_end = [x for x in EE if L2 in ends and x not in ends[L2]]
                            if bad_end:
                                p.append('the walk from %s ends at elements of %s' % (L2, bad_end[0]))
                            early = [c for c in clears.get(L, []) if not F.dominates(top, c.blk) and reaches(F, c.blk, top) or c.blk == top and c.pos < J.pos]
                            early += [c for x in EE for c in clears.get(x, []) if not F.dominates(top, c.blk) and reaches(F, c.blk, top)]
                            if early:
                                p.append('%s is emptied before' % L)
                            if p:
                                why = p[0]
                            else:
                                blocks.add(top)
                        if all(passes(rs, blocks, s) for s in S):
                            ok = True
                        elif unknown:
                            ok = None
                        elif blocks and why == 'nothing restores it':
                            why = 'it is not restored on every path'
                        if ok is False and 'fillbits' in unresolved(rs) and C.clean.get(m) == ('c', 0):
                            ok = None
                        if ok is None:
                            ctx.notes.append('%s: cannot tell which elements of %s are restored' % (rs.F.dem[:80], m))
                            continue
                        ctx.check(ok, 'undone', rs.F.dem[:80], '%s keeps values at the nodes above %s that %s wrote (%s): %s' % (m, L, mn, I.where(), why), '%s: %s above %s' % (w, m, L))


def pairs(C):
    """list -> lists that end its walks (written together)"""
    out = {}
    for mn in ('add_source', 'add_target', 'pin_sources', 'pin_targets'):
        for mt in C.methods.get(mn, []):
            ls = {m for k, m, ix, v, I in mt.effects() if k in ('push_back', 'emplace_back', 'resize', 'assign')} - set(C.clean)
            for a in ls:
                out.setdefault(a, set()).update(ls - {a})
    return out


def parallel_rule(ctx, C):
    """a list and the list of the ends of its walks get their elements together"""
    P = pairs(C)
    for mn in ('add_source', 'add_target'):
        for mt in C.methods.get(mn, []):
            F = mt.F
            push = {}
            for k, m, ix, v, I in mt.effects():
                if k in ('push_back', 'emplace_back'):
                    push.setdefault(m, []).append(I)
            for a in push:
                for b in P.get(a, ()):
                    if b not in push or a in C.clean or b in C.clean:
                        continue
                    hit = unpaired(mt, a, b, push)
                    if hit == '?':
                        ctx.notes.append('%s: cannot compare the lengths of %s and %s' % (mt.F.dem[:70], a, b))
                        continue
                    ctx.check(hit is None, 'lists-parallel', push[a][0].where(), '%s: %s can get an element without %s getting one' % (mn, a, b), '%s: %s and %s' % (mn, a, b))


def unpaired(mt, a, b, push):
    """an end of the method that is reached with an element for a but none for b"""
    F = mt.F
    if len(push[a]) > 1 and len(push[b]) == 1:
        a, b = b, a
    pa, pb = {I.i for I in push[a]}, {I.i for I in push[b]}
    seen = set()
    st = [(0, 0, 0)]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        blk, na, nb = x
        for I in F.blocks[blk]:
            if I.i in pa:
                na = min(2, na + 1)
            if I.i in pb:
                nb = min(2, nb + 1)
            if I.op == 'ret' and na == 1 and nb == 0:
                return I
        br = F.blocks[blk][-1]
        for s in F.succ[blk]:
            if br.op == 'br' and br.ops and len(F.succ[blk]) == 2:
                dead = False
                for J, pol in cond_atoms(mt.T, br.ops[0], br.d['succ'][0] == s):
                    if J.op != 'icmp':
                        continue
                    t = mt.canon(mt.T.term({'v': J.i}))
                    if t[0] != 'cmp':
                        continue
                    ms = [mt.member(z[1]) if z[0] in ('size', 'bytes') else None for z in t[2:4]]
                    if set(ms) == {a, b}:
                        l, r = [na if z == a else nb for z in ms]
                        val = {'eq': l == r, 'ne': l != r, 'ult': l < r, 'ule': l <= r, 'ugt': l > r, 'uge': l >= r}.get(t[1])
                        if val is not None:
                            dead = dead or val != pol
                if dead:
                    continue
            st.append((s, na, nb))
    return None


def mode_rule(ctx, C):
    """which of two searches reached a node is kept in a flag: it follows every write of the arc or node it was reached by"""
    both = {}
    for n, L in C.methods.items():
        if not n.startswith('get_'):
            continue
        for mt in L:
            for I in mt.F.insts():
                if I.op != 'load' or I.blk not in mt.F.reachable():
                    continue
                a = mt.T.addr_of(I.ops[0])
                if a[0] != 'at' or not mt.member(a[1]):
                    continue
                x = mt.canon(a[2])
                for J, pol in facts(mt.F, I.blk):
                    if not isinstance(J, tuple) and J.is_call and J.dem and short(J.dem).endswith('TimestampFlags::is_set') and not pol and mt.canon(mt.T.term(J.ops[1])) == x:
                        both.setdefault((mt.member(a[1]), mt.arg_member(J.ops[0])), I)
    n = 0
    for (A, f), R in sorted(both.items(), key=str):
        for name, L in C.methods.items():
            if not name.startswith('run'):
                continue
            for mt in L:
                F = mt.F
                E = mt.effects()
                if not any(e[0] == 'reset_one' and e[1] == f for e in E) and not any(e[0] == 'set' and e[1] == f for e in E):
                    continue
                for k, m, ix, v, I in E:
                    if k != 'store' or m != A or v in (('c', INV), ('c', -1)):
                        continue
                    n += 1
                    ok = any(not isinstance(J, tuple) and J.is_call and J.dem and short(J.dem).endswith('TimestampFlags::is_set') and pol and mt.arg_member(J.ops[0]) == f and mt.canon(mt.T.term(J.ops[1])) == ix for J, pol in facts(F, I.blk))
                    fl = {e[4].i for e in E if e[0] in ('set', 'reset_one') and e[1] == f and e[2] == ix}
                    ok = ok or any(F.inst_dominates(F.by_id[i], I) for i in fl)
                    if not ok:
                        hs = {h for h, b in enclosing(F, I.blk)}
                        hit = F.reach_avoiding(I.blk, F.blocks[I.blk].index(I), lambda J: J.op == 'ret' or J.blk in hs, lambda J: J.i in fl)
                        ok = hit is None
                    ctx.check(ok, 'flag-follows-write', I.where(), '%s: %s[%s] is written and %s still tells that another search reached the node' % (name, A, show(ix)[:40], f), '%s: %s with %s' % (name, A, f))
    return n


def stack_rule(ctx, C, mt):
    """an array that is used as a stack is restored while it is unwound"""
    F = mt.F
    st = [(m, ix, I) for k, m, ix, v, I in mt.effects() if k == 'store' and m in mt.recycled and v != C.clean[m] and mt.walk(ix) is None and ix[0] in ('phi', 'add')]
    for m in sorted({x[0] for x in st}):
        good, why = False, 'nothing restores it'
        pushers = {x[2].blk for x in st if x[0] == m}
        counters = set()
        for _, ix, I in [x for x in st if x[0] == m]:
            b = ix[1] if ix[0] == 'add' and ix[2][0] == 'c' else ix
            counters.add(b)
            P = mt.phi(b)
            work = [P]
            while work:
                p = work.pop()
                for o in p.ops:
                    x = mt.value_phi(o)
                    if x[0] == 'phi' and x not in counters and mt.phi(x) is not None:
                        counters.add(x)
                        work.append(mt.phi(x))
        for e in mt.effects():
            k, m2, ix, v, I = e
            if m2 != m:
                continue
            if k == 'fill' and passes(mt, {I.blk}, None):
                good = True
            if k != 'store' or v != C.clean[m]:
                continue
            for h, body in enclosing(F, I.blk):
                b = ix[1] if ix[0] == 'add' and ix[2][0] == 'c' else ix
                off = ix[2][1] if ix[0] == 'add' and ix[2][0] == 'c' else 0
                P = mt.phi(b)
                if P is None or P.blk != h:
                    continue
                init = [mt.value_phi(o) for o, q in zip(P.ops, P.d['in']) if q not in body]
                step = [mt.value_phi(o) for o, q in zip(P.ops, P.d['in']) if q in body]
                ok = all(F.dominates(I.blk, q) for q in latches(F, h, body)) and passes(mt, {h}, None) and not any(reaches(F, h, q) for q in pushers)
                if not ok:
                    why = 'not every element is restored on every path'
                    continue
                if step and step[0][0] == 'add' and step[0][2] == ('c', -1):
                    c = [mt.canon(mt.T.term(F.blocks[q][-1].ops[0])) for q, s in exits(F, body) if F.blocks[q][-1].ops]
                    if len(c) != len(exits(F, body)) or not all(x[0] == 'cmp' and x[2] == ('phi', P.i) and x[3] == ('c', 0) and x[1] in ('eq', 'ne', 'ugt') for x in c) or len(c) != 1:
                        why = 'the loop that restores it can end before all elements are restored'
                    elif off != -1:
                        why = 'the wrong elements are restored'
                    elif init and init[0] not in counters and init[0][0] == 'phi':
                        why = 'the loop that restores it starts at another position'
                    else:
                        good = True
                else:
                    good = True        # another way of counting: complete by the loop bound
        ctx.check(good, 'scratch-restored', mt.F.dem[:80], '%s is used as scratch space and not restored completely: %s' % (m, why), '%s: %s' % (mt.F.dem[:80], m))


def params(F):
    m = re.search(r'\((.*)\)( const)?$', F.dem)
    return m.group(1) if m else ''


def rebuild_rule(ctx, C, rs, extra):
    """attaching to another index: every pointer refers to the new one, and every member has the size the new one needs"""
    F = rs.F
    match = [c for c in C.ctors if params(c.F) == params(F)]
    E = rs.effects()
    eqs = {}
    enough = set()
    this = ('arg', rs.this)
    for b in F.reachable():
        for J, pol in facts(F, b):
            if isinstance(J, tuple) or J.op != 'icmp':
                continue
            t = rs.canon(rs.T.term({'v': J.i}))
            if t[0] != 'cmp':
                continue
            p = t[1] if pol else {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}.get(t[1])
            if p == 'eq':
                eqs.setdefault(b, []).append(t)
            elif p in ('uge', 'ugt', 'ule', 'ult'):
                big, small = (t[2], t[3]) if p in ('uge', 'ugt') else (t[3], t[2])
                if this in subterms(big) and this not in subterms(small) and any(isinstance(x, tuple) and x and x[0] == 'arg' for x in subterms(small)):
                    enough.add(b)

    def has(t, what):
        return any(x == what for x in subterms(t))

    def has_other_arg(t):
        return any(isinstance(x, tuple) and x and x[0] == 'arg' and x != this for x in subterms(t))
    if match:
        c = match[0]
        shift = rs.this - c.this
        for k, m, ix, v, I in c.effects():
            if k != 'scalar' or not has_other_arg(v) or m == 'state':
                continue
            bl = set(extra)
            for k2, m2, _, v2, J in E:
                if k2 == 'scalar' and m2 == m:
                    if norm(v2) == norm(v) or J.blk in extra or not has_other_arg(v2) and has_temp(v2):
                        bl.add(J.blk)
            # known to be the new value already
            for b, ts in eqs.items():
                if any(t[0] == 'cmp' and ('ld', ('f', this, m)) in (strip(t[2]), strip(t[3])) and has_other_arg(t) for t in ts):
                    bl.add(b)
            ctx.check(passes(rs, bl, None), 'attached-to-new', F.dem[:90], '%s still refers to the previous object on some path' % m, '%s of %s' % (m, F.dem[:60]))
        same = {b for b, ts in eqs.items() if any(t[0] == 'cmp' and has(t, this) and has_other_arg(t) and not (t[2][0] == 'c' or t[3][0] == 'c' or t[3] == ('null',)) or
                                                  t[0] == 'cmp' and has_other_arg(t) and any(x[0] == 'call' and x[1].endswith('::id_count') for x in subterms(t) if isinstance(x, tuple) and x) for t in ts)}
        for m in C.sized:
            bl = set(extra) | same | enough | {e[4].blk for e in E if e[1] == m and e[0] in ('resize', 'assign', 'operator=', 'swap')}
            ctx.check(passes(rs, bl, None), 'sized-for-new', F.dem[:90], '%s can keep the size of the previous object' % m, '%s of %s' % (m, F.dem[:60]))
            for k2, m2, _, v2, J in E:
                if m2 == m and k2 == 'resize' and v2 is not None and m in C.sized:
                    want = C.sized[m]
                    ctx.check(norm(v2) == norm(want), 'sized-for-new', J.where(), '%s is resized to %s, a new object has %s' % (m, show(v2)[:60], show(want)[:60]), None)
    else:
        for i, p in enumerate(F.params):
            if i <= rs.this or p['ty'] != 'ptr':
                continue
            bl = set(extra)
            for k2, m2, _, v2, J in E:
                if k2 == 'scalar' and has(v2, ('arg', i)):
                    bl.add(J.blk)
            ctx.check(passes(rs, bl, None), 'attached-to-new', F.dem[:90], 'the new argument %d is not stored on some path' % i, F.dem[:60])


def norm(t):
    t = strip(t)
    if t[0] == 'addr':
        return norm(t[1])
    if t[0] == 'at' and t[2] == ('c', 0):
        return ('data', norm(t[1]))
    return tuple(norm(x) if isinstance(x, tuple) and x else x for x in t)


def has_temp(t):
    return any(isinstance(x, tuple) and x and x[0] == 'alloca' for x in subterms(t))


def result_rule(ctx, C):
    """a node that stands for the result of a run was reached by both searches of this run"""
    fl, qu = vouchers(C)
    used = {}
    for L in C.methods.values():
        for mt in L:
            for V in set(fl) | set(qu):
                for I, ix in reads(mt, V):
                    m = mt.is_scalar_ld(ix)
                    if m:
                        used.setdefault(m, set()).add(V)
    for mt in C.methods.get('run', []):
        for k, m, ix, v, I in mt.effects():
            if k == 'scalar' and m in used and v[0] != 'c':
                for V in sorted(used[m]):
                    ctx.check(vouched(C, mt, V, v, I, fl, qu) is not None, 'result-reached', I.where(), '%s becomes a node for which %s may not have been written in this run' % (m, V), '%s at %s vouched for %s' % (m, I.where(), V))


def sweep_rule(ctx, C):
    """a sweep over a list leaves a value of this run at every node of the list"""
    fl, qu = vouchers(C)
    for L in C.methods.values():
        for mt in L:
            F = mt.F
            done = set()
            for V in sorted(set(fl) | set(qu)):
                for I, ix in reads(mt, V):
                    if vouched(C, mt, V, ix, I, fl, qu) != 'sweep':
                        continue
                    a = mt.phi(strip(ix[1][2]))
                    x = None
                    for o in a.ops:
                        t = mt.value_phi(o)
                        if t[0] == 'ld' and t[1][0] == 'at':
                            x = mt.canon(t[1][2])
                    if x is None or (V, x) in done:
                        continue
                    done.add((V, x))
                    loops = [l for l in enclosing(F, a.blk) if a.blk != l[0]]
                    if not loops:
                        continue
                    h, body = loops[0]
                    ok = sweep_ok(mt, V, x, h, body, fl)
                    ctx.check(ok, 'sweep-writes', I.where(), '%s: an iteration for node %s can end without %s[%s] being written or known to be written' % (mt.name, show(x)[:40], V, show(x)[:40]), '%s %s' % (mt.name, V))


def sweep_ok(mt, V, x, h, body, fl):
    F = mt.F
    st = {e[4].blk for e in mt.effects() if e[0] == 'store' and e[1] == V and e[2] == x}
    seen = set()
    work = [s for s in [h]]
    while work:
        b = work.pop()
        if b in seen or b in st:
            continue
        seen.add(b)
        br = F.blocks[b][-1]
        for s in F.succ[b]:
            if s not in body:
                continue
            if br.op == 'br' and br.ops and len(F.succ[b]) == 2:
                good = False
                for J, pol in cond_atoms(mt.T, br.ops[0], br.d['succ'][0] == s):
                    if J.is_call and J.dem and short(J.dem).endswith('TimestampFlags::is_set') and pol and mt.arg_member(J.ops[0]) in fl.get(V, ()) and mt.canon(mt.T.term(J.ops[1])) == x:
                        # still reachable through a merge: only the paths that stay with this fact are fine
                        good = False
                    if J.op == 'icmp':
                        t = mt.T.term({'v': J.i})
                        p = t[1] if pol else {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}.get(t[1])
                        if t[0] == 'cmp' and t[3] == ('c', INF) and p in ('ne', 'ult') and t[2][0] == 'phi':
                            good = True
                if good:
                    continue
            if s == h:
                return False
            work.append(s)
    return True


def fresh_rule(ctx, M):
    """customization starts from the input weights alone: every arc gets its initial weight before an old one is read"""
    n = 0
    for F in M.functions.values():
        if not (is_root(F, M) or '.omp_outlined' in F.d.get('name', '') or 'omp_outlined' in F.dem):
            continue
        T = T_of(F)
        sts = {}
        for I in F.insts():
            if I.op == 'store' and I.blk in F.reachable():
                a = T.addr_of(I.ops[1])
                if a[0] == 'at' and a[1][0] == 'f' and a[1][2] in ('forward', 'backward'):
                    sts.setdefault(a[1], []).append((I, strip(a[2]), T.term(I.ops[0])))
        for V, L in sts.items():
            idx = {ix for I, ix, v in L if any(isinstance(x, tuple) and x and x[0] == 'f' and x[2] == 'input_weight' for x in subterms(v))}
            for ix in idx:
                P = F.by_id[ix[1]] if ix[0] == 'phi' and F.by_id[ix[1]].op == 'phi' else None
                if P is None or P.blk not in F.loops():
                    continue
                h, body = P.blk, F.loops()[P.blk]
                own = {I.i for I, jx, v in L if jx == ix and not any(x == V for x in subterms(v))}
                isld = lambda I: I.op == 'load' and I.blk in body and T.addr_of(I.ops[0])[:2] == ('at', V) and strip(T.addr_of(I.ops[0])[2]) == ix
                bad = None
                for s in F.succ[h]:
                    if s in body:
                        bad = bad or F.reach_avoiding(s, -1, isld, lambda I: I.i in own or I.blk == h or I.blk not in body)
                        bad = bad or F.reach_avoiding(s, -1, lambda I: I.blk == h, lambda I: I.i in own or I.blk not in body)
                n += 1
                ctx.fn(F)
                ctx.check(bad is None, 'fresh-weights', (bad or F.blocks[h][0]).where(), 'an arc can keep %s of the previous customization' % show(V), '%s in %s' % (show(V), F.dem[:60]))
                # nothing is read before the loop is over
                for I in F.insts():
                    if I.op == 'load' and I.blk in F.reachable() and I.blk not in body and T.addr_of(I.ops[0])[:2] == ('at', V):
                        before = F.reach_avoiding(I.blk, F.blocks[I.blk].index(I), lambda J: J.blk == h, lambda J: False)
                        ctx.check(before is None, 'fresh-weights', I.where(), '%s is read before the weights of this customization are set' % show(V), None)
    return n


def counted_up(mt, st, x):
    """1 if the stored value is increased again on every way to the end"""
    F = mt.F
    up = {e[4].i for e in st if e[3][0] == 'add' and e[3][2] == ('c', 1)}
    return int(F.reach_avoiding(x[4].blk, F.blocks[x[4].blk].index(x[4]), lambda J: J.op == 'ret', lambda J: J.i in up) is None)


def container_rules(ctx, M):
    def one(cls, name):
        C = Cls(Q + cls, M)
        return C, C.methods.get(name, [])
    # --- flags
    C, _ = one('TimestampFlags', 'set')
    start = {}
    for c in C.ctors:
        e = {m: v for k, m, ix, v, I in c.effects() if k == 'scalar'}
        if 'current_timestamp' in e and 'last_seen' in C.sized:
            f = ctor_fill(c, 'last_seen')
            if f is not None and e['current_timestamp'][0] == 'c':
                ctx.check(f < e['current_timestamp'][1] & 0xffff, 'flags-start-unset', c.F.dem[:70], 'new flags start with time stamp %d in every element and %d as the current one' % (f, e['current_timestamp'][1]), 'TimestampFlags()')
    cur = ('ld', ('f', ('arg', 0), 'current_timestamp'))
    for mt in C.methods.get('reset_all', []):
        F = mt.F
        es = mt.effects()
        st = [e for e in es if e[0] == 'scalar' and e[1] == 'current_timestamp']
        ctx.check(passes(mt, {e[4].blk for e in st}, None), 'flags-reset', F.dem[:70], 'the current time stamp does not change on every path', 'current time stamp changes')
        fills = [e for e in es if e[0] in ('fill', 'assign') and e[1] == 'last_seen']
        good = False
        why = 'the old time stamps become valid again when the counter wraps around'
        for e in fills:
            I = e[4]
            wrapf = False
            for J, pol in facts(F, I.blk):
                if not isinstance(J, tuple) and J.op == 'icmp':
                    t = T_of(F).term({'v': J.i})
                    p = t[1] if pol else {'eq': 'ne', 'ne': 'eq'}.get(t[1])
                    if p == 'eq' and t[3][0] == 'c' and t[3][1] & 0xffff in (0, 0xffff):
                        wrapf = True
            if not wrapf and facts(F, I.blk):
                why = 'the time stamps are not cleared exactly when the counter wraps around'
                continue
            fv = fill_value(mt, I)
            cs = [x for x in st if x[3][0] == 'c' and (F.dominates(I.blk, x[4].blk) or F.dominates(x[4].blk, I.blk))]
            if fv is None:
                good = True
            elif cs and all(fv < (x[3][1] & 0xffff) + counted_up(mt, st, x) for x in cs):
                good = True
            else:
                why = 'after a wrap around the cleared time stamps (%s) count as set' % fv
        if not fills:
            # element-wise clearing
            good = any(e[0] == 'store' and e[1] == 'last_seen' for e in es)
        ctx.check(good, 'flags-reset', F.dem[:70], why, 'wrap around')
    for mt in C.methods.get('set', []):
        for k, m, ix, v, I in mt.effects():
            if m == 'last_seen' and k == 'store':
                ctx.check(v == cur and ix == ('arg', 1), 'flags-set', I.where(), 'set() does not store the current time stamp at the given id', 'set')
    for mt in C.methods.get('reset_one', []):
        for k, m, ix, v, I in mt.effects():
            if m == 'last_seen' and k == 'store':
                ctx.check(v != cur and ix == ('arg', 1), 'flags-set', I.where(), 'reset_one() leaves the flag of the given id set', 'reset_one')
                later = v[0] == 'add' and v[1] == cur and v[2][0] == 'c' and 0 < (v[2][1] & 0xffff) < 0x8000
                ctx.check(not later, 'flags-set', I.where(), 'reset_one() stores a time stamp that becomes the current one in a later reset_all()', 'reset_one')
    # --- heap
    C, cl = one('MinIDQueue', 'clear')
    for mt in cl:
        F = mt.F
        es = mt.effects()
        z = [e for e in es if e[0] == 'scalar' and e[1] == 'heap_size' and e[3] == ('c', 0)]
        down = counted_down(mt, es)
        ctx.check(down or bool(z) and passes(mt, {e[4].blk for e in z}, None), 'queue-cleared', F.dem[:70], 'clear() does not set the size to 0 on every path', 'heap_size')
        ok, why = False, 'no position is invalidated'
        for e in es:
            k, m, ix, v, I = e
            if m != 'id_pos' or v is not None and v not in (('c', INV), ('c', -1)):
                continue
            if k in ('fill', 'assign'):
                ok = ok or passes(mt, {I.blk}, None)
                continue
            if k != 'store':
                continue
            for h, body in enclosing(F, I.blk)[:1]:
                i = [x[2] for x in subterms(ix) if isinstance(x, tuple) and len(x) == 3 and x[0] == 'at' and mt.member(x[1]) == 'heap']
                direct = not i
                i = i[0] if i else ix
                r = counted(mt, h, body, i)
                if direct and any('heap_size' == mt.is_scalar_ld(t) for b, s in exits(F, body) if F.blocks[b][-1].ops for t in subterms(mt.canon(mt.T.term(F.blocks[b][-1].ops[0]))) if isinstance(t, tuple)):
                    why = 'the positions of the ids below the number of elements are invalidated instead of those of the ids in the queue'
                elif r[0] == 'part':
                    why = 'not every position is invalidated: ' + r[1]
                elif not all(F.dominates(I.blk, b) for b in latches(F, h, body)) or not passes(mt, {h}, None):
                    why = 'not every position is invalidated on every path'
                elif any(reaches(F, x[4].blk, h) and x[4].blk not in body for x in z):
                    why = 'the size is set to 0 before the positions are invalidated'
                else:
                    why2 = heap_bound(mt, h, body, i)
                    if why2:
                        why = why2
                    else:
                        ok = True
        ctx.check(ok, 'queue-cleared', F.dem[:70], why, 'positions')
    for mt in C.methods.get('pop', []):
        st = [e for e in mt.effects() if e[0] == 'store' and e[1] == 'id_pos' and e[3] in (('c', INV), ('c', -1))]
        dec = [e for e in mt.effects() if e[0] == 'scalar' and e[1] == 'heap_size']
        ctx.check(bool(st) and passes(mt, {e[4].blk for e in st}, None), 'queue-cleared', mt.F.dem[:70], 'pop() leaves the removed id in the queue', 'pop')
        ctx.check(bool(dec) and passes(mt, {e[4].blk for e in dec}, None), 'queue-cleared', mt.F.dem[:70], 'pop() does not reduce the size', 'pop')
    C, cl = one('IDSetMinQueue', 'clear')
    for mt in cl:
        F = mt.F
        ok = False
        for I in F.calls(r'IDSetMinQueue::empty\b'):
            for h, body in enclosing(F, I.blk)[:1]:
                if any(J.blk in body for J in F.calls(r'IDSetMinQueue::pop\b')) and passes(mt, {h}, None) and all(mentions(mt, F.blocks[b][-1], I) for b, s in exits(F, body)):
                    ok = True
        if any(e[0] == 'fillbits' or e[0] in ('fill', 'assign') for e in mt.effects()):
            ok = True
        if not ok and any(True for I in F.calls(r'IDSetMinQueue::(empty|pop|peek)\b')) is False:
            ctx.notes.append('IDSetMinQueue::clear has an unknown form')
            continue
        ctx.check(ok, 'queue-cleared', F.dem[:70], 'clear() can end while the queue is not empty', 'IDSetMinQueue')


def counted_down(mt, es):
    """the size is reduced in a loop that only ends when it is 0"""
    F = mt.F
    for e in es:
        if e[0] == 'scalar' and e[1] == 'heap_size' and e[3][0] == 'add' and e[3][2] == ('c', -1):
            for h, body in enclosing(F, e[4].blk):
                c = [mt.canon(mt.T.term(F.blocks[q][-1].ops[0])) if F.blocks[q][-1].ops else ('?',) for q, s in exits(F, body)]
                if c and passes(mt, {h}, None) and all(t[0] == 'cmp' and ('c', 0) in t[2:4] for t in c):
                    return True
    return False


def heap_bound(mt, h, body, i):
    """the loop over the heap ends at heap_size"""
    F = mt.F
    for b, s in exits(F, body):
        br = F.blocks[b][-1]
        if not br.ops:
            continue
        c = mt.canon(mt.T.term(br.ops[0]))
        if c[0] == 'cmp':
            for t in c[2:]:
                if t[0] == 'add' and mt.is_scalar_ld(t[1]) == 'heap_size' and t[2][0] == 'c' and t[2][1] < 0 and c[1] in ('ult', 'ugt', 'eq', 'ne'):
                    return 'not every position is invalidated: the loop ends before the last element'
    return None


def ctor_fill(mt, member):
    for I in mt.F.insts():
        if I.is_call and I.dem and re.match(r'std::vector<.*>::vector\(unsigned long', I.dem) and mt.arg_member(I.ops[0]) == member:
            if len(I.ops) >= 4:
                v = mt.value_at(I.ops[2])
                return v[1] & 0xffff if v[0] == 'c' else None
            return 0
    return None


def fill_value(mt, I):
    v = mt.value_at(I.ops[2]) if len(I.ops) >= 3 else ('?',)
    return v[1] & 0xffff if v[0] == 'c' else None


def pinned_rule(ctx, C):
    for pin, others in PINNED.items():
        for p in C.methods.get(pin, []):
            keep = {m for k, m, ix, v, I in p.effects() if k in ('store', 'scalar', 'push_back', 'emplace_back', 'resize', 'assign') and m != 'state'}
            for on in others:
                for o in C.methods.get(on, []):
                    hit = [(m, I) for k, m, ix, v, I in o.effects() if m in keep and k in ('store', 'scalar', 'push_back', 'emplace_back', 'clear', 'resize', 'assign', 'operator=', 'fill', 'permute', 'swap', 'copy')]
                    for m in sorted(keep):
                        h = [I for m2, I in hit if m2 == m]
                        ctx.check(not h, 'pinned-kept', h[0].where() if h else '', '%s changes %s, which %s prepared for all queries until the next reset' % (on, m, pin), '%s keeps %s of %s' % (on, m, pin))


def scalar_rule(ctx, C):
    for mn in ('run', 'pin_targets', 'pin_sources'):
        for mt in C.methods.get(mn, []):
            ms = {m for k, m, ix, v, I in mt.effects() if k == 'scalar' and m != 'state'}
            for m in sorted(ms):
                st = {I.i for k, m2, ix, v, I in mt.effects() if k == 'scalar' and m2 == m}
                is_ld = lambda I: I.op == 'load' and mt.member(mt.T.addr_of(I.ops[0])) == m and mt.T.addr_of(I.ops[0])[0] == 'f'
                hit = mt.F.reach_avoiding(0, -1, is_ld, lambda I: I.i in st)
                ret = mt.F.reach_avoiding(0, -1, lambda I: I.op == 'ret', lambda I: I.i in st)
                ctx.check(hit is None and ret is None, 'result-set', (hit or ret or mt.F.blocks[0][0]).where(), '%s can still hold the value of an earlier run when %s %s' % (m, mn, 'reads it' if hit else 'ends'), '%s of %s' % (m, mn))


# ------------------------------------------------------------------------------------------------ guarded reads

def qid(mt, t):
    """queue member that an id was taken from"""
    t = mt.canon(t)
    if t[0] == 'call' and re.search(r'(MinIDQueue|IDSetMinQueue)::(pop|peek)$', t[1]):
        I = mt.F.by_id[t[2]]
        o = [o for o in I.ops if mt._isptr(o) and mt.arg_member(o)]
        return mt.arg_member(o[0]) if o else None
    if t[0] == 'ev':
        return qid(mt, t[1])
    if t[0] == 'ld':
        # an element that was popped into a local variable
        pass
    return None


def pushed_id(mt, e):
    k, m, arg, v, I = e
    if arg is None:
        return None
    t = arg
    while t[0] == 'or':                    # {id, key} passed in one register
        t = t[1] if t[1][0] != 'shl' else t[2]
    return strip(t)


def vouchers(C):
    """vector member -> (flags, queues) that are set / filled together with it"""
    fl, qu = {}, {}
    fq = {}
    for L in C.methods.values():
        for mt in L:
            sets = [(e[1], e[2]) for e in mt.effects() if e[0] == 'set']
            pushes = [(e[1], pushed_id(mt, e)) for e in mt.effects() if e[0] == 'push']
            for f, ix in sets:
                q = qid(mt, ix)
                if q:
                    fq.setdefault(f, set()).add(q)
            for k, m, ix, v, I in mt.effects():
                if k != 'store':
                    continue
                for f, jx in sets:
                    if jx == ix:
                        fl.setdefault(m, set()).add(f)
                for q, jx in pushes:
                    if jx == ix:
                        qu.setdefault(m, set()).add(q)
    for m, qs in qu.items():
        for f, fqs in fq.items():
            if fqs & qs:
                fl.setdefault(m, set()).add(f)
    return fl, qu


def vouched(C, mt, V, x, I, fl, qu, depth=0, more=()):
    """reason why element x of V was written in the current session at instruction I"""
    x = mt.canon(x)
    F = mt.F
    if depth > 4:
        return None
    for J, pol in list(facts(F, I.blk)) + list(more):
        if not isinstance(J, tuple) and J.is_call and J.dem and pol:
            n = short(J.dem)
            if n.endswith('TimestampFlags::is_set') and mt.arg_member(J.ops[0]) in fl.get(V, ()) and mt.canon(mt.T.term(J.ops[1])) == x:
                return 'flag'
            if re.search(r'Queue::contains_id$', n) and mt.arg_member(J.ops[0]) in qu.get(V, ()) and mt.canon(mt.T.term(J.ops[1])) == x:
                return 'queue'
    q = qid(mt, x)
    if q and q in qu.get(V, ()):
        return 'popped'
    for k, m, ix, v, J in mt.effects():
        if k == 'store' and m == V and ix == x and F.inst_dominates(J, I):
            return 'written'
    if mt.is_scalar_ld(x):
        return 'result'
    b = x[1] if x[0] == 'add' and x[2][0] == 'c' else x
    P = mt.phi(b)
    if P is not None and any(t[0] == 'add' and t[2][0] == 'c' and t[1][0] == 'phi' for t in map(mt.value_phi, P.ops)):
        # a position in an array that is used as a list or a stack: counted, not a node
        if any(k == 'store' and m == V and is_counter(mt, ix) for k, m, ix, v, J in mt.effects()):
            return 'stack'
        for h, body in enclosing(F, I.blk):
            if P.blk == h:
                for q, s in exits(F, body):
                    br = F.blocks[q][-1]
                    c = mt.canon(mt.T.term(br.ops[0])) if br.ops else ('?',)
                    if c[0] == 'cmp' and any(mt.is_scalar_ld(t) for t in c[2:]):
                        return 'counted'
    P = mt.phi(x) or (mt.phi(x[1]) if x[0] == 'ld' else None)
    if P is not None:
        ok = True
        for o, b in zip(P.ops, P.d['in']):
            t = mt.value_phi(o)
            if t[0] == 'addr':
                t = mt.canon(('ld', t[1]))
            if t == x:
                continue
            base = t
            pred = False
            while base[0] == 'ld' and base[1][0] == 'at':
                arr = mt.member(base[1][1])
                if arr and mt.canon(base[1][2]) == x:
                    pred = True
                    break
                base = mt.canon(base[1][2])
            if pred:
                continue
            L = F.blocks[b][-1]
            more2 = []
            if L.op == 'br' and L.ops and len(F.succ[b]) == 2 and F.succ[b][0] != F.succ[b][1]:
                more2 = cond_atoms(mt.T, L.ops[0], L.d['succ'][0] == P.blk)
            if vouched(C, mt, V, t, L, fl, qu, depth + 1, more2) is None:
                ok = False
        if ok:
            return 'path'
    if x[0] == 'ld' and x[1][0] == 'at':
        m = mt.member(x[1][1])
        if m:
            # the list of the pinned nodes; a method that writes the element itself has to write it first
            if any(k == 'store' and mm == V and ix == x and reaches(F, I.blk, J.blk) for k, mm, ix, v, J in mt.effects()):
                return None
            return 'list'
        a = mt.phi(strip(x[1][2]))
        if a is not None:
            for o in a.ops:
                t = mt.value_phi(o)
                if t[0] == 'ld' and t[1][0] == 'at':
                    y = mt.canon(t[1][2])
                    if y[0] == 'ld' and y[1][0] == 'at' and mt.member(y[1][1]):
                        return 'sweep'
    return None


def is_counter(mt, ix):
    b = ix[1] if ix[0] == 'add' and ix[2][0] == 'c' else ix
    P = mt.phi(b)
    return P is not None


def reads(mt, V):
    for I in mt.F.insts():
        if I.op == 'load' and I.blk in mt.F.reachable():
            a = mt.T.addr_of(I.ops[0])
            if a[0] == 'at' and mt.member(a[1]) == V and mt.member(a) == V:
                yield I, mt.canon(a[2])


def guard_rule(ctx, C):
    fl, qu = vouchers(C)
    for V in sorted(set(fl) | set(qu)):
        if V in C.clean:
            continue
        for L in C.methods.values():
            for mt in L:
                for I, ix in reads(mt, V):
                    r = vouched(C, mt, V, ix, I, fl, qu)
                    ctx.check(r is not None, 'no-stale-read', I.where(), '%s[%s] is read although nothing shows that it was written since the last reset' % (V, show(ix)[:60]), '%s %s[%s]: %s' % (mt.name, V, show(ix)[:30], r))


def scratch_flags_rule(ctx, C):
    """flags that a get function uses for itself are reset before they are used"""
    for n, L in C.methods.items():
        if not n.startswith('get_'):
            continue
        for mt in L:
            for f in sorted({e[1] for e in mt.effects() if e[0] == 'set'}):
                rs = {e[4].i for e in mt.effects() if e[0] == 'reset_all' and e[1] == f}
                use = lambda I: I.is_call and I.dem and re.search(r'TimestampFlags::(is_set|set)\b', I.dem) and mt.arg_member(I.ops[0]) == f
                hit = mt.F.reach_avoiding(0, -1, use, lambda I: I.i in rs)
                ctx.check(hit is None, 'scratch-flags-reset', (hit or mt.F.blocks[0][0]).where(), '%s uses the flags %s of earlier calls' % (n, f), '%s %s' % (n, f))


class Only:
    """passes on what a rule of another check finds, under the name it has here"""

    def __init__(self, ctx, rule, name):
        self.ctx, self.rule, self.name = ctx, rule, name

    def check(self, ok, rule, where, msg, *more):
        if rule == self.rule:
            self.ctx.check(ok, self.name, where, msg, 'predecessor')
        return ok


def start_rule(ctx, M):
    """a node that is added as a source or target does not keep the predecessor of an earlier use"""
    from . import d01b
    from ..paths import Paths
    for F in M.functions.values():
        if is_root(F, M) and re.search(r'Query::add_(source|target)$|Dijkstra::add_source$', short(F.dem)):
            d01b.sources(Only(ctx, 'source-predecessor', 'no-stale-predecessor'), F, Paths(F))


def run(ctx):
    M = build.module(opaque=kinds.OPAQUE, drivers=('headers', 'links'))
    ctx.use(M)
    for cn, spec in SPEC.items():
        C = Cls(cn, M)
        if not C.methods:
            ctx.notes.append('class %s not found' % cn)
            continue
        for L in C.methods.values():
            for mt in L:
                ctx.fn(mt.F)
        for rn, (undo, st) in spec.items():
            if rn == 'reset':
                undo = undo + [n for n in C.methods if n.startswith('get_')]
            for rs in C.methods.get(rn, []):
                extra = ctor_blocks(C, rs)
                states = None
                if st is not None:
                    states = set().union(*[C.state_after(x) for x in st]) or None
                undo_rule(ctx, C, rs, rn, undo, states, extra)
                if len(rs.F.params) > rs.this + 1:
                    rebuild_rule(ctx, C, rs, extra)
        for L in C.methods.values():
            for mt in L:
                if mt.recycled:
                    stack_rule(ctx, C, mt)
        pinned_rule(ctx, C)
        scalar_rule(ctx, C)
        guard_rule(ctx, C)
        result_rule(ctx, C)
        sweep_rule(ctx, C)
        scratch_flags_rule(ctx, C)
        parallel_rule(ctx, C)
        mode_rule(ctx, C)
    C = Cls(Q + '(anonymous namespace)::ShorterPathTest', M)
    guard_rule(ctx, C)
    fresh_rule(ctx, M)
    start_rule(ctx, M)
    container_rules(ctx, M)
    ctx.floor('undone', 40)
    ctx.floor('no-stale-read', 60)
    return ctx.finish(
        'For the queries, metrics, partial customizations, Dijkstra searches and the witness search: effects of every method on the members of its object, and for every reset / reset_source / reset_target (with or without a new index) '
        'whether it undoes them on every path that the protocol state leaves open (flags, queues, lists, element-wise restored arrays with the set of nodes they cover); every read of an array that is not restored must be vouched for by a flag, '
        'a queue or a write of the current session; scratch arrays are restored; pinned lists are kept until reset; the containers themselves start empty and are emptied completely (including the wrap around of time stamps).',
        ['The elimination tree contains, for every arc of the hierarchy, the head as an ancestor of the tail (so the nodes reached from a source are its ancestors).', 'Methods are called in the order that the documentation of the state machine asks for.'])
