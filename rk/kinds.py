"""Inference of the numbering ("kind") of every index and id by unification over SSA terms.

Every integer value, every vector index and every vector element has a kind variable; uses unify them; a conflict is two
different concrete numberings in one class.  None stands for "no statement" and is never a conflict."""
import re
from .common import *
from .terms import short

OPAQUE = [r'RoutingKit::(MinIDQueue|IDSetMinQueue|TimestampFlags|BitVector|LocalIDMapper|IDMapper)::',
          r'RoutingKit::(keep_element_of_vector_if|invert_vector|invert_inverse_vector|apply_permutation|apply_inverse_permutation|apply_permutation_to_\w+|inplace_apply_permutation_to_\w+|invert_permutation|identity_permutation|compute_\w*sort_permutation\w*|find_arc_\w+|chain_permutation\w+)[(<]']


class Solver:
    def __init__(self):
        self.p = {}
        self.c = {}          # root -> (kind, where)
        self.conflicts = []
        self.n = 0
        self.oneof = []
        self.sizes = []

    def find(self, x):
        p = self.p
        if x not in p:
            p[x] = x
            return x
        r = x
        while p[r] != r:
            r = p[r]
        while p[x] != r:
            p[x], x = r, p[x]
        return r

    def unify(self, a, b, where, why):
        if a is None or b is None:
            return
        self.n += 1
        ra, rb = self.find(a), self.find(b)
        if ra == rb:
            return
        ca, cb = self.c.get(ra), self.c.get(rb)
        if ca and cb and ca[0] != cb[0]:
            self.conflicts.append((where, why, ca, cb))
            return           # keep the classes apart: one report per cause
        self.p[rb] = ra
        if cb and not ca:
            self.c[ra] = cb
        self.c.pop(rb, None)

    def label(self, a, kind, where, why):
        if a is None or kind is None:
            return
        k = ('K', kind)
        if k not in self.p:
            self.p[k] = k
            self.c[k] = (kind, where)
        self.unify(a, k, where, why)

    def kind(self, a):
        if a is None:
            return None
        c = self.c.get(self.find(a))
        return c[0] if c else None


def K(kind):
    return ('K', kind)


class Gen:
    """constraints of one function; spec supplies seeds"""

    def __init__(self, S, F, spec, linked):
        self.S, self.F, self.T, self.spec = S, F, T_of(F), spec
        self.linked = linked          # functions analysed in the same group (by name)
        self.tables = {}              # canonical object terms with root arg -> node keys
        self.this = None
        for i, n in enumerate(self.T.argnames):
            if n == 'this':
                self.this = i
        self.havoc = set()
        self.objs = set()
        self.stored = {}
        self.where = ''
        self._collect()

    # ---- canonical object names
    def _collect(self):
        T = self.T
        st = {}
        for I in self.F.insts():
            if I.op == 'store':
                a = T.addr_of(I.ops[1])
                st.setdefault(a, []).append(I)
        self.stores = st
        cnt = {}
        for I in self.F.calls():
            m = re.search(r'^std::vector<.*>::operator=\(|^std::(move|swap)<|std::vector<.*>::swap\(|inplace_apply_permutation', I.dem)
            if m and I.ops:
                for o in I.ops[:2] if 'swap' in I.dem else (I.ops[1:2] if 'inplace' in I.dem else I.ops[:1]):
                    k = self.canon(T.addr_of(o))
                    cnt[k] = cnt.get(k, 0) + (2 if 'swap' in I.dem or 'inplace' in I.dem else 1)
        self.havoc = {k for k, n in cnt.items() if n > 1}

    def canon(self, t):
        if not isinstance(t, tuple) or not t:
            return t
        if t[0] in ('obj', 'this'):
            return t
        if t[0] == 'arg':
            if t[1] == self.this:
                return ('this', self.cls())
            return ('obj', self.F.name, t)
        if t[0] in ('alloca', 'phi', 'call'):
            return ('obj', self.F.name, t)
        if t[0] == 'selp':
            return ('obj', self.F.name, t)
        if t[0] == 'ld' and isinstance(t[1], tuple):
            r = self.stores.get(t[1]) if hasattr(self, 'stores') else None
            b = t[1]
            while b[0] == 'f':
                b = b[1]
            if r and len(r) == 1 and b[0] == 'alloca':
                v = self.T.term(r[0].ops[0])
                if v[0] == 'addr':
                    return self.canon(v[1])
                if v[0] == 'arg':
                    return self.canon(v)
                if v[0] == 'ld':
                    return self.canon(v)
        if t[0] == 'uptr':
            return ('ld', self.canon(t[1]))
        if t[0] == 'addr':
            return self.canon(t[1])
        return tuple(self.canon(x) if isinstance(x, tuple) else x for x in t)

    def cls(self):
        n = self.F.dem.split('(')[0]
        n = re.sub(r'<.*>', '', n)
        return n.rsplit('::', 1)[0].split(' ')[-1] if '::' in n else n

    def names(self, V):
        """field names along the access path, innermost last"""
        out = []
        while isinstance(V, tuple):
            if V[0] == 'f':
                out.append(V[2])
                V = V[1]
            elif V[0] == 'ld':
                V = V[1]
            elif V[0] in ('at', 'ix'):
                out.append('[]')
                V = V[1]
            else:
                break
        return out[::-1], V

    # ---- kinds of places
    def idx(self, V):
        V = self.canon(V)
        if V in self.havoc:
            return None
        self.objs.add(V)
        k = ('idx', V)
        self._seed(V)
        return k

    def elem(self, V, sub=()):
        V = self.canon(V)
        if V in self.havoc or self.spec.mixed(self.names(V)[0]):
            return None
        self.objs.add(V)
        self._seed(V)
        return ('elem', V) + tuple(sub)

    def _seed(self, V):
        if V in self.stored:
            return
        self.stored[V] = 1
        ns, root = self.names(V)
        s = self.spec.field(ns, root, self)
        if s:
            i, e = s
            self.S.label(('idx', V), i, 'declaration of %s' % '.'.join(ns), 'numbering of ' + '.'.join(ns))
            self.S.label(('elem', V), e, 'declaration of %s' % '.'.join(ns), 'content of ' + '.'.join(ns))

    def slot(self, A, depth=0):
        """kind of the integer stored at address term A (adds the index constraint of the access)"""
        if not isinstance(A, tuple) or depth > 12:
            return None
        if A[0] == 'at' and len(A) == 3:
            self.S.unify(self.idx(A[1]), self.term(A[2]), self.where, 'index of ' + show(A[1], self.T))
            c = self.spec.conditional(self, A)
            if c is not False:
                return c
            return self.elem(A[1])
        if A[0] == 'ix':
            b = A[1]
            if b[0] in ('ld', 'arg', 'f', 'alloca'):
                # raw pointer: the pointed-to array is identified by the pointer
                self.S.unify(self.idx(b), self.term(A[2]), self.where, 'index of ' + show(b, self.T))
                return self.elem(b)
            return None
        if A[0] == 'f':
            base = A
            sub = []
            while base[0] == 'f':
                sub.append(base[2])
                base = base[1]
            if base[0] == 'at' and len(base) == 3:
                self.S.unify(self.idx(base[1]), self.term(base[2]), self.where, 'index of ' + show(base[1], self.T))
                return self.elem(base[1], sub[::-1])
            C = self.canon(A)
            self._seed_scalar(C)
            return ('mem', C)
        if A[0] == 'alloca':
            return ('mem', self.canon(A))
        if A[0] == 'arg':
            C = self.canon(A)
            return ('mem', C)
        if A[0] == 'ld':
            return ('mem', self.canon(A))
        if A[0] == 'phi' and len(A) == 2:
            I = self.F.by_id[A[1]]
            if I.op not in ('phi', 'select'):
                return None
            k = ('pslot', self.F.name, A[1])
            if k not in self.stored:
                self.stored[k] = 1
                for o in (I.ops if I.op == 'phi' else I.ops[1:]):
                    self._unify_ptr(k, o, 0)
            return k
        if A[0] == 'selp':
            return self.slot(('phi', A[1]), depth + 1)
        if A[0] == 'data':
            return self.elem(A[1])
        return None

    def _unify_ptr(self, k, o, d):
        if d > 6:
            return
        v = self.F.val(o)
        a = self.T.addr_of(o)
        if v is not None and v.op == 'getelementptr' and 'v' in v.ops[0]:
            b = self.F.val(v.ops[0])
            if b is not None and b.op in ('phi',):
                self.S.unify(k, self.slot(('phi', b.i)), self.where, 'iteration')
                return
        if v is not None and v.op == 'load':
            t = self.T.term_inst(v)
            if t[0] in ('data', 'dend'):
                self.S.unify(k, self.elem(t[1]), self.where, 'iteration over ' + show(t[1], self.T))
                return
        if a[0] == 'glob' or a[0] == 'null':
            return
        self.S.unify(k, self.slot(a), self.where, 'access through a pointer')

    def _seed_scalar(self, C):
        k = ('s', C)
        if k in self.stored:
            return
        self.stored[k] = 1
        ns, root = self.names(C)
        s = self.spec.scalar(ns, root, self)
        if s:
            self.S.label(('mem', C), s, 'declaration of %s' % '.'.join(ns), 'numbering of ' + '.'.join(ns))

    # ---- kinds of values
    def term(self, t, d=0):
        if not isinstance(t, tuple) or not t or d > 60:
            return None
        h = t[0]
        if h in ('c', 'undef', 'null', 'fc', 'zero'):
            return None
        if h == 'arg':
            return ('val', self.F.name, t[1])
        if h == 'ld':
            return self.slot(t[1])
        if h == 'phi' and len(t) == 2:
            return ('phi', self.F.name, t[1])
        if h == 'add':
            if t[2][0] == 'c':
                return self.term(t[1], d + 1)
            return None
        if h == 'sub' and t[2][0] == 'c':
            return self.term(t[1], d + 1)
        if h == 'and' and t[2] in (('c', 0xffffffff), ('c', -1)):
            return self.term(t[1], d + 1)
        if h == 'sel':
            a, b = self.term(t[2], d + 1), self.term(t[3], d + 1)
            if a is None or b is None:
                return None if (t[2][0] != 'c' and t[3][0] != 'c') else (a or b)
            self.S.unify(a, b, self.where, 'choice between two values')
            return a
        if h in ('umin', 'umax', 'smin', 'smax'):
            a, b = self.term(t[1], d + 1), self.term(t[2], d + 1)
            self.S.unify(a, b, self.where, 'minimum/maximum of two values')
            return a or b
        if h == 'size':
            return None         # a count is not an id; see count()
        if h == 'expect':
            return self.term(t[1], d + 1)
        if h == 'call':
            return self.call_value(self.F.by_id[t[2]], 'lo')
        if h == 'lshr' and t[2] == ('c', 32):
            if t[1][0] == 'call':
                return self.call_value(self.F.by_id[t[1][2]], 'hi')
            p = self.pair(t[1])
            return self.term(p[1], d + 1) if p else None
        if h == 'or':
            p = self.pair(t)
            if p:
                return self.term(p[0], d + 1)
        return None

    def count(self, t):
        """the numbering that t counts"""
        if t[0] == 'size':
            return self.idx(t[1])
        if t[0] == 'call' and re.search(r'(LocalIDMapper|IDMapper)::(local|global)_id_count$|BitVector::size$|MinQueue::id_count$', t[1]):
            o = self.whole(self.F.by_id[t[2]].ops[0], self.FIRST)
            self._seed_obj(o)
            return ('elem' if 'local' in t[1] else 'idx', o)
        if t[0] == 'sub' and t[2] == ('c', 1):
            return self.count(t[1])
        if t[0] == 'and' and t[2] == ('c', 0xffffffff):
            return self.count(t[1])
        return None

    def counts(self, a, t, what):
        if a is not None and isinstance(t, tuple):
            c = self.count(t)
            if c is not None:
                self.S.n += 1
                self.S.sizes.append((a, c, self.where, what))

    def pair(self, t):
        """(low, high) halves of a packed {id, key} pair"""
        if t[0] in ('or', 'add') and len(t) == 3:
            for a, b in ((t[1], t[2]), (t[2], t[1])):
                if b[0] == 'shl' and b[2] == ('c', 32):
                    return a, b[1]
        return None

    def ptr_val(self, o):
        """kind of the integer a pointer operand points to"""
        v = self.F.val(o)
        if 'g' in o or 'ce' in o:
            return None
        return self.slot(self.T.addr_of(o))

    def obj(self, o):
        p = self.T.ptr(o)
        a = self.T.addr_of(o)
        # descend to the object itself: methods get the address of the object, whose first member has the same address
        return a

    def whole(self, o, cls_first):
        """object key for an instance of a repository class passed by pointer (strip the leading member the address coincides with)"""
        a = self.T.addr_of(o)
        while a[0] == 'f' and a[2] in cls_first:
            a = a[1]
        return self.canon(a)

    FIRST = {'id_pos', 'last_seen', 'data_', 'bits_', 'heap', 'contains_', 'size_'}

    def call_value(self, I, part='lo'):
        n = short(I.dem)
        m = re.match(r'RoutingKit::(MinIDQueue|IDSetMinQueue|LocalIDMapper|IDMapper)::(\w+)$', n)
        if m:
            c, f = m.groups()
            o = self.whole(I.ops[0], self.FIRST)
            self._seed_obj(o)
            if c in ('MinIDQueue', 'IDSetMinQueue'):
                if f in ('pop', 'peek'):
                    return ('idx', o) if part == 'lo' else ('elem', o)
                if f == 'get_key':
                    return ('elem', o)
            else:
                if f == 'to_local':
                    return ('elem', o)
                if f == 'to_global':
                    return ('idx', o)
            return None
        if re.match(r'RoutingKit::find_arc_\w+$', n):
            return self.elem(self.T.addr_of(I.ops[0]))
        if n.startswith('RoutingKit') and I.fn in self.linked:
            return ('ret', I.fn)
        if re.search(r'(^|::)(min|max)$', n) and n.startswith('std::'):
            return None
        return None

    def _seed_obj(self, o):
        if o in self.stored:
            return
        self.stored[o] = 1
        self.objs.add(o)
        ns, root = self.names(o)
        s = self.spec.field(ns, root, self)
        if s:
            self.S.label(('idx', o), s[0], 'declaration of %s' % '.'.join(ns), 'numbering of ' + '.'.join(ns))
            self.S.label(('elem', o), s[1], 'declaration of %s' % '.'.join(ns), 'content of ' + '.'.join(ns))

    def pairup(self, V, W, why):
        S = self.S
        S.unify(self.idx(V), self.idx(W), self.where, why)
        S.unify(self.elem(V), self.elem(W), self.where, why)

    # ---- main
    def run(self):
        F, T, S = self.F, self.T, self.S
        for b in sorted(F.reachable()):
            self.blk = b
            for I in F.blocks[b]:
                self.where = I.where()
                self.inst(I)
        return self

    def isint(self, ty):
        return ty in ('i32', 'i64')

    def inst(self, I):
        F, T, S = self.F, self.T, self.S
        if I.op == 'store':
            v = I.ops[0]
            x = F.val(v)
            ty = x.ty if x is not None else (F.params[v['a']]['ty'] if 'a' in v else None)
            if ty == 'ptr':
                return
            A = T.addr_of(I.ops[1])
            t = T.term(v)
            if ty is None and t[0] != 'c':
                return
            o = self.spec.conditional_store(self, A)
            if o is not None:
                self.slot(A)
                S.oneof.append((self.term(t), o, self.where, show(A, T)))
                return
            p = self.pair(t) if t[0] in ('or', 'add') else None
            if p is None and t[0] == 'call' and ty == 'i64' and re.search(r'(MinIDQueue)::(pop|peek)$', t[1]):
                return
            if p:
                return
            S.unify(self.slot(A), self.term(t), self.where, 'assignment to ' + show(A, T))
        elif I.op == 'load':
            if self.isint(I.ty):
                self.term(T.term_inst(I))
        elif I.op == 'phi' and self.isint(I.ty):
            for o in I.ops:
                if 'c' in o or 'undef' in o:
                    continue
                S.unify(('phi', F.name, I.i), self.term(T.term(o)), self.where, 'value assigned on one path')
        elif I.op == 'icmp':
            a, b = T.term(I.ops[0]), T.term(I.ops[1])
            if a[0] != 'c' and b[0] != 'c' and F.val(I.ops[0]) is not None and self.isint(F.val(I.ops[0]).ty):
                S.unify(self.term(a), self.term(b), self.where, 'comparison')
                self.counts(self.term(a), b, 'comparison with a count')
                self.counts(self.term(b), a, 'comparison with a count')
        elif I.op == 'ret' and I.ops:
            v = F.val(I.ops[0])
            t = T.term(I.ops[0])
            p = self.pair(t) if t[0] in ('or', 'add') else None
            if p:
                S.unify(('ret', F.name), self.term(p[0]), self.where, 'returned value')
                S.unify(('ret2', F.name), self.term(p[1]), self.where, 'returned value')
            elif v is None or v.ty != 'ptr':
                S.unify(('ret', F.name), self.term(t), self.where, 'returned value')
        elif I.is_call:
            self.call(I)

    def isptr(self, o):
        v = self.F.val(o)
        return (v is not None and v.ty == 'ptr') or ('a' in o and self.F.params[o['a']]['ty'] == 'ptr')

    def call(self, I):
        F, T, S = self.F, self.T, self.S
        n = short(I.dem)
        A = lambda k: T.addr_of(I.ops[k])
        V = lambda k: self.term(T.term(I.ops[k]))
        if n.startswith('llvm.'):
            return
        m = re.match(r'std::vector::(\w+|~?\w+|operator\S+)$', n)
        if m:
            f = m.group(1)
            isbool = 'vector<bool' in I.dem
            if f in ('push_back', 'emplace_back') and len(I.ops) > 1:
                S.unify(self.elem(A(0)), self.ptr_val(I.ops[1]) if self.isptr(I.ops[1]) else V(1), self.where, 'element appended to ' + show(A(0), T))
            elif f == 'resize' and len(I.ops) > 1:
                self.counts(self.idx(A(0)), T.term(I.ops[1]), 'size of ' + show(A(0), T))
                if len(I.ops) > 2 and self.isptr(I.ops[2]):
                    S.unify(self.elem(A(0)), self.ptr_val(I.ops[2]), self.where, 'fill value of ' + show(A(0), T))
            elif f == 'vector':
                if re.search(r'::vector\(unsigned long', I.dem):
                    self.counts(self.idx(A(0)), T.term(I.ops[1]), 'size of ' + show(A(0), T))
                    if len(I.ops) > 3 and self.isptr(I.ops[2]):
                        S.unify(self.elem(A(0)), self.ptr_val(I.ops[2]), self.where, 'fill value of ' + show(A(0), T))
                elif re.search(r'::vector\(std::vector<[^()]*>(&&| const&)', I.dem):
                    self.pairup(A(0), A(1), 'copy')
            elif f in ('operator=', 'swap') and len(I.ops) > 1 and f == 'operator=' and 'initializer_list' not in I.dem:
                self.pairup(A(0), A(1), 'assignment of ' + show(A(0), T))
            elif f in ('operator[]', 'at') and len(I.ops) > 1 and isbool:
                S.unify(self.idx(A(0)), V(len(I.ops) - 1), self.where, 'index of ' + show(A(0), T))
            return
        m = re.match(r'RoutingKit::(MinIDQueue|IDSetMinQueue|TimestampFlags|BitVector|LocalIDMapper|IDMapper)::(\w+)$', n)
        if m:
            c, f = m.groups()
            o = self.whole(I.ops[0], self.FIRST)
            self._seed_obj(o)
            if f == c:            # constructor
                if c in ('MinIDQueue', 'IDSetMinQueue', 'TimestampFlags', 'BitVector') and len(I.ops) > 1 and not self.isptr(I.ops[1]):
                    self.counts(('idx', o), T.term(I.ops[1]), 'size of ' + show(A(0), T))
                elif c in ('MinIDQueue', 'IDSetMinQueue', 'TimestampFlags', 'BitVector') and len(I.ops) > 1:
                    o2 = self.whole(I.ops[1], self.FIRST)
                    self._seed_obj(o2)
                    S.unify(('idx', o), ('idx', o2), self.where, 'copy')
                elif c in ('LocalIDMapper', 'IDMapper') and len(I.ops) == 2:
                    o2 = self.whole(I.ops[1], self.FIRST)
                    self._seed_obj(o2)
                    S.unify(('idx', o), ('idx', o2), self.where, 'mapper of ' + show(A(1), T))
                    S.unify(('elem', o), ('local', o2), self.where, 'mapper of ' + show(A(1), T))
                return
            if f in ('push', 'decrease_key', 'increase_key') and len(I.ops) > 1:
                t = T.term(I.ops[1])
                p = self.pair(t)
                if p:
                    S.unify(('idx', o), self.term(p[0]), self.where, 'id given to ' + show(A(0), T))
                    S.unify(('elem', o), self.term(p[1]), self.where, 'key given to ' + show(A(0), T))
                else:
                    S.unify(('idx', o), self.term(t), self.where, 'id given to ' + show(A(0), T))
            elif f in ('contains_id', 'get_key', 'is_set', 'set', 'reset', 'reset_one', 'set_if', 'reset_if', 'toggle', 'to_local', 'is_global_id_mapped', 'contains') and len(I.ops) > 1:
                S.unify(('idx', o), V(1), self.where, 'id given to %s::%s' % (c, f))
            elif f == 'to_global' and len(I.ops) > 1:
                S.unify(('elem', o), V(1), self.where, 'id given to %s::%s' % (c, f))
            return
        m = re.match(r'RoutingKit::(\w+)$', n)
        if m:
            f = m.group(1)
            sret = 1 if I.d.get('sret') or (I.ops and len(I.ops) and self.returns_vector(I)) else 0
            if f in ('find_arc_given_sorted_head', 'find_arc_or_return_invalid_given_sorted_head') and len(I.ops) == 4:
                N, Ar = self.idx(A(0)), self.elem(A(0))
                S.unify(self.idx(A(1)), Ar, self.where, 'arrays of one graph')
                S.unify(self.elem(A(1)), N, self.where, 'arrays of one graph')
                S.unify(V(2), N, self.where, 'tail node')
                S.unify(V(3), N, self.where, 'head node')
                return
            if f == 'keep_element_of_vector_if' and len(I.ops) == 3:
                o2 = self.whole(I.ops[1], self.FIRST)
                self._seed_obj(o2)
                S.unify(self.idx(A(2)), ('idx', o2), self.where, 'filter of another numbering')
                S.unify(self.elem(A(0)), self.elem(A(2)), self.where, 'filtered elements')
                S.unify(self.idx(A(0)), ('local', o2), self.where, 'filtered numbering')
                return
            if f == 'invert_vector' and len(I.ops) == 3:
                S.unify(self.idx(A(0)), self.elem(A(1)), self.where, 'index of an inverted vector')
                S.unify(self.elem(A(0)), self.idx(A(1)), self.where, 'content of an inverted vector')
                self.counts(self.idx(A(0)), T.term(I.ops[2]), 'size of an inverted vector')
                return
            if f == 'invert_permutation' and len(I.ops) == 2:
                S.unify(self.idx(A(0)), self.elem(A(1)), self.where, 'inverse permutation')
                S.unify(self.elem(A(0)), self.idx(A(1)), self.where, 'inverse permutation')
                return
            if f == 'apply_permutation' and len(I.ops) == 3:
                S.unify(self.idx(A(0)), self.idx(A(1)), self.where, 'applied permutation')
                S.unify(self.elem(A(1)), self.idx(A(2)), self.where, 'applied permutation')
                S.unify(self.elem(A(0)), self.elem(A(2)), self.where, 'applied permutation')
                return
            if f == 'apply_inverse_permutation' and len(I.ops) == 3:
                S.unify(self.idx(A(0)), self.elem(A(1)), self.where, 'applied inverse permutation')
                S.unify(self.idx(A(1)), self.idx(A(2)), self.where, 'applied inverse permutation')
                S.unify(self.elem(A(0)), self.elem(A(2)), self.where, 'applied inverse permutation')
                return
            if f.startswith('apply_permutation_to') and len(I.ops) == 3:
                S.unify(self.idx(A(0)), self.idx(A(2)), self.where, 'renumbered elements')
                S.unify(self.elem(A(2)), self.idx(A(1)), self.where, 'renumbered elements')
                S.unify(self.elem(A(0)), self.elem(A(1)), self.where, 'renumbered elements')
                return
        if I.fn in self.linked:
            G = self.linked[I.fn]
            self.link(I, G)

    def returns_vector(self, I):
        return False

    def link(self, I, callee):
        """call of a function that is analysed in the same group: same kinds on both sides"""
        T = self.T
        for k, o in enumerate(I.ops):
            if k >= len(callee.params):
                break
            if self.isptr(o):
                self.S_links().append((self, T.addr_of(o), callee, k, self.where))
            else:
                t = T.term(o)
                if t[0] != 'c':
                    self.S.unify(('val', callee.name, k), self.term(t), self.where, 'argument %d of %s' % (k, short(callee.dem)))

    def S_links(self):
        return self.S.__dict__.setdefault('links', [])


def solve_links(S, gens):
    """objects passed by pointer: everything the callee reaches through the parameter is what the caller passed"""
    for _ in range(3):
        for (g, addr, callee, k, where) in S.__dict__.get('links', []):
            cg = gens.get(callee.name)
            if cg is None:
                continue
            prm = cg.canon(('arg', k))
            base = addr
            for o in list(cg.objs):
                if not mentions(o, prm):
                    continue
                cand = [addr]
                if addr[0] == 'f':
                    cand.append(addr[1])
                # the address of an object coincides with that of its first member
                for a in cand:
                    c = g.canon(resolve(g, subst(o, prm, a)))
                    ns, _r = g.names(c)
                    g.where = where
                    if c in g.havoc:
                        continue
                    if c in g.objs or a is addr:
                        g.objs.add(c)
                        g._seed(c)
                        S.unify(('idx', c), ('idx', o), where, 'passed to ' + short(callee.dem))
                        S.unify(('elem', c), ('elem', o), where, 'passed to ' + short(callee.dem))
                        break


def resolve(g, t):
    return t


def mentions(t, x):
    if t == x:
        return True
    return isinstance(t, tuple) and any(mentions(y, x) for y in t)


def subst(t, x, y):
    if t == x:
        return y
    if isinstance(t, tuple):
        return tuple(subst(z, x, y) if isinstance(z, tuple) else z for z in t)
    return t
