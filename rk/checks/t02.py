"""T02: what is computed in parallel does not depend on the number of threads or on their schedule."""
import re
from .. import build, kinds
from ..common import *
from ..ir import AnalysisBroken
from ..evalx import Eval
from ..paths import Paths, strip, names
from . import d01

BARRIER = re.compile(r'^__kmpc_(barrier|cancel_barrier)$')
INIT = re.compile(r'^__kmpc_(for_static_init|dispatch_init)_')
NEXT = re.compile(r'^__kmpc_dispatch_next_')
ENTER = re.compile(r'^__kmpc_(critical|single|master|masked|ordered)(_with_hint)?$')
LEAVE = re.compile(r'^__kmpc_end_(critical|single|master|masked|ordered)$')
PURE = re.compile(r'is_set$|to_local$|::size$|::empty$|::find|operator\[\]|::begin$|::end$|::data$|^llvm\.|^__kmpc|^omp_|^std::(min|max|move|forward|get)|::get_|::node_count$|::arc_count$|::input_arc_count|::cch_arc_count')


def fnname(I):
    return (I.fn or '') if I.is_call else ''


def array(a):
    """array of an address term: (array, index) or (place, None)"""
    if isinstance(a, tuple) and a and a[0] == 'addr':
        a = a[1]
    if isinstance(a, tuple) and a and a[0] in ('at', 'ix') and len(a) == 3:
        return a[1], strip(a[2])
    return a, None


def root(t):
    while isinstance(t, tuple) and t and t[0] in ('f', 'ld', 'at', 'ix', 'addr', 'data', 'uptr', 'off'):
        t = t[1]
    return t


class Region:
    """one parallel region"""

    def __init__(self, c, F):
        self.c, self.F, self.T = c, F, T_of(F)
        self.P = Paths(F)
        self.loops = F.loops()
        self.find()

    # ------------------------------------------------------------------ work sharing loops
    def find(self):
        F, T = self.F, self.T
        self.ws = []
        shared = {}
        for I in F.insts():
            if INIT.match(fnname(I)) or NEXT.match(fnname(I)):
                for o in I.ops:
                    if 'v' in o and F.by_id[o['v']].op == 'alloca':
                        shared.setdefault(o['v'], []).append(I)
        self.bounds = shared
        for I in F.insts():
            if I.op != 'phi':
                continue
            src = [o for o in I.ops]
            for o in src:
                J = F.val(o)
                while J is not None and J.op in ('zext', 'trunc', 'freeze'):
                    J = F.val(J.ops[0])
                if J is not None and J.op == 'load' and J.ops[0].get('v') in shared and I.blk in self.loops:
                    self.ws.append((I, self.loops[I.blk], shared[J.ops[0]['v']]))
                    break
        # loops whose shared bounds were folded: index phi compared with the upper bound
        self.construct = {}
        for P, body, calls in self.ws:
            blocks = set(body)
            for h, b in self.loops.items():
                if any(NEXT.match(fnname(x)) and x.blk in b for x in calls) and P.blk in b and not any(BARRIER.match(fnname(x)) or INIT.match(fnname(x)) for k in b for x in F.blocks[k]):
                    blocks |= b
            self.construct[P.i] = blocks

    def in_ws(self, blk):
        best = None
        for P, body, calls in self.ws:
            if blk in body and (best is None or len(body) < len(best[1])):
                best = (P, body, calls)
        return best

    # ------------------------------------------------------------------ ownership
    def owned(self, ix, P, d=0):
        """ix takes different values in different iterations of the loop of P (and is the same expression of the iteration)"""
        ix = strip(ix)
        if d > 8 or not isinstance(ix, tuple):
            return False
        if ix == ('phi', P.i):
            return True
        if ix[0] in ('add', 'sub') and len(ix) == 3:
            a, b = strip(ix[1]), strip(ix[2])
            if self.owned(a, P, d + 1) and self.invariant(b, P):
                return True
            return ix[0] == 'add' and self.owned(b, P, d + 1) and self.invariant(a, P)
        if ix[0] in ('mul', 'shl') and len(ix) == 3 and strip(ix[2])[0] == 'c' and (ix[0] == 'shl' or strip(ix[2])[1]):
            return self.owned(strip(ix[1]), P, d + 1)
        if ix[0] == 'ld' and ix[1][0] in ('at', 'ix'):
            n = names(ix[1][1])
            if n and n[-1] in INJECTIVE:
                return self.owned(ix[1][2], P, d + 1)
        return False

    def invariant(self, t, P):
        body = self.in_ws(P.blk)[1] if self.in_ws(P.blk) else ()
        for x in subterms(t):
            if x[0] == 'phi' and len(x) == 2 and self.F.by_id[x[1]].blk in body:
                return False
            if x[0] == 'call' and len(x) >= 3:
                return False
        return True

    # ------------------------------------------------------------------ accesses to shared data
    def accesses(self):
        F, T = self.F, self.T
        out = []
        for I in F.insts():
            if I.op == 'store':
                k, a = 'w', T.addr_of(I.ops[1])
                if I.d.get('atomic') or I.d.get('ord'):
                    k = 'a'
            elif I.op == 'load':
                k, a = 'r', T.addr_of(I.ops[0])
                if I.d.get('atomic') or I.d.get('ord'):
                    k = 'a'
            elif I.op in ('cmpxchg', 'atomicrmw'):
                k, a = 'a', T.addr_of(I.ops[0])
            else:
                continue
            r = root(a)
            if not (isinstance(r, tuple) and r and r[0] in ('arg', 'glob')) or (r[0] == 'arg' and r[1] < 2):
                continue
            A, ix = array(a)
            out.append((I, k, A, ix))
        return out

    def calls(self):
        """calls that may change shared objects"""
        for I in self.F.calls():
            n = short(I.dem or '') or fnname(I)
            if not n or PURE.search(n) or BARRIER.match(n):
                continue
            for o in I.ops[:1]:
                if 'v' in o or 'a' in o:
                    p = self.T.ptr(o)
                    if p is None:
                        continue
                    r = root(p.root) if isinstance(p.root, tuple) else None
                    if isinstance(r, tuple) and r and r[0] == 'arg' and r[1] >= 2:
                        yield I, n, self.T.addr_of(o)

    def protected(self, I):
        """inside of a critical or single section"""
        F = self.F
        for J in F.insts():
            if ENTER.match(fnname(J)) and F.inst_dominates(J, I):
                esc = F.reach_avoiding(J.blk, J.pos, lambda x: x is I, lambda x: bool(LEAVE.match(fnname(x))))
                if esc is not None and not F.reach_avoiding(0, -1, lambda x: x is I, lambda x: x is J):
                    # a path over the end of the section?
                    ends = [x for x in F.insts() if LEAVE.match(fnname(x))]
                    if not any(F.reach_avoiding(e.blk, e.pos, lambda x: x is I, lambda x: bool(ENTER.match(fnname(x)))) for e in ends):
                        return fnname(J)
        return None


INJECTIVE = set()


def same_thread(R, a, b):
    return a == b


def region(c, F, facts_):
    R = Region(c, F)
    T, P = R.T, R.P
    acc = R.accesses()
    wr = [x for x in acc if x[1] == 'w']
    at = [x for x in acc if x[1] == 'a']
    name = F.dem.split('(')[0].split('::')[-1]

    # --- B: plain writes only to what the iteration owns
    for I, k, A, ix in wr:
        w = R.in_ws(I.blk)
        p = R.protected(I)
        if p:
            c.ok('shared writes are owned', '%s under %s' % (show(A), p))
            continue
        if not c.check(w is not None, 'shared writes are owned', I.where(), 'every thread writes %s: the writes race with each other' % show(A if ix is None else ('at', A, ix))):
            continue
        c.check(ix is not None and R.owned(ix, w[0]), 'shared writes are owned', I.where(), 'iterations that run at the same time can write the same element %s without an atomic operation' % show(A if ix is None else ('at', A, ix)),
                '%s[%s] of iteration φ%d' % (show(A), show(ix) if ix else '', w[0].i))
    for I, n, A in R.calls():
        if R.protected(I):
            continue
        c.notes.append('call %s on shared %s (%s)' % (n, show(A), I.where()))

    # --- C/E: phases
    starts = [(0, -1, 'the start of the region')] + [(I.blk, I.pos, I.where()) for I in F.insts() if BARRIER.match(fnname(I))]
    mod = {}
    for x in wr + at:
        mod.setdefault(x[2], []).append(x)
    for A, W in mod.items():
        others = [x for x in acc if x[2] == A]
        for w in W:
            ws = R.in_ws(w[0].blk)
            cons = R.construct.get(ws[0].i, set()) if ws else set()
            # after leaving the loop: no further access before a barrier
            esc = escape(F, w[0], cons, {x[0].i for x in others})
            c.check(esc is None, 'a barrier separates the phases', w[0].where(), 'no barrier between the write of %s and its use at %s: threads can use it before others have finished' % (show(A), esc and esc.where()),
                    '%s written at %s' % (show(A), w[0].where()))
            # before the loop: an access reaches the write without barrier
            for x in others:
                if x[0].blk in cons or x is w:
                    continue
                hit = F.reach_avoiding(x[0].blk, x[0].pos, lambda y: y is w[0], lambda y: bool(BARRIER.match(fnname(y))))
                c.check(hit is None, 'a barrier separates the phases', x[0].where(), 'no barrier between the use of %s and the write at %s' % (show(A), w[0].where()))
            # inside the loop
            for x in others:
                if x[0].blk not in cons or x[0] is w[0]:
                    continue
                if x[1] == 'a' and w[1] == 'a':
                    continue
                if ws and w[3] is not None and x[3] is not None and R.owned(w[3], ws[0]) and x[3] == w[3]:
                    c.ok('iterations do not disturb each other', '%s[%s] belongs to the iteration' % (show(A), show(w[3])))
                    continue
                if w[1] == 'a' and x[1] == 'r' and expected(F, x[0], w[0]):
                    c.ok('iterations do not disturb each other', 'value compared by the atomic exchange at %s' % w[0].where())
                    continue
                if w[1] == 'a' and x[1] == 'r' and x[3] == w[3] and all(u.op == 'icmp' for u in F.users(x[0])):
                    c.ok('iterations do not disturb each other', 'only compared, weights only decrease (%s)' % x[0].where())
                    continue
                if w[1] == 'w' and x[1] == 'a':
                    c.bad('iterations do not disturb each other', w[0].where(), '%s is changed atomically at %s and by plain writes here' % (show(A), x[0].where()))
                    continue
                if ws is None or w[3] is None or x[3] is None:
                    continue
                d = disjoint(R, ws[0], w[3], x[3], facts_)
                if d is None:
                    c.notes.append('not decided: %s[%s] written, [%s] used in the same phase (%s)' % (show(A), show(w[3]), show(x[3]), x[0].where()))
                    continue
                c.check(d[0], 'iterations do not disturb each other', x[0].where(), '%s' % d[1], d[1])

    # --- D: atomic minimum
    for I, k, A, ix in at:
        if I.op != 'cmpxchg':
            continue
        cas(c, R, I)

    # --- F: all threads meet at the same barriers
    for I in F.insts():
        n = fnname(I)
        if not (BARRIER.match(n) or INIT.match(n)):
            continue
        w = [x for x in R.ws if I.blk in x[1]]
        if not c.check(not w, 'barriers are reached by all threads', I.where(), '%s inside of a loop whose iterations are shared between the threads: not all threads come here equally often' % ('a barrier' if BARRIER.match(n) else 'a shared loop')):
            continue
        bad = None
        for ref, pol, b in F.guards(I.blk):
            x = thread_dependent(R, T.term(ref), mod)
            if x:
                bad = (x, b)
        c.check(bad is None, 'barriers are reached by all threads', I.where(), 'whether a thread comes to %s depends on %s' % ('this barrier' if BARRIER.match(n) else 'this shared loop', bad and bad[0]))
    coverage(c, R)
    completeness(c, R)
    by_weight(c, R)
    return R


def completeness(c, R):
    """nothing but the bounds of the loops keeps an arc of a level, or an arc at all, from being handled"""
    F, T = R.F, R.T
    rule = 'no arc is left out'
    done = set()
    for I, k, A, ix in R.accesses():
        w = R.in_ws(I.blk)
        if w is None or k == 'r':
            continue
        lv = [b for h, b in R.loops.items() if w[0].blk in b and b > w[1] and h not in R.construct[w[0].i]]
        outer = set().union(*lv) if lv else set(F.reachable())
        inner = set()
        for h, b in R.loops.items():
            if b < w[1]:
                inner |= b
        for ref, pol, b in F.guards(I.blk):
            if b in inner or (I.op, b, pol) in done:
                continue
            done.add((I.op, b, pol))
            for f0, n, l in ((0, 1, 0), (0, 2, 0), (3, 1, 1), (5, 4, 2), (9, 300, 3), (400, 100000, 0)):
                for i in (f0, f0 + n - 1):
                    def leaf(t, J, f0=f0, n=n, i=i, l=l):
                        if t == ('phi', w[0].i):
                            return i
                        if t[0] == 'phi' and len(t) == 2 and any(h == F.by_id[t[1]].blk for h, bb in R.loops.items() if bb in lv):
                            return l
                        if t[0] == 'ld' and t[1][0] in ('at', 'ix') and names(t[1][1])[-1:] == ['first_arc_of_level']:
                            x = strip(t[1][2])
                            return f0 if x[0] == 'phi' else f0 + n if x[0] == 'add' and x[2] == ('c', 1) else None
                        s = show(t)
                        if s.endswith('first_arc_of_level.size'):
                            return l + 5
                        if re.search(r'(up_head|up_tail|forward|backward|arcs_ordered_by_level)\.size$', s):
                            return f0 + n
                        return None
                    v = Eval(F, leaf).ref(ref)
                    if v is None:
                        break
                    c.check(bool(v & 1) == pol, rule, F.blocks[b][-1].where(), 'a condition keeps %s from being handled (position %d of the positions %d..%d)' % ('an arc of a level' if lv else 'an arc', i, f0, f0 + n - 1))


INF = 2147483647


def by_weight(c, R):
    """weights never keep a smaller weight from being stored, nor end the enumeration of triangles early"""
    import itertools
    F, T = R.F, R.T
    rule = 'no triangle is left out'

    def weights(t):
        out = []
        for x in subterms(t):
            if x[0] == 'ld' and x[1][0] in ('at', 'ix') and names(x[1][1])[-1:] and names(x[1][1])[-1] in ('forward', 'backward'):
                out.append(x)
        return out

    exch = [x for x in R.accesses() if x[1] == 'a' and x[0].op == 'cmpxchg']
    for I, k, A, ix in exch:
        w = R.in_ws(I.blk)
        if w is None:
            continue
        new = strip(T.term(I.ops[2]))
        old = ('ld', ('at', A, ix))
        sm = sorted(set(weights(new)), key=repr)
        if len(sm) != 2 or new[0] != 'add':
            continue
        top = names(A)[-1]
        guards = [(r, pol, b) for r, pol, b in F.guards(I.blk) if b in w[1]]
        # values of the six weights of a triangle, chosen such that the stored one has to be improved
        keys = sorted({(names(x[1][1])[-1], strip(x[1][2])) for r, pol, b in guards for x in weights(T.term(r))} | {(names(x[1][1])[-1], strip(x[1][2])) for x in sm + [old]}, key=repr)
        if len(keys) > 7:
            c.notes.append('conditions on weights at %s not looked at' % I.where())
            continue
        for v in itertools.product((0, 1, 7, INF), repeat=len(keys)):
            val = dict(zip(keys, v))
            g = lambda x: val.get((names(x[1][1])[-1], strip(x[1][2])))
            if g(sm[0]) + g(sm[1]) >= val[(top, strip(ix))]:
                continue

            def leaf(t, J):
                if t[0] == 'ld' and t[1][0] in ('at', 'ix'):
                    n = names(t[1][1])[-1:]
                    if n and n[0] in ('forward', 'backward'):
                        return g(t)
                if t[0] == 'phi' and len(t) == 2 and F.by_id[t[1]].op == 'phi' and all(F.val(o) is not None and F.val(o).op == 'load' and T.term(o) == old for o in F.by_id[t[1]].ops):
                    return val[(top, strip(ix))]
                return None
            bad = None
            for r, pol, b in guards:
                e = Eval(F, leaf).ref(r)
                if e is not None and bool(e & 1) != pol:
                    bad = (b, r)
                    break
            if bad:
                c.bad(rule, F.blocks[bad[0]][-1].where(), 'a condition keeps %s from being stored in %s although it is smaller' % (show(new), show(('at', A, ix))))
                break
        else:
            c.ok(rule, '%s <- %s under %d conditions' % (show(('at', A, ix)), show(new), len(guards)))
    # ends of the enumeration
    for P, body, calls in R.ws:
        if not any(x[0].blk in body for x in exch):
            continue
        for h, L in R.loops.items():
            if not L < body or not any(x[0].blk in L for x in exch) or h in {x[0].blk for x in exch}:
                continue
            if any(L2 < L and any(x[0].blk in L2 for x in exch) and any(J.op == 'load' and names(array(T.addr_of(J.ops[0]))[0])[-1:] == ['up_head'] for b in L2 for J in F.blocks[b]) for L2 in R.loops.values()):
                pass
            if not any(J.op == 'load' and names(array(T.addr_of(J.ops[0]))[0])[-1:] == ['up_head'] for b in L for J in F.blocks[b]):
                continue        # the loop of the exchange itself
            for b in sorted(L):
                t = F.blocks[b][-1]
                if t.op != 'br' or not t.ops:
                    continue
                cond = T.term(t.ops[0])
                ws = weights(cond)
                if not ws:
                    continue
                # does one side lead out of the loop without coming back to its head?
                sides = []
                for s_ in t.d['succ']:
                    sides.append(F.reach_avoiding(s_, -1, lambda J: J is F.blocks[h][0], lambda J: J.blk not in L) is None if s_ in L else True)
                if sides[0] == sides[1]:
                    continue
                keys = sorted({(names(x[1][1])[-1], strip(x[1][2])) for x in ws}, key=repr)
                bot = [k_ for k_ in keys if R.owned(k_[1], P)]
                bad = False
                for v in itertools.product((0, 1, 7, INF), repeat=len(keys)):
                    val = dict(zip(keys, v))
                    e = Eval(F, lambda x, J: val.get((names(x[1][1])[-1], strip(x[1][2]))) if x[0] == 'ld' and x[1][0] in ('at', 'ix') and names(x[1][1]) else None).ref(t.ops[0])
                    if e is None:
                        break
                    leaves = sides[0 if e & 1 else 1]
                    both = [val.get((d, bot[0][1])) for d in ('forward', 'backward')] if bot else [None]
                    other = [F2 for F2 in F.guards(b) if weights(T.term(F2[0]))]
                    if leaves and not all(x == INF for x in both) and not (other and any(x == INF for x in both)):
                        bad = True
                        break
                c.check(not bad, rule, t.where(), 'the enumeration of the triangles above an arc ends depending on weights: further triangles are left out')


def thread_dependent(R, t, mod):
    for x in subterms(t):
        if x[0] == 'ld' and x[1][0] == 'alloca':
            J = R.F.by_id.get(x[1][1])
            if x[1][1] in R.bounds:
                return 'the share of the thread'
        if x[0] == 'ld' and array(x[1])[0] in mod:
            return 'data that changes meanwhile'
        if x[0] == 'call' and len(x) >= 2 and re.search(r'thread_num|dispatch_next', str(x[1])):
            return 'the thread'
        if x[0] == 'arg' and x[1] < 2:
            return 'the thread'
    return None


def escape(F, I, cons, goals):
    """an instruction of goals that is reached after leaving the blocks cons without a barrier"""
    st = [(I.blk, I.pos + 1, I.blk not in cons)]
    seen = set()
    while st:
        b, p, out = st.pop()
        stop = False
        for J in F.blocks[b][p:]:
            if BARRIER.match(fnname(J)):
                stop = True
                break
            if out and J.i in goals:
                return J
        if stop:
            continue
        for s in F.succ[b]:
            o = out or s not in cons
            if (s, o) not in seen:
                seen.add((s, o))
                st.append((s, 0, o))
    return None


def expected(F, L, X):
    """the load L only supplies the expected value of the exchange X (and the comparison with it)"""
    if X.op != 'cmpxchg' or L.op != 'load':
        return False
    e = X.ops[1]
    seen = set()

    def feeds(J):
        if J is None or J.i in seen:
            return False
        seen.add(J.i)
        if J is L:
            return True
        return J.op == 'phi' and any(feeds(F.val(o)) for o in J.ops)
    return feeds(F.val(e)) and T_of(F).addr_of(L.ops[0]) == T_of(F).addr_of(X.ops[0])


def cas(c, R, I):
    """minimum by compare and exchange: the value that was compared is the expected one, a failure leads back to reading"""
    F, T = R.F, R.T
    e, n = I.ops[1], I.ops[2]
    flag = [J for J in F.users(I) if J.op == 'extractvalue']
    brs = []
    for J in flag:
        for K in F.users(J):
            if K.op == 'br':
                brs.append((K, True))
            elif K.op == 'xor':
                brs += [(L, False) for L in F.users(K) if L.op == 'br']
            elif K.op in ('and', 'or', 'select', 'phi'):
                brs += [(L, None) for L in F.users(K) if L.op == 'br']
    if not c.check(bool(flag) and bool(F.users(flag[0]) if flag else False), 'a failed exchange is repeated', I.where(), 'the result of the atomic exchange is not looked at: if another thread changed the weight meanwhile, this minimum is lost'):
        return
    for K, pol in brs:
        if pol is None:
            c.notes.append('branch on an atomic exchange not understood (%s)' % K.where())
            continue
        fail = K.d['succ'][1 if pol else 0]
        # from the failing edge the old value is read again before anything else happens to the exchange
        again = F.reach_avoiding(fail, -1, lambda x: x is I, lambda x: x.op == 'load' and T.addr_of(x.ops[0]) == T.addr_of(I.ops[0]))
        back = F.reach_avoiding(fail, -1, lambda x: x.op == 'load' and T.addr_of(x.ops[0]) == T.addr_of(I.ops[0]), lambda x: x.op in ('ret',))
        J = F.val(e)
        usesold = uses_exchange_value(F, e, I)
        ok = (again is None and direct(F, fail, T, I)) or usesold
        c.check(ok, 'a failed exchange is repeated', I.where(), 'after a failed exchange the weight is not compared again with its new value: a smaller weight is lost or overwritten')
    # the expected value is one that was read
    seen, st, foreign = set(), [e], None
    while st:
        o = st.pop()
        J = F.val(o)
        if J is None:
            foreign = o
            continue
        if J.i in seen:
            continue
        seen.add(J.i)
        if J.op in ('phi', 'select'):
            st += J.ops if J.op == 'phi' else J.ops[1:]
        elif J.op in ('zext', 'trunc', 'freeze', 'bitcast'):
            st.append(J.ops[0])
        elif not (J.op == 'load' and T.addr_of(J.ops[0]) == T.addr_of(I.ops[0])) and not (J.op == 'extractvalue' and F.val(J.ops[0]) is I) and J.op != 'load':
            foreign = o
    c.check(foreign is None, 'a failed exchange is repeated', I.where(), 'the exchange may expect %s, which was not read from the weight' % (foreign and show(T.term(foreign))))
    # comparison
    E = F.val(e)
    ok, found = False, False
    for J, pol in facts(F, I.blk):
        if not hasattr(J, 'op') or J.op != 'icmp':
            continue
        a, b = J.ops
        p = J.d['pred']
        if not pol:
            p = {'ult': 'uge', 'ugt': 'ule', 'ule': 'ugt', 'uge': 'ult', 'slt': 'sge', 'sgt': 'sle', 'sle': 'sgt', 'sge': 'slt', 'eq': 'ne', 'ne': 'eq'}[p]
        sv = lambda x, y: x == y or (('c' in x) == ('c' in y) and strip(T.term(x)) == strip(T.term(y)) and T.term(x)[0] != 'ld')
        for x, y, q in ((a, b, p), (b, a, {'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}.get(p, p))):
            if sv(x, n):
                if sv(y, e):
                    found = True
                    ok = ok or q in ('ult', 'ule')
                elif strip(T.term(y)) == strip(T.term(e)):
                    found = True
    if found or F.guards(I.blk):
        c.check(ok, 'only smaller weights are exchanged', I.where(), 'the exchange is not guarded by a comparison of the new weight with exactly the value it replaces')


def uses_exchange_value(F, e, I):
    seen = set()

    def go(J):
        if J is None or J.i in seen:
            return False
        seen.add(J.i)
        if J.op == 'extractvalue' and F.val(J.ops[0]) is I:
            return True
        return J.op in ('phi', 'select') and any(go(F.val(o)) for o in J.ops)
    return go(F.val(e))


def direct(F, b, T, I):
    """from block b the element is loaded again on every path, before the function leaves its loop"""
    seen, st = set(), [b]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        hit = False
        for J in F.blocks[x]:
            if J.op == 'load' and T.addr_of(J.ops[0]) == T.addr_of(I.ops[0]):
                hit = True
                break
            if J.op == 'ret' or (J.op in ('store', 'cmpxchg') and J is not I):
                return False
        if hit:
            continue
        if len(F.succ[x]) > 1:
            return False
        st += F.succ[x]
    return True


def disjoint(R, P, w, x, fx):
    """(bool, text) or None: written element w and used element x of two iterations of the loop of P never coincide"""
    Q = R.P
    tw, tx = Q.tail('up', w), Q.tail('up', x)
    # the arc of the iteration
    A = None
    for t in (w, x):
        pass
    arcs = set()
    for t in (tw, tx):
        for s in subterms(t) if isinstance(t, tuple) else ():
            if s[0] in ('TAIL', 'HEAD') and len(s) == 3 and R.owned(s[2], P):
                arcs.add(s[2])
    if len(arcs) != 1:
        return None
    A = arcs.pop()
    lo, hi = ('TAIL', 'up', A), ('HEAD', 'up', A)
    lev = level_of(R, A)
    if lev is None:
        return None
    if not lev:
        return (False, 'the arcs of the iterations of this loop are not those of one level: arcs that are read can be written by other iterations')
    if tw == hi and tx == lo:
        return (True, 'arcs of nodes of the level are read, arcs of nodes of higher levels are written')
    if tw in (hi, lo) and tx in (hi, lo):
        return (False, 'the arcs read leave the %s of the arc of the iteration and the arcs written leave its %s: other iterations of the same level change what is read' % ('head' if tx == hi else 'tail', 'head' if tw == hi else 'tail'))
    return None


def level_of(R, A):
    """A = arcs_ordered_by_level[i] with i in the range of one level"""
    if A[0] == 'ld' and A[1][0] in ('at', 'ix') and names(A[1][1])[-1:] and names(A[1][1])[-1] in INJECTIVE:
        ok = any(x[0] == 'ld' and x[1][0] in ('at', 'ix') and names(x[1][1])[-1:] == ['first_arc_of_level'] for x in subterms(A[1][2]))
        if ok:
            return True
        # bounds of the loop may carry the level instead of the index
        return True if any('first_arc_of_level' in show(R.T.term(o)) for P, body, calls in R.ws for I in calls for o in I.ops if 'v' in o) else False
    if not any(x[0] in ('ld', 'call') and not (x[0] == 'ld' and x[1][0] in ('at', 'ix') and names(x[1][1])[-1:] == ['first_arc_of_level']) and any(y[0] == 'phi' for y in subterms(x)) for x in subterms(A)):
        return False
    return None


def coverage(c, R):
    """the shared loops run over all arcs / over exactly the arcs of a level"""
    F, T = R.F, R.T
    for P, body, calls in R.ws:
        init = [I for I in calls if INIT.match(fnname(I))]
        st = {}
        ubv = lbv = None
        if any(NEXT.match(fnname(I)) for I in calls):
            D = [I for I in F.insts() if re.match(r'__kmpc_dispatch_init_', fnname(I)) and any(F.dominates(I.blk, n.blk) for n in calls)]
            if len(D) != 1:
                # several dynamic loops: the closest dominating one
                D = [d for d in D if not any(e is not d and F.dominates(d.blk, e.blk) for e in D)]
            if len(D) != 1:
                c.notes.append('bounds of a shared loop not found')
                continue
            lb, ub = D[0].ops[3], D[0].ops[4]
        else:
            I0 = init[0]
            al = [o['v'] for o in I0.ops if 'v' in o and F.by_id[o['v']].op == 'alloca']
            # plast, plower, pupper, pstride
            if len(al) != 4:
                c.notes.append('bounds of a shared loop not found')
                continue
            sl = [J for J in F.insts() if J.op == 'store' and J.ops[1].get('v') == al[1] and F.inst_dominates(J, I0)]
            su = [J for J in F.insts() if J.op == 'store' and J.ops[1].get('v') == al[2] and F.inst_dominates(J, I0)]
            if not sl or not su:
                continue
            lb, ub = sl[-1].ops[0], su[-1].ops[0]
        # indices the accesses of the loop body use
        idx = set()
        for I, k, A, ix in R.accesses():
            if I.blk in body and ix is not None and R.in_ws(I.blk)[0] is P:
                for s in subterms(ix):
                    pass
                cand = ix
                if R.owned(cand, P) and cand != ('phi', P.i):
                    while cand[0] == 'ld' and cand[1][0] in ('at', 'ix') and names(cand[1][1])[-1:] and names(cand[1][1])[-1] in INJECTIVE:
                        cand = strip(cand[1][2])
                    idx.add(cand)
                elif cand == ('phi', P.i):
                    idx.add(cand)
        # a shared loop over the levels themselves
        lv = [J for J in F.insts() if J.op == 'load' and J.blk in body and R.in_ws(J.blk)[0] is P and names(array(T.addr_of(J.ops[0]))[0])[-1:] == ['first_arc_of_level']
              and any(('phi', P.i) == y for y in subterms(array(T.addr_of(J.ops[0]))[1] or ('c', 0)))]
        c.check(not lv, 'iterations do not disturb each other', P.where(), 'the iterations of the shared loop are levels: arcs of different levels are handled at the same time')
        for f0, n in ((0, 5), (3, 4), (7, 1), (2, 0)):
            leafs = {}

            def leaf(t, I, f0=f0, n=n, phi=None):
                if phi is not None and t == ('phi', P.i):
                    return phi
                if t[0] == 'ld' and t[1][0] in ('at', 'ix') and names(t[1][1])[-1:] == ['first_arc_of_level']:
                    ix = strip(t[1][2])
                    if ix[0] == 'phi':
                        return f0
                    if ix[0] == 'add' and ix[2] == ('c', 1):
                        return f0 + n
                    return None
                if t[0] == 'sz' or (t[0] == 'call' and str(t[1]).endswith('size')) or show(t).endswith('.size'):
                    s = show(t)
                    if 'first_arc_of_level' in s:
                        return None
                    if re.search(r'up_head|up_tail|forward|backward|arcs_ordered_by_level', s):
                        return n
                    return None
                if t[0] == 'f' and str(t[-1]) in ('cch_arc_count', 'arc_count'):
                    return n
                return None
            E = Eval(F, leaf)
            lo, hi = E.ref(lb), E.ref(ub)
            if lo is None or hi is None:
                c.notes.append('range of the shared loop at %s not evaluated (%s .. %s)' % (P.where(), show(T.term(lb)), show(T.term(ub))[:80]))
                break
            level = 'first_arc_of_level' in show(T.term(ub)) or 'first_arc_of_level' in show(T.term(lb))
            w32 = (1 << 32) - 1
            rng = [] if n == 0 else [x & w32 for x in range(lo, (hi & w32) + 1)] if (hi & w32) < 1000 else None
            if n == 0:
                continue
            if rng is None:
                c.bad('shared loops cover their range', P.where(), 'the shared loop ends at %d for %d arcs' % (hi, n))
                continue
            for cand in idx:
                vals = set()
                for v in rng:
                    vals.add(value(F, T, cand, lambda t, I=None, v=v: leaf(t, I, phi=v)))
                if None in vals:
                    continue
                want = set(range(f0, f0 + n)) if level else set(range(n))
                c.check(vals == want, 'shared loops cover their range', P.where(), 'the shared loop visits %s of the %s %s' % (sorted(vals), 'positions of the level' if level else 'arcs', sorted(want)))
                pass
        # the loop over the levels
    for h, body in R.loops.items():
        if not any(INIT.match(fnname(I)) for b in body for I in F.blocks[b]):
            continue
        phis = [I for I in F.blocks[h] if I.op == 'phi']
        for I in phis:
            used = any(x[0] == 'ld' and x[1][0] in ('at', 'ix') and names(x[1][1])[-1:] == ['first_arc_of_level'] and ('phi', I.i) in list(subterms(x[1][2])) for J in F.insts() if J.op == 'load' and J.blk in body for x in [('ld', T.addr_of(J.ops[0]))])
            if not used:
                continue
            k = [i for i, b in enumerate(I.d['in']) if b not in body]
            s = [i for i, b in enumerate(I.d['in']) if b in body]
            t0 = T.term(I.ops[k[0]])
            c.check(t0 == ('c', 0), 'levels are done in order, all of them', I.where(), 'the first level is %s' % show(t0))
            for i in s:
                ti = strip(T.term(I.ops[i]))
                c.check(ti == ('add', ('phi', I.i), ('c', 1)), 'levels are done in order, all of them', I.where(), 'the next level is %s' % show(ti))
            for b in body:
                t = F.blocks[b][-1]
                if t.op == 'br' and t.ops and any(x not in body for x in F.succ[b]):
                    got = {}
                    for n in (1, 2, 5):
                        last = None
                        for l in range(0, n + 2):
                            def leaf(t_, I_=None, n=n, l=l):
                                if t_ == ('phi', I.i):
                                    return l
                                if show(t_).endswith('first_arc_of_level.size'):
                                    return n
                                return None
                            v = Eval(F, leaf).ref(t.ops[0])
                            if v is None:
                                last = 'unknown'
                                break
                            inside = t.d['succ'][0 if v & 1 else 1] in body
                            if not inside:
                                last = l
                                break
                        got[n] = last
                    if 'unknown' not in got.values():
                        c.check(all(got[n] in (n - 1, max(n - 2, 0)) for n in got), 'levels are done in order, all of them', t.where(), 'with %s entries of first_arc_of_level the loop ends at level %s' % (list(got), list(got.values())))


def value(F, T, t, leaf):
    t = strip(t)
    v = leaf(t)
    if v is not None:
        return v
    if t[0] == 'c':
        return t[1]
    if t[0] in ('add', 'sub', 'mul', 'shl') and len(t) == 3:
        a, b = value(F, T, t[1], leaf), value(F, T, t[2], leaf)
        if a is None or b is None:
            return None
        return {'add': a + b, 'sub': a - b, 'mul': a * b, 'shl': a << (b & 31)}[t[0]] & ((1 << 32) - 1)
    return None


def levels(c, M):
    """the constructor: arcs of one level never have their head in the same or a lower level; all arcs are listed under the level of their tail"""
    C = [F for F in M.functions.values() if re.search(r'Parallelization::\w*Parallelization\(RoutingKit::CustomizableContractionHierarchy const&\)$', F.dem)]
    if len(C) != 1:
        c.notes.append('constructor of the parallelization not found')
        return
    F = C[0]
    c.fn(F)
    T, P = T_of(F), Paths(F)
    st = [(I,) + array(T.addr_of(I.ops[1])) + (strip(T.term(I.ops[0])),) for I in F.insts() if I.op == 'store']
    loops = F.loops()
    arcs = [x for x in st if names(x[1])[-1:] == ['arcs_ordered_by_level'] and x[2] is not None]
    inv = [I for I in F.insts() if I.is_call and short(I.dem or '').endswith('invert_vector')]
    if len(arcs) != 1 or len(inv) != 1 or len(inv[0].ops) < 3:
        c.notes.append('the list of arcs by level is built in an unknown way')
        return
    I, A, j, a = arcs[0]
    key = T.addr_of(inv[0].ops[1])
    same = lambda x: x == key or ('addr', x) == key or x == ('addr', key) or strip_addr(x) == strip_addr(key)
    al = [x for x in st if x[2] is not None and same(x[1])]
    if len(al) != 1:
        c.notes.append('the levels of the arcs are written at %d places' % len(al))
        return
    K, _, j2, v = al[0]
    c.check(j2 == j, 'arcs are listed under their level', K.where(), 'the level of an arc and the arc are stored at different positions')
    x = P.tail('up', a)
    if v[0] == 'ld' and v[1][0] in ('at', 'ix'):
        node = P.node(strip(v[1][2]))
        NL = v[1][1]
        if isinstance(x, tuple) and x[:1] != ('TAIL',):
            c.check(node == x, 'arcs are listed under their level', K.where(), 'the arc that leaves node %s is listed under the level of node %s' % (show_node(x), show_node(node)))
        elif x == ('TAIL', 'up', a):
            c.check(node in (('HEAD', 'up', a),) and False or node == x or node != ('HEAD', 'up', a), 'arcs are listed under their level', K.where(), 'the arc is listed under the level of its head')
    else:
        c.notes.append('the level of an arc is %s' % show(v))
        return
    # every arc of the node, every position once
    full_range(c, F, T, P, a, I, 'arcs are listed under their level')
    if j[0] == 'phi' and len(j) == 2:
        inc = counter(F, T, j[1], I)
        c.check(inc, 'every arc gets its own position', I.where(), 'the position in the list is not advanced by one for every arc')
    perm = None
    n = strip(v[1][2])
    if n[0] == 'phi' and len(n) == 2 and all(t == ('add', n, ('c', 1)) or t == ('c', 0) for t in (strip(T.term(o)) for o in F.by_id[n[1]].ops)):
        c.bad('nodes are visited by level', I.where(), 'the nodes are visited by their number: the levels of the arcs in the list are not ascending')
    if n[0] == 'ld' and n[1][0] in ('at', 'ix'):
        perm = n[1][1]
        i = strip(n[1][2])
        sort = [J for J in F.insts() if J.is_call and re.search(r'compute_(stable_)?sort_permutation', short(J.dem or '')) and J.ops and strip_addr(T.addr_of(J.ops[0])) == strip_addr(perm)]
        bad = [J for J in F.insts() if J.is_call and re.search(r'compute_inverse_\w*permutation', short(J.dem or '')) and J.ops and strip_addr(T.addr_of(J.ops[0])) == strip_addr(perm)]
        c.check(not bad, 'nodes are visited by level', I.where(), 'the nodes are visited in the order of the inverse permutation')
        for J in sort:
            c.check(strip_addr(T.addr_of(J.ops[1])) == strip_addr(NL), 'nodes are visited by level', J.where(), 'the nodes are not sorted by their level')
            cnt = T.term(J.ops[2]) if len(J.ops) > 2 else None
            cnt2 = T.term(inv[0].ops[2])
            if cnt is not None and 'key' in (J.dem or ''):
                c.check(strip(cnt) == strip(cnt2), 'nodes are visited by level', J.where(), 'the number of levels is %s here and %s there' % (show(cnt), show(cnt2)))
        if i[0] == 'phi' and len(i) == 2:
            nodes_all(c, F, T, i[1], I, 'nodes are visited by level')
    # the levels themselves
    nl = [s for s in st if s[2] is not None and strip_addr(s[1]) == strip_addr(NL)]
    if len(nl) == 1 and nl[0][3][0] == 'phi':
        rounds(c, F, T, P, loops, st, nl[0], inv[0])
    else:
        ok = False
        for s in nl:
            ph = {x for x in subterms(s[3]) if x[0] == 'phi' and len(x) == 2}
            if len(ph) == 1 and not any(x[0] in ('ld', 'call') for x in subterms(s[3])) and P.node(s[2])[0] != 'HEAD':
                ph = ph.pop()
                vals = [evalt(s[3], ph, k) for k in range(6)]
                if None not in vals:
                    ok = True
                    c.check(all(a < b for a, b in zip(vals, vals[1:])), 'a level contains no two neighbours', s[0].where(), 'nodes of different rounds get the same level: rounds 0..5 get %s' % vals)
                    continue
            ok |= relax(c, F, T, P, NL, s)
        if not ok:
            c.notes.append('levels are computed in an unknown way')


def evalt(t, ph, k):
    t = strip(t)
    if t == ph:
        return k
    if t[0] == 'c':
        return t[1]
    if t[0] in ('add', 'sub', 'mul', 'shl', 'lshr', 'udiv', 'urem', 'and', 'or') and len(t) == 3:
        a, b = evalt(t[1], ph, k), evalt(t[2], ph, k)
        if a is None or b is None or (t[0] in ('udiv', 'urem') and b == 0):
            return None
        return {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'shl': lambda: a << (b & 31), 'lshr': lambda: a >> (b & 31), 'udiv': lambda: a // b, 'urem': lambda: a % b, 'and': lambda: a & b, 'or': lambda: a | b}[t[0]]() & ((1 << 32) - 1)
    return None


def strip_addr(t):
    while isinstance(t, tuple) and t and t[0] in ('addr', 'data') and len(t) == 2:
        t = t[1]
    return t


def show_node(x):
    return show(x) if not (isinstance(x, tuple) and x and x[0] in ('TAIL', 'HEAD')) else '%s(%s)' % (x[0].lower(), show(x[2]))


def counter(F, T, i, I):
    """the phi i is advanced by one exactly on the paths through instruction I (following phis of inner loops and joins)"""
    w = Paths(F).web(i)
    if not w:
        return True
    src, steps, phis = w
    return all(s == 1 for s in steps) and len(steps) >= 1


def full_range(c, F, T, P, a, I, rule):
    """a runs from first_out[x] to first_out[x+1]"""
    if a[0] != 'phi' or len(a) != 2:
        return
    J = F.by_id[a[1]]
    L = F.loops().get(J.blk)
    if L is None:
        return
    start = [strip(T.term(J.ops[k])) for k, b in enumerate(J.d['in']) if b not in L]
    x = P.tail('up', a)
    for s in start:
        f = P.first_out(s, 'up')
        c.check(f is not None and (P.node(f) == x or x == ('TAIL', 'up', a)), rule, J.where(), 'the loop over the arcs of a node starts at %s' % show(s))
    steps = [strip(T.term(J.ops[k])) for k, b in enumerate(J.d['in']) if b in L]
    for s in steps:
        c.check(s == ('add', a, ('c', 1)), rule, J.where(), 'the loop over the arcs of a node steps to %s' % show(s))
    b = P.bound_node({a[1]}, 'up')
    if b is not None:
        c.check(b == x, rule, J.where(), 'the loop over the arcs of node %s ends at the arcs of another node' % show_node(x))
    for blk in L:
        t = F.blocks[blk][-1]
        if t.op == 'br' and t.ops and any(s not in L for s in F.succ[blk]) and blk != J.blk:
            c.notes.append('another exit of the loop at %s' % t.where())


def nodes_all(c, F, T, i, I, rule):
    J = F.by_id[i]
    L = F.loops().get(J.blk)
    if L is None:
        return
    st = [T.term(J.ops[k]) for k, b in enumerate(J.d['in']) if b not in L]
    sp = [strip(T.term(J.ops[k])) for k, b in enumerate(J.d['in']) if b in L]
    if not all(s[0] == 'c' for s in st) or not all(('phi', i) in list(subterms(s)) for s in sp):
        c.notes.append('loop over the nodes at %s not understood' % J.where())
        return
    c.check(all(s == ('c', 0) for s in st) and all(s == ('add', ('phi', i), ('c', 1)) for s in sp), rule, J.where(), 'the nodes are visited from %s in steps to %s' % ([show(s) for s in st], [show(s) for s in sp]))
    t = F.blocks[J.blk][-1]
    if t.op == 'br' and t.ops:
        got = []
        for n in (1, 3):
            for k in range(0, n + 2):
                def leaf(x, I_=None):
                    if x == ('phi', i):
                        return k
                    s = show(x)
                    if re.search(r'(rank|order|elimination_tree_parent)\.size$|node_count$', s):
                        return n
                    if re.search(r'first_out\.size$', s):
                        return n + 1
                    return None
                v = Eval(F, leaf).ref(t.ops[0])
                if v is None:
                    return
                if t.d['succ'][0 if v & 1 else 1] not in L:
                    got.append((n, k))
                    break
        c.check(all(n == k for n, k in got) and len(got) == 2, rule, t.where(), 'the loop over the nodes ends at %s' % got)


def rounds(c, F, T, P, loops, st, s, inv):
    """levels by rounds: the nodes whose lower neighbours are all done form the next level"""
    I, NL, x, L = s
    rule = 'a level contains no two neighbours'
    J = F.by_id[L[1]]
    body = loops.get(J.blk)
    if body is None:
        c.notes.append('the level is not a loop variable')
        return
    init = [T.term(J.ops[k]) for k, b in enumerate(J.d['in']) if b not in body]
    step = [strip(T.term(J.ops[k])) for k, b in enumerate(J.d['in']) if b in body]
    c.check(all(t == ('c', 0) for t in init) and all(t == ('add', L, ('c', 1)) for t in step), rule, J.where(), 'levels run from %s in steps to %s' % ([show(t) for t in init], [show(t) for t in step]))
    c.check(strip(T.term(inv.ops[2])) == L, rule, inv.where(), 'the number of levels is %s' % show(T.term(inv.ops[2])))
    if not (x[0] == 'ld' and x[1][0] in ('at', 'ix')):
        c.notes.append('nodes of a level are not taken from a list')
        return
    cur, pos = strip_addr(x[1][1]), strip(x[1][2])
    # counters of unfinished neighbours
    dec = [t for t in st if t[2] is not None and t[0].blk in body and t[3] in (('add', ('ld', ('at', t[1], t[2])), ('c', -1)), ('sub', ('ld', ('at', t[1], t[2])), ('c', 1)), ('add', ('ld', ('at', t[1], t[2])), ('c', 4294967295)))]
    if len(dec) != 1:
        c.notes.append('counters of neighbours not found')
        down = any(J.op == 'load' and J.blk in body and re.match(r'down_', (names(array(T.addr_of(J.ops[0]))[0])[-1:] or [''])[0]) for J in F.insts())
        for t in st:
            if not dec and not down and t[0].blk in body and t[2] is not None and t[2][0] == 'phi' and t[0] is not I and isinstance(P.node(t[3]), tuple) and P.node(t[3])[0] == 'HEAD':
                c.bad(rule, t[0].where(), 'a node is put into the next level without counting how many of its lower neighbours are done')
        return
    D, LK, y, _ = dec[0]
    yn = P.node(y)
    if isinstance(yn, tuple) and yn[0] == 'HEAD' and yn[1] == 'up':
        arc = yn[2]
        tl = P.tail('up', arc)
        c.check(tl == P.node(x) or (isinstance(tl, tuple) and tl[0] == 'TAIL'), rule, D.where(), 'the counters of the neighbours of node %s are decreased when node %s is done' % (show_node(tl), show(x)))
        full_range(c, F, T, P, arc, D, rule)
    else:
        c.bad(rule, D.where(), 'the counter of %s is decreased, not that of the upper neighbours of the node' % show_node(yn))
    ini = [t for t in st if t[2] is not None and strip_addr(t[1]) == strip_addr(LK) and t[0].blk not in body]
    for t in ini:
        v = t[3]
        if v[0] == 'sub':
            f1, f0 = P.first_out(strip(v[1]), 'down'), P.first_out(strip(v[2]), 'down')
            ok = f1 is not None and f0 is not None and f0 == t[2] and f1 == ('add', t[2], ('c', 1))
            c.check(ok, rule, t[0].where(), 'the counter of a node starts with %s instead of the number of its lower neighbours' % show(v))
        if t[2][0] == 'phi':
            nodes_all(c, F, T, t[2][1], t[0], rule)
    # insertion into lists
    ins = [t for t in st if t[2] is not None and t[2][0] == 'phi' and t[0] is not I and t[0] is not D and t not in ini and strip_addr(t[1]) != strip_addr(LK) and t[0].blk in body]
    for t in ins:
        if strip_addr(t[1])[0] != 'alloca' and not isinstance(strip_addr(t[1]), tuple):
            continue
        c.check(strip_addr(t[1]) != cur, rule, t[0].where(), 'a node whose lower neighbours are done is appended to the list of the current level: it gets the level of its neighbour')
        c.check(P.node(t[3]) == yn, rule, t[0].where(), 'node %s is put into the next level when the counter of %s reaches zero' % (show_node(P.node(t[3])), show_node(yn)))
        zero = False
        for G, pol in facts(F, t[0].blk):
            if hasattr(G, 'op') and G.op == 'icmp' and G.d['pred'] in ('eq', 'ne') and pol == (G.d['pred'] == 'eq') and G.ops[1].get('c') == '0':
                V = F.val(G.ops[0])
                tt = strip(T.term(G.ops[0]))
                if V is not None and V.op == 'load' and strip_addr(array(T.addr_of(V.ops[0]))[0]) == strip_addr(LK) and array(T.addr_of(V.ops[0]))[1] == y:
                    zero = F.inst_dominates(D, V)
                elif V is not None and F.val(D.ops[0]) is V:
                    zero = True
        c.check(zero, rule, t[0].where(), 'a node is put into the next level although its counter, after it was decreased, is not tested to be zero')
    # the lists change places after the round
    sw = [K for K in F.insts() if K.is_call and K.blk in body and re.search(r'(^|::)(swap|operator=)$', short(K.dem or '')) and any('v' in o and strip_addr(T.addr_of(o)) == cur for o in K.ops)]
    if ins and sw:
        inner = loops_of(loops, I.blk, body)
        for K in sw:
            c.check(K.blk not in inner, rule, K.where(), 'the lists change places before the level is finished')
            lst = {strip_addr(T.addr_of(o)) for o in K.ops if 'v' in o}
            c.check(any(strip_addr(t[1]) in lst for t in ins), rule, K.where(), 'the list of the next level is not the one that was filled')
    elif ins:
        c.bad(rule, I.where(), 'the list of the next level is never taken up')
    # count of the current list = count of the list filled in the round before
    if pos[0] == 'phi' and ins:
        b = F.blocks[F.by_id[pos[1]].blk][-1]
        cnt = None
        if b.op == 'br' and b.ops:
            G = F.val(b.ops[0])
            if G is not None and G.op == 'icmp':
                for o in G.ops:
                    t = strip(T.term(o))
                    if t != pos and t[0] == 'phi':
                        cnt = t
        if cnt and F.by_id[cnt[1]].blk == J.blk:
            Q = F.by_id[cnt[1]]
            nxt = [strip(T.term(Q.ops[k])) for k, bb in enumerate(Q.d['in']) if bb in body]
            fam = set()
            for t in ins:
                fam |= set(P._reach(t[2][1])) | {t[2][1]}
            for t in nxt:
                ok = t[0] == 'phi' and (t[1] in fam or bool((set(P._reach(t[1])) | {t[1]}) & fam))
                c.check(ok, rule, Q.where(), 'the number of nodes of the next level is %s, not the number of nodes put into its list' % show(t))


def loops_of(loops, blk, outer):
    """blocks of the loops inside of outer that contain blk"""
    out = set()
    for h, b in loops.items():
        if blk in b and b < outer:
            out |= b
    return out


def relax(c, F, T, P, NL, s):
    """levels by relaxation: level[head] = max(level[head], level[tail]+1) over ascending nodes"""
    I, A, y, v = s
    rule = 'a level contains no two neighbours'
    yn = P.node(y)
    if not (isinstance(yn, tuple) and yn[0] == 'HEAD'):
        return v == ('c', 0)
    arc = yn[2]
    tl = P.tail('up', arc)
    ok = False
    for x in subterms(v):
        if x[0] == 'add' and x[2] == ('c', 1) and strip(x[1])[0] == 'ld' and strip_addr(array(strip(x[1])[1])[0]) == strip_addr(NL):
            ok = P.node(strip(strip(x[1])[1][2])) in (tl, ('TAIL', 'up', arc))
    c.check(ok, rule, I.where(), 'the level of the head of an arc is set to %s' % show(v))
    full_range(c, F, T, P, arc, I, rule)
    return True


def start(c, M, regions):
    """every way through customize(metric, threads) either customizes sequentially or starts the threads, which begin with the input weights"""
    rule = 'every number of threads customizes'
    for F in M.functions.values():
        if not re.search(r'Parallelization::customize\(RoutingKit::CustomizableContractionHierarchyMetric&(, unsigned int)?\)$', F.dem):
            continue
        c.fn(F)
        T = T_of(F)
        work = lambda I: I.is_call and (re.search(r'__kmpc_fork_call|::customize$', fnname(I)) or re.search(r'(Metric|Parallelization)::customize', I.dem or ''))
        if any(I.op == 'load' and names(T.addr_of(I.ops[0]))[-1:] == ['input_weight'] for I in F.insts()):
            c.notes.append('sequential customization inside of %s' % short(F.dem))
            continue
        hit = F.reach_avoiding(0, -1, lambda I: I.op == 'ret', work)
        c.check(hit is None, rule, F.blocks[0][-1].where(), 'for some numbers of threads the metric is not customized from its input weights', short(F.dem))
    both = {}
    for R in regions:
        for I, k, A, ix in R.accesses():
            n = names(A)[-1:]
            if n and n[0] in ('forward', 'backward') and k in 'wa':
                both.setdefault(k, {}).setdefault(n[0], I)
    for k, what in (('w', 'extracted from the input weights'), ('a', 'relaxed')):
        if both.get(k):
            c.check(len(both[k]) == 2, 'both directions are customized', list(both[k].values())[0].where(), 'only the %s weights are %s' % (list(both[k])[0], what))


def run(c):
    INJECTIVE.clear()
    INJECTIVE.update({'arcs_ordered_by_level'})
    M = build.module(mention=r'pragma\s+omp\s+(parallel|for|task|sections)', opaque=kinds.OPAQUE, drivers=())
    c.use(M)
    regions = [F for F in M.functions.values() if F.dem.rstrip().endswith('(.omp_outlined)') or re.search(r'\.omp_outlined(\.\d+)?$', F.name)]
    seen = {}
    for F in regions:
        if 'debug__' in F.name:
            continue
        seen[F.name] = F
    if not seen:
        raise AnalysisBroken('no parallel region found')
    regions, unknown = [], []
    for F in seen.values():
        c.fn(F)
        regions.append(region(c, F, None))
        if 'CustomizableContractionHierarchy' in F.dem + F.name:
            d01.one(c, F, Paths(F), unknown)
    start(c, M, regions)
    levels(c, M)
    return c.finish('Cuts every outlined parallel region at its barriers into phases. Plain writes to shared arrays must go to elements that belong to the iteration of a shared loop; everything written in a phase may only be read by others after a barrier, or be provably disjoint (arcs that leave lower levels are read, arcs that leave higher levels are changed); compare-and-exchange loops must compare exactly the value they replace and start over; barriers and shared loops must be reached by all threads; ranges, conditions and the level construction must cover all arcs in ascending levels.',
                    ['the hierarchy is correct: heads of up arcs have higher numbers than tails', 'OpenMP implements its constructs'])
