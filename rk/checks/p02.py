"""P02: what the callbacks of the PBF decoder get is what the OSM PBF format says the file contains."""
import re
from .. import build
from ..common import *
from ..evalx import Eval
from ..ir import AnalysisBroken
from ..paths import strip, names

VARINT = re.compile(r'decode_varint')
ZIGZAG = re.compile(r'zigzag')
READ = re.compile(r'BufferedAsynchronousReader::read_or_throw\(')
FIELDS = list(range(0, 24)) + [1000]
WIRES = (0, 1, 2, 5)
TOL = 1e-13

# numbers of the fields in the format (osmformat.proto / fileformat.proto)
BLOCK = dict(strings=1, groups=2, granularity=17, lat_offset=19, lon_offset=20)
GROUP = dict(node=1, dense=2, way=3, relation=4)
NAMES = {('B',): 'block', ('B', 2): 'group', ('B', 2, 1): 'node', ('B', 2, 2): 'dense nodes', ('B', 2, 3): 'way', ('B', 2, 4): 'relation', ('B', 1): 'string table'}


def base(a):
    """key of a variable that is pointed to"""
    if isinstance(a, tuple) and a and a[0] == 'addr':
        a = a[1]
    return a


def sname(p):
    return '.'.join(str(x) for x in p[1:]) if p else '?'


class Prov:
    def __init__(self, F, roots):
        self.F, self.T = F, T_of(F)
        self.roots = roots                      # id of a read_or_throw call -> label
        F, T = self.F, self.T
        self.live = F.reachable()
        self.V = {}                             # id of varint call -> cursor
        self.cur = {}                           # cursor -> calls
        self.st = {}                            # variable -> stores
        for I in F.insts():
            if I.blk not in self.live:
                continue
            if I.is_call and I.dem and VARINT.search(I.dem):
                k = base(T.addr_of(I.ops[0]))
                self.V[I.i] = k
                self.cur.setdefault(k, []).append(I)
            elif I.op == 'store':
                self.st.setdefault(base(T.addr_of(I.ops[1])), []).append(I)
        self.hdr = {}                           # message cursor -> header calls
        for I in F.insts():
            if I.op in ('and', 'lshr', 'switch', 'br', 'icmp'):
                for o in I.ops[:2]:
                    for x in subterms(T.term(o) if 'v' in o else ('c', 0)):
                        pass
            if I.op in ('and', 'lshr', 'udiv', 'urem') and I.blk in self.live:
                t = strip(T.term_inst(I))
                if t[0] in ('and', 'lshr', 'udiv', 'urem') and len(t) == 3 and t[1][0] == 'call' and t[1][2] in self.V and t[2] in (('c', 7), ('c', 3), ('c', 8)):
                    c = F.by_id[t[1][2]]
                    self.hdr.setdefault(self.V[c.i], {})[c.i] = c
        self._reach = {}
        self._paths = {}
        self._busy = set()

    # ------------------------------------------------------------------ one turn of a message loop
    def turn(self, h, k, w):
        """(blocks, edges) that can be reached from the header h of a field with number k and wire type w, before the next header"""
        key = (h.i, k, w)
        if key in self._reach:
            return self._reach[key]
        F = self.F
        val = (k << 3) | w
        me = self.T.term_inst(h)
        blocks, edges = {h.blk}, set()
        ends = []
        st = [h.blk]
        while st:
            b = st.pop()
            for s in self.next(b, lambda t, J: val if t == me else None):
                edges.add((b, s))
                if s == h.blk or (self.loop_head(h) is not None and s == self.loop_head(h)):
                    continue
                if s not in blocks:
                    blocks.add(s)
                    st.append(s)
        self._reach[key] = blocks, edges
        return self._reach[key]

    def loop_head(self, h):
        """head of the innermost loop around h"""
        best = None
        for x, b in self.F.loops().items():
            if h.blk in b and (best is None or len(b) < len(self.F.loops()[best])):
                best = x
        return best

    def next(self, b, leaf):
        F = self.F
        t = F.blocks[b][-1]
        if t.op == 'br' and t.ops and len(t.d['succ']) == 2:
            v = Eval(F, leaf).ref(t.ops[0])
            if v is not None:
                return [t.d['succ'][0 if v & 1 else 1]]
        elif t.op == 'switch':
            v = Eval(F, leaf).ref(t.ops[0])
            if v is not None:
                for c, s in zip(t.d['cases'], t.d['succ'][1:]):
                    if int(c) == v:
                        return [s]
                return [t.d['succ'][0]]
        return F.succ[b]

    def fields(self, X, at, w=None):
        """numbers of the fields of the message of cursor X for which the block or edge `at` is reached"""
        out = set()
        for h in self.hdr[X].values():
            for k in FIELDS:
                for v in WIRES if w is None else (w,):
                    B, E = self.turn(h, k, v)
                    if (at in E) if isinstance(at, tuple) else (at in B):
                        out.add((k, v))
        return out

    def message(self, k):
        return k in self.hdr

    # ------------------------------------------------------------------ pointers
    def where(self, t, at, d=0):
        """parts of the file the pointer t points into (set of paths)"""
        t = strip(t)
        if d > 40 or not isinstance(t, tuple) or not t:
            return set()
        if t[0] in ('addr', 'off', 'ix'):
            return self.where(t[1], at, d + 1)
        if t[0] == 'call':
            I = self.F.by_id.get(t[2])
            return {(self.roots[I.i],)} if I is not None and I.i in self.roots else set()
        if t[0] == 'phi' and len(t) == 2:
            k = ('phi', t[1])
            if k in self._busy:
                return set()
            self._busy.add(k)
            I = self.F.by_id[t[1]]
            out = set()
            if I.op == 'phi':
                for o, b in zip(I.ops, I.d['in']):
                    out |= self.where(self.T.term(o), (b, I.blk), d + 1)
            elif I.op == 'select':
                for o in I.ops[1:]:
                    out |= self.where(self.T.term(o), I.blk, d + 1)
            self._busy.discard(k)
            return out
        if t[0] == 'sel':
            return self.where(t[2], at, d + 1) | self.where(t[3], at, d + 1)
        if t[0] == 'ld':
            k = t[1]
            if self.message(k):
                out = set()
                fs = {f for f, w in self.fields(k, at, 2)}
                for p in self.paths(k):
                    if len(fs) > 12:
                        out.add(p + ('*',))
                    else:
                        out |= {p + (f,) for f in fs}
                return out
            return self.paths(k, d)
        return set()

    def paths(self, k, d=0):
        if k in self._paths:
            return self._paths[k]
        if ('var', k) in self._busy:
            return set()
        self._busy.add(('var', k))
        out = set()
        me = ('ld', k)
        for I in self.st.get(k, []):
            v = self.T.term(I.ops[0])
            if any(x == me for x in subterms(v)):
                continue
            out |= self.where(v, I.blk, d + 1)
        if k not in self.st:
            # element of a list
            V = k
            while V[0] in ('off', 'f', 'at', 'ix'):
                V = V[1]
            for I, vec, val in self.pushes(V):
                out |= self.pushed(I, V, val, d)
        self._busy.discard(('var', k))
        if not [b for b in self._busy]:
            self._paths[k] = out
        return out

    def pushed(self, I, V, val, d=0):
        out = set()
        for kk, ss in self.st.items():
            r = kk
            while r[0] in ('f', 'off'):
                r = r[1]
            if r == val and kk is not V and len(I.ops) == 2:
                for J in ss:
                    out |= self.where(self.T.term(J.ops[0]), J.blk, d + 1)
        if len(I.ops) > 2:
            for o in I.ops[1:]:
                k = base(self.T.addr_of(o))
                dom = [S for S in self.st.get(k, []) if self.F.inst_dominates(S, I)]
                if dom:
                    S = [x for x in dom if not any(y is not x and self.F.inst_dominates(x, y) for y in dom)][-1]
                    out |= self.where(self.T.term(S.ops[0]), I.blk, d + 1)
                else:
                    out |= self.where(('ld', k), I.blk, d + 1)
        return out

    def pushes(self, V=None):
        for I in self.F.calls():
            if I.blk in self.live and re.search(r'vector<.*>::(push_back|emplace_back)', I.dem or '') and len(I.ops) >= 2:
                v = base(self.T.addr_of(I.ops[0]))
                if V is None or v == V:
                    a = base(self.T.addr_of(I.ops[1]))
                    while a[0] in ('f', 'off'):
                        a = a[1]
                    yield I, v, a

    # ------------------------------------------------------------------ numbers
    def label(self, cid, at):
        X = self.V[cid]
        if self.message(X):
            if cid in self.hdr[X]:
                return ('header',)
            fs = {f for f, w in self.fields(X, at, 0)}
            return ('num', frozenset((p + ('*',)) if len(fs) > 12 else p + (f,) for p in self.paths(X) for f in (fs if len(fs) <= 12 else [0])))
        return ('elem', frozenset(self.paths(X)))

    def poly(self, t, at, d=0):
        """polynomial {atoms: coefficient} or None"""
        t = strip(t)
        if d > 60 or not isinstance(t, tuple):
            return None
        R = lambda x: self.poly(x, at, d + 1)
        h = t[0]
        if h == 'c':
            n = t[1]
            return {(): float(n - (1 << 64) if n >= 1 << 63 else n)}
        if h == 'fc':
            try:
                return {(): float(t[1])}
            except ValueError:
                return None
        if h == 'null':
            return {(): 0.0}
        if h in ('add', 'fadd') and len(t) == 3:
            return padd(R(t[1]), R(t[2]))
        if h in ('sub', 'fsub') and len(t) == 3:
            return padd(R(t[1]), pmul(R(t[2]), {(): -1.0}))
        if h in ('mul', 'fmul') and len(t) == 3:
            return pmul(R(t[1]), R(t[2]))
        if h == 'shl' and t[2][0] == 'c':
            return pmul(R(t[1]), {(): float(1 << (t[2][1] & 63))})
        if h == 'fdiv':
            b = R(t[2])
            if b is None or set(b) != {()} or not b[()]:
                return None
            return pmul(R(t[1]), {(): 1.0 / b[()]})
        if h == 'fmuladd' and len(t) == 4:
            return padd(pmul(R(t[1]), R(t[2])), R(t[3]))
        if h == 'fneg':
            return pmul(R(t[1]), {(): -1.0})
        if h in ('sitofp', 'fpext', 'sext', 'zext', 'freeze'):
            return R(t[1])
        if h == 'fptrunc':
            return wrap('single precision', R(t[1]))
        if h == 'uitofp':
            return wrap('unsigned', R(t[1]))
        if h == 'call':
            I = self.F.by_id.get(t[2])
            if I is None:
                return None
            if I.i in self.V:
                return {(self.label(I.i, at),): 1.0}
            if ZIGZAG.search(I.dem or ''):
                x = self.poly(self.T.term(I.ops[0]), at if not isinstance(at, int) or True else I.blk, d + 1)
                return wrap('zigzag', x)
            return {(('call', I.i),): 1.0}
        if h == 'phi' and len(t) == 2:
            return self.phi(t[1], at, d)
        if h == 'ld':
            return {(('mem', t[1]),): 1.0}
        if h in ('and', 'lshr', 'or', 'xor', 'udiv', 'urem', 'ashr', 'sdiv'):
            return wrap(h + (str(t[2][1]) if len(t) > 2 and t[2][0] == 'c' else ''), R(t[1]))
        return None

    def web(self, i):
        """[(term, edge, value is old one)] of the phi i and the phis it is joined with"""
        F, T = self.F, self.T
        phis, out, st = set(), [], [i]
        while st:
            x = st.pop()
            if x in phis:
                continue
            phis.add(x)
            I = F.by_id[x]
            for o, b in zip(I.ops, I.d['in']):
                J = F.val(o)
                if J is not None and J.op == 'phi':
                    st.append(J.i)
                else:
                    out.append((T.term(o), (b, I.blk)))
        return phis, out

    def phi(self, i, at, d):
        I = self.F.by_id[i]
        if I.op != 'phi':
            return {(('phi', i),): 1.0}
        phis, con = self.web(i)
        init, val = [], []
        for t, e in con:
            p = self.poly(t, e, d + 1) if ('phi', i) not in self._busy and not any(x[0] == 'phi' and len(x) == 2 and x[1] in phis for x in subterms(t)) else None
            if p is None:
                return {(('phi', i),): 1.0}
            if set(p) <= {()}:
                init.append(p.get((), 0.0))
            else:
                val.append((p, e))
        ps = {canon(p) for p, e in val}
        if not ps:
            return {(): init[0]} if len(set(init)) == 1 else {(('phi', i),): 1.0}
        if len(ps) != 1:
            return {(('one of', frozenset(ps)),): 1.0}
        return {(('var', tuple(sorted(set(init))), ps.pop(), i),): 1.0}


def padd(a, b):
    if a is None or b is None:
        return None
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0.0) + v
    return {k: v for k, v in r.items() if v != 0.0}


def pmul(a, b):
    if a is None or b is None:
        return None
    r = {}
    for x, v in a.items():
        for y, w in b.items():
            k = tuple(sorted(x + y, key=repr))
            r[k] = r.get(k, 0.0) + v * w
    return {k: v for k, v in r.items() if v != 0.0}


def wrap(h, p):
    if p is None:
        return None
    if set(p) <= {()}:
        return p
    if len(p) == 1 and list(p.values()) == [1.0]:
        k = list(p)[0]
        if len(k) == 1:
            return {((h, k[0]),): 1.0}
    return {((h, canon(p)),): 1.0}


def canon(p):
    return tuple(sorted(p.items(), key=repr))


def subst(p, a, q):
    """p with the atom a replaced by the polynomial q"""
    r = {}
    for k, v in p.items():
        n = k.count(a)
        m = {tuple(x for x in k if x != a): v}
        for _ in range(n):
            m = pmul(m, q)
        r = padd(r, m)
    return r


def flat(p):
    """variables that were read from a field replaced by the field; returns (polynomial, [(initial values, field)])"""
    inits = []
    ch = True
    while ch and p is not None:
        ch = False
        for k in list(p):
            for a in k:
                if a[0] == 'var':
                    inits.append((a[1], dict(a[2]), a[3]))
                    p = subst(p, a, dict(a[2]))
                    ch = True
                    break
                if len(a) == 2 and a[0] in ('unsigned', 'zigzag') and isinstance(a[1], tuple) and a[1] and a[1][0] == 'var':
                    inits.append((a[1][1], dict(a[1][2]), a[1][3]))
                    inner = dict(a[1][2])
                    q = wrap(a[0], inner)
                    if q == {(a,): 1.0}:
                        continue
                    p = subst(p, a, q)
                    ch = True
                    break
            if ch:
                break
    # the granularity is not negative
    if p is not None:
        q = {}
        for k, v in p.items():
            kk = tuple(sorted((a[1] if a[0] == 'unsigned' and a[1] == N(('B', BLOCK['granularity'])) else a for a in k), key=repr))
            q[kk] = q.get(kk, 0.0) + v
        p = q
    return p, inits


def N(path):
    return ('num', frozenset({path}))


def E(path):
    return ('elem', frozenset({path}))


def same(p, q):
    if p is None or q is None:
        return False
    for k in set(p) | set(q):
        a, b = p.get(k, 0.0), q.get(k, 0.0)
        if abs(a - b) > TOL * max(abs(a), abs(b), 1e-300) * 10:
            return False
    return True


def text(p):
    if p is None:
        return 'something else'

    def at(a):
        if a[0] in ('num', 'elem'):
            return 'field %s' % '/'.join(sorted(sname(x) for x in a[1])) if a[1] else 'no field'
        if a[0] == 'var':
            return text(dict(a[2]))
        if len(a) == 2 and isinstance(a[1], tuple) and a[1] and isinstance(a[1][0], str):
            return '%s(%s)' % (a[0], at(a[1]))
        return str(a[0])
    out = []
    for k, v in sorted(p.items(), key=repr):
        out.append('*'.join(([] if v == 1.0 and k else ['%g' % v]) + [at(a) for a in k]))
    return ' + '.join(out) or '0'


# ------------------------------------------------------------------------------------------------ accumulated values
def accumulated(c, P, rule, what, t, I, init, delta):
    """t, at I, is the sum of init and all delta read so far"""
    F, T = P.F, P.T
    f = P.poly(t, I.blk)
    f, ini = flat(f)
    if f is None:
        c.notes.append('%s not understood (%s)' % (what, I.where()))
        return
    defaults(c, P, I, ini)
    acc = [a for k in f for a in k if a[0] in ('phi', 'mem')]
    acc = sorted(set(acc), key=repr)
    if not acc:
        c.bad(rule, I.where(), '%s is %s, not the sum of the differences read so far' % (what, text(f)))
        return
    base_ = padd(f, pmul(delta, {(): -1.0}))
    start, nxt = f, base_
    for a in acc:
        r = recurrence(P, a, I)
        if r is None:
            c.notes.append('%s: recurrence of %s not understood (%s)' % (what, a, I.where()))
            return
        i0, n0, fresh = r
        i0, x1 = flat(i0)
        n0, x2 = flat(n0)
        if i0 is None or n0 is None:
            c.notes.append('%s: recurrence of %s not understood (%s)' % (what, a, I.where()))
            return
        defaults(c, P, I, x1 + x2)
        if fresh is not None:
            c.check(fresh, rule, I.where(), '%s is not set back to its start before the next object is read' % what)
        start = subst(start, a, i0)
        nxt = subst(nxt, a, n0)
    c.check(same(start, padd(init, delta)), rule, I.where(), 'the first %s is %s instead of %s' % (what, text(start), text(padd(init, delta))), '%s starts with %s' % (what, text(init)))
    step = padd(nxt, pmul(base_, {(): -1.0}))
    c.check(same(step, delta), rule, I.where(), '%s changes by %s from one element to the next instead of by %s' % (what, text(step), text(delta)), '%s advances by %s' % (what, text(delta)))


def recurrence(P, a, I):
    """(initial value, next value, set back?)"""
    F, T = P.F, P.T
    if a[0] == 'phi':
        J = F.by_id[a[1]]
        L = F.loops().get(J.blk)
        if J.op != 'phi' or L is None:
            return None
        ins = [(o, b) for o, b in zip(J.ops, J.d['in']) if b not in L]
        bk = [(o, b) for o, b in zip(J.ops, J.d['in']) if b in L]
        P._busy.add(('phi', J.i))
        i0 = [P.poly(T.term(o), (b, J.blk)) for o, b in ins]
        n0 = [P.poly(T.term(o), (b, J.blk)) for o, b in bk]
        P._busy.discard(('phi', J.i))
        if None in i0 or None in n0 or len({canon(x) for x in i0}) != 1 or len({canon(x) for x in n0}) != 1:
            return None
        return i0[0], n0[0], None
    k = a[1]
    loops = [(h, L) for h, L in F.loops().items() if I.blk in L]
    if not loops:
        return None
    h, L = min(loops, key=lambda x: len(x[1]))
    inn = [S for S in P.st.get(k, []) if S.blk in L]
    out = [S for S in P.st.get(k, []) if S.blk not in L]
    if len(inn) != 1 or len(out) < 1:
        return None
    i0 = [P.poly(T.term(S.ops[0]), S.blk) for S in out]
    if None in i0 or len({canon(x) for x in i0}) != 1:
        return None
    n0 = P.poly(T.term(inn[0].ops[0]), inn[0].blk)
    ids = {S.i for S in out}
    esc = F.reach_avoiding(I.blk, I.pos, lambda x: x.blk == h and leftloop(F, x, h), lambda x: x.i in ids) if False else again(F, L, h, ids)
    return i0[0], n0, not esc


def again(F, L, h, ids):
    """the loop can be left and entered again without executing one of ids"""
    st = [s for b in L for s in F.succ[b] if s not in L]
    seen = set(st)
    while st:
        b = st.pop()
        if any(x.i in ids for x in F.blocks[b]):
            continue
        for s in F.succ[b]:
            if s in L:
                if s == h:
                    return True
                continue
            if s not in seen:
                seen.add(s)
                st.append(s)
    return False


def defaults(c, P, I, ini):
    for init, p, w in ini:
        carried(c, P, I, p, w)
        if len(p) == 1:
            (k, v), = p.items()
            if len(k) == 1 and k[0][0] == 'num' and len(k[0][1]) == 1:
                path = list(k[0][1])[0]
                want = {('B', BLOCK['granularity']): 100.0, ('B', BLOCK['lat_offset']): 0.0, ('B', BLOCK['lon_offset']): 0.0}.get(path)
                if want is not None:
                    c.check(set(init) == {want}, 'defaults of absent fields', I.where(), 'if field %s is missing, %s is used instead of %g' % (sname(path), list(init), want))


def carried(c, P, I, p, w):
    """a variable that is assigned from a field of a message does not keep the value of the message before"""
    F = P.F
    paths = {y for k in p for a in k for x in atoms(a) if x[0] == 'num' for y in x[1]}
    ms = {y[:-1] for y in paths}
    if not ms:
        return
    phis, con = P.web(w)
    edges = {e for t, e in con if t[0] != 'c'}
    for X in P.hdr:
        if not (ms & P.paths(X)):
            continue
        for h in P.hdr[X].values():
            own = F.loops().get(P.loop_head(h), set())
            if not any(e[0] in own or e[1] in own for e in edges):
                continue
            starts = [S.blk for S in P.st.get(X, []) if not any(x == ('ld', X) for x in subterms(P.T.term(S.ops[0])))]
            bad = [x for x in phis for H, L in F.loops().items() if F.by_id[x].blk == H and own < L and any(b in L for b in starts)]
            c.check(not bad, 'a message does not use data of the message before', I.where(), 'the value of field %s of the %s before is used if the field is missing' % ('/'.join(sorted(sname(y) for y in paths)), NAMES.get(min(ms), 'message')), 'field %s' % '/'.join(sorted(sname(y) for y in paths)))


# ------------------------------------------------------------------------------------------------ callbacks
def kind(dem):
    m = re.search(r'std::function<void \(unsigned long, ?(.*)\)>::operator\(\)', dem or '')
    if not m:
        return None
    if m.group(1).startswith('double'):
        return 'node'
    if 'OSMRelationMember' in m.group(1):
        return 'relation'
    if 'vector<unsigned long' in m.group(1):
        return 'way'
    return None


def block(c, F):
    c.fn(F)
    T = T_of(F)
    roots = {I.i: 'B' for I in F.calls() if READ.search(I.dem or '')}
    P = Prov(F, roots)
    cb = [(I, kind(I.dem)) for I in F.calls() if I.blk in P.live and kind(I.dem)]
    if not cb or not P.hdr:
        raise AnalysisBroken('calls of the callbacks not found')
    objs = []
    for I, k in cb:
        p, _ = flat(P.poly(T.term(I.ops[1]), I.blk))
        paths = set()
        for kk in p or {}:
            for a in kk:
                for x in atoms(a):
                    paths |= set(x[1])
        msg = {x[:3] for x in paths if len(x) >= 4}
        if len(msg) != 1:
            for kk in p or {}:
                for a in kk:
                    if a[0] == 'mem' and root_of(a[1])[0] == 'glob' and not any(set(P.poly(T.term(S.ops[0]), S.blk) or {1: 1}) <= {()} for S in P.st.get(a[1], [])):
                        c.bad('ids are those of the objects', I.where(), 'the id of a %s is kept in a static variable that is never set back' % k)
            c.notes.append('the object whose id is %s is not recognised (%s)' % (text(p), I.where()))
            if paths:
                c.bad('ids are those of the objects', I.where(), 'the id of a %s is %s' % (k, text(p)))
            continue
        m = msg.pop()
        objs.append((I, k, m))
        rule = 'objects have the kind of their field'
        want = {'node': (1, 2), 'way': (3,), 'relation': (4,)}[k]
        if not c.check(m[:2] == ('B', 2) and m[2] in want, rule, I.where(), 'objects of field %s of a group are reported as %ss' % (sname(m), k)):
            continue
        narrow(c, P, 'ids are those of the objects', 'the id of a %s' % k, I.ops[1], I)
        if k == 'node':
            narrow(c, P, 'positions are those of the nodes', 'the latitude', I.ops[2], I)
            narrow(c, P, 'positions are those of the nodes', 'the longitude', I.ops[3], I)
        lat0 = {(N(('B', 19)),): 1e-9}
        lon0 = {(N(('B', 20)),): 1e-9}
        g = N(('B', 17))
        if m[2] == 1:
            exact(c, P, 'ids are those of the objects', 'the id of a node', I, I.ops[1], {(('zigzag', N(m + (1,))),): 1.0})
            exact(c, P, 'positions are those of the nodes', 'the latitude', I, I.ops[2], padd(lat0, {tuple(sorted((g, ('zigzag', N(m + (8,)))), key=repr)): 1e-9}))
            exact(c, P, 'positions are those of the nodes', 'the longitude', I, I.ops[3], padd(lon0, {tuple(sorted((g, ('zigzag', N(m + (9,)))), key=repr)): 1e-9}))
        elif m[2] == 2:
            accumulated(c, P, 'ids are those of the objects', 'the id of a node', T.term(I.ops[1]), I, {}, {(('zigzag', E(m + (1,))),): 1.0})
            accumulated(c, P, 'positions are those of the nodes', 'the latitude', T.term(I.ops[2]), I, lat0, {tuple(sorted((g, ('zigzag', E(m + (8,)))), key=repr)): 1e-9})
            accumulated(c, P, 'positions are those of the nodes', 'the longitude', T.term(I.ops[3]), I, lon0, {tuple(sorted((g, ('zigzag', E(m + (9,)))), key=repr)): 1e-9})
        else:
            exact(c, P, 'ids are those of the objects', 'the id of a %s' % k, I, I.ops[1], {(N(m + (1,)),): 1.0})
        lst = None
        if m[2] in (3, 4):
            lst = base(T.addr_of(I.ops[2]))
            members(c, P, I, k, m, lst, [x[0] for x in cb])
        tags(c, P, I, k, m, [x[0] for x in cb])
        complete(c, P, I, m, [x[0] for x in cb])
    for k in ('node', 'way', 'relation'):
        c.check(any(o[1] == k for o in objs) or not any(x[1] == k for x in cb), 'every kind of object is reported', F.blocks[0][-1].where(), 'no %ss are reported' % k)
    have = {o[2] for o in objs}
    for n, x in GROUP.items():
        if len(objs) == len(cb):
            c.check(('B', 2, x) in have, 'every kind of object is reported', F.blocks[0][-1].where(), 'objects of field %d of a group are not reported' % x)
    dispatch(c, P, objs)
    strings(c, P)
    fresh_block(c, P)
    every_block(c, P)
    return P


def narrow(c, P, rule, what, ref, I):
    """no conversion to a narrower type lies between the numbers read and ref"""
    F, T = P.F, P.T
    st, seen, bad = [ref], set(), None
    while st and bad is None:
        o = st.pop()
        J = F.val(o)
        if J is None or J.i in seen:
            continue
        seen.add(J.i)
        if J.i in P.V:
            continue
        if J.op in ('trunc', 'fptrunc') or (J.op == 'and' and J.ty == 'i64' and J.ops[1].get('c') in ('4294967295', '2147483647', '65535')):
            if J.op == 'trunc' and (J.ty in ('i1', 'i8') or not (J.ty or '').startswith('i')):
                continue
            p, _ = flat(P.poly(T.term(J.ops[0]), J.blk))
            q = {y for k in p or {} for a in k for x in atoms(a) for y in x[1]}
            if J.op != 'fptrunc' and q and q == {('B', BLOCK['granularity'])}:
                continue
            if q or J.op == 'fptrunc':
                bad = J
        if J.op == 'load':
            k = base(T.addr_of(J.ops[0]))
            st += [S.ops[0] for S in P.st.get(k, [])]
        elif J.op == 'phi':
            st += J.ops
        elif J.op == 'select':
            st += J.ops[1:]
        elif J.is_call:
            if (J.dem or '').startswith('llvm.') or ZIGZAG.search(J.dem or ''):
                st += [x for x in J.ops if 'v' in x]
        elif J.op not in ('alloca', 'getelementptr', 'icmp', 'fcmp'):
            st += [x for x in J.ops if 'v' in x]
    c.check(bad is None, rule, (bad or I).where(), '%s is cut off to a narrower type' % what, '%s keeps its width' % what)


def atoms(a):
    if a[0] in ('num', 'elem'):
        yield a
    elif a[0] == 'var':
        for k, v in a[2]:
            for x in k:
                yield from atoms(x)
    elif len(a) == 2 and isinstance(a[1], tuple) and a[1] and isinstance(a[1][0], str):
        yield from atoms(a[1])
    elif len(a) == 2 and isinstance(a[1], tuple):
        for k, v in a[1]:
            for x in k:
                yield from atoms(x)


def exact(c, P, rule, what, I, ref, want):
    T = P.T
    p0 = P.poly(T.term(ref), I.blk)
    p, ini = flat(p0)
    if p is None:
        c.notes.append('%s not understood (%s)' % (what, I.where()))
        return
    defaults(c, P, I, ini)
    c.check(same(p, want), rule, I.where(), '%s is %s instead of %s' % (what, text(p), text(want)), '%s = %s' % (what, text(want)))
    # whenever the field occurs it is taken
    taken(c, P, rule, what, p0, I, want)


def taken(c, P, rule, what, p, I, want):
    """no turn of the message loop for the field keeps the old value"""
    F = P.F
    st = [a for k in p for a in k]
    while st:
        a = st.pop()
        if len(a) == 2 and isinstance(a[1], tuple) and a[1] and isinstance(a[1][0], str):
            st.append(a[1])
            continue
        if a[0] != 'var':
            continue
        for k, v in a[2]:
            st += list(k)
        phis, con = P.web(a[3])
        fields = {x for k, v in a[2] for y in k for x in atoms(y) if x[0] == 'num'}
        own = [x for x in fields if len(x[1]) == 1]
        # the fields whose turn assigns the variable
        tgt = set()
        for t, e in con:
            pp = P.poly(t, e)
            if pp is None or set(pp) <= {()}:
                continue
            for X in P.hdr:
                for h in P.hdr[X].values():
                    ks = {(kk, w) for kk in FIELDS for w in WIRES if e in P.turn(h, kk, w)[1]}
                    if ks and len(ks) <= 2:
                        tgt |= {(h.i, kk, w) for kk, w in ks}
        for hi, kk, w in sorted(tgt):
            h = F.by_id[hi]
            B, Ed = P.turn(h, kk, w)
            old = keeps(P, phis, h, Ed)
            c.check(old is None, rule, I.where(), 'field %d does not always replace the value of %s' % (kk, what))


def keeps(P, phis, h, Ed):
    """edge of a turn of the loop of h over which the variable keeps its value"""
    F = P.F
    for x in phis:
        J = F.by_id[x]
        if J.blk == P.loop_head(h):
            continue
        for o, b in zip(J.ops, J.d['in']):
            V = F.val(o)
            if (b, J.blk) in Ed and V is not None and V.op == 'phi' and V.i in phis and F.by_id[V.i].blk == P.loop_head(h):
                return b, J
    return None


def members(c, P, C, k, m, V, cbs):
    F, T = P.F, P.T
    ps = list(P.pushes(V))
    if not ps:
        c.notes.append('list of %s not filled by push_back (%s)' % (k, C.where()))
        return
    rule = 'lists are complete and in order'
    for I, _, val in ps:
        if k == 'way':
            st = P.st.get(val, [])
            dom = [S for S in st if F.inst_dominates(S, I)]
            if not dom:
                c.notes.append('element of a way not understood (%s)' % I.where())
                continue
            S = [x for x in dom if not any(y is not x and F.inst_dominates(x, y) for y in dom)][-1]
            narrow(c, P, 'nodes of ways are those of the file', 'the id of a node of a way', S.ops[0], I)
            accumulated(c, P, 'nodes of ways are those of the file', 'the id of a node of a way', T.term(S.ops[0]), I, {}, {(('zigzag', E(m + (8,))),): 1.0})
        else:
            fs = {}
            for kk, ss in P.st.items():
                r = kk
                while r[0] in ('f', 'off'):
                    r = r[1]
                if r == val:
                    n = kk[2] if kk[0] == 'f' else 'type' if kk == val else None
                    dom = [S for S in ss if F.inst_dominates(S, I)]
                    if dom and n:
                        fs[n] = [x for x in dom if not any(y is not x and F.inst_dominates(x, y) for y in dom)][-1]
            if 'id' in fs:
                narrow(c, P, 'members of relations are those of the file', 'the id of a member', fs['id'].ops[0], I)
                accumulated(c, P, 'members of relations are those of the file', 'the id of a member', T.term(fs['id'].ops[0]), I, {}, {(('zigzag', E(m + (9,))),): 1.0})
            if 'role' in fs:
                string(c, P, 'members of relations are those of the file', 'the role of a member', T.term(fs['role'].ops[0]), I, E(m + (8,)))
            if 'type' in fs:
                types(c, P, fs['type'], I, m)
        # once per element
        H = [x for x in P.cur if not P.message(x) and (m + (8 if k == 'way' else 9,)) in P.paths(x)]
        allp = {x.i for x, _, _ in ps}
        for X in H:
            if not any(F.inst_dominates(v, I) for v in P.cur[X]):
                continue
            for v in P.cur[X]:
                esc = F.reach_avoiding(v.blk, v.pos, lambda x: x in P.cur[X] or x is C, lambda x: x.i in allp)
                c.check(esc is None, rule, v.where(), 'an element that was read is not always put into the list of the %s' % k)
        # cleared
        clr = [x for x in F.calls() if re.search(r'vector<.*>::(clear|operator=|resize|swap|assign|~?vector)\(', x.dem or '') and base(T.addr_of(x.ops[0])) == V]
        ids = {x.i for x in clr}
        esc = F.reach_avoiding(C.blk, C.pos, lambda x: x is I, lambda x: x.i in ids)
        c.check(esc is None, rule, C.where(), 'the list of the %s still contains the elements of the object before' % k)
        for x in clr:
            esc = F.reach_avoiding(I.blk, I.pos, lambda y: y is x, lambda y: y is C)
            c.check(esc is None or F.reach_avoiding(x.blk, x.pos, lambda y: y is C, lambda y: y is I) is None or not between(F, I, x, C), rule, x.where(), 'the list of the %s is cleared after elements were put into it' % k)


def between(F, I, x, C):
    """x can run after I and before C without passing another C"""
    return F.reach_avoiding(I.blk, I.pos, lambda y: y is x, lambda y: y is C) is not None and F.reach_avoiding(x.blk, x.pos, lambda y: y is C, lambda y: False) is not None


def string(c, P, rule, what, t, I, want):
    """t is the string of the table whose number is the element `want`"""
    t = strip(t)
    if t[0] == 'ld' and t[1][0] in ('at', 'ix') and len(t[1]) >= 3:
        V, i = base(t[1][1]), strip(t[1][2])
        if i[0] == 'call' and i[2] in P.V:
            l = P.label(i[2], I.blk)
            c.check(l == want, rule, I.where(), '%s is the string with the number %s instead of %s' % (what, text({(l,): 1.0}), text({(want,): 1.0})), '%s: %s' % (what, text({(want,): 1.0})))
            table(c, P, V, I)
            return
        p, _ = flat(P.poly(i, I.blk))
        if p is not None and any(True for k in p for a in k for x in atoms(a)):
            c.check(same(p, {(want,): 1.0}), rule, I.where(), '%s is the string with the number %s instead of %s' % (what, text(p), text({(want,): 1.0})))
            return
    c.notes.append('%s not understood (%s)' % (what, I.where()))


def table(c, P, V, I):
    for J, _, val in P.pushes(V):
        w = P.paths(val)
        c.check(bool(w) and all(x[:2] == ('B', 1) for x in w), 'strings are those of the table', J.where(), 'strings are taken from field %s' % '/'.join(sorted(sname(x) for x in w)), 'strings of field 1')


def types(c, P, S, I, m):
    F, T = P.F, P.T
    rule = 'members of relations are those of the file'
    X = [x for x in P.cur if not P.message(x) and (m + (10,)) in P.paths(x)]
    vs = [v for x in X for v in P.cur[x] if F.inst_dominates(v, I)]
    if len(vs) != 1:
        c.check(bool(vs), rule, I.where(), 'the type of a member is not read from field 10')
        return
    v = vs[0]
    c.check(P.label(v.i, v.blk) == E(m + (10,)), rule, v.where(), 'the type of a member is read from %s' % text({(P.label(v.i, v.blk),): 1.0}))
    enum = enumerators(c)
    me = T.term_inst(v)
    for n, name in ((0, 'node'), (1, 'way'), (2, 'relation')):
        got = set()
        seen, st = {v.blk}, [(None, v.blk)]
        edges = set()
        while st:
            _, b = st.pop()
            if b == I.blk:
                continue
            for s in P.next(b, lambda t, J: n if t == me else None):
                edges.add((b, s))
                if s not in seen:
                    seen.add(s)
                    st.append((b, s))
        if not c.check(I.blk in seen, rule, I.where(), 'members of type %d are not accepted' % n):
            continue
        got = valuesof(P, S.ops[0], edges, S.blk, me, n)
        if got is None:
            c.notes.append('type of a member not understood (%s)' % I.where())
            return
        if enum:
            c.check(got == {enum[name]}, rule, I.where(), 'a member of type %d becomes %s' % (n, '/'.join(k for k, x in enum.items() if x in got) or got), 'type %d is %s' % (n, name))
    seen, st = {v.blk}, [v.blk]
    while st:
        b = st.pop()
        if b == I.blk:
            continue
        for s in P.next(b, lambda t, J: 7 if t == me else None):
            if s not in seen:
                seen.add(s)
                st.append(s)
    c.check(I.blk not in seen, rule, I.where(), 'members of unknown type are accepted')


def valuesof(P, ref, edges, blk, me, n, d=0):
    F = P.F
    if 'c' in ref:
        return {int(ref['c'])}
    J = F.val(ref)
    if J is None or d > 10:
        return None
    if J.op == 'phi':
        out = set()
        for o, b in zip(J.ops, J.d['in']):
            if (b, J.blk) in edges:
                x = valuesof(P, o, edges, b, me, n, d + 1)
                if x is None:
                    return None
                out |= x
        return out
    v = Eval(F, lambda t, K: n if t == me else None).ref(ref)
    return None if v is None else {v}


_enum = {}


def enumerators(c):
    import os
    f = os.path.join(build.REPO, 'include/routingkit/osm_decoder.h')
    try:
        s = re.sub(r'//.*|/\*.*?\*/', '', open(f).read())
    except OSError:
        return None
    m = re.search(r'enum\s+class\s+OSMIDType\s*(?::[^{]*)?\{(.*?)\}', s, re.S)
    if not m:
        return None
    out, n = {}, 0
    for e in m.group(1).split(','):
        e = e.strip()
        if not e:
            continue
        if '=' in e:
            e, v = e.split('=')
            try:
                n = int(v.strip(), 0)
            except ValueError:
                return None
        out[e.strip()] = n
        n += 1
    return out if {'node', 'way', 'relation'} <= set(out) else None


# ------------------------------------------------------------------------------------------------ tags
def tags(c, P, C, k, m, cbs):
    F, T = P.F, P.T
    rule = 'tags are those of the object'
    TM = root_of(base(T.addr_of(C.ops[-1])))
    others = {x.i for x in cbs}
    ent = {'key': [], 'value': []}
    for kk, ss in P.st.items():
        if kk[0] == 'f' and kk[2] in ('key', 'value') and root_of(kk) == TM:
            for S in ss:
                if F.reach_avoiding(S.blk, S.pos, lambda x: x is C, lambda x: x.i in others) is not None:
                    ent[kk[2]].append(S)
    if not ent['key'] or not ent['value']:
        c.check(False, rule, C.where(), 'the tags of a %s are not filled in' % k) if not any(kk[0] == 'f' and kk[2] == 'key' for kk in P.st) is False else c.notes.append('tags not understood (%s)' % C.where())
        return
    src = {}
    for n in ('key', 'value'):
        want = E(m + (10,)) if m[2] == 2 else E(m + (2 if n == 'key' else 3,))
        for S in ent[n]:
            t = strip(T.term(S.ops[0]))
            if not (t[0] == 'ld' and t[1][0] in ('at', 'ix')):
                c.notes.append('%s of a tag not understood (%s)' % (n, S.where()))
                continue
            V, i = base(t[1][1]), strip(t[1][2])
            table(c, P, V, S)
            if i[0] == 'ld' and i[1][0] in ('at', 'ix'):
                L, j = base(i[1][1]), strip(i[1][2])
                src.setdefault(n, []).append((S, L, j))
                ps = [I for I, _, val in P.pushes(L) if F.reach_avoiding(I.blk, I.pos, lambda x: x is S, lambda x: x.i in others or is_clear(T, x, L)) is not None]
                for I in ps:
                    val = [v for II, _, v in P.pushes(L) if II is I][0]
                    for X in P.st.get(val, []):
                        if not F.inst_dominates(X, I):
                            continue
                        p, _ = flat(P.poly(T.term(X.ops[0]), X.blk))
                        c.check(same(p, {(want,): 1.0}), rule, I.where(), 'the number of the %s of a tag is %s instead of %s' % (n, text(p), text({(want,): 1.0})), '%s: %s' % (n, text({(want,): 1.0})))
                        if m[2] == 2:
                            src.setdefault('v' + n, []).append((T.term(X.ops[0]), I))
                        v = F.by_id.get(strip(T.term(X.ops[0]))[2]) if strip(T.term(X.ops[0]))[0] == 'call' else None
                        if v is not None and v.i in P.V:
                            c.check(not lost(P, v, C, {q.i for q in ps}), rule, I.where(), 'a %s that was read is not always used' % n, 'every %s is put into the list' % n)
                c.check(bool(ps), rule, S.where(), 'the %s of a tag is taken from a list that is empty' % n)
                # emptied between two objects
                esc = F.reach_avoiding(C.blk, C.pos, lambda x: x is S, lambda x: is_clear(T, x, L))
                c.check(esc is None, rule, C.where(), 'the %s list still contains the entries of the object before' % n)
                for q in ps:
                    for x in F.calls():
                        if is_clear(T, x, L) and x.blk in P.live and F.reach_avoiding(q.blk, q.pos, lambda y: y is x, lambda y: y is S or y.i in others) is not None and F.reach_avoiding(x.blk, x.pos, lambda y: y is S, lambda y: y.i in others or y is q) is not None and not F.inst_dominates(x, q):
                            c.bad(rule, x.where(), 'the %s list is emptied after it was filled' % n)
    for a in src.get('key', []):
        for b in src.get('value', []):
            if a[0].blk == b[0].blk or F.inst_dominates(a[0], b[0]) or F.inst_dominates(b[0], a[0]):
                c.check(a[2] == b[2], rule, b[0].where(), 'the key of a tag is taken from position %s, its value from position %s' % (show(a[2]), show(b[2])))
                c.check(a[1] != b[1], rule, b[0].where(), 'key and value are taken from the same list')
    if m[2] == 2:
        for t, I in src.get('vkey', []):
            for u, J in src.get('vvalue', []):
                x, y = strip(t), strip(u)
                if x[0] == 'call' and y[0] == 'call' and x[2] in P.V and y[2] in P.V:
                    A, B = F.by_id[x[2]], F.by_id[y[2]]
                    c.check(F.inst_dominates(A, B), rule, J.where(), 'the number of the value of a tag comes before that of its key')
                    ok = False
                    for G, pol in facts(F, B.blk):
                        if hasattr(G, 'op') and G.op == 'icmp' and G.d['pred'] in ('eq', 'ne') and strip(T.term(G.ops[0])) == x and G.ops[1].get('c') == '0':
                            ok = pol == (G.d['pred'] == 'ne')
                        if isinstance(G, tuple) and strip(T.term(G[1])) == x:
                            ok = pol[2] and '0' in [str(z) for z in pol[3]]
                    c.check(ok, rule, B.where(), 'the list of tags of a node does not end at a zero')
    lists = {L for n in ('key', 'value') for S, L, j in src.get(n, [])}
    for x in F.calls():
        if x.blk in P.live and re.search(r'vector<.*>::resize\(', x.dem or '') and root_of(base(T.addr_of(x.ops[0]))) == TM and any(F.inst_dominates(x, S) for S, L, j in src.get('key', [])):
            t = strip(T.term(x.ops[1]))
            if any(y == ('size', L) or (y[0] in ('size', 'dend', 'dbeg') and base(y[1]) in lists) for y in subterms(t) for L in lists):
                while t[0] in ('and', 'add') and len(t) == 3 and t[2] == ('c', 0):
                    t = t[1]
                c.check(t[0] == 'size' and base(t[1]) in lists, rule, x.where(), 'the number of tags of a %s is %s' % (k, show(t)), 'number of tags: length of the list')
            elif t[0] == 'phi' and any(y[0] == 'size' and base(y[1]) in lists for o in F.by_id[t[1]].ops for y in subterms(T.term(o))):
                for o in F.by_id[t[1]].ops:
                    y = strip(T.term(o))
                    c.check(y == ('c', 0) or y[0] == 'size' and base(y[1]) in lists, rule, x.where(), 'the number of tags of a %s is %s' % (k, show(y)))
    # what is reported are not the tags of another object
    stale(c, P, C, k, m, cbs, TM, ent)


def lost(P, v, C, via):
    """a way from the decoding v to itself or to the callback without one of via; a zero, which ends the list, need not be kept"""
    F, T = P.F, P.T
    me = T.term_inst(v)
    st, seen = [(v.blk, v.pos + 1)], set()
    while st:
        b, p = st.pop()
        stop = False
        for I in F.blocks[b][p:]:
            if I.i in via:
                stop = True
                break
            if I is v or I is C:
                return True
        if stop:
            continue
        for s in P.next(b, lambda t, J: 1000003 if t == me else None):
            if s not in seen:
                seen.add(s)
                st.append((s, 0))
    return False


def root_of(a):
    while isinstance(a, tuple) and a and a[0] in ('f', 'at', 'ix', 'off', 'ld', 'addr', 'data'):
        a = a[1]
    return a


def is_clear(T, I, V):
    return I.is_call and bool(re.search(r'vector<.*>::(clear|swap|assign|~?vector)\(', I.dem or '')) and base(T.addr_of(I.ops[0])) == V


def stale(c, P, C, k, m, cbs, TM, ent):
    """from a filled tag map over a callback to this callback the map is cleared"""
    F, T = P.F, P.T
    clear = lambda I: I.is_call and bool(re.search(r'TagMap::(clear|operator=|TagMap|build)', I.dem or '')) and root_of(base(T.addr_of(I.ops[0]))) == TM
    fills = [S for kk, ss in P.st.items() if kk[0] == 'f' and kk[2] == 'value' and root_of(kk) == TM for S in ss]
    bad = None
    for S in fills:
        nn = nonnull(P, S.blk)
        for D in cbs:
            if not walk_to(P, S, D, clear, {x.i for x in cbs if x is not D}, nn):
                continue
            if walk_to(P, D, C, clear, set(), nn):
                bad = (S, D)
    c.check(bad is None, 'tags are those of the object', C.where(), 'a %s can be reported with the tags of the object reported before' % k)


def nonnull(P, b):
    """variables known not to be null at block b"""
    out = set()
    for G, pol in facts(P.F, b):
        if hasattr(G, 'op') and G.op == 'icmp' and G.d['pred'] in ('eq', 'ne') and pol == (G.d['pred'] == 'ne'):
            t = [strip(P.T.term(o)) for o in G.ops]
            for x, y in (t, t[::-1]):
                if y == ('null',):
                    out.add(x)
    return out


def walk_to(P, A, goal, stop, stops, nn):
    F, T = P.F, P.T
    st = [(A.blk, A.pos + 1)]
    seen = set()
    while st:
        b, p = st.pop()
        hit = False
        for I in F.blocks[b][p:]:
            if I is goal:
                return True
            if stop(I) or I.i in stops or (I.op == 'store' and ('ld', base(T.addr_of(I.ops[1]))) in nn and strip(T.term(I.ops[0])) == ('null',)):
                hit = True
                break
        if hit:
            continue
        t = F.blocks[b][-1]
        nx = F.succ[b]
        if t.op == 'br' and t.ops and len(t.d['succ']) == 2:
            x = strip(T.term(t.ops[0]))
            if x[0] == 'cmp' and x[1] in ('eq', 'ne') and (('null',) in (strip(x[2]), strip(x[3]))) and any(strip(y) in nn for y in x[2:]):
                nx = [t.d['succ'][1 if x[1] == 'eq' else 0]]
        for s in nx:
            if s not in seen:
                seen.add(s)
                st.append((s, 0))
    return False


# ------------------------------------------------------------------------------------------------ completeness
def entry(P, m):
    """stores that start the decoding of message m"""
    return [(X, S) for X in P.hdr for S in P.st.get(X, []) if m in P.where(P.T.term(S.ops[0]), S.blk) and not any(x == ('ld', X) for x in subterms(P.T.term(S.ops[0])))]


def complete(c, P, C, m, cbs):
    F = P.F
    rule = 'no object is left out'
    G = [h for X in P.hdr if m[:2] in P.paths(X) for h in P.hdr[X].values()]
    gi = {h.i for h in G}
    if m[2] == 2:
        X = [x for x in P.cur if not P.message(x) and (m + (1,)) in P.paths(x)]
        st = [v for x in X for v in P.cur[x]]
        for v in st:
            esc = F.reach_avoiding(v.blk, v.pos, lambda x: x is v or x.i in gi, lambda x: x is C)
            c.check(esc is None, rule, v.where(), 'a node whose id was read is not always reported')
    else:
        for X, S in entry(P, m):
            esc = F.reach_avoiding(S.blk, S.pos, lambda x: x.i in gi, lambda x: x is C)
            c.check(esc is None, rule, S.where(), 'a %s is not always reported' % NAMES.get(m, 'object'))
    # ranges of packed fields are kept whenever the field occurs
    for X in P.cur:
        if P.message(X):
            continue
        for p in P.paths(X):
            if p[:3] != m or len(p) != 4:
                continue
            ss = {S.i for S in P.st.get(X, []) if p in P.where(P.T.term(S.ops[0]), S.blk)}
            for Y in P.hdr:
                if m not in P.paths(Y):
                    continue
                for h in P.hdr[Y].values():
                    own = F.loops().get(P.loop_head(h), set())
                    webs = {strip(P.T.term(S.ops[0])) for S in P.st.get(X, []) if S.i in ss and S.blk not in own}
                    if webs:
                        for t in webs:
                            if t[0] == 'phi' and F.by_id[t[1]].op == 'phi':
                                phis, con = P.web(t[1])
                                c.check(keeps(P, phis, h, P.turn(h, p[3], 2)[1]) is None, 'fields are taken whenever they occur', h.where(), 'field %d of a %s is not always used' % (p[3], NAMES.get(m, 'message')))
                        continue
                    skip(c, P, h, p[3], 2, lambda I: I.i in ss, 'fields are taken whenever they occur', 'field %d of a %s is not always used' % (p[3], NAMES.get(m, 'message')))


def skip(c, P, h, k, w, via, rule, msg, allow=lambda b, s: False):
    """in a turn of the loop of header h for field k all ways back to the header pass an instruction of via"""
    F, T = P.F, P.T
    val, me = (k << 3) | w, T.term_inst(h)
    st, seen = [(h.blk, h.pos + 1)], set()
    head = P.loop_head(h)
    bad = None
    while st and bad is None:
        b, p = st.pop()
        if any(via(I) for I in F.blocks[b][p:]):
            continue
        for s in P.next(b, lambda t, J: val if t == me else None):
            if allow(b, s):
                continue
            if s == head or s == h.blk:
                bad = F.blocks[b][-1]
                break
            if s not in seen:
                seen.add(s)
                st.append((s, 0))
    c.check(bad is None, rule, h.where(), msg, '%s: field %d' % (rule, k))


def dispatch(c, P, objs):
    F, T = P.F, P.T
    for I, k, m in objs:
        en = {S.i for X, S in entry(P, m)}
        if not en:
            continue

        def unset(b, s, k=k):
            t = F.blocks[b][-1]
            if t.op != 'br' or not t.ops or len(t.d['succ']) != 2:
                return False

            def leaf(x, J):
                if J is not None and J.is_call:
                    kk, v = cb_test(J.dem)
                    if kk == k:
                        return v
                return None
            v = Eval(F, leaf).ref(t.ops[0])
            if v is None:
                # both parts of a conjunction
                return any(not isinstance(G, tuple) and G.is_call and cb_test(G.dem)[0] == k and (pol != (cb_test(G.dem)[1] == 1)) for G, pol in cond_atoms(T, t.ops[0], s == t.d['succ'][0]))
            return s != t.d['succ'][0 if v & 1 else 1]
        for X in P.hdr:
            if m[:2] in P.paths(X):
                for h in P.hdr[X].values():
                    skip(c, P, h, m[2], 2, lambda J: J.i in en, 'no object is left out', '%s of a group are not always decoded' % NAMES.get(m, 'objects'), unset)
    for m, what in ((('B', 1), 'string table'), (('B', 2), 'groups')):
        en = {S.i for X, S in entry(P, m)}
        lists = {}
        for J, V, val in P.pushes():
            if m in P.pushed(J, V, val):
                en.add(J.i)
        if not en:
            continue
        for X in P.hdr:
            if ('B',) in P.paths(X):
                for h in P.hdr[X].values():
                    skip(c, P, h, m[1], 2, lambda J: J.i in en, 'no object is left out', 'the %s of a block are not always used' % what)


def strings(c, P):
    F, T = P.F, P.T
    rule = 'strings are those of the table'
    for X in P.hdr:
        if ('B', 1) not in P.paths(X):
            continue
        ps = []
        for J, V, val in P.pushes():
            w = P.paths(val)
            if w and all(x[:2] == ('B', 1) and len(x) == 3 for x in w):
                ps.append((J, V, val))
        if not ps:
            continue
        ids = {J.i for J, V, val in ps}
        for h in P.hdr[X].values():
            skip(c, P, h, 1, 2, lambda I: I.i in ids, rule, 'not every string is put into the table: the numbers of the others no longer fit')
        for J, V, val in ps:
            for S in P.st.get(val, []):
                t = strip(T.term(S.ops[0]))
                o, b = offset(t)
                if b is None or not F.inst_dominates(S, J):
                    continue
                ln = [v for v in P.cur[X] if v.i not in P.hdr[X] and F.inst_dominates(v, J) and any(x == T.term_inst(v) for K in F.insts() if K.op == 'store' and base(T.addr_of(K.ops[1])) == X for x in subterms(T.term(K.ops[0])))]
                if len(ln) != 1:
                    continue
                L = T.term_inst(ln[0])
                mv = [K for K in F.calls() if re.search(r'memmove|memcpy', K.dem or fn(K)) and F.inst_dominates(ln[0], K) and offset(strip(T.addr_of(K.ops[1])))[1] == b]
                for K in mv:
                    d, s = offset(strip(T.addr_of(K.ops[0]))), offset(strip(T.addr_of(K.ops[1])))
                    c.check(d == (o, b) and s == (0, b) and strip(T.term(K.ops[2])) == L, rule, K.where(), 'the characters of a string are not moved to where the string is expected')
                if o != 0:
                    c.check(bool(mv), rule, J.where(), 'the string in the table starts at another byte than its characters')
                z = [K for K in F.insts() if K.op == 'store' and K.blk in P.live and F.inst_dominates(ln[0], K) and K.ops[0].get('c') == '0' and zero_at(T, K, b, L) is not None]
                for K in z:
                    c.check(zero_at(T, K, b, L) == o, rule, K.where(), 'the end of a string is marked at byte length%+d of it' % (zero_at(T, K, b, L) - o))


def fn(I):
    return I.fn or ''


def offset(t):
    """(n, base) of base + n"""
    n = 0
    while isinstance(t, tuple) and t and t[0] in ('addr', 'off'):
        if t[0] == 'off':
            n += t[2]
        t = t[1]
    if isinstance(t, tuple) and t and t[0] == 'ld':
        return n, t
    if isinstance(t, tuple) and t and t[0] == 'ix' and len(t) >= 3 and t[2][0] == 'c':
        return n + t[2][1], t[1]
    return (n, None)


def zero_at(T, K, b, L):
    a = T.addr_of(K.ops[1])
    n = 0
    while isinstance(a, tuple) and a and a[0] in ('addr', 'off'):
        if a[0] == 'off':
            n += a[2]
        a = a[1]
    if isinstance(a, tuple) and a and a[0] == 'ix' and strip(a[1]) == b and strip(a[2]) == L:
        return n
    return None


def fresh_block(c, P):
    """tables of the block before are emptied"""
    F, T = P.F, P.T
    rule = 'a block does not use data of the block before'
    rd = [I for I in F.calls() if I.i in P.roots and I.blk in P.live]
    for J, V, val in P.pushes():
        w = P.paths(val)
        if not w:
            w = P.pushed(J, V, val)
        if not w or not all(x[:1] == ('B',) and x[1:2] in ((1,), (2,)) and len(x) <= 3 for x in w):
            continue
        for R in rd:
            esc = F.reach_avoiding(R.blk, R.pos, lambda x: x is J, lambda x: is_clear(T, x, V))
            esc2 = esc is not None and F.reach_avoiding(J.blk, J.pos, lambda x: x is R, lambda x: is_clear(T, x, V)) is not None
            c.check(not esc2, rule, J.where(), 'entries of the block before stay in the list that is filled here')


def every_block(c, P):
    """reading ends only at the end of the file; all groups are visited"""
    F, T = P.F, P.T
    rule = 'no object is left out'
    for R in F.calls():
        if R.blk not in P.live or not re.search(r'BufferedAsynchronousReader::read\(', R.dem or ''):
            continue
        me = T.term_inst(R)
        st, seen, bad = [R.blk], set(), None
        while st and bad is None:
            b = st.pop()
            for s in P.next(b, lambda t, J: 1 << 40 if t == me else None):
                if F.blocks[s][-1].op == 'ret':
                    bad = F.blocks[b][-1]
                if s == R.blk or s in seen:
                    continue
                seen.add(s)
                st.append(s)
        c.check(bad is None, rule, (bad or R).where(), 'reading may end although the file contains further blocks', 'reading ends at the end of the file')
    # blocks that may end the program normally
    fin, st = set(), [b for b in P.live if F.blocks[b][-1].op == 'ret']
    fin.update(st)
    while st:
        for q in F.pred[st.pop()]:
            if q not in fin:
                fin.add(q)
                st.append(q)
    for X, S in entry(P, ('B', 2)):
        if not any(x[0] in ('at', 'ix', 'data', 'dend', 'size') or x[0] == 'phi' for x in subterms(T.term(S.ops[0]))):
            continue
        Ls = [(h, L) for h, L in F.loops().items() if S.blk in L]
        if not Ls:
            continue
        h, L = min(Ls, key=lambda x: len(x[1]))
        inner = not any(I.i in P.roots for b in L for I in F.blocks[b])
        if not c.check(inner, rule, S.where(), 'not every group of a block is decoded', 'groups are visited one by one'):
            continue
        for b in L:
            t = F.blocks[b][-1]
            if t.op in ('br', 'switch') and t.ops and any(s not in L and s in fin for s in F.succ[b]):
                bad = [x for x in subterms(T.term(t.ops[0])) if x[0] == 'call' and (x[2] in P.V or 'operator bool' in str(x[1]))]
                c.check(not bad, rule, t.where(), 'the groups that follow are not decoded, depending on what a group contains', 'loop over groups left at its end')
        for I in F.blocks[h]:
            if I.op != 'phi':
                continue
            for o, b in zip(I.ops, I.d['in']):
                if b in L:
                    continue
                t = strip(T.term(o))
                if t[0] == 'c' and any(F.val(x) is not None and F.val(x).op == 'add' for x in I.ops):
                    c.check(t[1] == 0, rule, I.where(), 'the first group of a block is left out')
                elif t[0] == 'addr' and t[1][0] in ('at', 'ix') and t[1][2][0] == 'c':
                    c.check(t[1][2][1] == 0, rule, I.where(), 'the first group of a block is left out')


# ------------------------------------------------------------------------------------------------ blobs
def cstring(M, F, T, ref):
    t = base(T.addr_of(ref))
    while isinstance(t, tuple) and t and t[0] in ('f', 'off', 'addr') and (t[0] != 'off' or t[2] == 0):
        t = t[1]
    if isinstance(t, tuple) and t and t[0] == 'glob':
        g = M.globals.get(t[1])
        g = (g or {}).get('init') or {}
        if isinstance(g, dict) and g.get('str') is not None:
            return g['str']
    return None


def blob(c, M, F):
    c.fn(F)
    T = T_of(F)
    rd = [I for I in F.calls() if READ.search(I.dem or '')]
    P = Prov(F, {I.i: 'R%d' % n for n, I in enumerate(rd)})
    lab = {'R%d' % n: I for n, I in enumerate(rd)}
    rule = 'blobs are those of the file'
    heads = [l for l, I in lab.items() if size_of_header(P, I)]
    if len(heads) != 1:
        c.notes.append('the header of a blob is not recognised (%s)' % short(F.dem))
        return
    H = heads[0]
    c.ok(rule, 'header of the size announced in network byte order')
    want = {(N((H, 3)),): 1.0}
    for l, I in lab.items():
        if l == H:
            continue
        p0 = P.poly(T.term(I.ops[1]), I.blk)
        p, _ = flat(p0)
        p = {tuple(a[1] if a[0] in ('and4294967295',) else a for a in k): v for k, v in (p or {}).items()}
        c.check(same(p, want), rule, I.where(), 'the size of a blob is %s instead of field 3 of its header' % text(p), 'size of a blob: field 3')
    outs = []
    for I in F.calls():
        if I.blk not in P.live or not re.search(r'mem(cpy|move)', I.dem or fn(I)):
            continue
        src = P.where(T.term(I.ops[1]), I.blk)
        if not src:
            continue
        d = root_of(base(T.addr_of(I.ops[0])))
        if all(x[0] == H for x in src):
            c.check(src == {(H, 1)}, rule, I.where(), 'the type of a blob is read from field %s of its header' % '/'.join(sorted(sname(x) for x in src)), 'type: field 1')
        elif d[0] == 'arg':
            r = list(src)[0][0]
            c.check(src == {(r, 1)}, rule, I.where(), 'uncompressed data is taken from field %s of a blob' % '/'.join(sorted(sname(x) for x in src)), 'raw data: field 1')
            p, _ = flat(P.poly(T.term(I.ops[2]), I.blk))
            c.check(p is None or same(p, {(N((r, 2)),): 1.0}) or length_of(P, I.ops[2], I), rule, I.where(), '%s bytes are copied' % text(p))
            o, b = argoff(T.addr_of(I.ops[0]))
            c.check(o == 4, rule, I.where(), 'the data is copied to byte %s, behind a size of 4 bytes' % o)
            outs.append((I, r))
    for kk, ss in P.st.items():
        if kk[0] == 'f' and kk[2] in ('next_in', 'avail_in', 'next_out'):
            for S in ss:
                if kk[2] == 'next_in':
                    w = P.where(T.term(S.ops[0]), S.blk)
                    c.check(len(w) == 1 and list(w)[0][1:] == (3,), rule, S.where(), 'compressed data is taken from field %s of a blob' % '/'.join(sorted(sname(x) for x in w)), 'zlib data: field 3')
                elif kk[2] == 'avail_in':
                    t = strip(T.term(S.ops[0]))
                    if t[0] == 'sub':
                        a, b = P.where(t[1], S.blk), P.where(t[2], S.blk)
                        c.check(a == b and len(a) == 1 and list(a)[0][1:] == (3,), rule, S.where(), 'the number of compressed bytes is not that of field 3')
                else:
                    o, b = argoff(T.term(S.ops[0]))
                    if o is not None:
                        c.check(o == 4, rule, S.where(), 'data is decompressed to byte %s, behind a size of 4 bytes' % o)
    for kk, ss in P.st.items():
        o, b = argoff(kk)
        if o is None:
            continue
        for S in ss:
            p, _ = flat(P.poly(T.term(S.ops[0]), S.blk))
            q = [x for k in p or {} for a in k for x in atoms(a)]
            if q:
                r = list(q[0][1])[0][0] if q[0][1] else None
                c.check(o == 0 and same(strip32(p), {(N((r, 2)),): 1.0}), rule, S.where(), 'the size in front of the data is %s instead of field 2' % text(p), 'announced size: field 2')
    for b in F.exits():
        R = F.blocks[b][-1] if isinstance(b, int) else b
        if R.op != 'ret' or not R.ops:
            continue
        for t, e in leaves(P, R.ops[0], R.blk):
            p, _ = flat(P.poly(t, e))
            if p is None or set(p) <= {()}:
                continue
            q = [x for k in p for a in k for x in atoms(a)]
            r = list(q[0][1])[0][0] if q and q[0][1] else None
            if r is None:
                continue
            c.check(same(p, {(N((r, 2)),): 1.0, (): 4.0}), rule, R.where(), '%s bytes are announced' % text(p), 'size of field 2 and 4 bytes are delivered')
    # which blob is used for what
    names_(c, M, P, lab, H)
    return ordered(c, M, P, lab, H)


def strip32(p):
    return {tuple(a[1] if a[0] == 'and4294967295' else a for a in k): v for k, v in (p or {}).items()}


def length_of(P, ref, I):
    t = strip(P.T.term(ref))
    return t[0] == 'sub' and P.where(t[1], I.blk) == P.where(t[2], I.blk)


def argoff(t):
    n = 0
    while isinstance(t, tuple) and t and t[0] in ('addr', 'off', 'ix'):
        if t[0] == 'off':
            n += t[2]
        elif t[0] == 'ix':
            if t[2][0] != 'c':
                return None, None
            n += t[2][1] * (t[3] if len(t) > 3 else 1)
        t = t[1]
    return (n, t) if isinstance(t, tuple) and t and t[0] == 'arg' and t[1] > 0 else (None, None)


def leaves(P, o, at, d=0):
    J = P.F.val(o)
    if J is not None and J.op == 'phi' and J.blk not in P.F.loops() and d < 8:
        for x, b in zip(J.ops, J.d['in']):
            yield from leaves(P, x, (b, J.blk), d + 1)
    else:
        yield P.T.term(o), at


def size_of_header(P, I):
    t = strip(P.T.term(I.ops[1]))
    for x in subterms(t):
        if x[0] == 'call' and re.search(r'ntohl|bswap', str(x[1])):
            return True
        if x[0] == 'bswap':
            return True
    return False


def names_(c, M, P, lab, H):
    F, T = P.F, P.T
    rule = 'blobs are those of the file'
    for l, I in lab.items():
        if l == H:
            continue
        uses = {p[0] for X in P.hdr for p in P.paths(X)}
        role = None
        for X in P.hdr:
            if (l,) in P.paths(X):
                role = 'blob' if any(P.where(T.term(J.ops[1]), J.blk) & {(l, 1)} for J in F.calls() if re.search(r'mem(cpy|move)', J.dem or fn(J)) and len(J.ops) > 2) else 'header'
        if role is None:
            continue
        got = set()
        for G, pol in facts(F, I.blk):
            if not hasattr(G, 'op') or G.op != 'icmp' or G.d['pred'] not in ('eq', 'ne'):
                continue
            s = compared(M, F, T, G)
            if s is not None and pol == (G.d['pred'] == 'eq'):
                got.add(s)
        if got:
            want = {'blob': 'OSMData', 'header': 'OSMHeader'}[role]
            c.check(got == {want}, rule, I.where(), 'blobs of type %s are taken for %s' % (sorted(got), 'data' if role == 'blob' else 'the header'), 'type %s' % want)


def compared(M, F, T, G):
    """string a comparison of the type of a blob is about"""
    for x, y in ((0, 1), (1, 0)):
        t = strip(T.term(G.ops[x]))
        o = G.ops[y]
        if t[0] == 'ld' and 'c' in o and int(o['c']) > 0xffff:
            b = int(o['c']) & ((1 << 64) - 1)
            s = b.to_bytes(8, 'little').split(b'\0')[0]
            try:
                s = s.decode('ascii')
            except UnicodeDecodeError:
                return None
            return s
        if t[0] == 'call' and o.get('c') == '0':
            I = F.by_id.get(t[2])
            if I is not None and re.search(r'^(bcmp|memcmp|strcmp|strncmp)$', I.dem or fn(I)):
                for a in I.ops[:2]:
                    s = cstring(M, F, T, a)
                    if s is not None:
                        return s.split('\0')[0]
    return None


def ordered(c, M, P, lab, H):
    """only the feature Sort.Type_then_ID of field 5 makes a file ordered; returns the values of the status that do not say so"""
    F, T = P.F, P.T
    rule = 'the announced order is that of the header'
    flags = {}
    for X in P.hdr:
        for p in P.paths(X):
            if len(p) != 1 or p[0] == H:
                continue
            for h in P.hdr[X].values():
                head = P.loop_head(h)
                for I in F.blocks[head] if head is not None else []:
                    if I.op != 'phi':
                        continue
                    phis, con = P.web(I.i)
                    cs = [(t, e) for t, e in con if t[0] == 'c']
                    if {t[1] & 1 for t, e in cs} != {0, 1} or len(cs) != len(con) or {t[1] for t, e in cs} - {0, 1, (1 << 64) - 1, 255, (1 << 32) - 1}:
                        continue
                    ev = False
                    for t, e in cs:
                        fs = {k for k, w in P.fields(X, e)}
                        if t[1] & 1 and fs and len(fs) < 12:
                            ev = True
                            c.check(fs == {5}, rule, I.where(), 'a file is taken for ordered because of field %s of its header' % sorted(fs), 'field 5')
                            for G, pol in facts(F, e[0]):
                                if isinstance(G, tuple):
                                    continue
                                J, eq = G, None
                                if G.op == 'icmp' and G.d['pred'] in ('eq', 'ne') and G.ops[1].get('c') == '0' and F.val(G.ops[0]) is not None:
                                    J, eq = F.val(G.ops[0]), G.d['pred'] == 'eq'
                                if not J.is_call or not any((cstring(M, F, T, o) or '').rstrip('\0') == 'Sort.Type_then_ID' for o in J.ops if 'g' in o or 'v' in o):
                                    continue
                                if re.search(r'operator[!=]=', J.dem or ''):
                                    same_ = ('operator==' in J.dem) == (pol if eq is None else pol != eq)
                                elif eq is not None and re.search(r'compare|mem?cmp|bcmp|strn?cmp', J.dem or fn(J)):
                                    same_ = pol == eq
                                else:
                                    continue
                                c.check(same_, rule, J.where(), 'a file is taken for ordered because of another feature')
                            for J in F.blocks[e[0]] + [x for q in F.pred[e[0]] for x in F.blocks[q]]:
                                if J.is_call and re.search(r'operator[!=]=|compare|mem?cmp|bcmp|strn?cmp', J.dem or fn(J)):
                                    for o in J.ops:
                                        z = cstring(M, F, T, o) if 'g' in o or 'v' in o else None
                                        if z:
                                            c.check(z.rstrip('\0') == 'Sort.Type_then_ID', rule, J.where(), 'the feature %r is taken for the announcement of the order' % z.rstrip('\0'), 'Sort.Type_then_ID')
                    if ev:
                        flags.update({x: 1 for x in phis})
    if not flags:
        return None
    vals = {0: set(), 1: set()}
    for I in F.calls():
        if I.blk not in P.live or not re.search(r'atomic.*::(operator=|store|operator\|=|fetch_or)', I.dem or '') or len(I.ops) < 2:
            continue
        for v in (0, 1):
            if any(not isinstance(G, tuple) and G.i in flags and pol != bool(v) for G, pol in norm_facts(F, I.blk)):
                continue
            x = Eval(F, lambda t, J: v if J is not None and J.i in flags else None).ref(I.ops[1])
            if x is not None:
                vals[v].add(x)
    if not vals[1]:
        return None
    u = 0
    for x in vals[0]:
        u |= x
    c.check(any(x & ~u for x in vals[1]), rule, F.blocks[0][0].where(), 'the status of an ordered file is that of one that is not ordered', 'status %s / %s' % (sorted(vals[1]), sorted(vals[0])))
    return vals[0]


def norm_facts(F, blk):
    for G, pol in facts(F, blk):
        if isinstance(G, tuple):
            continue
        while G.op == 'icmp' and G.d['pred'] in ('eq', 'ne') and G.ops[1].get('c') == '0' and F.val(G.ops[0]) is not None:
            pol = pol == (G.d['pred'] == 'ne')
            G = F.val(G.ops[0])
            while G.op in ('trunc', 'zext', 'and', 'freeze') and F.val(G.ops[0]) is not None:
                G = F.val(G.ops[0])
        while G.op in ('trunc', 'zext', 'freeze') and F.val(G.ops[0]) is not None:
            G = F.val(G.ops[0])
        yield G, pol


# ------------------------------------------------------------------------------------------------ passes
def cb_test(dem):
    """(kind of the callback that is tested, result if it is set)"""
    m = re.search(r'std::function<void \(unsigned long, ?(.*?)\)>::operator bool', dem or '')
    if m:
        return kind(dem.replace('::operator bool', '::operator()')), 1
    m = re.search(r'std::operator([!=]=)<void.*\(std::(function<void \(unsigned long, ?.*\)>) const&, std::nullptr_t\)', dem or '')
    if m:
        return kind('std::' + m.group(2) + '::operator()'), 1 if m.group(1) == '!=' else 0
    return None, None


def passes(c, M, unordered):
    rule = 'passes report each kind once, in order'
    RANK = {'node': 0, 'way': 1, 'relation': 2}
    for F in M.functions.values():
        if not re.match(r'RoutingKit::(un)?ordered_read_osm_pbf\(', F.dem):
            continue
        T = T_of(F)
        live = F.reachable()
        calls = [I for I in F.calls() if I.blk in live and re.search(r'internal_read_osm_pbf', I.dem or '')]
        one = F.dem.startswith('RoutingKit::unordered')
        if not calls:
            c.notes.append('passes over the file not found in %s' % short(F.dem))
            continue
        c.fn(F)
        sig = {}
        for I in calls:
            sig[I.i] = [r for r in (passed(F, T, o, I) for o in I.ops if 'v' in o) if r]
        if any('?' in s for s in sig.values()):
            c.notes.append('passes over the file not understood: %s' % list(sig.values()))
            continue
        flag = [n for n, p in enumerate(F.params) if p.get('ty') in ('i1', 'i8')] if not one else []
        for m in range(1, 8):
            on = {k for k in RANK if m >> RANK[k] & 1}

            def leaf(t, J, status=None):
                if J is not None and J.is_call:
                    k, v = cb_test(J.dem)
                    if k:
                        return v if k in on else 1 - v
                    if status is not None and re.search(r'atomic.*::(operator unsigned long|load)', J.dem or ''):
                        return status
                if status is not None and t[0] == 'arg' and t[1] in flag:
                    return 0
                return None
            runs = [(leaf, False)]
            if unordered and not one:
                runs += [((lambda t, J, s=s: leaf(t, J, s)), True) for s in sorted(unordered) if s & 1]
            for lf, un in runs:
                seen, st, bad, n = {(0, ())}, [(0, ())], None, 0
                nxt = {}
                while st and len(seen) < 20000:
                    b, h = st.pop()
                    for I in F.blocks[b]:
                        if I.i in sig:
                            h = h + (tuple(k for k in sig[I.i] if k in on),)
                        elif I.is_call and re.search(r'FileDataSource::(rewind\(|FileDataSource\(.*string)', I.dem or '') and h and h[-1] != 'start':
                            h = h + ('start',)
                    t = F.blocks[b][-1]
                    if t.op == 'ret':
                        n += 1
                        w = wrong(h, on, RANK, un)
                        if w:
                            bad = bad or (w, t)
                    if len(h) > 12:
                        continue
                    if b not in nxt:
                        nxt[b] = F.succ[b]
                        if t.op == 'br' and t.ops and len(t.d['succ']) == 2:
                            v = Eval(F, lf).ref(t.ops[0])
                            if v is not None:
                                nxt[b] = [t.d['succ'][0 if v & 1 else 1]]
                    for s in nxt[b]:
                        if (s, h) not in seen:
                            seen.add((s, h))
                            st.append((s, h))
                if n:
                    c.check(bad is None, rule, (bad[1] if bad else calls[0]).where(), 'with callbacks for %s: %s' % (', '.join(sorted(on, key=RANK.get)), bad[0] if bad else ''), '%s with callbacks for %s' % (short(F.dem), sorted(on)))


def wrong(h, on, RANK, unordered):
    last, fresh, done = -1, True, []
    for e in h:
        if e == 'start':
            fresh = True
            continue
        if not e:
            fresh = False
            continue
        if not fresh:
            return 'the file is not read from its start again before %ss are looked for' % e[0]
        fresh = False
        if unordered and len(e) > 1:
            return 'a file that does not say that it is ordered is read in one pass'
        if RANK[e[0]] < last:
            return '%ss are reported after %ss' % (e[0], [k for k in RANK if RANK[k] == last][0])
        last = max(RANK[k] for k in e)
        done += e
    for k in on:
        if done.count(k) != 1:
            return '%ss are reported %d times' % (k, done.count(k))
    return None


def passed(F, T, o, I):
    """kind of the callback that is handed over, None if it is an empty one or something else"""
    J = F.val(o)
    if J is None or J.op != 'alloca':
        return None
    for K in F.calls():
        if K.blk in F.reachable() and F.inst_dominates(K, I) and re.search(r'std::function<.*>::function(<.*>)?\(', K.dem or '') and K.ops and K.ops[0].get('v') == J.i:
            m = re.search(r'std::function<void \(unsigned long, ?(.*?)\)>::function(<.*>)?\((.*)\)', K.dem)
            if not m:
                return None
            if 'nullptr' in m.group(3) or m.group(3) == '':
                return None
            return kind(re.sub(r'::function(<.*>)?\(.*', '::operator()', K.dem)) or '?'
    return None


OPAQUE = [r'BufferedAsynchronousReader::|decode_varint|zigzag|TagMap::(clear|operator)|FileDataSource']
EXPL = ('Follows every number and pointer in the decoder back to the field of the file it was read from: a message loop is a cursor whose headers are split into field number and wire type; for every field number and wire type the blocks and '
        'edges of one turn of the loop that can be reached are computed, which gives every assigned variable, list and sub message its field. Ids, positions, node lists, members, roles, types and tags handed to the callbacks are normalised to polynomials over '
        'field values (zigzag decoded or not, summed up or not) and compared with what the OSM PBF format prescribes; lists and tag maps must be emptied between objects; no way through a turn may skip an object or a field.')
ASSUME = ['varints and zigzag numbers are decoded correctly (covered by the tests of the repository)', 'the format is that of the OSM PBF documentation']


def run(c):
    M = build.module(opaque=OPAQUE, mention=r'BufferedAsynchronousReader|varint', drivers=(), inline=build.STD_INLINE + [r'^std::pair<char|std::make_pair<'])
    c.use(M)
    F = [F for F in M.functions.values() if re.match(r'RoutingKit::unordered_read_osm_pbf\(', F.dem)]
    if len(F) != 1 or not any(VARINT.search(I.dem or '') for I in F[0].calls()):
        raise AnalysisBroken('decoder not found')
    block(c, F[0])
    D = [F for F in M.functions.values() if re.search(r"OsmPBFDecompressor", F.dem) and F.d.get('from_repo') and any(READ.search(I.dem or '') for I in F.calls()) and any(VARINT.search(I.dem or '') for I in F.calls())]
    D.sort(key=lambda F: -len(F.blocks))
    unordered = None
    if D:
        unordered = blob(c, M, D[0])
    else:
        c.notes.append('decompressor not found')
    M2 = build.module(opaque=OPAQUE + [r'internal_read_osm_pbf\('], mention=r'BufferedAsynchronousReader|varint', drivers=(), inline=build.STD_INLINE)
    passes(c, M2, unordered)
    return c.finish(EXPL, ASSUME)
