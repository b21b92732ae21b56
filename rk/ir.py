"""Program representation used by every check: functions, CFG, dominators, access-path terms.

The JSON is produced by tool/rkir.cpp from clang bitcode of /repo's current sources."""
import json, re, sys
from functools import lru_cache

sys.setrecursionlimit(20000)

NORET = re.compile(r'^(__cxa_throw|__cxa_rethrow|_ZSt9terminatev|abort|__clang_call_terminate|_Unwind_Resume|exit|_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE|_ZSt16__throw_.*|_ZSt.*__throw_.*)$')


class Inst:
    __slots__ = ('i', 'op', 'ty', 'ops', 'd', 'fn', 'dem', 'blk', 'pos', 'F')

    def __init__(self, d, F, blk, pos):
        self.d = d
        self.i = d['i']
        self.op = d['op']
        self.ty = d.get('ty', 'void')
        self.ops = d.get('ops', [])
        self.fn = d.get('fn')
        self.dem = d.get('dem', '')
        self.blk = blk
        self.pos = pos
        self.F = F

    def __repr__(self):
        return '<%s %%%d %s %s>' % (self.op, self.i, self.dem or self.ty, self.where())

    @property
    def is_call(self):
        return self.op in ('call', 'invoke')

    def loc(self):
        l = self.d.get('loc')
        return self.F.M.locs[l] if l is not None else []

    def where(self):
        L = self.loc()
        # innermost location that lies in the repository
        for f, line, col, fn in L:
            if '/include/c++/' not in f and f.startswith(self.F.M.repo):
                return '%s:%d (%s)' % (f[len(self.F.M.repo) + 1:], line, fn)
        if L:
            return '%s:%d' % (L[0][0], L[0][1])
        return '%s:%d (%s)' % (self.F.file.replace(self.F.M.repo + '/', ''), self.F.line, self.F.sname)

    def chain(self):
        out = []
        for f, line, col, fn in self.loc():
            if f.startswith(self.F.M.repo):
                out.append('%s:%d in %s' % (f[len(self.F.M.repo) + 1:], line, fn))
        return ' <- '.join(out)


class Function:
    def __init__(self, d, M):
        self.M = M
        self.d = d
        self.name = d['name']
        self.dem = d['dem']
        self.file = d['file']
        self.line = d['line']
        self.sname = d['sname']
        self.scope = d['scope']
        self.params = d['params']
        self.sig = d['sig']
        self.blocks = []
        self.by_id = {}
        for bi, b in enumerate(d['blocks']):
            L = []
            for pos, x in enumerate(b):
                I = Inst(x, self, bi, pos)
                L.append(I)
                self.by_id[I.i] = I
            self.blocks.append(L)
        n = len(self.blocks)
        self.succ = [[] for _ in range(n)]
        self.pred = [[] for _ in range(n)]
        for bi, b in enumerate(self.blocks):
            if not b:
                continue
            t = b[-1]
            if t.op in ('br', 'switch'):
                s = t.d['succ']
            elif t.op == 'invoke':
                s = [t.d['normal'], t.d['unwind']]
            else:
                s = []
            # a block that calls a non returning function has no successors
            if t.op in ('br', 'switch') and any(I.is_call and I.fn and (NORET.match(I.fn) or I.d.get('noret')) for I in b):
                s = []
            seen = []
            for x in s:
                if x not in seen:
                    seen.append(x)
            self.succ[bi] = seen
            for x in seen:
                self.pred[x].append(bi)
        self._term = {}
        self._dom = None
        self._pdom = None

    # ----- basic iteration
    def insts(self):
        for b in self.blocks:
            for I in b:
                yield I

    def reachable(self):
        if not hasattr(self, '_reach'):
            seen = {0}
            st = [0]
            while st:
                x = st.pop()
                for y in self.succ[x]:
                    if y not in seen:
                        seen.add(y)
                        st.append(y)
            self._reach = seen
        return self._reach

    def calls(self, rx=None):
        r = re.compile(rx) if isinstance(rx, str) else rx
        for b in sorted(self.reachable()):
            for I in self.blocks[b]:
                if I.is_call and (r is None or r.search(I.dem or I.fn or '')):
                    yield I

    def exits(self):
        """blocks ending in a normal return"""
        return [bi for bi in self.reachable() if self.blocks[bi] and self.blocks[bi][-1].op == 'ret']

    def users(self, I):
        if not hasattr(self, '_users'):
            u = {}
            for J in self.insts():
                for o in J.ops:
                    if 'v' in o:
                        u.setdefault(o['v'], []).append(J)
                fp = J.d.get('fp')
                if fp and 'v' in fp:
                    u.setdefault(fp['v'], []).append(J)
            self._users = u
        return self._users.get(I.i, [])

    def arg_users(self, n):
        return [J for J in self.insts() if any(o.get('a') == n for o in J.ops)]

    # ----- dominators
    def rpo(self):
        if not hasattr(self, '_rpo'):
            seen = set()
            out = []
            st = [(0, iter(self.succ[0]))]
            seen.add(0)
            while st:
                n, it = st[-1]
                for y in it:
                    if y not in seen:
                        seen.add(y)
                        st.append((y, iter(self.succ[y])))
                        break
                else:
                    out.append(n)
                    st.pop()
            self._rpo = out[::-1]
        return self._rpo

    def idom(self):
        if self._dom is None:
            self._dom = _idom(self.rpo(), self.pred, 0)
        return self._dom

    def _domint(self):
        if not hasattr(self, '_dint'):
            d = self.idom()
            ch = {}
            for b, p in d.items():
                if b != p:
                    ch.setdefault(p, []).append(b)
            pre, post, n = {}, {}, 0
            st = [(0, iter(ch.get(0, [])))]
            pre[0] = 0
            while st:
                x, it = st[-1]
                for y in it:
                    n += 1
                    pre[y] = n
                    st.append((y, iter(ch.get(y, []))))
                    break
                else:
                    post[x] = n
                    st.pop()
            self._dint = (pre, post, ch)
        return self._dint

    def dominates(self, a, b):
        """block a dominates block b"""
        pre, post, _ = self._domint()
        if b not in pre:
            return True
        if a not in pre:
            return False
        return pre[a] <= pre[b] <= post[a]

    def dom_subtree(self, a):
        ch = self._domint()[2]
        out, st = set(), [a]
        while st:
            x = st.pop()
            out.add(x)
            st.extend(ch.get(x, []))
        return out

    def edge_region(self, b, s):
        """blocks that can only be reached through edge b->s"""
        if len(self.succ[b]) == 0:
            return set()
        if all(p == b or p not in self.reachable() or self.dominates(s, p) for p in self.pred[s]):
            # parallel edges from b to s are merged in succ
            t = self.blocks[b][-1]
            if t.op == 'br' and t.ops and t.d['succ'][0] == t.d['succ'][1]:
                return set()
            return self.dom_subtree(s)
        return set()

    def inst_dominates(self, A, B):
        if A.blk == B.blk:
            return A.pos < B.pos
        return self.dominates(A.blk, B.blk)

    def back_edges(self):
        return [(b, s) for b in self.reachable() for s in self.succ[b] if self.dominates(s, b)]

    def loops(self):
        """header -> set of blocks"""
        if not hasattr(self, '_loops'):
            L = {}
            for b, h in self.back_edges():
                body = L.setdefault(h, {h})
                st = [b]
                while st:
                    x = st.pop()
                    if x in body:
                        continue
                    body.add(x)
                    st.extend(p for p in self.pred[x] if p in self.reachable())
            self._loops = L
        return self._loops

    # edges: does edge (b, s) dominate block x ?
    def edge_dominates(self, b, s, x):
        """every path from entry to x uses edge b->s"""
        if not self.dominates(s, x):
            return False
        k = ('ed', b, s)
        m = self._term.get(k)
        if m is None:
            m = bool(self.edge_region(b, s))
            self._term[k] = m
        return m

    def reach_avoiding(self, start_blk, start_pos, goal, stop):
        """Is there a path from just after (blk,pos) to an instruction satisfying goal(I) without passing
        an instruction satisfying stop(I)?  goal is tested before stop.  Returns the goal instruction."""
        seen = set()
        st = [(start_blk, start_pos + 1)]
        while st:
            b, p = st.pop()
            blocked = False
            for I in self.blocks[b][p:]:
                if goal(I):
                    return I
                if stop(I):
                    blocked = True
                    break
            if blocked:
                continue
            for s in self.succ[b]:
                if s not in seen:
                    seen.add(s)
                    st.append((s, 0))
        return None

    # ----- values
    def val(self, ref):
        if 'v' in ref:
            return self.by_id[ref['v']]
        return None

    # guard conditions: list of (condition term, polarity) of branch edges that dominate blk
    def guards(self, blk):
        if not hasattr(self, '_guards'):
            self._guards = {}
        if blk in self._guards:
            return self._guards[blk]
        out = []
        d = self.idom()
        chain = []
        b = blk
        while b is not None:
            chain.append(b)
            n = d.get(b)
            if n == b:
                break
            b = n
        for b in chain:
            t = self.blocks[b][-1] if self.blocks[b] else None
            if t is None:
                continue
            if t.op == 'br' and t.ops and len(self.succ[b]) == 2:
                s0, s1 = t.d['succ']
                e0 = self.edge_dominates(b, s0, blk)
                e1 = self.edge_dominates(b, s1, blk)
                if e0 and not e1:
                    out.append((t.ops[0], True, b))
                elif e1 and not e0:
                    out.append((t.ops[0], False, b))
            elif t.op == 'switch' and len(self.succ[b]) >= 2:
                ss = t.d['succ']
                cases = t.d['cases']
                for s in set(ss):
                    if self.edge_dominates(b, s, blk):
                        vals = [c for c, x in zip(cases, ss[1:]) if x == s]
                        out.append((t.ops[0], ('case', tuple(vals), ss[0] == s, tuple(cases)), b))
                        break
        self._guards[blk] = out
        return out


def _idom(order, pred, root):
    idx = {b: i for i, b in enumerate(order)}
    dom = {root: root}
    changed = True
    while changed:
        changed = False
        for b in order:
            if b == root:
                continue
            new = None
            for p in pred[b]:
                if p in dom and p in idx:
                    if new is None:
                        new = p
                    else:
                        x, y = p, new
                        while x != y:
                            while idx[x] > idx[y]:
                                x = dom[x]
                            while idx[y] > idx[x]:
                                y = dom[y]
                        new = x
            if new is not None and dom.get(b) != new:
                dom[b] = new
                changed = True
    return dom


class Module:
    def __init__(self, path, repo):
        self.repo = repo
        with open(path) as f:
            d = json.load(f)
        self.types = d['types']
        self.locs = d['locs']
        self.globals = {g['name']: g for g in d['globals']}
        self.functions = {}
        for f in d['functions']:
            self.functions[f['name']] = Function(f, self)

    def find(self, rx):
        r = re.compile(rx)
        return [F for F in self.functions.values() if r.search(F.dem)]

    def one(self, rx):
        L = self.find(rx)
        if len(L) != 1:
            raise AnalysisBroken('anchor %r matches %d functions: %s' % (rx, len(L), [F.dem[:90] for F in L][:6]))
        return L[0]

    # ----- types
    def strip(self, t):
        """strip typedef/const/volatile"""
        while t is not None and t >= 0 and self.types[t]['k'] in ('typedef', 'const', 'volatile', 'derived'):
            t = self.types[t].get('b', -1)
        return t

    def pointee(self, t):
        t = self.strip(t)
        if t is None or t < 0:
            return -1
        if self.types[t]['k'] in ('ptr', 'ref', 'rref'):
            return self.strip(self.types[t]['b'])
        return -1

    def is_ptr(self, t):
        t = self.strip(t)
        return t is not None and t >= 0 and self.types[t]['k'] in ('ptr', 'ref', 'rref')

    def tname(self, t):
        t = self.strip(t)
        if t is None or t < 0:
            return '?'
        ty = self.types[t]
        if ty['k'] in ('ptr', 'ref', 'rref'):
            return self.tname(ty['b']) + ('*' if ty['k'] == 'ptr' else '&')
        return ty['n'] or '<anon>'

    def is_const_pointee(self, t):
        """pointer/reference type whose target is const"""
        while t is not None and t >= 0 and self.types[t]['k'] in ('typedef', 'const', 'volatile'):
            t = self.types[t].get('b', -1)
        if t is None or t < 0 or self.types[t]['k'] not in ('ptr', 'ref', 'rref'):
            return False
        b = self.types[t]['b']
        while b is not None and b >= 0 and self.types[b]['k'] in ('typedef', 'volatile'):
            b = self.types[b].get('b', -1)
        return b is not None and b >= 0 and self.types[b]['k'] == 'const'

    def field_at(self, t, off):
        """(path names, leaf type, rest offset): descend as deep as possible"""
        names = []
        while True:
            t = self.strip(t)
            if t is None or t < 0:
                return names, -1, off
            ty = self.types[t]
            if ty['k'] == 'array':
                b = self.strip(ty['b'])
                sz = self.types[b]['sz'] if b is not None and b >= 0 else 0
                if sz:
                    names.append('[%d]' % (off // sz))
                    off %= sz
                    t = b
                    continue
                return names, t, off
            if ty['k'] != 'struct' or self.is_leaf_class(ty['n']):
                return names, t, off
            best = None
            for m in ty['m']:
                if m['o'] <= off:
                    mt = self.strip(m['t'])
                    sz = self.types[mt]['sz'] if mt is not None and mt >= 0 else 0
                    if self.types[mt]['k'] == 'array' and sz == 0:
                        sz = 1 << 40
                    if off < m['o'] + max(sz, 1):
                        best = m
            if best is None:
                return names, t, off
            names.append(best['n'])
            off -= best['o']
            t = best['t']

    LEAF = re.compile(r'^(std::|__gnu_cxx::)')

    def is_leaf_class(self, n):
        return bool(self.LEAF.match(n or ''))


class AnalysisBroken(Exception):
    pass
