"""O02: turn restrictions are decoded from relations as tagged."""
import os, re
from .. import build
from ..common import *
from ..tags import Tags, State, TooMany
from .o01 import nulls, loop_sets, num

EXPL = ('The data flow state follows the value of the restriction tag character by character to every place where a turn restriction is reported: category and direction must be those the value '
        'names, on every path. Where from, via and to come from is decided on the terms of the code: which list of members an id is read from, under which role members enter that list, which types are '
        'filtered out, under which conditions a via member is accepted, and that both lists are traversed completely.')
ASSUME = ['TagMap::operator[] returns a null pointer exactly if the key is absent', 'std::remove_if and std::vector behave as specified']
DIRS = ('left_turn', 'right_turn', 'straight_on', 'u_turn')
PRE = {'only_': 'mandatory', 'no_': 'prohibitive'}


def enum(name):
    for r, ds, fs in os.walk(os.path.join(build.REPO, 'include')):
        for x in sorted(fs):
            s = re.sub(r'//.*|/\*.*?\*/', '', open(os.path.join(r, x), errors='replace').read())
            m = re.search(r'enum\s+class\s+%s\s*(?::[^{]*)?\{(.*?)\}' % name, s, re.S)
            if m:
                out, n = {}, 0
                for e in m.group(1).split(','):
                    e = e.strip()
                    if e:
                        if '=' in e:
                            e, v = e.split('=')
                            n = int(v.strip(), 0)
                        out[e.strip()] = n
                        n += 1
                return out
    return {}


def offsets(M, cls):
    for t in M.types:
        if t.get('n', '').split('::')[-1] == cls and t.get('m'):
            return {m['n']: m['o'] for m in t['m']}
    return {}


class D:
    """the function under analysis"""

    def __init__(self, c, M, F):
        self.c, self.M, self.F, self.T = c, M, F, T_of(F)
        self.args = {p['vars'][0][0]: i for i, p in enumerate(F.params) if p.get('vars')}
        self.off = offsets(M, 'OSMRelationMember') or {'type': 0, 'id': 8, 'role': 16}
        self.types = enum('OSMIDType')
        self.calls = [I for I in F.insts() if I.is_call and re.search(r'std::function<void \(RoutingKit::OSMTurnRestriction\)>::operator\(\)', I.dem or '')]

    def member(self, t):
        """(index term, field name) if t is the value or address of a field of an element of the member list"""
        if isinstance(t, tuple) and t and t[0] in ('ld', 'addr'):
            t = t[1]
        o = 0
        name = None
        if isinstance(t, tuple) and t and t[0] == 'off':
            t, o = t[1], t[2]
        elif isinstance(t, tuple) and t and t[0] == 'f':
            t, name = t[1], t[-1]
        if isinstance(t, tuple) and t and t[0] == 'at' and (t[1] == ('arg', self.list_arg()) or self.is_list(t[1])):
            for k, v in self.off.items():
                if name == k or (name is None and v == o):
                    return t[2], k
        return None

    def list_arg(self):
        for i, p in enumerate(self.F.params):
            for v in p.get('vars') or ():
                if v[0] == 'member_list':
                    return i
        return 1

    def is_list(self, t):
        return isinstance(t, tuple) and t and t[0] == 'ld' and t[1] == ('arg', self.list_arg())

    def scalar(self, t, d=0):
        """value of a local that is written once"""
        while isinstance(t, tuple) and t and t[0] == 'ld' and isinstance(t[1], tuple) and t[1][0] == 'alloca' and d < 5:
            S = [I for I in self.F.insts() if I.op == 'store' and base_addr(self.T.addr_of(I.ops[1])) == t[1]]
            if len(S) != 1:
                return t
            t = self.T.term(S[0].ops[0])
            d += 1
        return t

    def lit(self, ref):
        A = Tags.__new__(Tags)
        A.M, A.F = self.M, self.F
        v = A.ref(State(), ref)
        return v[1][v[2]:] if v and v[0] == 'lit' else None

    def same_index(self, a, b):
        return self.norm(a) == self.norm(b)

    def norm(self, t):
        """a loop counter that lives in memory is the phi that is stored into it"""
        t = self.scalar(t)
        return t

    def roles(self, atoms, idx):
        """roles member idx has for sure; index may be None"""
        out = set()
        for J, pol in atoms:
            if isinstance(J, tuple) or J.op != 'icmp' or J.d['pred'] not in ('eq', 'ne') or pol != (J.d['pred'] == 'eq'):
                continue
            for o in J.ops:
                C = self.F.val(o)
                if C is not None and C.is_call and C.dem == 'strcmp' and any(x.get('c') == '0' for x in J.ops):
                    L = [self.lit(x) for x in C.ops]
                    m = [self.member(self.T.term(x)) for x in C.ops]
                    for l in L:
                        for x in m:
                            if l is not None and x and x[1] == 'role' and (idx is None or self.same_index(x[0], idx)):
                                out.add(l)
        return out

    def edge(self, p, b):
        """facts on the edge from block p into block b"""
        L = list(facts(self.F, p))
        I = self.F.blocks[p][-1]
        if I.op == 'br' and I.ops and self.F.succ[p][0] != self.F.succ[p][1]:
            L += cond_atoms(self.T, I.ops[0], self.F.succ[p][0] == b)
        return L


def base_addr(t):
    while isinstance(t, tuple) and t and t[0] == 'addr':
        t = t[1]
    return t


def values(d):
    """category and direction at every report"""
    c, F = d.c, d.F
    rule = 'category and direction follow the value of the tag'
    cat, dirs = enum('OSMTurnRestrictionCategory'), enum('OSMTurnDirection')
    tab = {p + x: (cat.get(PRE[p]), dirs.get(x)) for p in PRE for x in DIRS}
    off = offsets(d.M, 'OSMTurnRestriction')
    seen, odd = {}, []
    sizes = {}

    def on(A, s, I):
        if I.is_call and re.search(r'std::vector<.*>::(erase|push_back|emplace_back|clear|resize|pop_back|assign)', I.dem or ''):
            l = base_addr(d.T.addr_of(I.ops[0]))
            s.extra = tuple(x for x in s.extra if x[0] != l)
        elif I.is_call and not re.match(r'(strcmp|strncmp)$', I.dem or '') and not A.lookup.search(I.dem or ''):
            if any(v and v[0] == 'tag' for v in (A.ref(s, o) for o in I.ops)):
                s.extra = tuple(sorted(set(s.extra) | {(('blur',), True)}))
        if I in d.calls:
            p = A.ref(s, I.ops[1])
            if not (p and p[0] == 'al'):
                odd.append(I)
                return
            for s1, a in A.expand(s, s.mem.get((p[1], p[2] + off['category']))):
                for s2, b in A.expand(s1, s.mem.get((p[1], p[2] + off['direction']))):
                    f = s2.f('restriction')
                    blur = (('blur',), True) in s2.extra
                    seen.setdefault((f.full, a, b, blur), (s2.text(), I, f.null, s2.extra, bool(f.ch)))
                    sizes.setdefault((f.full, a), set()).add(s2.extra)

    def branch(A, s, I, x):
        J = F.val(I.ops[0])
        k = one(d, J)
        if k:
            s.extra = tuple(sorted(set(s.extra) | {(k[0], k[1] == x)}))
    A = Tags(d.M, F, on=on, branch=branch, widen=True)
    try:
        A.run()
    except TooMany:
        c.notes.append('%s: too many paths' % F.sname)
        return
    nulls(c, F, A)
    got = set()
    for (full, a, b, blur), (txt, I, null, ex, ch) in seen.items():
        if full is None:
            if a and b and a[0] == b[0] == 'i':
                if null is None or null:
                    c.bad(rule, I.where(), 'a turn restriction is reported without a look at the restriction tag')
                elif not blur:
                    c.bad(rule, I.where(), 'a turn restriction (%s, %s) is reported for every value with %s' % (rev(cat, a[1]), rev(dirs, b[1]), txt))
                else:
                    c.notes.append('%s: the value of the tag is not known at a report (%s)' % (F.sname, txt))
            continue
        if full not in tab:
            c.bad(rule, I.where(), 'a relation with restriction=%s is reported although that value is not known' % full)
            continue
        if not (a and b and a[0] == b[0] == 'i'):
            continue
        got.add(full)
        c.check((a[1], b[1]) == tab[full], rule, I.where(), 'restriction=%s is reported as %s, %s' % (full, rev(cat, a[1]), rev(dirs, b[1])), full)
    if got:
        for v in tab:
            if not any(k[0] is None for k in seen):
                c.check(v in got, rule, '%s (%s)' % (F.file.replace(build.REPO + '/', ''), F.sname), 'restriction=%s is never reported' % v, v + ' is reported')
    elif not seen:
        c.bad(rule, '%s (%s)' % (F.file.replace(build.REPO + '/', ''), F.sname), 'no restriction is ever reported')
    rule = 'a mandatory restriction has one from and one to'
    lists = {n: list_of(d, n) for n in ('from_way', 'to_way')}
    for (full, a), S in sizes.items():
        if full in tab and a and a[0] == 'i' and full.startswith('only_'):
            for n, l in lists.items():
                if l is None:
                    continue
                for ex in S:
                    c.check((l, True) in ex, rule, d.calls[0].where(), 'restriction=%s can be reported although it has several %s members' % (full, n.split('_')[0]), '%s, %s' % (full, n))
        elif full in tab and a and a[0] == 'i' and full.startswith('no_'):
            for n, l in lists.items():
                if l is None:
                    continue
                c.check(any((l, True) not in ex for ex in S), rule, d.calls[0].where(), 'restriction=%s is reported only if it has a single %s member' % (full, n.split('_')[0]), '%s, %s' % (full, n))


def early(d):
    """the members are counted after those that are no ways are gone"""
    F = d.F
    rule = 'a mandatory restriction has one from and one to'
    for n in ('from_way', 'to_way'):
        l = list_of(d, n)
        if l is None:
            continue
        E = [I for I in F.insts() if I.is_call and re.search(r'std::vector<.*>::(erase|resize|assign|operator=|pop_back|swap)', I.dem or '') and base_addr(d.T.addr_of(I.ops[0])) == l]
        for blk in range(len(F.blocks)):
            I = F.blocks[blk][-1]
            if I.op != 'br' or not I.ops or not any(one(d, J) and one(d, J)[0] == l for J in conds(F, I.ops[0])):
                continue
            later = [x for x in E if F.reach_avoiding(I.blk, I.pos, lambda X: X is x, lambda X: False) is not None and not F.inst_dominates(x, I)]
            drop = any(F.reach_avoiding(s, -1, lambda X: X in d.calls, lambda X: False) is None for s in F.succ[I.blk])
            if not drop:
                continue
            d.c.check(not later, rule, I.where(), 'the %s members are counted before those that are no ways are removed: a restriction with one way among them is dropped' % n.split('_')[0], '%s members are counted after the filter' % n)


def conds(F, o, k=0):
    J = F.val(o)
    if J is None or k > 3:
        return
    if J.op == 'icmp':
        yield J
    elif J.op in ('and', 'or', 'xor', 'select', 'phi'):
        for x in J.ops:
            yield from conds(F, x, k + 1)


def rev(e, v):
    for k, x in e.items():
        if x == v:
            return k
    return str(v)


def one(d, J):
    """(list, truth for which it has exactly one element)"""
    if J is None or J.op != 'icmp':
        return None
    x, y = d.T.term(J.ops[0]), d.T.term(J.ops[1])
    if y[0] != 'c':
        x, y = y, x
    if y[0] != 'c':
        return None
    p = J.d['pred']
    for s in [x] + list(subterms(x)):
        if isinstance(s, tuple) and s and s[0] in ('bytes', 'size') and len(s) == 2:
            l = base_addr(s[1])
            f = lambda n: num(x, {s: n * (4 if s[0] == 'bytes' else 1)})
            L = []
            for n in (0, 1, 2, 3):
                v = f(n)
                if v is None:
                    return None
                q = p[-2:]
                L.append({'eq': v == y[1], 'ne': v != y[1], 'lt': v < y[1], 'gt': v > y[1], 'le': v <= y[1], 'ge': v >= y[1]}[q])
            # "empty" lists report nothing, so that only the difference between one and several matters
            if L[1] and not L[2] and not L[3]:
                return l, True
            if not L[1] and L[2] and L[3]:
                return l, False
    return None


def stores(d, field):
    return [I for I in d.F.insts() if I.op == 'store' and isinstance(d.T.addr_of(I.ops[1]), tuple) and d.T.addr_of(I.ops[1])[0] == 'f' and d.T.addr_of(I.ops[1])[-1] == field]


def list_of(d, field):
    """the list of positions the member of a field is taken from"""
    for I in stores(d, field):
        m = d.member(d.T.term(I.ops[0]))
        if m and isinstance(m[0], tuple) and m[0][0] == 'ld' and m[0][1][0] == 'at':
            return base_addr(m[0][1][1])
    return None


def sources(d):
    c, F, T = d.c, d.F, d.T
    rule = 'from and to are the members of that role'
    way = d.types.get('way')
    lists = {}
    for field, role in (('from_way', 'from'), ('to_way', 'to')):
        for I in stores(d, field):
            t = d.scalar(T.term(I.ops[0]))
            m = d.member(t)
            if m is None:
                c.notes.append('%s := %s is not followed' % (field, show(t)[:60]))
                continue
            c.check(m[1] == 'id', rule, I.where(), '%s is set to the %s of a member' % (field, m[1]), '%s is an id' % field)
            l = list_of(d, field)
            if l is None:
                R = d.roles(facts(F, I.blk), m[0])
                if R:
                    c.check(role in R, rule, I.where(), '%s is set to a member of role %s' % (field, '/'.join(sorted(R))), field)
                else:
                    c.notes.append('%s is taken from member %s' % (field, show(m[0])[:60]))
                continue
            lists[field] = l
    for field, l in lists.items():
        role = field.split('_')[0]
        P = [I for I in F.insts() if I.is_call and re.search(r'std::vector<.*>::(push_back|emplace_back)', I.dem or '') and base_addr(T.addr_of(I.ops[0])) == l]
        if not P:
            c.notes.append('no position is ever added to the list %s is read from' % field)
        filtered_at_push = True
        for I in P:
            v = T.addr_of(I.ops[1])
            idx = ('ld', base_addr(v))
            A = facts(F, I.blk)
            R = d.roles(A, None)
            same = d.roles(A, d.scalar(idx))
            c.check(role in R, rule, I.where(), 'a member of role %s becomes the %s of a turn restriction' % ('/'.join(sorted(R)) or '(any)', role), '%s: role %s' % (field, role))
            if role in R and not same:
                c.notes.append('position added to the list of %s: %s' % (field, show(d.scalar(idx))[:60]))
            if not type_known(d, A, way):
                filtered_at_push = False
        if P and not filtered_at_push:
            filt(d, field, l)
        for I in P:
            for h, body in F.loops().items():
                if I.blk not in body:
                    continue
                for X in F.blocks[h]:
                    if X.op != 'phi' or not counter(d, X):
                        continue
                    m = [1 for J in F.insts() if J.op == 'load' for mm in [d.member(T.addr_of(J.ops[0]))] if mm and d.scalar(mm[0]) == ('phi', X.i)]
                    if not m:
                        continue
                    for o, q in zip(X.ops, X.d['in']):
                        if q not in body and 'c' in o:
                            c.check(o['c'] == '0', rule, X.where(), 'the members in front of position %s are never looked at' % o['c'], 'from the first member on')
                    E = F.blocks[h][-1]
                    if E.op == 'br' and E.ops:
                        J = F.val(E.ops[0])
                        if J is not None and J.op == 'icmp':
                            L = [T.term(o) for o in J.ops]
                            b = [t for t in L if t != ('phi', X.i) and mentions(t, ('arg', d.list_arg()))]
                            if b and ('phi', X.i) in L:
                                c.check(b[0][0] in ('size', 'ld', 'trunc'), rule, E.where(), 'the last members are never looked at: the loop ends at %s' % show(b[0])[:60], 'to the last member')
        # no member of that role is left out
        for J in F.insts():
            if J.is_call and J.dem == 'strcmp' and role in [d.lit(o) for o in J.ops] and any((d.member(T.term(o)) or (0, ''))[1] == 'role' for o in J.ops) and P:
                for U in F.users(J):
                    if U.op == 'icmp':
                        for B in F.users(U):
                            if B.op == 'br':
                                s = F.succ[B.blk][0 if U.d['pred'] == 'eq' else 1]
                                if not filtered_at_push:
                                    heads = [h for h, L in F.loops().items() if B.blk in L]
                                    r = F.reach_avoiding(s, -1, lambda X: X.blk in heads and X.pos == 0, lambda X: X in P) if heads else None
                                    c.check(r is None, rule, B.where(), 'a member of role %s can be left out' % role, 'every member of role %s is kept' % role)


def type_known(d, atoms, way):
    for J, pol in atoms:
        if isinstance(J, tuple) and J[0] == 'switch':
            m = d.member(d.T.term(J[1]))
            if m and m[1] == 'type' and pol and str(way) in [str(x) for x in pol]:
                return True
            continue
        if isinstance(J, tuple) or J.op != 'icmp':
            continue
        x, y = d.T.term(J.ops[0]), d.T.term(J.ops[1])
        for a, b in ((x, y), (y, x)):
            m = d.member(a)
            if m and m[1] == 'type' and b == ('c', way) and J.d['pred'] in ('eq', 'ne') and pol == (J.d['pred'] == 'eq'):
                return True
    return False


def filt(d, field, l):
    """members that are not ways are removed before anything is reported"""
    c, F, T = d.c, d.F, d.T
    rule = 'from and to are ways'
    way = d.types.get('way')
    R = [I for I in F.insts() if I.is_call and re.search(r'\bstd::remove_if<', I.dem or '') and any(mentions(T.addr_of(o), l) for o in I.ops)]
    E = [I for I in F.insts() if I.is_call and re.search(r'std::vector<.*>::erase', I.dem or '') and base_addr(T.addr_of(I.ops[0])) == l]
    for C in d.calls:
        dom = [I for I in R if F.inst_dominates(I, C)]
        erd = [I for I in E if F.inst_dominates(I, C)]
        typed = type_at_report(d, C, field, way)
        if typed:
            c.ok(rule, '%s is a way where it is reported' % field)
            continue
        if not R and other_filter(d, l):
            c.notes.append('%s is filtered in a way that is not followed' % field)
            continue
        c.check(bool(dom) and bool(erd), rule, C.where(), 'a member of role %s is reported without a check that it is a way' % field.split('_')[0], '%s is filtered' % field)
        for I in dom:
            rng = [T.addr_of(o) for o in I.ops[:2]]
            c.check(rng[0] in (('at', l, ('c', 0)), ('data', l), ('ld', ('data', l)), ('addr', ('at', l, ('c', 0)))) or 'data' in show(rng[0]) or show(rng[0]).endswith('[0]'), rule, I.where(), 'only a part of the members of role %s is filtered' % field.split('_')[0], 'from the first member on')
    for G in d.M.functions.values():
        if re.search(r'decode_osm_car_turn_restrictions\(.*\)::.*operator\(\)\(unsigned int( const&)?\) const', G.dem) and G is not F:
            predicate(d, G, way)


def mentions(t, l):
    return t == l or (isinstance(t, tuple) and any(mentions(x, l) for x in t if isinstance(x, tuple)))


def other_filter(d, l):
    """something else changes the list or reads the types of members"""
    for I in d.F.insts():
        if I.op == 'load':
            m = d.member(d.T.addr_of(I.ops[0]))
            if m and m[1] == 'type' and mentions(m[0], l):
                return True
        if I.is_call and not re.search(r'::(push_back|~vector|vector|erase|size|empty|begin|end)\b', I.dem or '') and any(base_addr(d.T.addr_of(o)) == l for o in I.ops if 'v' in o):
            return True
    return False


def type_at_report(d, C, field, way):
    for J, pol in facts(d.F, C.blk):
        if isinstance(J, tuple) or J.op != 'icmp':
            continue
        x, y = d.T.term(J.ops[0]), d.T.term(J.ops[1])
        m = d.member(x)
        if m and m[1] == 'type' and y == ('c', way) and pol == (J.d['pred'] == 'eq') and mentions(m[0], list_of(d, field)):
            return True
    return False


def predicate(d, G, way):
    """a predicate over members that is given to remove_if: true exactly for what is no way"""
    c = d.c
    rule = 'from and to are ways'
    T = T_of(G)
    ld = []
    for I in G.insts():
        if I.op == 'load' and I.ty in ('i32', 'i8', 'i64'):
            t = ('ld', T.addr_of(I.ops[0]))
            a = t[1]
            if isinstance(a, tuple) and a[0] == 'at' or (isinstance(a, tuple) and a[0] == 'f' and a[-1] == 'type'):
                ld.append(T.term({'v': I.i}))
    ld = list(dict.fromkeys(ld))
    c.fn(G)
    R = [I for I in G.insts() if I.op == 'ret' and I.ops]
    if len(R) != 1 or len(ld) != 1:
        c.notes.append('predicate %s is not followed' % short(G.dem)[-60:])
        return
    vals = []
    for v in sorted(d.types.values()):
        s = ret_under(G, T, ld[0], v)
        vals.append(s)
    if None in vals:
        c.notes.append('predicate %s is not followed' % short(G.dem)[-60:])
        return
    for (n, v), got in zip(sorted(d.types.items(), key=lambda x: x[1]), vals):
        c.check(got == (v != way), rule, R[0].where(), 'a member of type %s is %s' % (n, 'removed' if got else 'kept'), 'type %s is %s' % (n, 'removed' if got else 'kept'))


def ret_under(G, T, ld, v):
    """value returned when the type is v; callbacks do not matter"""
    def ev(t):
        if t == ld:
            return v
        if t[0] == 'c':
            return t[1]
        if t[0] == 'cmp':
            a, b = ev(t[2]), ev(t[3])
            if a is None or b is None:
                return None
            return int({'eq': a == b, 'ne': a != b, 'lt': a < b, 'gt': a > b, 'le': a <= b, 'ge': a >= b}[t[1][-2:]])
        if t[0] == 'xor' and len(t) == 3:
            a, b = ev(t[1]), ev(t[2])
            return None if a is None or b is None else (a ^ b) & 1
        return None
    # all paths, deciding the conditions that depend on the type
    out, st, seen = set(), [(0, None)], set()
    while st:
        b, prev = st.pop()
        if (b, prev) in seen:
            continue
        seen.add((b, prev))
        I = G.blocks[b][-1]
        if I.op == 'ret':
            J = G.val(I.ops[0])
            if J is not None and J.op == 'phi' and J.blk == b:
                o = [o for o, p in zip(J.ops, J.d['in']) if p == prev]
                r = ev(T.term(o[0])) if o else None
            else:
                r = ev(T.term(I.ops[0]))
            out.add(r)
            continue
        if I.op == 'br' and I.ops:
            x = ev(T.term(I.ops[0]))
            for i, s in enumerate(G.succ[b]):
                if x is None or bool(x) == (i == 0):
                    st.append((s, b))
            continue
        for s in G.succ[b]:
            st.append((s, b))
    return bool(out.pop()) if len(out) == 1 and None not in out else None


def via(d):
    c, F, T = d.c, d.F, d.T
    rule = 'via is the one node of that role'
    node = d.types.get('node')
    for I in stores(d, 'via_node'):
        L = leaves(d, I.ops[0], I.blk, None)
        for o, p, b in L:
            t = T.term(o)
            if t[0] == 'c':
                c.check(t[1] in (-1, (1 << 64) - 1), rule, I.where(), 'a restriction without via gets via node %s' % t[1], 'no via')
                # that edge is only taken without a via member
                vs = via_index(d)
                for v in vs:
                    A = d.edge(p, b) if p is not None and b is not None else []
                    r = index_state(d, A, v)
                    c.check(r != 'valid', rule, I.where(), 'a restriction with a via member is reported without via node', 'no via')
                continue
            m = d.member(t)
            if m is None:
                if any(m2 and m2[0] == t for J in F.insts() if J.op == 'load' for m2 in [d.member(T.addr_of(J.ops[0]))]):
                    c.bad(rule, I.where(), 'via_node is set to the position of a member instead of its id')
                else:
                    c.notes.append('via_node := %s is not followed' % show(t)[:60])
                continue
            c.check(m[1] == 'id', rule, I.where(), 'via_node is set to the %s of a member' % m[1], 'via is an id')
            src = origin(d, m[0])
            for x, A in src:
                R = d.roles(A, None)
                if R:
                    c.check('via' in R, rule, I.where(), 'via_node is taken from a member of role %s' % '/'.join(sorted(R)), 'role via')
            A = d.edge(p, b) if p is not None and b is not None else facts(F, I.blk)
            st = type_state(d, A, m[0])
            if st is None:
                # the restriction itself may be guarded
                st = type_state(d, facts(F, I.blk), m[0])
            if st is None:
                st = guarded_types(d, I, m[0])
            if st is None:
                c.bad(rule, I.where(), 'the id of a via member is used as the id of a node without a check of its type')
            else:
                c.check(st <= {node}, rule, I.where(), 'a via member of type %s is used as a node' % '/'.join(rev(d.types, x) for x in sorted(st - {node})), 'via is a node')
    several(d)


def guarded_types(d, I, idx):
    """types of member idx for which the report can be reached, deciding branches on the type (path insensitive otherwise)"""
    F, T = d.F, d.T
    out = set()
    used = False
    starts = [J for J in F.insts() if J.op == 'load' and d.member(T.addr_of(J.ops[0])) == (idx, 'type')]
    if not starts:
        return None
    first = min(starts, key=lambda J: (len([1 for K in starts if F.inst_dominates(J, K)]) * -1, J.blk))
    for v in d.types.values():
        st, seen = [first.blk], set()
        while st:
            b = st.pop()
            if b in seen:
                continue
            seen.add(b)
            K = F.blocks[b][-1]
            if K.op == 'br' and K.ops:
                x = cond_on_type(d, K.ops[0], idx, v)
                st += [s for i, s in enumerate(F.succ[b]) if x is None or x == (i == 0)]
            elif K.op == 'switch' and d.member(T.term(K.ops[0])) == (idx, 'type'):
                t = F.succ[b][0]
                for cse, s in zip(K.d.get('cases') or [], K.d['succ'][1:]):
                    if int(cse) == v:
                        t = s
                st.append(t)
            else:
                st += F.succ[b]
        if I.blk in seen:
            out.add(v)
    return out if out != set(d.types.values()) or True else None


def cond_on_type(d, ref, idx, v):
    J = d.F.val(ref)
    if J is None:
        return None
    if J.op == 'icmp':
        x, y = d.T.term(J.ops[0]), d.T.term(J.ops[1])
        if d.member(x) == (idx, 'type') and y[0] == 'c':
            q = J.d['pred'][-2:]
            return {'eq': v == y[1], 'ne': v != y[1], 'lt': v < y[1], 'gt': v > y[1], 'le': v <= y[1], 'ge': v >= y[1]}[q]
    if J.op in ('and', 'or') and J.ty == 'i1':
        a, b = (cond_on_type(d, o, idx, v) for o in J.ops)
        if J.op == 'and':
            return False if a is False or b is False else (True if a and b else None)
        return True if a or b else (False if a is False and b is False else None)
    return None


def type_state(d, atoms, idx):
    """types member idx can have"""
    S = None
    allt = set(d.types.values())
    for J, pol in atoms:
        if isinstance(J, tuple) and J[0] == 'switch':
            m = d.member(d.T.term(J[1]))
            if m == (idx, 'type'):
                vals = switch_vals(pol)
                if vals is not None:
                    S = (S if S is not None else allt) & vals
            continue
        if isinstance(J, tuple) or J.op != 'icmp':
            continue
        x, y = d.T.term(J.ops[0]), d.T.term(J.ops[1])
        if d.member(x) == (idx, 'type') and y[0] == 'c' and J.d['pred'] in ('eq', 'ne'):
            eq = pol == (J.d['pred'] == 'eq')
            S = (S if S is not None else allt) & ({y[1]} if eq else allt - {y[1]})
    return S


def switch_vals(pol):
    try:
        return {int(x) for x in pol}
    except (TypeError, ValueError):
        return None


def leaves(d, ref, p, b, seen=None):
    seen = seen if seen is not None else set()
    I = d.F.val(ref)
    if I is not None and I.op == 'phi':
        out = []
        if I.i in seen:
            return out
        seen.add(I.i)
        for o, q in zip(I.ops, I.d['in']):
            out += leaves(d, o, q, I.blk, seen)
        return out
    if I is not None and I.op == 'select':
        return leaves(d, I.ops[1], p, b, seen) + leaves(d, I.ops[2], p, b, seen)
    return [(ref, p, b)]


def via_index(d):
    out = []
    for I in stores(d, 'via_node'):
        for o, p, b in leaves(d, I.ops[0], I.blk, None):
            m = d.member(d.T.term(o))
            if m and m[0] not in out:
                out.append(m[0])
    return out


def index_state(d, atoms, v):
    for J, pol in atoms:
        if isinstance(J, tuple) or J.op != 'icmp' or J.d['pred'] not in ('eq', 'ne'):
            continue
        x, y = d.T.term(J.ops[0]), d.T.term(J.ops[1])
        if v in (x, y) and any(z[0] == 'c' and z[1] in (0xffffffff, -1) for z in (x, y)):
            return 'none' if pol == (J.d['pred'] == 'eq') else 'valid'
    return None


def origin(d, idx):
    """[(index term, facts)] that flow into the index of the via member"""
    out = []
    if idx[0] != 'phi':
        return out
    st, seen = [idx[1]], set()
    while st:
        i = st.pop()
        if i in seen:
            continue
        seen.add(i)
        I = d.F.by_id.get(i)
        if I is None or I.op != 'phi':
            continue
        for o, p in zip(I.ops, I.d['in']):
            t = d.T.term(o)
            J = d.F.val(o)
            if J is not None and J.op == 'phi' and not counter(d, J):
                st.append(J.i)
            elif t[0] != 'c':
                out.append((t, d.edge(p, I.blk)))
    return out


def counter(d, J):
    """loop counter"""
    for o in J.ops:
        t = d.T.term(o)
        if isinstance(t, tuple) and t[0] == 'add' and ('c', 1) in t and J.i is not None:
            return True
    return False


def several(d):
    """a second member of role via ends the decoding"""
    c, F = d.c, d.F
    rule = 'via is the one node of that role'
    for v in via_index(d):
        if v[0] != 'phi':
            c.notes.append('via index %s is not followed' % show(v)[:40])
            continue
        for x, A in origin(d, v):
            acc = accumulators(d, v)
            ok = any(index_state(d, A, a) == 'none' for a in acc)
            where = F.by_id[v[1]].where()
            c.check(ok, rule, where, 'a second member of role via replaces the first one', 'one via')


def accumulators(d, v):
    out, st = set(), [v[1]]
    while st:
        i = st.pop()
        if ('phi', i) in out:
            continue
        out.add(('phi', i))
        I = d.F.by_id.get(i)
        if I is not None and I.op == 'phi':
            for o in I.ops:
                J = d.F.val(o)
                if J is not None and J.op == 'phi' and not counter(d, J):
                    st.append(J.i)
    return out


def complete(d):
    """every pair of a from and a to member is reported"""
    c, F, T = d.c, d.F, d.T
    rule = 'every pair of from and to is reported'
    for C in d.calls:
        L = [(h, b) for h, b in F.loops().items() if C.blk in b]
        for field in ('from_way', 'to_way'):
            l = list_of(d, field)
            if l is None:
                continue
            mine = [(h, b) for h, b in L if walks(d, h, b, l)]
            if not mine:
                c.notes.append('the loop over the list of %s is not followed' % field)
                continue
            h, body = min(mine, key=lambda x: len(x[1]))
            ex = [(b, s) for b in body for s in F.succ[b] if s not in body]
            for b, s in ex:
                I = F.blocks[b][-1]
                t = T.term(I.ops[0]) if I.ops else None
                ok = I.op == 'br' and I.ops and mentions_list(d, I.ops[0], l)
                if F.exits() and s in [x.blk if hasattr(x, 'blk') else x for x in F.exits()] and False:
                    continue
                c.check(bool(ok), rule, I.where(), 'the loop over the %s members can end before the last one' % field.split('_')[0], '%s: ends with the list' % field)
            # the report is on every way through the body
            inner = [b for hh, b in L if hh != h and b < body]
            if not inner:
                r = F.reach_avoiding(h, -1, lambda X: any(X.blk == b and X is F.blocks[b][-1] and h in F.succ[b] for b in body), lambda X: X is C or (X.blk not in body))
                guarded = r is not None
                if guarded:
                    # skipping some pair on purpose is judged elsewhere (types); anything else is not followed
                    if any(type_branch(d, b) for b in body):
                        continue
                c.check(not guarded, rule, C.where(), 'a pair of members can be skipped', '%s: each is reported' % field)
            for I in F.blocks[h]:
                if I.op == 'phi':
                    for o, p in zip(I.ops, I.d['in']):
                        if p not in body:
                            t = T.term(o) if I.ty != 'ptr' else T.addr_of(o)
                            if I.ty == 'ptr' and mentions(t, l):
                                z = show(t)
                                c.check(not re.search(r'\[[1-9]|off\(', z), rule, I.where(), 'the loop over the %s members starts at %s' % (field.split('_')[0], z), '%s: from the first' % field)
                            elif t[0] == 'c' and I.ty != 'ptr' and indexes(d, I, l):
                                c.check(t[1] == 0, rule, I.where(), 'the loop over the %s members starts at %s' % (field.split('_')[0], t[1]), '%s: from the first' % field)


def type_branch(d, b):
    I = d.F.blocks[b][-1]
    if I.op == 'br' and I.ops:
        J = d.F.val(I.ops[0])
        if J is not None and J.op == 'icmp':
            m = d.member(d.T.term(J.ops[0]))
            return bool(m and m[1] == 'type')
    return False


def indexes(d, I, l):
    return any(t[0] == 'at' and t[1] == l and mentions(t[2], ('phi', I.i)) for J in d.F.insts() if J.op == 'load' for t in [d.T.addr_of(J.ops[0])] if isinstance(t, tuple) and t)


def walks(d, h, body, l):
    for I in d.F.blocks[h]:
        if I.op == 'phi' and I.ty == 'ptr' and any(mentions(d.T.addr_of(o), l) for o in I.ops):
            return True
        if I.op == 'phi' and I.ty != 'ptr' and indexes(d, I, l):
            return True
    return False


def mentions_list(d, ref, l):
    J = d.F.val(ref)
    if J is None:
        return False
    for o in J.ops:
        t = d.T.addr_of(o) if d.F.val(o) is not None and d.F.val(o).ty == 'ptr' else d.T.term(o)
        if mentions(t, l):
            return True
    return False


def relation(d):
    c, F = d.c, d.F
    rule = 'the reported relation id is the one given'
    for I in stores(d, 'osm_relation_id'):
        t = d.scalar(d.T.term(I.ops[0]))
        c.check(t == ('arg', 0), rule, I.where(), 'the relation id is set to %s' % show(t)[:60], 'argument')


def run(c):
    M = build.module(opaque=[r'TagMap::operator'], mention=r'TagMap', drivers=(), inline=build.STD_INLINE)
    c.use(M)
    for F in M.functions.values():
        if F.sname == 'decode_osm_car_turn_restrictions' and F.d.get('link') != 'internal':
            c.fn(F)
            d = D(c, M, F)
            if not d.calls:
                c.bad('category and direction follow the value of the tag', '%s (%s)' % (F.file.replace(build.REPO + '/', ''), F.sname), 'no turn restriction is ever reported')
                continue
            values(d)
            early(d)
            relation(d)
            sources(d)
            via(d)
            complete(d)
    return c.finish(EXPL, ASSUME)
