"""D01: every weight and distance is the length of the path it stands for."""
import re
from .. import build, kinds, paths
from ..common import *
from ..paths import Paths, ANY, BAD, names, strip
from . import d01b

FUNCS = r'RoutingKit::(Customizable)?ContractionHierarchy(Query|Metric|Parallelization|PartialCustomization|ExtraWeight)?(<.*>)?::|RoutingKit::(\(anonymous namespace\)::)?Dijkstra::|RoutingKit::check_contraction_hierarchy|omp_outlined|unpack_arc|RoutingKit::Dijkstra::'


def leaves(t):
    t = strip(t)
    if t[0] == 'add':
        return leaves(t[1]) + leaves(t[2])
    return [t]


def run(ctx):
    M = build.module(opaque=kinds.OPAQUE, drivers=('headers', 'links'))
    ctx.use(M)
    unknown = []
    fs = []
    for F in M.functions.values():
        if not re.search(FUNCS, F.dem) and not F.d.get('rec'):
            continue
        if not (is_root(F, M) or 'omp_outlined' in F.dem) or ('::detail::' in short(F.dem) and not F.d.get('rec')):
            continue
        fs.append(F)
    P = {F.name: Paths(F) for F in fs}
    rest = [F for F in M.functions.values() if F.name not in P and F.d.get('from_repo') and (is_root(F, M) or 'omp_outlined' in F.dem)]
    contracts(fs, P)
    for F in fs:
        one(ctx, F, P[F.name], unknown)
    for F in rest:
        if all_arcs(ctx, F, Paths(F)):
            ctx.fn(F)
    for u in sorted({re.sub(r' in .*', '', u) for u in unknown}):
        ctx.notes.append('no statement about ' + u)
    import os
    if os.environ.get('RK_UNKNOWN'):
        open(os.environ['RK_UNKNOWN'], 'w').write('\n'.join(sorted(set(unknown))) + '\n')
    return ctx.finish('Types every weight of the query, customization, contraction, unpacking, extra weight and Dijkstra functions with the pair of nodes whose connecting path it is the length of; end points of arcs are derived from the loops that enumerate them and from lookups. Sums and linked weights must connect, stored and compared weights must belong to the same pair of nodes, queue keys, distances, flags, predecessors, meeting nodes and shortcut middles that belong together must be updated together, loops over the arcs of a node must cover all of them.',
                      ['the arrays of the indexes hold what their names say (heads, tails, weights; established by the constructors)', 'hierarchies contain no loops'])


def contracts(fs, P):
    """which integer parameters of recursive helpers are the tail or head of an arc parameter: greatest set that holds at every call"""
    rec = {F.name: F for F in fs if F.d.get('rec')}
    if not rec:
        return
    calls = {n: [] for n in rec}
    for F in fs:
        for I in F.calls():
            if I.fn in rec and I.blk in F.reachable():
                calls[I.fn].append((F, I))
    cand = {}
    for n, F in rec.items():
        ints = [i for i, p in enumerate(F.params) if p['ty'] == 'i32']
        cand[n] = {(w, 'up', k, i) for k in ints for i in ints if i != k for w in ('HEAD', 'TAIL')} if calls[n] else set()
    ch = True
    while ch:
        ch = False
        for n in rec:
            P[n].assumed = [((w, f, ('arg', k)), ('arg', i)) for w, f, k, i in cand[n]]
        for n in rec:
            for c in sorted(cand[n]):
                w, f, k, i = c
                for F, I in calls[n]:
                    p = P[F.name]
                    if not p.same(p._end(f, p.T.term(I.ops[k]), w, 0), p.node(p.T.term(I.ops[i])), I.blk):
                        cand[n].discard(c)
                        ch = True
                        break


def pieces(P, v, b):
    """the values a phi that is no loop variable selects from"""
    v = strip(v)
    F, T = P.F, P.T
    if v[0] == 'phi' and len(v) == 2 and F.by_id[v[1]].op == 'phi' and F.by_id[v[1]].blk not in F.loops():
        I = F.by_id[v[1]]
        out = []
        for o, q in zip(I.ops, I.d['in']):
            out += pieces(P, T.term(o), q)
        return out
    if v[0] == 'sel':
        return pieces(P, v[2], b) + pieces(P, v[3], b)
    return [(v, b)]


def one(ctx, F, P, unknown):
    T = P.T
    used = False
    for b in sorted(F.reachable()):
        for I in F.blocks[b]:
            if I.op == 'store' or I.op in ('cmpxchg',):
                A = T.addr_of(I.ops[1] if I.op == 'store' else I.ops[0])
                v = T.term(I.ops[0] if I.op == 'store' else I.ops[2])
                pt = P.place(A)
                if pt is None:
                    continue
                used = True
                for v, vb in pieces(P, v, b):
                  vt = P.wtype(v, vb)
                  if vt is ANY:
                    continue
                  r = P.agree(pt, vt, vb)
                  if r is None:
                    unknown.append('store %s in %s: %s <- %s (%s <- %s)' % (I.where(), short(F.dem), show(A, T), show(v, T), P.show(pt), P.show(vt)))
                    continue
                  shorter(ctx, F, P, I, A, v, vb)
                  ctx.check(r, 'stored-path', I.where(), '%s, the length of a path %s, is stored in %s, the length of a path %s' % (show(v, T), 'that is not connected' if vt is BAD else P.show(vt), show(A, T), P.show(pt)))
            elif I.is_call and re.search(r'OrderedLink::operator', I.dem):
                used = True
                x, y = (P.wtype(T.term(o), b) for o in I.ops[-2:])
                vt = P.link(x, y, b)
                if vt is None:
                    unknown.append('link %s in %s: %s . %s (%s . %s)' % (I.where(), short(F.dem), show(T.term(I.ops[-2]), T), show(T.term(I.ops[-1]), T), P.show(x), P.show(y)))
                    continue
                ctx.check(vt is not BAD, 'linked-paths', I.where(), 'link is called with the weight of a path %s and the weight of a path %s: the first must end where the second starts' % (P.show(x), P.show(y)))
            elif I.is_call and re.search(r'TimeDependentWeight::operator', I.dem):
                used = True
                a = strip(T.term(I.ops[-2]))
                for v, vb in pieces(P, T.term(I.ops[-1]), b):
                    vt = P.wtype(v, vb)
                    if not isinstance(vt, tuple) or vt[0] == 'both':
                        unknown.append('departure %s' % I.where())
                        continue
                    ctx.check(vt[0] == paths.S and P.same(vt[1], P.tail('g', a), b), 'departure-time', I.where(), 'the weight of the arc %s is evaluated for the departure time %s, which is not the arrival time at its tail' % (show(a, T), show(v, T)))
            elif I.op == 'icmp':
                a, c = T.term(I.ops[0]), T.term(I.ops[1])
                if strip(a)[0] != 'add' and strip(c)[0] != 'add' and not (strip(a)[0] == 'ld' and strip(c)[0] == 'ld'):
                    continue
                ta, tc = P.wtype(a, b), P.wtype(c, b)
                if ta is None and tc is None:
                    continue
                used = True
                r = P.agree(ta, tc, b)
                if ta is BAD or tc is BAD:
                    r = False
                if r is None:
                    unknown.append('cmp %s in %s: %s ? %s (%s ? %s)' % (I.where(), short(F.dem), show(a, T), show(c, T), P.show(ta), P.show(tc)))
                    continue
                ctx.check(r, 'compared-paths', I.where(), '%s (%s) is compared with %s (%s), the length of a path between other nodes' % (show(a, T), P.show(ta), show(c, T), P.show(tc)))
    if keys(ctx, F, P, unknown):
        used = True
    if together(ctx, F, P, unknown):
        used = True
    if unpacked(ctx, F, P):
        used = True
    if returned(ctx, F, P, unknown):
        used = True
    if all_arcs(ctx, F, P):
        used = True
    if shortcuts(ctx, F, P, unknown):
        used = True
    if requeued(ctx, F, P):
        used = True
    if d01b.rules_d01(ctx, F, P):
        used = True
    if used:
        ctx.fn(F)


def shorter(ctx, F, P, I, A, v, b):
    """a stored sum replaces a longer length only"""
    T = P.T
    v = strip(v)
    if v[0] != 'add' or I.op != 'store':
        return
    cmps = []
    for f, pol in facts(F, b):
        if isinstance(f, tuple) or f.op != 'icmp':
            continue
        x, y = strip(T.term(f.ops[0])), strip(T.term(f.ops[1]))
        p = f.d['pred']
        if x == ('ld', A) and y == v:
            x, y = y, x
            p = {'ugt': 'ult', 'ult': 'ugt', 'uge': 'ule', 'ule': 'uge', 'sgt': 'slt', 'slt': 'sgt', 'sge': 'sle', 'sle': 'sge'}.get(p, p)
        elif not (x == v and y == ('ld', A)):
            continue
        q = p[1:] if p[0] in 'us' and len(p) == 3 else p
        if not pol:
            q = {'lt': 'ge', 'gt': 'le', 'le': 'gt', 'ge': 'lt', 'eq': 'ne', 'ne': 'eq'}[q]
        cmps.append(q)
    if not cmps:
        n = names(A[1]) if len(A) > 1 else []
        l = n[-1] if n else ''
        if l in ('forward', 'backward') and 'Metric' in F.dem + ''.join(n):
            ctx.check(False, 'only-shorter', I.where(), '%s is replaced by %s without comparing the two' % (show(A, T), show(v, T)))
        return
    ctx.check(all(q in ('lt', 'le') for q in cmps), 'only-shorter', I.where(), '%s is replaced by %s although that is not known to be shorter' % (show(A, T), show(v, T)))


# ------------------------------------------------------------------------------------------------ queues
def pair(t):
    """(id, key) of an IDKeyPair"""
    t = t if t[0] != 'and' or t[2] != ('c', 0xffffffffffffffff) else t[1]
    if t[0] == 'or':
        for x, y in ((t[1], t[2]), (t[2], t[1])):
            if y[0] == 'shl' and y[2] == ('c', 32):
                return strip(x), strip(y[1])
    return None, None


def side(ns):
    for n in ns:
        for d in ('forward', 'backward'):
            if n.startswith(d + '_') or n.startswith('was_' + d + '_'):
                return d
    return None


def keys(ctx, F, P, unknown):
    T, used = P.T, False
    for I in F.calls(r'MinIDQueue::(push|decrease_key)$|MinIDQueue::(push|decrease_key)\('):
        if I.blk not in F.reachable():
            continue
        ns = names(T.addr_of(I.ops[0]))
        d = side(ns) or ('forward' if 'Dijkstra' in F.dem else None)
        if d is None:
            continue
        i, k = pair(T.term(I.ops[1]))
        if i is None:
            continue
        vt = P.wtype(k, I.blk)
        if vt is ANY or strip(k)[0] != 'add':
            continue
        used = True
        pt = (paths.S, P.node(i)) if d == 'forward' else (P.node(i), paths.T_)
        r = P.agree(pt, vt, I.blk)
        if r is None:
            unknown.append('key %s in %s: %s (%s <- %s)' % (I.where(), short(F.dem), show(k, T), P.show(pt), P.show(vt)))
            continue
        ctx.check(r, 'queue-key', I.where(), 'the node %s is put into the %s queue with the key %s, the length of a path %s' % (show(i, T), d, show(k, T), 'that is not connected' if vt is BAD else P.show(vt)))
    return used


# ------------------------------------------------------------------------------------------------ what belongs together
def accompanied(F, A, Bs):
    """whenever A is executed, one of Bs is executed in the same iteration of the loops around A"""
    if not Bs:
        return False
    hs = {h for h, body in F.loops().items() if A.blk in body}
    ids = {B.i for B in Bs}
    firsts = {F.blocks[h][0].i for h in hs}
    inner = max(hs, key=lambda h: -len(F.loops()[h])) if hs else 0
    # from the start of the iteration to A, then to its end, without any of Bs
    st = F.blocks[inner][0]
    if st.i != A.i and F.reach_avoiding(inner, -1, lambda I: I.i == A.i, lambda I: I.i in ids or I.i in firsts and I.i != st.i) is None:
        return True
    return F.reach_avoiding(A.blk, A.pos, lambda I: I.i in firsts or I.op in ('ret', 'unreachable'), lambda I: I.i in ids) is None


def origin(P, v, blk, seen=()):
    """(arc, node) over which the distance v was reached, None if v is no such sum; list for phis"""
    v = strip(v)
    ls = leaves(v)
    if v[0] == 'add' and len(ls) == 2:
        arc = node = None
        for l in ls:
            ty = P.wtype(l, blk)
            if not isinstance(ty, tuple) or ty[0] == 'both':
                return None
            if ty[0] == paths.S:
                node = ty[1]
            elif ty[1] == paths.T_:
                node = ty[0]
            elif l[0] == 'ld' and l[1][0] == 'at':
                arc = strip(l[1][2])
        if arc is not None and node is not None:
            return arc, node
    return None


def matches(P, v, p, kind, blk, seen=frozenset()):
    """does predecessor p (an arc or a node) belong to the distance v: True / False / None"""
    v, p = strip(v), strip(p)
    if v[0] in ('c', 'undef') or p[0] in ('c', 'undef'):
        return True
    if (v, p) in seen:
        return True
    F, T = P.F, P.T
    if v[0] == 'phi' and len(v) == 2 and F.by_id[v[1]].op == 'phi':
        I = F.by_id[v[1]]
        if p[0] == 'phi' and len(p) == 2 and F.by_id[p[1]].op == 'phi' and F.by_id[p[1]].blk == I.blk:
            J = F.by_id[p[1]]
            r = True
            for o, b in zip(I.ops, I.d['in']):
                x = matches(P, T.term(o), T.term(J.ops[J.d['in'].index(b)]), kind, b, seen | {(v, p)})
                if x is False:
                    return False
                if x is None:
                    r = None
            return r
        return None
    o = origin(P, v, blk)
    if o is None:
        return None
    if kind == 'node':
        return P.same(o[1], P.node(p), blk) or (None if not (P.resolved(o[1]) and P.resolved(p)) else False)
    if o[0] == p:
        return True
    if p[0] == 'phi' or o[0][0] == 'phi' and p[0] != 'c':
        # another name of the same arc?
        return None if p[0] != 'phi' or o[0][0] != 'phi' or F.by_id[p[1]].blk != F.by_id[o[0][1]].blk else False
    return False


def together(ctx, F, P, unknown):
    if 'Query::' not in F.dem and 'Dijkstra' not in F.dem:
        return False
    T, used = P.T, False
    upd, pred = [], []            # (inst, direction, node, value)
    flags = []
    for b in sorted(F.reachable()):
        for I in F.blocks[b]:
            if I.op == 'store':
                A = T.addr_of(I.ops[1])
                if A[0] not in ('at', 'ix') or len(A) < 3:
                    continue
                n = names(A[1])
                l = n[-1] if n else ''
                m = re.match(r'(forward_|backward_)?predecessor_(node|arc)$', l)
                if m:
                    pred.append((I, (m.group(1) or 'forward_')[:-1], m.group(2), strip(A[2]), T.term(I.ops[0])))
                m = re.match(r'(forward|backward)_tentative_distance$', l)
                if m:
                    upd.append((I, m.group(1), strip(A[2]), T.term(I.ops[0])))
            elif I.is_call and re.search(r'MinIDQueue::(push|decrease_key)\b', I.dem):
                i, k = pair(T.term(I.ops[1]))
                d = side(names(T.addr_of(I.ops[0]))) or ('forward' if 'Dijkstra' in F.dem else None)
                if i is not None and d:
                    upd.append((I, d, i, k))
            elif I.is_call and re.search(r'TimestampFlags::set\b', I.dem):
                flags.append((I, side(names(T.addr_of(I.ops[0]))), strip(T.term(I.ops[1]))))
    kinds_ = {(d, k) for _, d, k, _, _ in pred}
    for I, d, x, v in upd:
        o = origin(P, v, I.blk)
        sel = v[0] == 'phi'
        if o is None and not sel:
            continue
        for dd, k in sorted(kinds_):
            if dd != d or sel and k == 'node':
                continue
            used = True
            near = [p for p in pred if p[1] == d and p[2] == k and P.same(p[3], x, I.blk)]
            ok = accompanied(F, I, [p[0] for p in near])
            if not ok and I.is_call and I.ty == 'i1':
                # the key was decreased: the predecessor is replaced when decrease_key says so
                ok = any(F.inst_dominates(I, p[0]) for p in near)
            ctx.check(ok, 'distance-and-predecessor', I.where(), '%s gets a new %s distance over %s but its predecessor %s is not recorded along with it' % (show(x, T), d, show(v, T), k))
    for I, d, k, x, v in pred:
        if strip(v)[0] == 'c':
            continue
        us = [u for u in upd if u[1] == d and P.same(u[2], x, I.blk) and (u[0].blk == I.blk or F.inst_dominates(u[0], I) or F.inst_dominates(I, u[0]))]
        rs = [matches(P, u[3], v, k, u[0].blk) for u in us]
        if not rs:
            continue
        used = True
        if all(r is None for r in rs):
            unknown.append('pred %s in %s %s' % (I.where(), short(F.dem), show(v, T)))
            continue
        ctx.check(False not in rs, 'distance-and-predecessor', I.where(), 'the predecessor %s of %s is recorded as %s, but its distance was reached as %s' % (k, show(x, T), show(v, T), show(us[rs.index(False)][3], T) if False in rs else ''))
    # the key in the queue is the distance
    for d in ('forward', 'backward'):
        S_ = [u for u in upd if u[1] == d and not u[0].is_call and origin(P, u[3], u[0].blk)]
        Q = [u for u in upd if u[1] == d and u[0].is_call and origin(P, u[3], u[0].blk)]
        if not S_ or not Q:
            continue
        for X, Y, what in ((S_, Q, 'its key in the queue does not change along with it'), (Q, S_, 'the distance itself is not stored')):
            for I, _, x, v in X:
                used = True
                near = [u for u in Y if P.same(u[2], x, I.blk) and strip(u[3]) == strip(v)]
                ctx.check(accompanied(F, I, [u[0] for u in near]), 'distance-and-key', I.where(), '%s gets the %s distance %s but %s' % (show(x, T), d, show(v, T), what))
    # flags of the nodes that have a distance
    asked = {side(names(T.addr_of(I.ops[0]))) for I in F.calls(r'TimestampFlags::is_set\b')} | {f[1] for f in flags}
    if asked - {None}:
        for I, d, x, v in upd:
            if I.is_call and re.search(r'::push\b', I.dem) and d in asked:
                used = True
                ctx.check(accompanied(F, I, [f[0] for f in flags if f[1] == d and P.same(f[2], x, I.blk)]), 'pushed-flag', I.where(), '%s is put into the %s queue without marking it as reached' % (show(x, T), d))
    # the meeting node belongs to the best length
    for b in sorted(F.reachable()):
        for I in F.blocks[b]:
            if I.op != 'store':
                continue
            A = T.addr_of(I.ops[1])
            if not (A[0] == 'f' and A[2] == 'shortest_path_meeting_node'):
                continue
            x = T.term(I.ops[0])
            if strip(x)[0] == 'c':
                continue
            sums = []
            for f, pol in facts(F, b):
                if isinstance(f, tuple) or f.op != 'icmp':
                    continue
                for o in f.ops:
                    t = strip(T.term(o))
                    ls = leaves(t)
                    if t[0] == 'add' and len(ls) == 2:
                        ts = [P.wtype(l, b) for l in ls]
                        if all(isinstance(y, tuple) and y[0] != 'both' for y in ts):
                            sums.append((f, t, ts))
            if not sums:
                continue
            used = True
            good = [s_ for s_ in sums if any(a[0] == paths.S and P.same(a[1], x, b) for a in s_[2]) and any(a[1] == paths.T_ and P.same(a[0], x, b) for a in s_[2])]
            ctx.check(bool(good), 'meeting-node', I.where(), '%s becomes the meeting node because of %s, which is not the length of the path over it' % (show(x, T), show(sums[0][1], T)))
            if good:
                t = good[0][1]
                keep = set()
                for J in F.insts():
                    if J.op == 'phi':
                        for o, q in zip(J.ops, J.d['in']):
                            if strip(T.term(o)) == t and (q == b or F.dominates(b, q)):
                                keep.add(J.i)
                    elif J.op == 'store' and strip(T.term(J.ops[0])) == t and (J.blk == b or F.dominates(b, J.blk)):
                        keep.add(J.i)
                sel = [J for J in F.insts() if J.op == 'select' and any(strip(T.term(o)) == t for o in J.ops[1:])]
                ctx.check(bool(keep or sel), 'meeting-node', I.where(), '%s becomes the meeting node but the length %s of the path over it is not kept' % (show(x, T), show(t, T)))
    return used


# ------------------------------------------------------------------------------------------------ unpacking
def emitted(P, I):
    """type of the path a recursive unpacking call emits"""
    T = P.T
    m = re.search(r'::unpack_(forward|backward)_arc\b', I.dem)
    if m:
        return P.arc_weight(m.group(1)[0], strip(T.term(I.ops[1])))
    if re.search(r'::unpack_arc\b', I.dem) and len(I.ops) >= 6:
        f = I.ops[2].get('c')
        if f is None:
            return None
        a = strip(T.term(I.ops[5]))
        h, t = P.head('up', a), P.tail('up', a)
        x, y = P.node(T.term(I.ops[3])), P.node(T.term(I.ops[4]))
        return (x, y) if f not in ('0',) else (y, x)
    return None


def unpacked(ctx, F, P):
    m = re.search(r'::unpack_(?:(forward|backward)_)?arc\b', short(F.dem))
    if not m or not F.d.get('rec'):
        return False
    T, used = P.T, False
    cs = [(I, emitted(P, I)) for b in sorted(F.reachable()) for I in F.blocks[b] if I.is_call and I.dem and re.search(r'::unpack_(forward_|backward_)?arc\b', short(I.dem))]
    for I, ty in cs:
        nxt = [(J, u) for J, u in cs if J.blk == I.blk and J.pos > I.pos]
        if not nxt or ty is None or nxt[0][1] is None:
            continue
        J, u = nxt[0]
        used = True
        r = P.link(ty, u, I.blk)
        if r is None:
            continue
        ctx.check(r is not BAD, 'unpacked-order', J.where(), 'the path %s is followed by the path %s' % (P.show(ty), P.show(u)))
        if r is BAD:
            continue
        if m.group(1):
            want = P.arc_weight(m.group(1)[0], ('arg', 1))
        else:
            pol = None
            for f, p in facts(F, I.blk):
                if not isinstance(f, tuple) and f.op in ('arg',):
                    pol = p
            for ref, p, b in F.guards(I.blk):
                if ref.get('a') == 2 and not isinstance(p, tuple):
                    pol = p
            if pol is None:
                continue
            want = (('arg', 3), ('arg', 4)) if pol else (('arg', 4), ('arg', 3))
        q = [P.same(r[0], want[0], I.blk), P.same(r[1], want[1], I.blk)]
        if not all(q):
            rev = P.same(r[0], want[1], I.blk) and P.same(r[1], want[0], I.blk)
            if not rev:
                continue
        ctx.check(all(q), 'unpacked-order', I.where(), 'an arc %s is unpacked as the path %s' % (P.show(want), P.show(r)))
    return used


# ------------------------------------------------------------------------------------------------ results
def returned(ctx, F, P, unknown):
    T = P.T
    m = re.search(r'::get_(forward|backward)_weight$', short(F.dem).split('<')[0])
    if re.search(r'Query::get_distance$', short(F.dem)):
        want = (paths.S, paths.T_)
    elif m and F.d.get('rec'):
        want = P.arc_weight(m.group(1)[0], ('arg', 1))
    else:
        return False
    for b in sorted(F.reachable()):
        I = F.blocks[b][-1]
        if I.op != 'ret' or not I.ops:
            continue
        for v, vb in pieces(P, T.term(I.ops[0]), b):
            vt = P.wtype(v, vb)
            r = P.agree(want, vt, vb)
            if r is None:
                unknown.append('ret %s in %s %s' % (I.where(), short(F.dem), P.show(vt)))
                continue
            ctx.check(r, 'returned-path', I.where(), 'the result %s is the length of a path %s instead of %s' % (show(v, T), 'that is not connected' if vt is BAD else P.show(vt), P.show(want)))
    return True


# ------------------------------------------------------------------------------------------------ building shortcuts
def local_field(P, ref, I):
    """value a pointer to (a field of) a local variable points to when I is executed; None if not known"""
    F, T = P.F, P.T
    A = T.addr_of(ref)
    if A[0] == 'f' and P.adj(A[1]):
        return ('ld', A)
    base, f = (A[1], A[2]) if A[0] == 'f' else (A, None)
    if base[0] != 'alloca':
        return None
    best = {}
    for J in F.insts():
        if J.op == 'store' and F.inst_dominates(J, I):
            B = T.addr_of(J.ops[1])
            g = B[2] if B[0] == 'f' and B[1] == base else None
            if g is None and B != base:
                continue
            o = best.get(g)
            if o is None or F.inst_dominates(o, J):
                best[g] = J
    if f in best:
        return T.term(best[f].ops[0])
    if f == 'weight' and 'node' in best and best['node'].d.get('size', 8) == 8:
        v = T.term(best['node'].ops[0])
        return ('lshr', v, ('c', 32)) if v[0] == 'ld' and v[1][0] == 'f' and P.adj(v[1][1]) else None
    if f is None and A[0] == 'alloca':
        return ('ld', A)
    return None


def middle(P, w, b):
    ls = leaves(strip(w))
    if len(ls) != 2:
        return None
    x, y = (P.wtype(l, b) for l in ls)
    if not all(isinstance(t, tuple) and t[0] != 'both' for t in (x, y)):
        return None
    if P.same(x[1], y[0], b) and not P.same(y[1], x[0], b):
        return x[1]
    if P.same(y[1], x[0], b) and not P.same(x[1], y[0], b):
        return y[1]
    return None


def shortcuts(ctx, F, P, unknown):
    T, used = P.T, False
    pushes, mids, wst = {}, [], []
    halves = {}
    for b in sorted(F.reachable()):
        for I in F.blocks[b]:
            if I.is_call and re.search(r'vector<.*>::(push_back|emplace_back)', I.dem) and len(I.ops) == 2:
                V = T.addr_of(I.ops[0])
                n = names(V)
                if len(n) > 1 and n[-2] in ('forward', 'backward') and n[-1] in ('head', 'weight', 'tail', 'mid_node'):
                    pushes.setdefault(n[-2], {}).setdefault(n[-1], []).append(I)
                elif V[0] == 'at' and len(V) == 3 and names(V[1])[-1:] in (['out_'], ['in_']):
                    y = local_field(P, I.ops[1], I)
                    base = T.addr_of(I.ops[1])
                    base = base[1] if base[0] == 'f' else base
                    w = fld(P, base, 'weight', I)
                    y = fld(P, base, 'node', I)
                    m = fld(P, base, 'mid_node', I)
                    if w is None or y is None:
                        continue
                    wt = P.wtype(w, b)
                    if not isinstance(wt, tuple):
                        continue
                    used = True
                    x, y = P.node(V[2]), P.node(y)
                    pt = (x, y) if names(V[1])[-1] == 'out_' else (y, x)
                    r = P.agree(pt, wt, b)
                    if r is not None:
                        ctx.check(r, 'stored-path', I.where(), 'an arc %s gets the weight %s, the length of a path %s' % (P.show(pt), show(w, T), P.show(wt)))
                    mm = middle(P, w, b)
                    if m is not None and mm is not None:
                        ctx.check(P.same(P.node(m), mm, b), 'shortcut-middle', I.where(), 'the shortcut with the weight %s is said to go over %s' % (show(w, T), show(m, T)))
            elif I.op == 'store':
                A = T.addr_of(I.ops[1])
                if A[0] == 'f' and P.adj(A[1]):
                    if A[2] == 'weight':
                        wst.append((I, A[1], T.term(I.ops[0])))
                    elif A[2] == 'mid_node':
                        mids.append((I, A[1], T.term(I.ops[0])))
                elif A[0] == 'at' and len(A) == 3:
                    n = names(A[1])
                    if len(n) > 1 and n[-2] in ('forward', 'backward') and n[-1] in ('shortcut_first_arc', 'shortcut_second_arc'):
                        halves.setdefault((b, n[-2], strip(A[2])), {})[n[-1]] = I
    for I, A, w in wst:
        mm = middle(P, w, I.blk)
        if mm is None:
            continue
        near = [m for m in mids if m[1] == A]
        if not mids:
            continue
        used = True
        ctx.check(accompanied(F, I, [m[0] for m in near]), 'shortcut-middle', I.where(), 'the weight of %s is replaced by %s, but not the node the shortcut goes over' % (show(A, T), show(w, T)))
        for J, _, m in near:
            if F.inst_dominates(I, J) or F.inst_dominates(J, I):
                ctx.check(P.same(P.node(m), mm, J.blk), 'shortcut-middle', J.where(), 'the shortcut with the weight %s is said to go over %s' % (show(w, T), show(m, T)))
    for d, g in pushes.items():
        for I in g.get('weight', []):
            hs = set(h for h, body in F.loops().items() if I.blk in body)
            mate = {}
            for k in ('head', 'tail', 'mid_node'):
                c = [J for J in g.get(k, []) if set(h for h, body in F.loops().items() if J.blk in body) == hs and (F.inst_dominates(J, I) or F.inst_dominates(I, J))]
                if len(c) == 1:
                    mate[k] = c[0]
            if 'head' not in mate or 'tail' not in mate:
                continue
            w, h, t = (local_field(P, J.ops[1], J) for J in (I, mate['head'], mate['tail']))
            if w is None or h is None or t is None:
                continue
            wt = P.wtype(w, I.blk)
            if not isinstance(wt, tuple):
                continue
            used = True
            h, t = P.node(h), P.node(t)
            pt = (t, h) if d == 'forward' else (h, t)
            r = P.agree(pt, wt, I.blk)
            if r is not None:
                ctx.check(r, 'stored-path', I.where(), 'the %s arc from %s to %s gets the weight %s, the length of a path %s' % (d, show(t, T), P.shown(h), show(w, T), P.show(wt)))
    for (b, d, a), g in halves.items():
        if len(g) != 2:
            continue
        v1, v2 = (strip(T.term(g[k].ops[0])) for k in ('shortcut_first_arc', 'shortcut_second_arc'))
        if v1[0] != 'call' or v2[0] != 'call':
            continue
        t1, t2, want = P.arc_weight('b', v1), P.arc_weight('f', v2), P.arc_weight(d[0], a)
        if any(x[0] in ('HEAD', 'TAIL') and x[2] in (v1, v2) for x in t1 + t2):
            # found in the arcs of the other direction?
            other = [P.arc_weight('f', v1), P.arc_weight('b', v2)]
            if not any(x[0] in ('HEAD', 'TAIL') and x[2] in (v1, v2) for o in other for x in o):
                ctx.check(False, 'shortcut-halves', g['shortcut_first_arc'].where(), 'the first half of a shortcut is looked up among the forward arcs, the second among the backward arcs')
            continue
        used = True
        ty = P.link(t1, t2, b)
        r = P.agree(want, ty, b)
        if r is None:
            unknown.append('halves %s' % g['shortcut_first_arc'].where())
            continue
        ctx.check(r, 'shortcut-halves', g['shortcut_first_arc'].where(), 'the shortcut %s is composed of the paths %s and %s' % (P.show(want), P.show(t1), P.show(t2)))
    return used


def requeued(ctx, F, P):
    """partial customization: an arc is looked at again whenever a path over the changed arc was or is the shortest, in both directions"""
    if not re.search(r'PartialCustomization::customize$', short(F.dem)):
        return False
    T, used = P.T, False
    changed = {}
    for I in F.insts():
        if I.op == 'icmp' and I.d['pred'] in ('eq', 'ne') and I.blk in F.reachable():
            t = [strip(T.term(o)) for o in I.ops]
            n = [names(x[1][1]) if x[0] == 'ld' and x[1][0] == 'at' and len(x[1]) == 3 else [] for x in t]
            if t[0] == t[1] and n[0] and n[0][-1] in ('forward', 'backward'):
                changed.setdefault(n[0][-1], I)
    if len(changed) == 1:
        d, I = list(changed.items())[0]
        used = True
        ctx.check(False, 'changed-arc', I.where(), 'only changes of the %s weight of an arc are noticed' % d)
    elif changed:
        used = True
        ctx.check(True, 'changed-arc', list(changed.values())[0].where(), '')
    for I in F.insts():
        if not (I.is_call and re.search(r'Queue::push\b', I.dem)) or I.blk not in F.reachable():
            continue
        a = strip(T.term(I.ops[-1]))
        have = {}
        for J in F.insts():
            if J.op != 'icmp' or J.blk not in F.reachable() or F.reach_avoiding(J.blk, J.pos, lambda X: X.i == I.i, lambda X: False) is None:
                continue
            for x, y in ((0, 1), (1, 0)):
                t, o = strip(T.term(J.ops[x])), strip(T.term(J.ops[y]))
                if t[0] == 'ld' and t[1][0] == 'at' and len(t[1]) == 3 and strip(t[1][2]) == a and o[0] == 'add':
                    n = names(t[1][1])
                    if n and n[-1] in ('forward', 'backward'):
                        have[(n[-1], 'was' if J.d['pred'] in ('eq', 'ne') else 'is')] = J
        if not have:
            continue
        for d in ('forward', 'backward'):
            for w in ('was', 'is'):
                if w in {k[1] for k in have}:
                    used = True
                    ctx.check((d, w) in have, 'requeued-arc', I.where(), 'nothing causes an arc to be looked at again if a path over the changed arc %s the shortest %s path' % (w, d))
    return used


def fld(P, base, f, I):
    """field f of the local structure base when I is executed"""
    F, T = P.F, P.T
    if base[0] != 'alloca':
        return None
    best = None
    for J in F.insts():
        if J.op == 'store' and F.inst_dominates(J, I) and T.addr_of(J.ops[1]) == ('f', base, f):
            if best is None or F.inst_dominates(best, J):
                best = J
    return T.term(best.ops[0]) if best is not None else None


def range_start(P, t):
    """(array, x) if t is first_...[x]"""
    t = strip(t)
    if t[0] == 'ld' and t[1][0] == 'at' and len(t[1]) == 3:
        n = names(t[1][1])
        if n and re.match(r'(first_|.*first_out$)', n[-1]):
            return t[1][1], strip(t[1][2])
    return None


def stays(F, J, b, k):
    """how operand k of the comparison J compares with the other one if the loop goes on"""
    p = J.d['pred']
    q = p[1:] if len(p) == 3 else p
    br = F.blocks[J.blk][-1]
    su = F.succ[J.blk]
    if br.op != 'br' or len(su) != 2 or not br.ops or getattr(F.val(br.ops[0]), 'i', None) != J.i:
        return None
    body = F.loops()[b]
    if (su[0] in body) == (su[1] in body):
        return None
    if su[0] not in body:
        q = {'lt': 'ge', 'gt': 'le', 'le': 'gt', 'ge': 'lt', 'eq': 'ne', 'ne': 'eq'}[q]
    if k == 1:
        q = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}.get(q, q)
    return q


def all_arcs(ctx, F, P):
    """a loop over a range first[x] .. first[x+1] visits all of it"""
    T, used = P.T, False
    hs = set(F.loops())
    done = set()
    for b in sorted(F.reachable()):
        if b not in hs:
            continue
        for I in F.blocks[b]:
            if I.op != 'phi' or I.ty == 'ptr' or I.i in done:
                continue
            w = P.web(I.i)
            if not w or w[1] != {1} or len(w[0]) != 1:
                continue
            done |= w[2]
            u, c = w[0][0]
            r = range_start(P, u)
            if r is None or r[1][0] == 'c':
                continue
            V, x = r
            prev = False
            bounds = []
            for J in F.insts():
                if J.op == 'icmp':
                    for k in (0, 1):
                        t = strip(T.term(J.ops[k]))
                        off = 0
                        if t[0] in ('add', 'sub') and t[2][0] == 'c':
                            off = paths.sgn(t[2][1] if t[0] == 'add' else -t[2][1])
                            t = strip(t[1])
                        if t[0] == 'phi' and len(t) == 2 and t[1] in w[2]:
                            o = strip(T.term(J.ops[1 - k]))
                            q = 0
                            if o[0] in ('add', 'sub') and o[2][0] == 'c':
                                q = paths.sgn(o[2][1] if o[0] == 'add' else -o[2][1])
                                o = strip(o[1])
                            e = range_start(P, o)
                            if e is not None and e[0] == V and J.blk in F.loops()[b] and any(J.i == getattr(F.val(g), 'i', None) for bb in F.loops()[b] for g in F.blocks[bb][-1].ops[:1] if 'v' in g):
                                bounds.append((J, e[1], off, q, J.d['pred'], k))
            if not bounds:
                continue
            used = True
            for J, y, off, q, pred, k in bounds:
                y0 = strip(y[1]) if y[0] == 'add' and y[2] == ('c', 1) else None
                if y0 is None:
                    continue
                if J.blk == b and not b in F.pred[b]:
                    # tested before the element is visited
                    op = stays(F, J, b, k)
                    n = {'lt': 0, 'ne': 0, 'le': 1}.get(op)
                    ok = P.same(y0, x, b) and (n is None or off - q == n)
                else:
                    ok = P.same(y0, x, b) and off - q in (0, 1)
                ctx.check(ok, 'all-arcs', J.where(), 'the loop over the range that starts at %s ends at %s' % (show(u, T), show(T.term(J.ops[1 - k]), T)))
            sub = any(J.op in ('add', 'sub') and strip(T.term_inst(J))[0] == 'add' and strip(T.term_inst(J))[2][0] == 'c' and paths.sgn(strip(T.term_inst(J))[2][1]) < 0 and strip(T.term_inst(J)[1]) == ('phi', I.i) for J in F.insts())
            if c != 0 and not sub and c > 0:
                ctx.check(False, 'all-arcs', I.where(), 'the loop over the range that starts at %s skips its first %d elements' % (show(u, T), c))
    return used
