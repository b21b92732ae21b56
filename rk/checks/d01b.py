"""Rules of D01 and N01 about what belongs together in the searches, the unpacking information and the partial and perfect
customization.  Each rule fires only where the construct it speaks about is recognised."""
import re
from ..common import *
from .. import paths
from ..paths import BAD, names, strip

INNER = {'id_pos', 'last_seen', 'data_', 'bits_', 'heap', 'contains_', 'size_', 'max_number_of_ids'}
REL = {'ult', 'ugt', 'ule', 'uge', 'slt', 'sgt', 'sle', 'sge'}


def vec(P, o):
    n = names(P.T.addr_of(o))
    while n and n[-1] in INNER:
        n = n[:-1]
    return n


def obj(P, o):
    A = P.T.addr_of(o)
    while A[0] == 'f' and A[2] in INNER:
        A = A[1]
    return A


def deref(P, o, I):
    """value behind a reference argument when I is executed"""
    from .d01 import local_field
    A = P.T.addr_of(o)
    if A[0] == 'alloca':
        best = None
        for J in P.F.insts():
            if J.op == 'store' and P.T.addr_of(J.ops[1]) == A and P.F.inst_dominates(J, I):
                if best is None or P.F.inst_dominates(best, J):
                    best = J
        return strip(P.T.term(best.ops[0])) if best is not None else ('ld', A)
    return ('ld', A)


def cell(t):
    """(names, index) of a loaded array element"""
    t = strip(t)
    if t[0] == 'ld' and t[1][0] in ('at', 'ix') and len(t[1]) >= 3:
        return names(t[1][1]), strip(t[1][2])
    return [], None


def stores(P):
    F, T = P.F, P.T
    for b in sorted(F.reachable()):
        for I in F.blocks[b]:
            if I.op == 'store':
                A = T.addr_of(I.ops[1])
                if A[0] in ('at', 'ix') and len(A) >= 3:
                    yield I, names(A[1]), strip(A[2]), strip(T.term(I.ops[0])), A


def lives(P, I):
    return I.blk in P.F.reachable()


def rules_d01(ctx, F, P):
    used = False
    for r in (sources, meeting, pinned_flag, path_order, pin_side, partial, perfect, permuted, original_arc, downwards):
        if r(ctx, F, P):
            used = True
    return used


# ------------------------------------------------------------------------------------------------ sources and targets
def value_of_alloca(P, x, blk):
    """the single value of a local variable"""
    x = strip(x)
    if x[0] == 'ld' and x[1][0] == 'alloca':
        st = [J for J in P.F.insts() if J.op == 'store' and P.T.addr_of(J.ops[1]) == x[1]]
        if len(st) == 1:
            return strip(P.T.term(st[0].ops[0]))
    return x


def sources(ctx, F, P):
    """a node becomes a source or target: it is reached, has the given distance and no predecessor; distances only get shorter"""
    from .d01 import accompanied, pair, side
    m = re.search(r'Query::add_(source|target)$', short(F.dem))
    dij = re.search(r'Dijkstra::add_source$', short(F.dem))
    if not m and not dij:
        return False
    T = P.T
    dist, pred, flags, push, dec = [], [], [], [], []
    for I, n, x, v, A in stores(P):
        l = n[-1] if n else ''
        if re.match(r'(forward_|backward_)?tentative_distance$', l):
            dist.append((I, value_of_alloca(P, x, I.blk), v, A))
        elif re.match(r'(forward_|backward_)?predecessor_(node|arc)$', l):
            pred.append((I, value_of_alloca(P, x, I.blk), v, l))
    for I in F.calls():
        if not lives(P, I) or not I.dem:
            continue
        if re.search(r'MinIDQueue::(push|decrease_key)\b', I.dem):
            i, k = pair(T.term(I.ops[1]))
            if i is not None:
                (push if '::push' in I.dem else dec).append((I, value_of_alloca(P, i, I.blk), k))
        elif re.search(r'TimestampFlags::set\b', I.dem):
            flags.append((I, value_of_alloca(P, T.term(I.ops[1]), I.blk)))
        elif re.search(r'vector<.*>::(push_back|emplace_back)', I.dem) and vec(P, I.ops[0])[-1:] in (['source_node'], ['target_node']):
            push.append((I, value_of_alloca(P, deref(P, I.ops[1], I), I.blk), None))
    if not push or not dist:
        return False
    for I, x, k in push + dec:
        d = [J for J, y, v, A in dist if y == x and (k is None or v == k)]
        ctx.check(accompanied(F, I, d), 'source-distance', I.where(), '%s is put into the queue but its distance is not stored along with it' % show(x, T))
    if dec:
        for J, y, v, A in dist:
            q = [I for I, x, k in push + dec if x == y and k == v]
            ctx.check(accompanied(F, J, q), 'source-distance', J.where(), '%s gets the distance %s but its key in the queue is not' % (show(y, T), show(v, T)))
    for I, x, k in push:
        p = [J for J, y, v, l in pred if y == x and v[0] == 'c']
        ctx.check(accompanied(F, I, p), 'source-predecessor', I.where(), '%s starts a search but keeps the predecessor it had before' % show(x, T))
    if flags or re.search(r'RoutingKit::ContractionHierarchyQuery', F.dem) and m:
        for I, x, k in push:
            ctx.check(accompanied(F, I, [J for J, y in flags if y == x]), 'pushed-flag', I.where(), '%s is put into the queue without marking it as reached' % show(x, T))
    # shorter only
    for J, y, v, A in dist:
        if v[0] != 'arg' or not m:
            continue
        fine = everywhere(F, T, J.blk, lambda f, pol: longer(P, f, pol, y, v, J))
        ctx.check(fine, 'only-shorter', J.where(), 'the distance of %s is replaced by %s although it may have a shorter one' % (show(y, T), show(v, T)))
    return True


def everywhere(F, T, b, fact, d=0):
    """does every way into block b establish a fact?"""
    if any(fact(f, pol) for f, pol in facts(F, b) if not isinstance(f, tuple)):
        return True
    if d > 5 or b == 0 or b in F.loops() or not F.pred[b]:
        return False
    for p in F.pred[b]:
        br = F.blocks[p][-1]
        at = []
        if br.op == 'br' and br.ops and len(F.succ[p]) == 2 and F.succ[p][0] != F.succ[p][1]:
            at = cond_atoms(T, br.ops[0], F.succ[p][0] == b)
        if not any(fact(f, pol) for f, pol in at if not isinstance(f, tuple)) and not everywhere(F, T, p, fact, d + 1):
            return False
    return True


def relation(f, pol):
    q = f.d['pred']
    q = q[1:] if len(q) == 3 else q
    return q if pol else {'lt': 'ge', 'gt': 'le', 'le': 'gt', 'ge': 'lt', 'eq': 'ne', 'ne': 'eq'}[q]


FLIP = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le', 'eq': 'eq', 'ne': 'ne'}


def longer(P, f, pol, y, v, J):
    """the fact says that y has no distance or one that is not shorter than v"""
    T = P.T
    if f.op == 'icmp':
        t = [strip(T.term(o)) for o in f.ops]
        for a, c in ((0, 1), (1, 0)):
            n, x = cell(t[a])
            if n and re.match(r'(forward_|backward_)?tentative_distance$', n[-1]) and value_of_alloca(P, x, J.blk) == y:
                q = relation(f, pol) if a == 0 else FLIP[relation(f, pol)]
                if q == 'eq' and t[c][0] == 'c' or t[c] == v and q in ('gt', 'ge'):
                    return True
                if t[c] != v and q not in ('eq', 'ne'):
                    return True
            elif 'search_space' in ' '.join(n):
                return True
        return False
    return f.is_call and not pol and re.search(r'contains_id|is_set|operator bool', f.dem or '') is not None


# ------------------------------------------------------------------------------------------------ meeting node
def meeting(ctx, F, P):
    if not re.search(r'Query::run$', short(F.dem)):
        return False
    from .d01 import accompanied
    T, used = P.T, False
    for b in sorted(F.reachable()):
        for I in F.blocks[b]:
            if I.op != 'store':
                continue
            A = T.addr_of(I.ops[1])
            if not (A[0] == 'f' and A[2] == 'shortest_path_meeting_node'):
                continue
            x = strip(T.term(I.ops[0]))
            if x[0] in ('c', 'sel') or x == ('ld', A) or x[0] == 'phi' and not popped(P, x):
                continue
            used = True
            fs = [f for f, pol in facts(F, b) if not isinstance(f, tuple) and f.op == 'icmp' and f.d['pred'] in REL]
            ctx.check(bool(fs), 'meeting-node', I.where(), '%s becomes the meeting node whether or not the path over it is the shortest found' % show(x, T))
    return used


def popped(P, x):
    """is x the node a search visits next (it indexes a distance array)?"""
    from .d01 import side
    F, T = P.F, P.T
    for I in F.insts():
        if I.op == 'load' and lives(P, I):
            A = T.addr_of(I.ops[0])
            if A[0] in ('at', 'ix') and len(A) >= 3 and strip(A[2]) == x and re.match(r'(for|back)ward_tentative_distance$', (names(A[1]) or [''])[-1]):
                return True
    return False


# ------------------------------------------------------------------------------------------------ pinned sessions of CH queries
def pinned_flag(ctx, F, P):
    """an arc of the downward sweep replaces the predecessor arc of a node: the flag that says it is an upward one is taken back"""
    if not re.search(r'RoutingKit::ContractionHierarchyQuery::run_to_pinned', F.dem):
        return False
    from .d01 import accompanied
    T, used = P.T, False
    nodes = [(n[-1].split('_')[0], x, I) for I, n, x, v, A in stores(P) if n and n[-1].endswith('predecessor_node')]
    for I, n, x, v, A in stores(P):
        m = re.match(r'(forward|backward)_predecessor_arc$', n[-1] if n else '')
        if not m or v[0] == 'c':
            continue
        if any(d == m.group(1) and y == x for d, y, J in nodes):
            continue
        used = True
        rs = [J for J in F.calls(r'TimestampFlags::reset_one\b') if lives(P, J) and strip(T.term(J.ops[1])) == x and vec(P, J.ops[0])[-1:] == ['was_%s_pushed' % m.group(1)]]
        # or taken back exactly if there is such an arc
        sep = [J for J in rs if any(not isinstance(f, tuple) and f.op == 'icmp' and f.d['pred'] in ('eq', 'ne') and relation(f, pol) == 'ne' and v in [strip(T.term(o)) for o in f.ops] for f, pol in facts(F, J.blk))]
        ctx.check(accompanied(F, I, rs) or bool(sep), 'pushed-flag', I.where(), 'an arc of the downward sweep becomes the predecessor of %s, which is still marked as reached by the upward search' % show(x, T))
    return used


def pin_side(ctx, F, P):
    """targets are reached over backward arcs, sources over forward arcs"""
    m = re.search(r'RoutingKit::ContractionHierarchyQuery::pin_(sources|targets)$', short(F.dem))
    if not m:
        return False
    want = 'forward' if m.group(1) == 'sources' else 'backward'
    used = False
    for I in F.insts():
        if I.op != 'load' or not lives(P, I):
            continue
        A = P.T.addr_of(I.ops[0])
        if A[0] not in ('at', 'ix'):
            continue
        n = names(A[1])
        if len(n) > 1 and n[-1] in ('first_out', 'head') and n[-2] in ('forward', 'backward'):
            used = True
            ctx.check(n[-2] == want, 'pinned-side', I.where(), 'the nodes above the pinned %s are collected over the %s arcs, paths %s them go over %s arcs' % (m.group(1), n[-2], 'from' if want == 'forward' else 'to', want))
    return used


# ------------------------------------------------------------------------------------------------ the way up is read backwards
def path_order(ctx, F, P):
    if not re.search(r'Query::get_(arc|node)_path$|Query::get_extra_weight_distance$', short(F.dem)):
        return False
    T, used = P.T, False
    if any(re.match(r'std::reverse', short(I.dem or '')) for I in F.calls() if lives(P, I)):
        return False
    # local vectors that are filled going from the meeting node to the source
    filled = {}
    for I in F.calls():
        if lives(P, I) and I.dem and re.search(r'vector<.*>::(push_back|emplace_back)', I.dem) and T.addr_of(I.ops[0])[0] == 'alloca':
            hs = [h for h, body in F.loops().items() if I.blk in body]
            if hs and any('forward_predecessor_node' in names(T.addr_of(J.ops[0])) for h in hs for b in F.loops()[h] for J in F.blocks[b] if J.op == 'load'):
                filled[T.addr_of(I.ops[0])] = hs
    for I in F.insts():
        if I.op != 'load' or not lives(P, I):
            continue
        A = T.addr_of(I.ops[0])
        if A[0] not in ('at', 'ix') or len(A) < 3:
            continue
        V = A[1]
        while V[0] in ('data', 'ld', 'uptr', 'addr', 'f'):
            V = V[1]
        if V not in filled:
            continue
        x = strip(A[2])
        if x[0] in ('add', 'sub') and x[2][0] == 'c':
            x = strip(x[1])
        if x[0] != 'phi' or len(x) != 2:
            continue
        w = P.web(x[1])
        if not w:
            continue
        used = True
        ctx.check(not (w[1] == {1} and any(u[0] == 'c' and u[1] == 0 for u, c in w[0])), 'path-order', I.where(), 'the nodes between the source and the meeting node were collected starting at the meeting node, but are read in that order')
    return used


# ------------------------------------------------------------------------------------------------ partial customization
def partial(ctx, F, P):
    if not re.search(r'PartialCustomization::customize$', short(F.dem)):
        return False
    T, used = P.T, False
    pops = [I for I in F.calls(r'Queue::pop\b') if lives(P, I)]
    for I in F.insts():
        if I.op == 'icmp' and lives(P, I) and I.d['pred'] in REL:
            t = [strip(T.term(o)) for o in I.ops]
            n, x = cell(t[0])
            if t[0] == t[1] and n and n[-1] in ('forward', 'backward'):
                used = True
                ctx.check(False, 'changed-arc', I.where(), 'only changes of the %s weight of an arc in one direction are noticed' % n[-1])
    # the weight of the arc is computed anew
    for J in pops:
        got = {}
        for I, n, x, v, A in stores(P):
            if n and n[-1] in ('forward', 'backward') and x[0] == 'call' and x[-1] == J.i:
                for s in subterms(v):
                    if isinstance(s, tuple) and s and s[0] == 'ld' and 'input_weight' in names(s[1]):
                        got[n[-1]] = I
        if not any(n and n[-1] in ('forward', 'backward') and x[0] == 'call' and x[-1] == J.i for I, n, x, v, A in stores(P)):
            continue
        for d in ('forward', 'backward'):
            used = True
            ctx.check(d in got, 'changed-arc', J.where(), 'the %s weight of a changed arc is computed without the weights of its input arcs' % d)
    for I in F.calls(r'Queue::push\b'):
        if not lives(P, I):
            continue
        a = strip(T.term(I.ops[-1]))
        have = near = False
        for f in F.insts():
            if f.op != 'icmp' or not lives(P, f):
                continue
            t = [strip(T.term(o)) for o in f.ops]
            for x, y in ((0, 1), (1, 0)):
                n, i = cell(t[x])
                if t[y][0] == 'add' and n and n[-1] in ('forward', 'backward') and F.reach_avoiding(f.blk, f.pos, lambda X: X.i == I.i, lambda X: False) is not None:
                    near = True
                    if i == a:
                        have = True
        if near:
            used = True
            ctx.check(have, 'requeued-arc', I.where(), '%s is looked at again, but not because of its own weight' % show(a, T))
    return used


# ------------------------------------------------------------------------------------------------ perfect customization
def origin_vec(P, o, before=None, d=0):
    """('field', last name) / ('kept', K, source) / ('inverted', source) a vector argument holds"""
    F, T = P.F, P.T
    A = T.addr_of(o)
    if A[0] != 'alloca':
        n = names(A)
        return ('field', n[-1]) if n else None
    if d > 4:
        return None
    best = None
    for J in F.calls():
        if not lives(P, J) or not J.dem or not J.ops or J.i == (before.i if before else None):
            continue
        if T.addr_of(J.ops[0]) != A or before is not None and not F.inst_dominates(J, before):
            continue
        s = short(J.dem)
        if re.search(r'keep_element_of_vector_if|invert_vector|std::vector::(vector|operator=)$', s):
            if best is None or F.inst_dominates(best, J):
                best = J
    if best is None:
        return None
    s = short(best.dem)
    if 'keep_element' in s and len(best.ops) == 3:
        return ('kept', obj(P, best.ops[1]), origin_vec(P, best.ops[2], best, d + 1))
    if 'invert_vector' in s:
        return ('inverted', origin_vec(P, best.ops[1], best, d + 1))
    if len(best.ops) == 2 and P.F is not None:
        return origin_vec(P, best.ops[1], best, d + 1)
    return None


def perfect(ctx, F, P):
    if not re.search(r'build_contraction_hierarchy_using_perfect_witness_search$', short(F.dem)):
        return False
    from .d01 import accompanied
    T, used = P.T, False
    side_of = {}
    wst = [(I, n[-1], x, v) for I, n, x, v, A in stores(P) if n and n[-1] in ('forward', 'backward') and v[0] == 'add']
    for I in F.calls(r'BitVector::reset\b'):
        if not lives(P, I):
            continue
        K, x = obj(P, I.ops[0]), strip(T.term(I.ops[1]))
        ds = {d for J, d, y, v in wst if y == x and J.blk == I.blk}
        for f, pol in facts(F, I.blk):
            if not ds and not isinstance(f, tuple) and f.op == 'icmp' and f.d['pred'] in ('eq', 'ne') and pol == (f.d['pred'] == 'eq'):
                for o in f.ops:
                    n, y = cell(T.term(o))
                    if n and n[-1] in ('forward', 'backward') and y == x:
                        ds.add(n[-1])
        if len(ds) == 1:
            side_of.setdefault(K, []).append((ds.pop(), I))
    K_of = {}
    for K, l in side_of.items():
        ds = [d for d, I in l]
        maj = max(set(ds), key=ds.count)
        for d, I in l:
            used = True
            ctx.check(d == maj, 'dropped-arc', I.where(), 'the %s arc gets a shorter weight, but it is the %s arc that is dropped' % (d, maj))
        K_of[K] = maj
    if len(set(K_of.values())) == 2:
        for J, d, y, v in wst:
            rs = [I for K, l in side_of.items() if K_of[K] == d for _, I in l if strip(T.term(I.ops[1])) == y]
            if rs:
                ctx.check(accompanied(F, J, rs), 'dropped-arc', J.where(), 'the %s arc is longer than the path over another node but is kept' % d)
    for I in F.calls(r'std::vector<.*>::operator=|vector<.*>::vector'):
        if not lives(P, I) or len(I.ops) != 2:
            continue
        n = names(T.addr_of(I.ops[0]))
        if len(n) < 2 or n[-2] not in ('forward', 'backward') or n[-1] not in ('head', 'weight', 'first_out'):
            continue
        d = n[-2]
        o = origin_vec(P, I.ops[1], I)
        if o is None:
            continue
        if n[-1] == 'first_out':
            if o[0] != 'inverted' or o[1] is None:
                continue
            o = o[1]
        if o[0] != 'kept':
            continue
        used = True
        ctx.check(K_of.get(o[1], d) == d, 'kept-arcs', I.where(), 'the %s arcs of the hierarchy are selected by what is kept of the other direction' % d)
        want = {'head': 'up_head', 'first_out': 'up_tail', 'weight': d}[n[-1]]
        if o[2] is not None and o[2][0] == 'field':
            ctx.check(o[2][1] == want, 'kept-arcs', I.where(), 'the %s of the %s arcs is taken from %s instead of %s' % (n[-1], d, o[2][1], want))
    return used


# ------------------------------------------------------------------------------------------------ the arrays of a hierarchy are permuted together
def permuted(ctx, F, P):
    if not re.search(r'RoutingKit::ContractionHierarchy::build', F.dem):
        return False
    T, used = P.T, False
    ren = {}
    for I in F.calls(r'inplace_apply_permutation_to_\w*elements_of'):
        if lives(P, I) and len(I.ops) == 2:
            n = vec(P, I.ops[1])
            if len(n) > 1 and n[-2] in ('forward', 'backward') and n[-1] in ('head', 'tail', 'mid_node'):
                ren.setdefault(str(P.T.addr_of(I.ops[0])), {})[(n[-2], n[-1])] = I
    for p, g in ren.items():
        I = list(g.values())[0]
        for d in ('forward', 'backward'):
            for f in ('head', 'tail', 'mid_node'):
                used = True
                ctx.check((d, f) in g, 'renumbered-together', I.where(), 'the nodes are renumbered, but not in %s.%s' % (d, f))
        for (d, f), I in g.items():
            if f == 'mid_node':
                ctx.check('possibly_invalid' in I.dem, 'renumbered-together', I.where(), 'the middle nodes of arcs that are no shortcuts are invalid_id and cannot be renumbered')
    rs = {}
    for I in F.calls(r'compute_(inverse_)?(sort|stable_sort)_permutation'):
        if lives(P, I) and I.ops and T.addr_of(I.ops[0])[0] == 'alloca':
            ns = [vec(P, o) for o in I.ops[1:] if T.addr_of(o)[0] == 'f']
            ds = {n[-2] for n in ns if len(n) > 1 and n[-2] in ('forward', 'backward') and n[-1] in ('tail', 'head')}
            if len(ds) == 1:
                rs[T.addr_of(I.ops[0])] = (I, ds.pop(), {}, 'inverse' in I.dem)
    for I in F.calls(r'RoutingKit::(inplace_)?apply_(inverse_)?permutation\b'):
        if not lives(P, I):
            continue
        ops = [T.addr_of(o) for o in I.ops]
        for k, A in enumerate(ops):
            if A in rs and k + 1 < len(ops):
                n = vec(P, I.ops[k + 1])
                if len(n) > 1:
                    rs[A][2][(n[-2], n[-1])] = I
                    used = True
                    ctx.check(('inverse' in I.dem) == rs[A][3], 'sorted-together', I.where(), 'the sort permutation is applied the wrong way round to %s.%s' % (n[-2], n[-1]))
                    # the result replaces the array it was made from
                    for J in F.calls(r'std::vector<.*>::operator='):
                        if lives(P, J) and k and T.addr_of(J.ops[1]) == ops[0] and F.inst_dominates(I, J) and names(T.addr_of(J.ops[0])):
                            ctx.check(names(T.addr_of(J.ops[0]))[-2:] == n[-2:], 'sorted-together', J.where(), 'the sorted %s is stored as %s' % ('.'.join(n[-2:]), '.'.join(names(T.addr_of(J.ops[0]))[-2:])))
    for A, (I, d, g, inv) in rs.items():
        if not g:
            continue
        for f in ('head', 'weight', 'mid_node'):
            used = True
            ctx.check((d, f) in g, 'sorted-together', I.where(), 'the %s arcs are sorted, but %s.%s stays as it was' % (d, d, f))
    return used


# ------------------------------------------------------------------------------------------------ original arcs
def original_arc(ctx, F, P):
    """the input arc an unpacked arc stands for has the weight of that arc"""
    T, used = P.T, False
    for I in F.insts():
        if I.op != 'phi' or not lives(P, I) or I.blk in F.loops():
            continue
        for o, q in zip(I.ops, I.d['in']):
            v = strip(T.term(o))
            n, x = cell(v)
            m = re.match(r'(?:extra_)?(forward|backward)_input_arc_of_cch$', n[-1] if n else '')
            if not m or not any('input_weight' in names(T.addr_of(J.ops[0])) for J in F.insts() if J.op == 'load'):
                continue
            used = True
            def equal(f, pol):
                if f.op != 'icmp':
                    return False
                t = [strip(T.term(p)) for p in f.ops]
                for a, c in ((0, 1), (1, 0)):
                    n1, i1 = cell(t[a])
                    n2, i2 = cell(t[c])
                    if n1 and n1[-1] == m.group(1) and n2 and n2[-1] == 'input_weight' and i2 == v:
                        r = relation(f, pol)
                        return (r if a == 0 else FLIP[r]) in ('eq', 'ge')
                return False
            br = F.blocks[q][-1]
            at = cond_atoms(T, br.ops[0], F.succ[q][0] == I.blk) if br.op == 'br' and br.ops and len(F.succ[q]) == 2 else []
            ok = any(equal(f, pol) for f, pol in at if not isinstance(f, tuple)) or everywhere(F, T, q, equal)
            ctx.check(ok, 'original-arc', F.blocks[q][-1].where(), 'the input arc %s is given for a %s arc although its weight need not be that of the arc' % (show(v, T), m.group(1)))
    return used


# ------------------------------------------------------------------------------------------------ loops over arcs from the last to the first
def off(t):
    t = strip(t)
    k = 0
    while t[0] in ('add', 'sub') and t[2][0] == 'c':
        k += paths.sgn(t[2][1] if t[0] == 'add' else -t[2][1])
        t = strip(t[1])
    return t, k


def downwards(ctx, F, P):
    """a loop that goes down from first[x+1] visits everything down to first[x], unless it stops at the heads that are not above a node"""
    from .d01 import range_start, stays
    T, used = P.T, False
    loops = F.loops()
    for b in sorted(F.reachable()):
        if b not in loops:
            continue
        for I in F.blocks[b]:
            if I.op != 'phi' or I.ty == 'ptr':
                continue
            w = P.web(I.i)
            if not w or w[1] != {-1} or len(w[0]) != 1:
                continue
            u, c = w[0][0]
            r = range_start(P, u)
            if r is None:
                continue
            V, y = r
            x, k = off(y)
            offs = set()
            for bb in loops[b]:
                for J in F.blocks[bb]:
                    if J.op == 'load':
                        A = T.addr_of(J.ops[0])
                        if A[0] in ('at', 'ix') and len(A) >= 3:
                            t, o = off(A[2])
                            if t[0] == 'phi' and len(t) == 2 and t[1] == I.i:
                                offs.add(o)
            if len(offs) != 1 or k != 1:
                continue
            o = offs.pop()
            used = True
            ctx.check(c + o == -1, 'all-arcs', I.where(), 'the loop down from %s starts with the element %d before it' % (show(u, T), -(c + o)))
            for bb in loops[b]:
                for J in F.blocks[bb]:
                    if J.op != 'icmp':
                        continue
                    for a in (0, 1):
                        t, k1 = off(T.term(J.ops[a]))
                        e, k2 = off(T.term(J.ops[1 - a]))
                        q = stays(F, J, b, a)
                        if q is None:
                            continue
                        s = range_start(P, e)
                        if t[0] == 'phi' and len(t) == 2 and t[1] == I.i and s is not None and s[0] == V and J.blk == b and b not in F.pred[b]:
                            # phi + k1 (q) first[..] + k2: the last phi that is visited is first[..] + k2 - k1 + 1 (or + 0)
                            last = k2 - k1 + {'gt': 1, 'ne': 1, 'ge': 0}.get(q, 99)
                            if last < 90:
                                ctx.check(P.same(P.node(s[1]), P.node(x), b) and last + o == 0, 'all-arcs', J.where(), 'the loop down from %s ends before it has visited all elements from %s on' % (show(u, T), show(e, T)))
                        n, i = cell(t)
                        if n and n[-1] in ('up_head', 'head') and i is not None and off(i)[0] == ('phi', I.i) and e[0] in ('phi', 'arg') and not cell(e)[0]:
                            # goes on while head + k1 (q) node + k2
                            m = {'gt': k2 - k1, 'ge': k2 - k1 - 1}.get(q)
                            if m is not None:
                                ctx.check(m == 0, 'all-arcs', J.where(), 'the loop over the arcs of %s stops at other heads than those that are not above %s' % (show(x, T), show(e, T)))
    return used


# ================================================================================================ N01
def rules_n01(ctx, F, P):
    used = False
    for r in (pin_side, used_side, original_ends, segment_node, permuted):
        if r(ctx, F, P):
            used = True
    return used


def used_side(ctx, F, P):
    """heads of predecessor arcs are looked up among the arcs of the search that recorded them"""
    if not re.search(r'RoutingKit::ContractionHierarchyQuery::get_(used_(sources_to_targets|targets_to_sources)|extra_weight_distances_to)', F.dem):
        return False
    T, used = P.T, False
    for I in F.insts():
        if I.op != 'load' or not lives(P, I):
            continue
        A = T.addr_of(I.ops[0])
        if A[0] not in ('at', 'ix') or len(A) < 3:
            continue
        n = names(A[1])
        m, x = cell(A[2])
        if not (len(n) > 1 and n[-1] in ('head', 'weight') and n[-2] in ('forward', 'backward') and m and m[-1] in ('forward_predecessor_arc', 'backward_predecessor_arc')):
            continue
        e = m[-1].split('_')[0]
        pol = None
        fs = list(facts(F, I.blk))
        for f, p in fs:
            if isinstance(f, tuple) or not f.is_call or not re.search(r'TimestampFlags::is_set\b', f.dem or ''):
                continue
            if strip(T.term(f.ops[1])) == x and vec(P, f.ops[0])[-1:] == ['was_%s_pushed' % e]:
                pol = p
        if pol is None:
            continue
        used = True
        ctx.check((n[-2] == e) == pol, 'predecessor-side', I.where(), 'the predecessor arc of %s, which was%s reached by the upward %s search, is taken for a %s arc' % (show(x, T), '' if pol else ' not', e, n[-2]))
    return used


def original_ends(ctx, F, P):
    """a forward arc (x, y) stands for an input arc from x to y, a backward arc for one from y to x"""
    if not re.search(r'RoutingKit::ContractionHierarchy::build|perfect_witness_search$', short(F.dem)):
        return False
    T, used = P.T, False
    for I, n, a, v, A in stores(P):
        if len(n) < 2 or n[-2] not in ('forward', 'backward') or n[-1] not in ('shortcut_first_arc', 'shortcut_second_arc'):
            continue
        d = n[-2]
        fam = d[0]
        # through the lookup of the input arc
        m, x = cell(v)
        if x is not None and x[0] == 'call' and re.search(r'find_arc_', x[1]) and x[2] in F.by_id:
            C = F.by_id[x[2]]
            if len(C.ops) < 4 or vec(P, C.ops[0])[-2:-1] in (['forward'], ['backward']):
                continue
            e = [cell(T.term(o)) for o in C.ops[2:4]]
            if not all(k and k[-1] == 'order' for k, _ in e):
                continue
            u, w = e[0][1], e[1][1]
            h, t = P.head(fam, a), P.tail(fam, a)
            want = (t, h) if d == 'forward' else (h, t)
            r = [P.same(P.node(u), want[0], I.blk), P.same(P.node(w), want[1], I.blk)]
            if not all(r):
                rev = P.same(P.node(u), want[1], I.blk) and P.same(P.node(w), want[0], I.blk)
                if not rev:
                    continue
            used = True
            ctx.check(all(r), 'original-ends', C.where(), 'the input arc of a %s arc is looked up from its head to its tail' % d if d == 'forward' else 'the input arc of a backward arc is looked up from its tail to its head')
            if n[-1] == 'shortcut_second_arc':
                ctx.check(not re.match(r'tail\b', show(v, T)), 'original-ends', I.where(), 'the node stored for an original arc is not the head of the input arc')
        elif n[-1] == 'shortcut_second_arc' and m and m[-1] == 'order' and x is not None:
            k, c = cell(x)
            h, t = P.head(fam, a), P.tail(fam, a)
            if k and k[-1] in ('up_head', 'up_tail'):
                used = True
                ctx.check(k[-1] == ('up_head' if d == 'forward' else 'up_tail'), 'original-ends', I.where(), 'the node stored for an original %s arc is %s, which is not the head of the input arc' % (d, show(v, T)))
            else:
                want = h if d == 'forward' else t
                wrong = t if d == 'forward' else h
                if P.same(P.node(x), wrong, I.blk) and not P.same(P.node(x), want, I.blk):
                    used = True
                    ctx.check(False, 'original-ends', I.where(), 'the node stored for an original %s arc is %s, which is not the head of the input arc' % (d, show(v, T)))
    return used


def segment_node(ctx, F, P):
    """unpacking a CCH arc (x, y) forward emits the node it starts from: x, backward: y"""
    if not F.d.get('rec') or not re.search(r'::unpack_arc\b', short(F.dem)):
        return False
    T, used = P.T, False
    for I in F.calls():
        if not lives(P, I) or not I.dem or not re.search(r'vector<.*>::(push_back|emplace_back)', I.dem):
            continue
        v = deref(P, I.ops[1], I)
        n, x = cell(v)
        if not n or n[-1] != 'order' or x[0] != 'arg':
            continue
        pol = None
        for ref, p, b in F.guards(I.blk):
            if ref.get('a') == 2 and not isinstance(p, tuple):
                pol = p
        if pol is None or x[1] not in (3, 4):
            continue
        used = True
        ctx.check(x[1] == (3 if pol else 4), 'segment-node', I.where(), 'an arc unpacked %s is represented by the node it ends at' % ('forward' if pol else 'backward'))
    return used
