"""N01: every id is used in its own numbering."""
import re
from .. import build, kinds, paths
from ..common import *
from ..kinds import Solver, Gen, solve_links
from . import d01b

NODE, INT, IARC, UP, DOWN, W = 'input node', 'internal node', 'input arc', 'CCH arc', 'downward CCH arc', 'weight'
AF, AB = 'forward CH arc', 'backward CH arc'
L1, L2, XF, XB = 'CCH arc with input arc', 'CCH arc with extra input arcs', 'extra forward input arc position', 'extra backward input arc position'
LEVEL, LPOS = 'level', 'position in level order'
TSLOT, SSLOT = 'pinned target position', 'pinned source position'

FIELDS = {
    'rank': (NODE, INT), 'order': (INT, NODE), 'elimination_tree_parent': (INT, INT),
    'up_first_out': (INT, UP), 'up_head': (UP, INT), 'up_tail': (UP, INT),
    'down_first_out': (INT, DOWN), 'down_head': (DOWN, INT), 'down_to_up': (DOWN, UP),
    'input_arc_to_cch_arc': (IARC, UP), 'is_input_arc_upward': (IARC, None),
    'does_cch_arc_have_input_arc': (UP, None), 'does_cch_arc_have_input_arc_mapper': (UP, L1),
    'forward_input_arc_of_cch': (L1, IARC), 'backward_input_arc_of_cch': (L1, IARC),
    'does_cch_arc_have_extra_input_arc': (UP, None), 'does_cch_arc_have_extra_input_arc_mapper': (UP, L2),
    'first_extra_forward_input_arc_of_cch': (L2, XF), 'first_extra_backward_input_arc_of_cch': (L2, XB),
    'extra_forward_input_arc_of_cch': (XF, IARC), 'extra_backward_input_arc_of_cch': (XB, IARC),
    'first_arc_of_level': (LEVEL, LPOS), 'arcs_ordered_by_level': (LPOS, UP),
    'input_weight': (IARC, W),
}
SIDE = {'first_out': (INT, 'A'), 'head': ('A', INT), 'weight': ('A', W), 'is_shortcut_an_original_arc': ('A', None), 'shortcut_first_arc': ('A', None), 'shortcut_second_arc': ('A', None)}
SHORT = {  # (side, half): kind if original, kind if shortcut
    ('forward', 'shortcut_first_arc'): (IARC, AB), ('forward', 'shortcut_second_arc'): (NODE, AF),
    ('backward', 'shortcut_first_arc'): (IARC, AB), ('backward', 'shortcut_second_arc'): (NODE, AF)}
DIJ = {'first_out': (NODE, IARC), 'tail': (IARC, NODE), 'head': (IARC, NODE), 'tentative_distance': (NODE, W), 'predecessor_arc': (NODE, IARC), 'was_popped': (NODE, None), 'queue': (NODE, W)}


# numberings with equally many ids
COUNT = {INT: NODE, DOWN: UP, LPOS: UP, 'old': 'new', 'first': 'new', 'second': 'new', 'third': 'new'}


class Spec:
    def __init__(self, pinned=False):
        self.pinned = pinned

    def mixed(self, ns):
        # a pinned session of a CH query keeps arcs of both searches in one array and remembers of which one in flags
        return self.pinned and bool(ns) and ns[-1] in ('forward_predecessor_arc', 'backward_predecessor_arc')

    def field(self, ns, root, g):
        if not ns:
            return None
        last = ns[-1]
        if len(ns) >= 2 and ns[-2] in ('forward', 'backward') and last in SIDE:
            A = AF if ns[-2] == 'forward' else AB
            i, e = SIDE[last]
            return (A if i == 'A' else i, A if e == 'A' else e)
        dem = g.F.dem
        if 'RoutingKit::Dijkstra::' in dem and last in DIJ and root == ('this', 'RoutingKit::Dijkstra'):
            return DIJ[last]
        if last == 'weight' and root == ('this', 'RoutingKit::ScalarGetWeight'):
            return (IARC, W)
        if last in ('forward', 'backward'):
            return (UP, W)
        if last in ('forward_weight', 'backward_weight') and ('ExtraWeight' in dem):
            return (AF if last[0] == 'f' else AB, W)
        if last == 'q' and 'PartialCustomization' in dem:
            return (UP, None)
        if last in FIELDS:
            return FIELDS[last]
        return None

    def scalar(self, ns, root, g):
        return None

    def conditional(self, g, A):
        """kind of shortcut_first_arc / shortcut_second_arc entries: depends on whether the arc is an original arc"""
        ns, root = g.names(g.canon(A[1]))
        if len(ns) < 2 or (ns[-2], ns[-1]) not in SHORT:
            return False
        k = SHORT[(ns[-2], ns[-1])]
        if not hasattr(g, 'blk'):
            return None
        pol = original(g, ns[-2], A[2])
        if pol is None:
            return None
        return kinds.K(k[0] if pol else k[1]) if g.S.label(('lit', k[0] if pol else k[1]), k[0] if pol else k[1], g.where, 'halves of shortcuts') is None else None

    def conditional_store(self, g, A):
        if A[0] != 'at':
            return None
        ns, root = g.names(g.canon(A[1]))
        if len(ns) >= 2 and (ns[-2], ns[-1]) in SHORT:
            k = SHORT[(ns[-2], ns[-1])]
            return set(k)
        return None


def original(g, side, idx):
    for f, pol in facts(g.F, g.blk):
        if isinstance(f, tuple) or not f.is_call:
            continue
        if not re.search(r'BitVector::is_set\(', f.dem):
            continue
        o = g.whole(f.ops[0], g.FIRST)
        ns, _ = g.names(o)
        if len(ns) >= 2 and ns[-1] == 'is_shortcut_an_original_arc' and ns[-2] == side and strip(g.T.term(f.ops[1])) == strip(idx):
            return pol
    return None


def strip(t):
    while t[0] == 'and' and t[2] == ('c', 0xffffffff):
        t = t[1]
    return t


V = lambda i, e: ('vec', i, e)
CQ = r'RoutingKit::(Customizable)?ContractionHierarchyQuery::'
# function (regex over the demangled name) -> kinds of its explicit parameters, kind of its result
API = [
    (CQ + r'add_(source|target)\(', [NODE, W], None),
    (CQ + r'get_used_(source|target)\(', [], NODE),
    (CQ + r'get_distance\(', [], W),
    (CQ + r'get_node_path\(', [], V(None, NODE)),
    (CQ + r'get_arc_path\(', [], V(None, IARC)),
    (CQ + r'pin_targets\(', [V(TSLOT, NODE)], None),
    (CQ + r'pin_sources\(', [V(SSLOT, NODE)], None),
    (CQ + r'get_distances_to_targets\(unsigned', [V(TSLOT, W)], None),
    (CQ + r'get_distances_to_sources\(unsigned', [V(SSLOT, W)], None),
    (CQ + r'get_distances_to_targets\(\)', [], V(TSLOT, W)),
    (CQ + r'get_distances_to_sources\(\)', [], V(SSLOT, W)),
    (CQ + r'get_used_sources_to_targets\(unsigned', [V(TSLOT, NODE)], None),
    (CQ + r'get_used_targets_to_sources\(unsigned', [V(SSLOT, NODE)], None),
    (CQ + r'get_used_sources_to_targets\(\)', [], V(TSLOT, NODE)),
    (CQ + r'get_used_targets_to_sources\(\)', [], V(SSLOT, NODE)),
    (CQ + r'get_extra_weight_distance<std::vector', [V(IARC, None)], None),
    (CQ + r'get_extra_weight_distances_to_targets<std::vector<[^<>]*<[^<>]*>>, RoutingKit::\w+, std::vector<[^<>]*<[^<>]*>>, std', [V(IARC, None), None, V(INT, None), V(TSLOT, None)], None),
    (CQ + r'get_extra_weight_distances_to_sources<std::vector<[^<>]*<[^<>]*>>, RoutingKit::\w+, std::vector<[^<>]*<[^<>]*>>, std', [V(IARC, None), None, V(INT, None), V(SSLOT, None)], None),
    (CQ + r'get_extra_weight_distances_to_targets<RoutingKit::\w+<\w+( \w+)?>, RoutingKit::\w+, std::vector<[^<>]*<[^<>]*>>, std', [None, None, V(INT, None), V(TSLOT, None)], None),
    (CQ + r'get_extra_weight_distances_to_sources<RoutingKit::\w+<\w+( \w+)?>, RoutingKit::\w+, std::vector<[^<>]*<[^<>]*>>, std', [None, None, V(INT, None), V(SSLOT, None)], None),
    (r'ContractionHierarchyExtraWeight<.*>::reset<std::vector', [None, V(IARC, None)], None),
    (r'PartialCustomization::update_arc\(', [IARC], None),
    (r'RoutingKit::Dijkstra::add_source\(', [NODE, W], None),
    (r'RoutingKit::Dijkstra::was_node_reached\(', [NODE], None),
    (r'RoutingKit::Dijkstra::get_distance_to\(', [NODE], W),
    (r'RoutingKit::Dijkstra::get_node_path_to\(', [NODE], V(None, NODE)),
    (r'RoutingKit::Dijkstra::get_arc_path_to\(', [NODE], V(None, IARC)),
    (r'RoutingKit::Dijkstra::settle<', [V(IARC, W)], ('pair', NODE, W)),
    (r'RoutingKit::apply_permutation<', [V('new', 'old'), V('old', 'element')], V('new', 'element')),
    (r'RoutingKit::apply_inverse_permutation<', [V('old', 'new'), V('old', 'element')], V('new', 'element')),
    (r'RoutingKit::invert_permutation\(', [V('old', 'new')], V('new', 'old')),
    (r'RoutingKit::chain_permutation_first_left_then_right\(', [V('second', 'third'), V('first', 'second')], V('first', 'third')),
    (r'RoutingKit::chain_permutation_first_right_then_left\(', [V('first', 'second'), V('second', 'third')], V('first', 'third')),
    (r'RoutingKit::invert_vector\(', [V('element', 'value'), 'value'], V('value', 'element')),
    (r'RoutingKit::invert_inverse_vector\(', [V('value', 'element')], V('element', 'value')),
    (r'RoutingKit::find_arc_\w+\(', [V(NODE, IARC), V(IARC, NODE), NODE, NODE], IARC),
]

RUN = r'(add_source|add_target|run|get_used_source|get_used_target|get_distance|get_node_path|get_arc_path|get_extra_weight_distance)'
TGT = r'(add_source|pin_targets|run_to_pinned_targets|get_distances_to_targets|get_used_sources_to_targets|get_extra_weight_distances_to_targets|reset_source)'
SRC = r'(add_target|pin_sources|run_to_pinned_sources|get_distances_to_sources|get_used_targets_to_sources|get_extra_weight_distances_to_sources|reset_target)'
GROUPS = []
for c in ('ContractionHierarchyQuery', 'CustomizableContractionHierarchyQuery'):
    for nm, r in (('point-to-point', RUN), ('pinned targets', TGT), ('pinned sources', SRC)):
        GROUPS.append(('%s (%s)' % (c, nm), r'RoutingKit::%s::%s(<.*>)?\(' % (c, r)))
GROUPS += [
    ('check_contraction_hierarchy_for_errors', r'RoutingKit::check_contraction_hierarchy_for_errors\('),
    ('extra weights', r'ContractionHierarchyExtraWeight<.*>::reset<'),
    ('customization', r'RoutingKit::CustomizableContractionHierarchyMetric::customize\('),
    ('perfect customization', r'RoutingKit::CustomizableContractionHierarchyMetric::build_contraction_hierarchy_using_perfect_witness_search\('),
    ('parallel customization', r'RoutingKit::CustomizableContractionHierarchyParallelization::|omp_outlined'),
    ('partial customization', r'RoutingKit::CustomizableContractionHierarchyPartialCustomization::(?!reset)'),
    ('Dijkstra', r'RoutingKit::Dijkstra::(?!reset|Dijkstra)'),
]


def parts(dem):
    """position of explicit parameters: (has sret, has this) is read off the signature"""
    return dem


def seed_api(S, g):
    F, T = g.F, g.T
    hit = [a for a in API if re.search(a[0], F.dem)]
    if not hit:
        return False
    _, ps, ret = hit[0]
    first = 0
    sret = None
    if F.params and F.params[0].get('sret'):
        sret, first = 0, 1
    if g.this is not None:
        first = g.this + 1
    for j, k in enumerate(ps):
        i = first + j
        if k is None or i >= len(F.params):
            continue
        w = 'interface of ' + short(F.dem)
        if isinstance(k, tuple):
            V_ = g.canon(('arg', i))
            if 'settle' in F.dem:
                continue
            S.label(('idx', V_), k[1], w, 'parameter %d' % (j + 1))
            S.label(('elem', V_), k[2], w, 'parameter %d' % (j + 1))
        elif F.params[i]['ty'] == 'ptr':
            S.label(('mem', g.canon(('arg', i))), k, w, 'parameter %d' % (j + 1))
        else:
            S.label(('val', F.name, i), k, w, 'parameter %d' % (j + 1))
    w = 'interface of ' + short(F.dem)
    if ret is not None:
        if isinstance(ret, tuple) and ret[0] == 'vec':
            if sret is not None:
                V_ = g.canon(('arg', 0))
                S.label(('idx', V_), ret[1], w, 'result')
                S.label(('elem', V_), ret[2], w, 'result')
        elif isinstance(ret, tuple):
            S.label(('ret', F.name), ret[1], w, 'result')
            S.label(('ret2', F.name), ret[2], w, 'result')
        else:
            S.label(('ret', F.name), ret, w, 'result')
    return True


def closure_of(M, fs):
    """functions reachable by direct calls that are analysed separately (recursive helpers, outlined parallel regions)"""
    out = {F.name: F for F in fs}
    st = list(fs)
    while st:
        F = st.pop()
        for I in F.calls():
            names = [I.fn] if I.fn else []
            for n in names:
                G = M.functions.get(n)
                if G is None or n in out:
                    continue
                if any(re.search(r, G.dem) for r in kinds.OPAQUE):
                    continue
                if G.d.get('from_repo') is False:
                    continue
                if not G.file.startswith(build.REPO):
                    continue
                if G.d.get('rec'):
                    out[n] = G
                    st.append(G)
    return out


def solve(M, ctx, name, fs):
    S = Solver()
    spec = Spec('(pinned' in name)
    fns = closure_of(M, fs)
    gens = {}
    for n, F in fns.items():
        gens[n] = Gen(S, F, spec, fns)
    for n, g in gens.items():
        seed_api(S, g)
    for n, g in gens.items():
        g.run()
        ctx.fn(g.F)
    solve_links(S, gens)
    for w, why, a, b in S.conflicts:
        ctx.bad('one-numbering', w, '%s: a value in the numbering "%s" (%s) is used where "%s" (%s) is expected [%s]' % (why, b[0], b[1], a[0], a[1], name))
    for k, allowed, w, what in S.oneof:
        c = S.kind(k)
        if c is not None:
            ctx.check(c in allowed, 'one-numbering', w, '%s receives a value in the numbering "%s", expected %s [%s]' % (what, c, ' or '.join(sorted(allowed)), name))
    for a, b, w, what in S.sizes:
        ka, kb = S.kind(a), S.kind(b)
        if ka and kb:
            ctx.check(COUNT.get(ka, ka) == COUNT.get(kb, kb), 'one-numbering', w, '%s: the number of "%s" is used where the number of "%s" is meant [%s]' % (what, kb, ka, name))
    known = 0
    roots_ = {}
    for k in list(S.p):
        if k[0] != 'K' and S.kind(k):
            known += 1
    r = ctx.rules.setdefault('one-numbering', [0, 0])
    r[0] += S.n
    r[1] += S.n
    return S, known, len([k for k in S.p if k[0] != 'K'])


def run(ctx):
    M = build.module(opaque=kinds.OPAQUE)
    ctx.use(M)
    tot = 0
    for name, rx in GROUPS:
        fs = [F for F in M.find(rx) if is_root(F, M) or 'omp_outlined' in F.dem]
        fs = [F for F in fs if '.omp' in F.name or True]
        if not fs:
            ctx.notes.append('no function for ' + name)
            continue
        S, known, n = solve(M, ctx, name, fs)
        tot += known
        ctx.notes.append('%s: %d functions, %d unifications, %d of %d values have a known numbering' % (name, len(fs), S.n, known, n))
    for rx, _, _ in API:
        if re.match(r'RoutingKit::(\w*permutation|find_arc|invert|chain)', rx):
            for F in M.find('^(std::vector<.*> |unsigned int )?' + rx):
                if is_root(F, M):
                    S, known, n = solve(M, ctx, short(F.dem), [F])
                    tot += known
    for F in M.functions.values():
        if re.search(r'RoutingKit::(Customizable)?ContractionHierarchy(Query|Metric)?::|unpack_arc', F.dem) and is_root(F, M):
            if d01b.rules_n01(ctx, F, paths.Paths(F)):
                ctx.fn(F)
    if tot < 800:
        from ..ir import AnalysisBroken
        raise AnalysisBroken('only %d values with a known numbering' % tot)
    return ctx.finish('Unification-based inference of the numbering of every id and index (input nodes, internal nodes, input arcs, arcs of each hierarchy, positions of pinned nodes, weights) in every query, customization and search function, with helpers inlined and recursive helpers linked; the numbering of index arrays and of the public interface is given.',
                      ['arrays that are renumbered in place while an index is being constructed are outside this property'])
