"""G01: an imported OSM graph describes the ways, directions, positions and turn restrictions of the file consistently."""
import re
from .. import build, kinds
from ..common import *
from ..walk import Walk, State, TooMany

INV = 0xffffffff
OPAQUE = kinds.OPAQUE + [
    r'RoutingKit::(keep_element_of_vector_if|inplace_\w+|make_bit_vector|geo_dist|ordered_read_osm_pbf|unordered_read_osm_pbf|get_micro_time|get_osm_\w+|is_osm_way_\w+|decode_osm_\w+)[(<]',
    r'^RoutingKit::load_osm_\w+\([^$]*$', r'^RoutingKit::simple_load_osm_\w+\([^$]*$']
LOAD = r'^RoutingKit::load_osm_routing_graph_from_pbf\([^$]*$'
IDS = r'^RoutingKit::load_osm_id_mapping_from_pbf\([^$]*$'
ARC = ('head', 'geo_distance', 'way', 'is_arc_antiparallel_to_way')
ROLE = {'is_modelling_node': 'modelling', 'is_routing_node': 'routing', 'is_routing_way': 'way'}
FWD, BWD = 'forward', 'backward'
DIRS = {0: {FWD, BWD}, 1: {FWD}, 2: {BWD}, 3: set()}
DNAME = {0: 'open_in_both', 1: 'only_open_forwards', 2: 'only_open_backwards', 3: 'closed'}
GNAME = {0: 'none', 1: 'uncompressed', 2: 'first_and_last'}


def names(t):
    out = []
    while isinstance(t, tuple) and t:
        if t[0] == 'f':
            if t[2] != '<base>':
                out.append(t[2])
            t = t[1]
        elif t[0] in ('ld', 'addr'):
            t = t[1]
        elif t[0] == 'alloca':
            out.append(t[2])
            break
        else:
            break
    return out[::-1]


def name(t):
    n = names(t)
    return n[-1] if n else None


def strip(t):
    while isinstance(t, tuple) and t and ((t[0] == 'and' and t[2] == ('c', INV)) or t[0] == 'expect'):
        t = t[1]
    return t


def enums(M, fallback):
    return fallback


class Info:
    pass


def main_info(M, ctx):
    fs = [F for F in M.find(LOAD)]
    if not fs:
        ctx.notes.append('load_osm_routing_graph_from_pbf was not found')
        return None
    R = Info()
    R.F = F = fs[0]
    R.T = T = T_of(F)
    ctx.fn(F)
    R.mapper = {}
    for I in F.calls(r'(IDMapper|LocalIDMapper)::(IDMapper|LocalIDMapper)(<[^()]*>)?\(RoutingKit::BitVector'):
        n = name(T.addr_of(I.ops[1]))
        if n in ROLE:
            R.mapper[name(T.addr_of(I.ops[0]))] = ROLE[n]
    R.geo = None
    for i, n in enumerate(T.argnames):
        if 'OSMRoadGeometry' in (M.tname(F.params[i].get('t', -1)) if F.params[i].get('t') is not None else ''):
            R.geo = n
    R.geo = R.geo or 'geometry_to_be_extracted'
    R.node = [G for G in M.functions.values() if 'load_osm_routing_graph_from_pbf' in G.dem and re.search(r'operator\(\)\(unsigned long, double, double, RoutingKit::TagMap const&\)', G.dem)]
    R.way = [G for G in M.functions.values() if 'load_osm_routing_graph_from_pbf' in G.dem and re.search(r'operator\(\)\(unsigned long, std::vector<unsigned long, std::allocator<unsigned long>> const&, RoutingKit::TagMap const&\)', G.dem)]
    R.lat = R.lon = None
    return R


def to_local(F, R, t):
    """(role of the mapper, id term) if t is a local id"""
    t = strip(t)
    if not (isinstance(t, tuple) and t and t[0] == 'call' and t[1].endswith('LocalIDMapper::to_local')):
        return None
    I = F.by_id[t[2]]
    T = T_of(F)
    return R.mapper.get(name(T.addr_of(I.ops[0]))), T.term(I.ops[1]), len(I.ops)


# ------------------------------------------------------------------------------------------------- positions of nodes
def node_callback(ctx, R):
    for F in R.node:
        ctx.fn(F)
        T = T_of(F)
        got = {}
        for I in F.insts():
            if I.op != 'store':
                continue
            a, v = T.addr_of(I.ops[1]), strip(T.term(I.ops[0]))
            if a[0] != 'at' or v[0] != 'arg':
                continue
            got[v[1]] = (a, I)
        if not got:
            ctx.notes.append('positions are not stored by the node callback itself')
            return
        for k, what in ((2, 'latitude'), (3, 'longitude')):
            if not ctx.check(k in got, 'node-positions', F.where() if hasattr(F, 'where') else short(F.dem), 'the %s of a node is not stored' % what):
                continue
            a, I = got[k]
            l = to_local(F, R, a[2])
            ctx.check(l is None or (l[0] in ('modelling', None) and strip(l[1]) == ('arg', 1)), 'node-positions', I.where(), 'the %s is stored at %s instead of the local id of the modelling node' % (what, show(a[2], T)))
            if k == 2:
                R.lat = name(a[1])
            else:
                R.lon = name(a[1])
        if 2 in got and 3 in got:
            ctx.check(got[2][0][1] != got[3][0][1] and strip(got[2][0][2]) == strip(got[3][0][2]), 'node-positions', got[3][1].where(), 'latitude and longitude of a node are not stored at the same position of two arrays')
            # a modelling node never keeps its position unset: the stores are reached whenever the id is mapped
            for valid in (0, 1):
                def leaf(s, t):
                    if to_local(F, R, t):
                        return 5 if valid else INV
                w = Walk(F, leaf, lambda s, I: s.ev.append(I.i) if I in (got[2][1], got[3][1]) else None)
                for s, e in w.run(0, set()):
                    if e[0] == 'ret':
                        n = len(set(s.ev))
                        ctx.check(n == (2 if valid else 0), 'node-positions', got[2][1].where(), 'a node that is %sa modelling node: %d of 2 coordinates are stored' % ('' if valid else 'not ', n))


# ------------------------------------------------------------------------------------------------- which ids belong to the graph
BITS = ('is_modelling_node', 'is_routing_node', 'is_routing_way')


def bits(F, T, o):
    n = name(T.addr_of(o))
    return n if n in BITS else ('is_modelling_node' if n == 'map' else None)


def id_of(F, T, o):
    """what an id operand is: 'node' / 'way' (argument), 'front', 'back', 'element' of the node list, None"""
    t = strip(T.term(o))
    if t == ('arg', 1):
        return 'own'
    I = F.val(o)
    while I is not None and I.op in ('zext', 'trunc', 'freeze'):
        I = F.val(I.ops[0])
    if I is None or I.op != 'load':
        return None
    if t == ('ld', ('off', ('dend', ('arg', 2)), -8)):
        return 'back'
    if t[0] != 'ld' or t[1][:2] != ('at', ('arg', 2)):
        return None
    seen, work = set(), [I.ops[0]]
    while work:
        P = F.val(work.pop())
        if P is None or P.i in seen:
            continue
        seen.add(P.i)
        if P.op == 'phi':
            return 'element'
        if P.op in ('getelementptr', 'gep', 'zext', 'sext', 'trunc', 'freeze', 'bitcast', 'add', 'sub'):
            work.extend(P.ops)
    i = t[1][2]
    if i == ('c', 0):
        return 'front'
    if any(x[0] in ('bytes', 'size') for x in subterms(i) if isinstance(x, tuple) and x):
        return 'back'
    return None


def whole_list(F, T, h):
    """does the loop with header h run over all elements of the node list?"""
    c = T.term(F.blocks[h][-1].ops[0]) if F.blocks[h][-1].op == 'br' and F.blocks[h][-1].ops else None
    if not c or c[0] != 'cmp':
        return None
    for I in phis_at(F, h):
        ini = [T.term(o) for o, p in zip(I.ops, I.d['in']) if p not in F.loops()[h]]
        if ('phi', I.i) not in (strip(c[2]), strip(c[3])) or len(ini) != 1:
            continue
        lim = strip(c[3]) if strip(c[2]) == ('phi', I.i) else strip(c[2])
        if I.ty == 'ptr':
            return ini[0] == ('data', ('arg', 2)) and lim == ('dend', ('arg', 2)), 'from %s to %s' % (show(ini[0]), show(lim))
        if c[1] in ('ult', 'ne', 'ugt', 'eq'):
            sz = any(isinstance(x, tuple) and x and x[0] in ('bytes', 'size') and x[1] == ('arg', 2) for x in subterms(lim))
            if ini[0][0] == 'c' and sz:
                return ini[0] == ('c', 0) and not (lim[0] in ('sub', 'add')), 'from %s to %s' % (show(ini[0]), show(lim))
    return None


def id_mapping(ctx, M):
    fs = [F for F in M.find(IDS)]
    lam = [G for G in M.functions.values() if re.match(r'RoutingKit::load_osm_id_mapping_from_pbf\(', G.dem) and '::operator()(' in G.dem]
    if not fs or not lam:
        ctx.notes.append('load_osm_id_mapping_from_pbf was not found')
        return
    main, TM = fs[0], T_of(fs[0])
    ctx.fn(main)
    for F in lam:
        ctx.fn(F)
        T = T_of(F)
        sets = [I for I in F.calls(r'RoutingKit::BitVector::(set|is_set|reset|set_if|reset_if)\(')]
        grow = [I for I in F.calls(r'RoutingKit::BitVector::make_large_enough_for\(')]
        for I in sets:
            ok = any(T.addr_of(J.ops[0]) == T.addr_of(I.ops[0]) and same_id(F, T, J.ops[1], I.ops[1]) and before(F, J, I) for J in grow)
            if not ok:
                ok = any(c[0] == 'cmp' and any(isinstance(x, tuple) and x[:1] == ('call',) and x[1].endswith('BitVector::size') for x in subterms(c)) for c, _ in cond_atoms_of(F, T, I.blk))
            ctx.check(ok, 'ids-fit-the-bit-vectors', I.where(), 'bit %s of %s is accessed although the vector was not enlarged for it' % (show(T.term(I.ops[1]), T), show(T.addr_of(I.ops[0]), T)))
        if 'std::vector<unsigned long' in F.dem.split('operator()(')[-1]:
            way_ids(ctx, main, TM, F, T)
        else:
            def leaf(s, t):
                if t[0] == 'call' and t[1].endswith('function::operator()'):
                    return chosen
            for chosen in (0, 1):
                w = Walk(F, leaf, lambda s, I: s.ev.append((bits(F, T, I.ops[0]), id_of(F, T, I.ops[1]))) if I.op == 'call' and 'BitVector::set(' in (I.dem or '') else None)
                for s, e in w.run(0, set()):
                    if e[0] != 'ret' or any(None in x for x in s.ev):
                        continue
                    got = set(s.ev)
                    if chosen:
                        ctx.check({('is_modelling_node', 'own'), ('is_routing_node', 'own')} <= got, 'nodes-of-the-graph', short(F.dem), 'a node chosen as routing node becomes %s' % (sorted(got) or 'nothing'))
                    else:
                        ctx.check(not got, 'nodes-of-the-graph', short(F.dem), 'a node that was not chosen as routing node becomes %s' % sorted(got))


def before(F, J, I):
    return J.blk == I.blk and J.pos < I.pos or J.blk != I.blk and F.dominates(J.blk, I.blk)


def same_id(F, T, a, b):
    if a == b or F.val(a) is not None and F.val(a) is F.val(b):
        return True
    x, y = T.term(a), T.term(b)
    return x == y and id_of(F, T, a) == id_of(F, T, b)


def cond_atoms_of(F, T, blk):
    out = []
    for g in F.guards(blk):
        try:
            out.append((T.term(F.blocks[g[2]][-1].ops[0]), True))
        except Exception:
            pass
    return out


def flags_of(ctx, main, TM, F):
    """values of all_modelling_nodes_are_routing_nodes for which this callback is used"""
    tag = F.dem[:F.dem.index('::operator()(')].rsplit('::', 1)[-1]
    out = set()
    n = len(main.params) - 1
    for v in (0, 1):
        def on(s, I):
            if I.op == 'call' and re.search(r'operator=<|::function<', I.dem or ''):
                m = re.findall(r'::(\$_\d+)[>,]', I.dem)
                if m:
                    s.ev.append(m[-1])
        try:
            for s, e in Walk(main, lambda s, t: v if t == ('arg', n) else None, on, 20000).run(0, set()):
                if tag in s.ev:
                    out.add(v)
        except TooMany:
            return None
    return out or None


def way_ids(ctx, main, TM, F, T):
    flags = flags_of(ctx, main, TM, F) or {0, 1}
    reads_flag = any(isinstance(x, tuple) and x[:1] == ('f',) and 'all_modelling' in str(x[2]) for I in F.insts() if I.op == 'br' and I.ops for x in subterms(T.term(I.ops[0])))
    if flags == {0, 1} and not reads_flag:
        ctx.notes.append('which way callback is used when was not found')
        return
    sets = [I for I in F.calls(r'RoutingKit::BitVector::set\(') if len(I.ops) < 3 or T.term(I.ops[2]) != ('c', 0)]
    if any(bits(F, T, I.ops[0]) is None or id_of(F, T, I.ops[1]) is None for I in sets):
        ctx.notes.append('way callback of the id mapping: ids of unknown origin')
        return
    ev = lambda s, I: s.ev.append((bits(F, T, I.ops[0]), id_of(F, T, I.ops[1]), I)) if I in sets else None
    loops = [h for h in F.loops() if any(id_of(F, T, I.ops[1]) == 'element' and I.blk in F.loops()[h] for I in sets)]
    for flag in sorted(flags):
        for n in (0, 1, 2, 7):
            for used in (0, 1):
                def leaf(s, t):
                    if t[0] == 'call' and t[1].endswith('function::operator()'):
                        return used
                    if t[0] == 'bytes' and t[1] == ('arg', 2):
                        return 8 * n
                    if t[0] == 'size' and t[1] == ('arg', 2):
                        return n
                    if t[0] == 'ld' and t[1][0] == 'f' and 'all_modelling' in str(t[1][2]):
                        return flag
                for s, e in Walk(F, leaf, ev).run(0, set()):
                    if e[0] != 'ret':
                        continue
                    got = {x[:2] for x in s.ev}
                    where = s.ev[0][2].where() if s.ev else short(F.dem)
                    if not (used and n >= 2):
                        ctx.check(not got, 'ways-of-the-graph', where, 'a way with %d nodes that is %sused by the profile changes the id mapping: %s' % (n, '' if used else 'not ', sorted(got)))
                        continue
                    ctx.check(('is_routing_way', 'own') in got, 'ways-of-the-graph', short(F.dem), 'a used way with %d nodes does not become a routing way' % n)
                    visited = any(h in s.path for h in loops)
                    ctx.check(visited or not loops, 'nodes-of-the-graph', short(F.dem), 'the nodes of a used way are not visited')
                    if flag == 0:
                        for k in ('front', 'back'):
                            ctx.check(('is_routing_node', k) in got or in_loop_end(F, T, sets, k), 'ends-of-ways-are-routing-nodes', short(F.dem), 'the %s node of a used way does not become a routing node' % {'front': 'first', 'back': 'last'}[k])
        for h in loops:
            ok = whole_list(F, T, h)
            if ok is not None:
                ctx.check(ok[0], 'nodes-of-the-graph', F.blocks[h][-1].where(), 'not all nodes of a way are visited (%s)' % ok[1])
            for known in (0, 1):
                def leaf(s, t):
                    if t[0] == 'call' and t[1].endswith('BitVector::is_set') and bits(F, T, F.by_id[t[2]].ops[0]) == 'is_modelling_node':
                        return known
                    if t[0] == 'ld' and t[1][0] == 'f' and 'all_modelling' in str(t[1][2]):
                        return flag
                always = True
                n = 0
                late = False
                for s, e in Walk(F, leaf, ev).run(h, {h}, region=F.loops()[h]):
                    if e[0] != 'stop':
                        continue
                    n += 1
                    got = {x[:2] for x in s.ev}
                    if not known:
                        ctx.check(('is_modelling_node', 'element') in got, 'nodes-of-the-graph', F.blocks[h][-1].where(), 'a node of a used way does not become a modelling node')
                    if flag == 1 or known:
                        ctx.check(('is_routing_node', 'element') in got, 'crossings-are-routing-nodes', F.blocks[h][-1].where(), 'a node %s does not become a routing node' % ('of a used way' if flag else 'that lies on several used ways (or several times on one)'))
                    elif ('is_routing_node', 'element') not in got:
                        always = False
                if n and not (flag == 1 or known):
                    ctx.check(not always, 'crossings-are-routing-nodes', F.blocks[h][-1].where(), 'every node of a used way becomes a routing node although not all modelling nodes are to be routing nodes')
                # the test for an earlier visit comes before the mark of this visit
            for I in F.calls(r'RoutingKit::BitVector::is_set\('):
                if I.blk in F.loops()[h] and bits(F, T, I.ops[0]) == 'is_modelling_node' and flag == 0:
                    for J in sets:
                        if bits(F, T, J.ops[0]) == 'is_modelling_node' and J.blk in F.loops()[h]:
                            ctx.check(not before(F, J, I), 'crossings-are-routing-nodes', J.where(), 'the node is marked as modelling node before it is tested for an earlier visit')


def in_loop_end(F, T, sets, k):
    """is the first / last node handled by a case distinction inside the loop?"""
    for I in sets:
        if bits(F, T, I.ops[0]) == 'is_routing_node' and id_of(F, T, I.ops[1]) == 'element':
            hs = [h for h in F.loops() if I.blk in F.loops()[h]]
            loopc = T.term(F.blocks[hs[0]][-1].ops[0]) if hs and F.blocks[hs[0]][-1].ops else None
            for c, _ in cond_atoms_of(F, T, I.blk):
                if not (c[0] == 'call' and re.search(r'is_set$|operator\(\)$', c[1])) and any(x in (('dend', ('arg', 2)), ('data', ('arg', 2)), ('bytes', ('arg', 2)), ('size', ('arg', 2))) for x in subterms(c)) and any(x[:1] == ('phi',) for x in subterms(c) if isinstance(x, tuple)) and c != loopc:
                    return True
    return False


# ------------------------------------------------------------------------------------------------- arcs of a way
class WayCallback:
    def __init__(self, ctx, R, F):
        self.ctx, self.R, self.F, self.T = ctx, R, F, T_of(F)
        self.cfg = None
        self.unknown = None

    def role(self, t):
        r = to_local(self.F, self.R, t)
        return r[0] if r else None

    def arg_of(self, t):
        return strip(to_local(self.F, self.R, t)[1])

    def coord(self, v):
        """('lat'|'lon', local id) of a value read from the positions of the modelling nodes"""
        v = strip(v)
        if isinstance(v, tuple) and v and v[0] == 'ld' and v[1][0] == 'at':
            n = name(v[1][1])
            if n in (self.R.lat, self.R.lon) and n is not None:
                return ('lat' if n == self.R.lat else 'lon', strip(v[1][2]))
        return None

    def vec(self, t):
        n = name(t)
        if n in FIELDS and self.is_graph(t):
            return ('G', n)
        return ('L', n)

    def is_graph(self, t):
        # a member of a structure (the graph), not a captured vector itself: the closure has members of reference type only
        x = t
        depth = 0
        while isinstance(x, tuple) and x and x[0] in ('f', 'ld', 'addr'):
            if x[0] == 'f':
                depth += 1
            x = x[1]
        return isinstance(t, tuple) and t[0] == 'f' and t[1][0] in ('ld', 'f', 'arg', 'alloca') and (t[1][0] != 'arg')

    def leaf(self, s, t):
        F, R, cfg = self.F, self.R, self.cfg
        if t[0] == 'call' and len(t) == 3:
            r = to_local(F, R, t)
            if r:
                if r[0] == 'routing' and strip(t) == self.C:
                    return 5 if cfg['valid'] else INV
                if r[0] == 'way':
                    return 7 if cfg.get('way', 1) else INV
                return 9
            if t[1].endswith('function::operator()') and 'OSMWayDirectionCategory' in F.by_id[t[2]].dem:
                return cfg['dir']
        if t[0] == 'ld' and name(t[1]) == R.geo:
            return cfg['geo']
        if t[0] in ('bytes', 'size', 'data', 'dend') and len(t) == 2:
            k = self.vec(t[1])
            if ('v',) + k in s.x and k[0] == 'L':
                n = len(s.x[('v',) + k])
                return {'bytes': 4 * n, 'size': n, 'data': 4096, 'dend': 4096 + 4 * n}[t[0]]
        return None

    def list(self, s, k):
        return s.x.setdefault(('v',) + k, [])

    def token(self, s, v):
        """content of a value as token"""
        v = strip(v)
        c = self.coord(v)
        if c:
            return c
        if isinstance(v, tuple) and v and v[0] == 'ld':
            a = v[1]
            if a[0] == 'at' and a[2] == ('c', 0):
                k = self.vec(a[1])
                if ('v',) + k in s.x and s.x[('v',) + k]:
                    return s.x[('v',) + k][0]
            if a[0] == 'off' and a[1][0] == 'dend':
                k = self.vec(a[1][1])
                l = s.x.get(('v',) + k)
                if l and a[2] == -4:
                    return l[-1]
            if a[0] == 'at' and a[2][0] == 'add' and a[2][1][0] == 'size' and a[2][1][1] == a[1] and a[2][2] == ('c', -1):
                k = self.vec(a[1])
                l = s.x.get(('v',) + k)
                if l:
                    return l[-1]
        return ('?', v)

    def on(self, s, I):
        F, T = self.F, self.T
        if I.op in ('ashr', 'lshr', 'sdiv', 'udiv'):
            t = T.term_inst(I)
            if t[0] == 'size':
                k = self.vec(t[1])
                if k[0] == 'G':
                    s.inst[I.i] = ('snap', k[1], len(self.list(s, k)))
            return
        if not I.is_call:
            return
        n = short(I.dem or '')
        m = re.match(r'std::vector::(\w+|operator\S+)$', n)
        if m and I.ops:
            f = m.group(1)
            a = s.addr(I.ops[0])
            k = self.vec(a)
            l = self.list(s, k)
            if f in ('push_back', 'emplace_back') and len(I.ops) > 1:
                o = I.ops[1]
                v = F.val(o)
                ptr = (v is not None and v.ty == 'ptr') or ('a' in o and F.params[o['a']]['ty'] == 'ptr')
                x = s.pointed(o) if ptr else s.val(o)
                if k[0] == 'G' and k[1] not in ('modelling_node_latitude', 'modelling_node_longitude') or 'vector<float' not in I.dem:
                    l.append((strip(x), I))
                else:
                    l.append(self.token(s, x))
            elif f == 'insert' and len(I.ops) == 4:
                p, b, e = (s.val(o) for o in I.ops[1:])
                rb = self.range_of(s, I.ops[2], I.ops[3])
                if rb is None or not self.at_end(s, I.ops[1], a):
                    s.x['unknown'] = I.where()
                else:
                    l.extend(rb)
            elif f == 'pop_back':
                if l:
                    l.pop()
                else:
                    s.x['underflow'] = I.where()
            elif f == 'clear':
                del l[:]
            elif f in ('reserve', 'size', 'empty', 'capacity', '~vector', 'shrink_to_fit', 'begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'crbegin', 'crend'):
                pass
            else:
                s.x['unknown'] = I.where()
        elif n == 'std::reverse' and len(I.ops) == 2:
            a, b = T.term(I.ops[0]), T.term(I.ops[1])
            k = self.whole(I.ops[0], I.ops[1])
            if k is None:
                s.x['unknown'] = I.where()
            else:
                self.list(s, k).reverse()
        elif n.startswith('std::') and re.match(r'std::(copy|swap|rotate|sort|transform|back_inserter)', n):
            s.x['unknown'] = I.where()

    def whole(self, o1, o2):
        T = self.T
        a, b = T.term(o1), T.term(o2)
        x = None
        if a[0] == 'data':
            x = a[1]
        elif a[0] == 'addr' and a[1][0] == 'at' and a[1][2] == ('c', 0):
            x = a[1][1]
        a2 = T.addr_of(o1)
        if x is None and a2[0] == 'at' and a2[2] == ('c', 0):
            x = a2[1]
        if x is not None and b[0] == 'dend' and b[1] == x:
            return self.vec(x)
        return None

    def range_of(self, s, o1, o2):
        k = self.whole(o1, o2)
        if k is not None:
            return list(self.list(s, k))
        T = self.T
        # reverse iterators over a whole vector
        def rit(o):
            a = s.addr(o)
            I = self.F.val(o)
            return None
        return None

    def at_end(self, s, o, a):
        t = self.T.term(o)
        return t[0] == 'dend' and s.resa(t[1]) == a

    def run(self):
        ctx, F, T, R = self.ctx, self.F, self.T, self.R
        ctx.fn(F)
        # the local id of the current routing node
        cand = []
        for I in F.calls(r'LocalIDMapper::to_local\('):
            r = to_local(F, R, T.term_inst(I))
            if r and r[0] == 'routing' and r[2] == 3 and any(I.blk in body for body in F.loops().values()):
                cand.append(I)
        if len(cand) != 1:
            ctx.notes.append('way callback: the current routing node is looked up at %d places' % len(cand))
            return
        CI = cand[0]
        self.C = T.term_inst(CI)
        self.elem = self.arg_of(self.C)
        hs = [(len(b), h) for h, b in F.loops().items() if CI.blk in b]
        h = max(hs)[1]
        body = F.loops()[h]
        self.cfg = {'dir': 0, 'geo': 0, 'valid': 1}
        # --- when is the way looked at
        reach = {}
        for d in DIRS:
            for way in (0, 1):
                self.cfg = {'dir': d, 'geo': 1, 'valid': 1, 'way': way}
                w = Walk(F, self.leaf)
                reach[d, way] = any(e[0] == 'stop' for s, e in w.run(0, {h}))
        for d in DIRS:
            ctx.check(not reach[d, 0], 'ways-of-the-graph', F.blocks[0][0].where(), 'arcs are made for a way that is not a routing way')
            if d != 3:
                ctx.check(reach[d, 1], 'ways-of-the-graph', F.blocks[0][0].where(), 'no arcs are made for a way that is %s' % DNAME[d])
        # --- state carried from node to node
        L = P = D = IX = None
        for I in F.blocks[h]:
            if I.op != 'phi':
                break
            for o, p in zip(I.ops, I.d['in']):
                if p in body:
                    continue
                t = T.term(o)
                r = to_local(F, R, t)
                if r and r[0] == 'routing' and self.first(r[1]):
                    L = I
                elif r and r[0] == 'modelling' and self.first(r[1]):
                    P = I
                elif t[0] == 'fc' and float(t[1]) == 0:
                    D = I
                elif I.ty in ('i32', 'i64') and t[0] == 'c':
                    IX = (I, t[1])
        if L is None or D is None:
            ctx.notes.append('way callback: the state of the scan was not recognised')
            return
        self.L = ('phi', L.i)
        if IX is not None and self.elem[0] == 'ld' and self.elem[1][0] == 'at' and strip(self.elem[1][2]) == ('phi', IX[0].i):
            I, start = IX
            ctx.check(start == 1, 'all-nodes-of-a-way', I.where(), 'the scan of a way starts with node %d instead of the second node' % start)
            for o, p in zip(I.ops, I.d['in']):
                if p in body:
                    ctx.check(strip(T.term(o)) == ('add', ('phi', I.i), ('c', 1)), 'all-nodes-of-a-way', I.where(), 'the scan of a way does not proceed node by node')
            t = F.blocks[h][-1]
            if t.op == 'br' and t.ops:
                c = T.term(t.ops[0])
                lim = [x for x in c[2:4] if isinstance(x, tuple) and x and x[0] == 'size'] if c[0] == 'cmp' else []
                oth = [x for x in c[2:4] if strip(x) == ('phi', I.i)] if c[0] == 'cmp' else []
                if c[0] == 'cmp':
                    ctx.check(bool(lim) and bool(oth) and c[1] in ('ult', 'ugt', 'ne', 'eq', 'slt', 'sgt'), 'all-nodes-of-a-way', t.where(), 'the scan of a way does not end with its last node: %s' % show(c, T))
        # --- one step of the scan, in every configuration
        for geo in GNAME:
            for n in ((0,) if geo == 0 else (0, 1, 2, 3)):
                for d in DIRS:
                    if d == 3 and not reach[3, 1]:
                        continue
                    for valid in (0, 1):
                        self.cfg = {'dir': d, 'geo': geo, 'valid': valid}
                        self.step(h, body, n, L, P, D)

    def first(self, t):
        t = strip(t)
        return t[0] == 'ld' and t[1][0] == 'at' and t[1][2] == ('c', 0)

    def step(self, h, body, n, L, P, D):
        ctx, F, T, R, cfg = self.ctx, self.F, self.T, self.R, self.cfg
        w = Walk(F, self.leaf, self.on)
        s0 = State(w)
        # temporary lists of coordinates: n nodes since the last routing node
        for I in F.calls(r'^std::vector<float, .*push_back|^std::vector<float, .*::clear'):
            a = T.addr_of(I.ops[0])
            k = self.vec(a)
            if k[0] == 'L' and k[1] not in (R.lat, R.lon):
                s0.x[('v',) + k] = [(k[1], i) for i in range(n)]
        temps = [k[2] for k in s0.x]
        tr = w.run(h, {h}, state=s0, region=body)
        what = 'geometry %s, way %s, %d nodes since the last routing node, current node %s routing node' % (GNAME[cfg['geo']], DNAME[cfg['dir']], n, 'is a' if cfg['valid'] else 'is no')
        for s, e in tr:
            if e[0] != 'stop':
                continue
            if s.x.get('unknown'):
                if not self.unknown:
                    self.unknown = s.x['unknown']
                    ctx.notes.append('way callback: unsupported operation at ' + self.unknown)
                geo_ok = False
            else:
                geo_ok = True
            where = None
            cols = {}
            for k, l in s.x.items():
                if not (isinstance(k, tuple) and k[0] == 'v'):
                    continue
                if k[1] == 'G' and k[2] in ARC + ('first_modelling_node',):
                    cols[k[2]] = l
                elif k[1] == 'L' and l and isinstance(l[0], tuple) and len(l[0]) == 2 and hasattr(l[0][1], 'op') and 'vector<unsigned int' in l[0][1].dem:
                    cols['tail'] = l
            need = ('tail',) + ARC
            cnt = {c: len(cols.get(c, [])) for c in need}
            m = max(cnt.values())
            wh = next((cols[c][-1][1].where() for c in need if cols.get(c)), F.blocks[h][0].where())
            if not ctx.check(len(set(cnt.values())) == 1, 'arcs-described-completely', wh, 'not every array of the arcs gets one entry per arc: %s (%s)' % (', '.join('%s %d' % c for c in cnt.items()), what)):
                continue
            arcs = []
            for i in range(m):
                t, hd, g, wy, an = (cols[c][i][0] for c in need)
                wh = cols['head'][i][1].where()
                kind = None
                if (t, hd) == (self.L, self.C):
                    kind = FWD
                elif (t, hd) == (self.C, self.L):
                    kind = BWD
                elif all(x in (self.L, self.C) or self.role(x) or x[0] in ('c', 'arg') for x in (t, hd)):
                    ctx.bad('arcs-connect-consecutive-routing-nodes', wh, 'an arc from %s to %s is made, which are not the previous and the current routing node of the way' % (show(t, T), show(hd, T)))
                else:
                    ctx.notes.append('way callback: end points of an arc were not resolved')
                    continue
                if kind:
                    ctx.ok('arcs-connect-consecutive-routing-nodes', wh)
                arcs.append((kind, wh))
                av = s.eval(an)
                if av is not None and kind:
                    ctx.check(av == (kind == BWD), 'direction-flag', wh, 'an arc %s the direction of its way is marked as %santiparallel' % ('in' if kind == FWD else 'against', '' if av else 'not '))
                r = self.role(wy)
                ctx.check(r == 'way' or (r is None and wy[0] in ('phi', 'ld')), 'arcs-connect-consecutive-routing-nodes', wh, 'the way of an arc is set to %s' % show(wy, T))
                self.dist(g, wh, P, D)
            kinds_ = sorted(k for k, _ in arcs if k)
            if len(kinds_) == len(arcs):
                exp = sorted(DIRS[cfg['dir']]) if cfg['valid'] else []
                ctx.check(kinds_ == exp, 'arcs-follow-the-direction', arcs[0][1] if arcs else F.blocks[h][0].where(), 'arcs made: %s, expected: %s (%s)' % (', '.join(kinds_) or 'none', ', '.join(exp) or 'none', what))
            # state
            latch = e[1]
            for I, nm in ((L, 'last routing node'), (P, 'previous node'), (D, 'distance since the last routing node')):
                if I is None:
                    continue
                v = next((s.val(o) for o, p in zip(I.ops, I.d['in']) if p == latch), None)
                if v is None:
                    continue
                v = strip(v)
                if I is L:
                    ok = v == (self.C if cfg['valid'] else self.L)
                elif I is P:
                    r = to_local(F, R, v)
                    ok = r is not None and r[0] == 'modelling' and strip(r[1]) == self.elem
                elif cfg['valid']:
                    ok = v[0] == 'fc' and float(v[1]) == 0
                else:
                    ok = self.sum_ok(v, P, D) is not False
                ctx.check(ok, 'scan-state', I.where(), 'after a node the %s is %s (%s)' % (nm, show(v, T), what))
            if cfg['geo'] == 0 or not geo_ok:
                continue
            if s.x.get('underflow'):
                continue
            self.geometry(s, cols, arcs, temps, n, what)

    def dist(self, g, wh, P, D):
        if g[0] in ('fptoui', 'fptosi'):
            r = self.sum_ok(g[1], P, D)
            if r is not None:
                self.ctx.check(r, 'arc-length', wh, 'the length of an arc is %s instead of the sum of the distances of consecutive nodes since the last routing node' % show(g, self.T))

    def sum_ok(self, v, P, D):
        F, T, R = self.F, self.T, self.R
        v = strip(v)
        if v[0] != 'fadd' or ('phi', D.i) not in v[1:]:
            return False if v[0] in ('phi', 'call', 'fadd', 'fc') else None
        g = [x for x in v[1:] if x != ('phi', D.i)]
        if len(g) != 1 or g[0][0] != 'call' or 'geo_dist' not in g[0][1]:
            return False
        I = F.by_id[g[0][2]]
        cs = [self.coord(T.term(o)) for o in I.ops[:4]]
        if None in cs:
            return None
        if [c[0] for c in cs] != ['lat', 'lon', 'lat', 'lon'] or cs[0][1] != cs[1][1] or cs[2][1] != cs[3][1]:
            return False
        ids = [cs[0][1], cs[2][1]]
        def cls(x):
            if P is not None and x == ('phi', P.i):
                return 'prev'
            r = to_local(F, R, x)
            if r and r[0] == 'modelling':
                e = strip(r[1])
                if e == self.elem:
                    return 'cur'
                if e[0] == 'ld' and e[1][0] == 'at' and self.elem[0] == 'ld' and self.elem[1][0] == 'at' and strip(e[1][2]) == ('add', strip(self.elem[1][2]), ('c', -1)):
                    return 'prev'
                return 'other'
            return 'other' if r else None
        k = [cls(x) for x in ids]
        if None in k:
            return None
        return sorted(k) == ['cur', 'prev']

    def geometry(self, s, cols, arcs, temps, n, what):
        ctx, F, T, R, cfg = self.ctx, self.F, self.T, self.R, self.cfg
        role = {}
        for I in F.calls(r'^std::vector<float, .*push_back'):
            k = self.vec(T.addr_of(I.ops[0]))
            c = self.coord(('ld', T.addr_of(I.ops[1])))
            if k[0] == 'L' and c:
                if k[1] in role and role[k[1]] != c[0]:
                    ctx.bad('coordinates-not-mixed', I.where(), 'latitudes and longitudes are appended to the same list')
                    return
                role[k[1]] = c[0]
        if not temps or set(role.values()) != {'lat', 'lon'}:
            ctx.notes.append('way callback: lists of coordinates were not recognised')
            return
        first = cols.get('first_modelling_node', [])
        wh = first[-1][1].where() if first else F.blocks[0][0].where()
        if not ctx.check(len(first) == len(arcs), 'geometry-of-arcs', wh, '%d arcs, but %d entries of first_modelling_node (%s)' % (len(arcs), len(first), what)):
            return
        G = {'lat': s.x.get(('v', 'G', 'modelling_node_latitude'), []), 'lon': s.x.get(('v', 'G', 'modelling_node_longitude'), [])}
        if not ctx.check(len(G['lat']) == len(G['lon']), 'geometry-of-arcs', wh, 'different numbers of latitudes and longitudes of modelling nodes are added (%s)' % what):
            return
        pos = []
        for v, I in first:
            v = strip(v)
            if v[0] == 'snap':
                pos.append(v[2])
            else:
                ctx.notes.append('first_modelling_node: value not recognised')
                return
        if not ctx.check(all(a <= b for a, b in zip([0] + pos, pos + [len(G['lat'])])) and (not pos or pos[0] == 0), 'geometry-of-arcs', wh, 'first_modelling_node does not point to the first modelling node of its arc (%s)' % what):
            return
        pos.append(len(G['lat']))
        for i, (kind, w) in enumerate(arcs):
            if not kind:
                continue
            for c in ('lat', 'lon'):
                got = G[c][pos[i]:pos[i + 1]]
                z = [k for k in temps if role.get(k) == c]
                if len(z) != 1:
                    return
                exp = [(z[0], j) for j in range(n)]
                if kind == BWD:
                    exp.reverse()
                if cfg['geo'] == 2 and len(exp) > 2:
                    exp = [exp[0], exp[-1]]
                if any(g[0] == '?' for g in got):
                    ctx.notes.append('geometry: value not recognised')
                    continue
                ctx.check(got == exp, 'geometry-of-arcs', w, 'the %ss of the %s arc are %s, expected %s (%s)' % ('latitude' if c == 'lat' else 'longitude', kind, seq(got), seq(exp), what))
        # lists carried to the next node
        for c in ('lat', 'lon'):
            z = [k for k in temps if role.get(k) == c]
            if len(z) != 1:
                return
            l = s.x[('v', 'L', z[0])]
            if cfg['valid']:
                ctx.check(l == [], 'geometry-of-arcs', wh, 'coordinates of earlier nodes are kept after a routing node (%s)' % what)
            else:
                cur = l[-1] if l else None
                r = to_local(F, R, cur[1]) if cur and cur[0] == c and isinstance(cur[1], tuple) else None
                ctx.check(l[:-1] == [(z[0], j) for j in range(n)] and cur is not None and cur[0] == c and (r is None or (r[0] == 'modelling' and strip(r[1]) == self.elem)), 'geometry-of-arcs', wh,
                          'the position of a node that is no routing node is not appended (%s)' % what)


def seq(l):
    return '[' + ', '.join('%s %s' % (a, b if isinstance(b, int) else '?') for a, b in l) + ']'


FIELDS = ARC + ('first_out', 'latitude', 'longitude', 'first_modelling_node', 'modelling_node_latitude', 'modelling_node_longitude', 'forbidden_turn_from_arc', 'forbidden_turn_to_arc')


# ------------------------------------------------------------------------------------------------- sorting the arcs
SORT = r'RoutingKit::compute_(inverse_)?sort_permutation_first_by_tail_then_by_head_and_apply_sort_to_tail\('


def root(a):
    while isinstance(a, tuple) and a and a[0] in ('f', 'ld', 'addr', 'off'):
        a = a[1]
    return a


def gfield(a):
    """member of the graph that is returned"""
    if isinstance(a, tuple) and a and a[0] == 'f' and a[1] == ('arg', 0) and a[2] in FIELDS:
        return a[2]
    if a == ('arg', 0):
        return 'first_out'
    return None


def producers(F, T):
    """vector object -> calls that produce it as their result (address passed as first operand)"""
    out = {}
    for I in F.calls(r'RoutingKit::(apply_(inverse_)?permutation|invert_permutation|invert_vector|keep_element_of_vector_if|compute_\w*sort_permutation\w*)[(<]'):
        if I.ops:
            out.setdefault(T.addr_of(I.ops[0]), []).append(I)
    return out


def orig(F, T, V, d=0):
    """the object whose value a local vector holds (through copies and moves)"""
    if V[0] != 'alloca' or d > 5:
        return V
    src = {T.addr_of(I.ops[1]) for I in F.calls(r'^std::vector<[^()]*>::(vector|operator=)\((std::vector<|std::remove_cv)') if len(I.ops) > 1 and isp(F, I.ops[1]) and T.addr_of(I.ops[0]) == V}
    if len(src) == 1:
        return orig(F, T, src.pop(), d + 1)
    return V


def fname(I):
    m = re.search(r'RoutingKit::(\w+)[(<]', I.dem)
    return m.group(1) if m else ''


def sorting(ctx, R):
    F, T = R.F, R.T
    prod = producers(F, T)
    R.prod = prod
    srt = [I for I in F.calls(SORT) if gfield(T.addr_of(I.ops[3])) == 'head']
    R.sort = None
    R.tail = None
    if len(srt) != 1:
        ctx.notes.append('the sorting of the arcs was not recognised')
        return
    S = R.sort = srt[0]
    p = T.addr_of(S.ops[0])
    R.tail = T.addr_of(S.ops[2])
    inv = 'inverse' in fname(S)
    n = T.term(S.ops[1])
    ctx.check(count_role(F, R, n) in ('routing', None), 'arcs-sorted-together', S.where(), 'arcs are sorted by %s nodes' % show(n, T))
    ends = lambda I: I.op == 'ret'
    for f in ARC:
        ass = []
        for I in F.calls(r'^std::vector<.*>::operator=\('):
            if gfield(T.addr_of(I.ops[0])) == f:
                ass.append(I)
        good = []
        for I in ass:
            src = T.addr_of(I.ops[1])
            ps = prod.get(src, [])
            if len(ps) != 1:
                continue
            A = ps[0]
            fn = fname(A)
            x = gfield(T.addr_of(A.ops[2])) if len(A.ops) > 2 else None
            perm = orig(F, T, T.addr_of(A.ops[1]))
            okp = False
            if perm == p:
                okp = fn == ('apply_inverse_permutation' if inv else 'apply_permutation')
            else:
                q = prod.get(perm, [])
                if len(q) == 1 and fname(q[0]) == 'invert_permutation' and orig(F, T, T.addr_of(q[0].ops[1])) == p:
                    okp = fn == ('apply_permutation' if inv else 'apply_inverse_permutation')
                elif not q:
                    continue
            ctx.check(okp, 'arcs-sorted-together', I.where(), '%s is not reordered by the permutation that sorts the arcs (%s)' % (f, fn))
            if x is not None:
                ctx.check(x == f, 'arcs-sorted-together', I.where(), '%s is replaced by the reordered %s' % (f, x))
            ctx.check(F.inst_dominates(S, A), 'arcs-sorted-together', I.where(), '%s is reordered before the arcs are sorted' % f)
            good.append(I)
        ctx.check(len(good) <= 1 or not any(F.reach_avoiding(a.blk, a.pos, lambda J: J in good and J is not a, lambda J: False) for a in good), 'arcs-sorted-together', good[-1].where() if good else S.where(), '%s is reordered twice' % f)
        if good:
            miss = F.reach_avoiding(S.blk, S.pos, ends, lambda J: J in good)
            ctx.check(miss is None, 'arcs-sorted-together', S.where(), '%s is not reordered on every path' % f)
        else:
            other = [I for I in F.insts() if I.is_call and any('v' in o or 'a' in o for o in I.ops) and any(gfield(addr(T, F, o)) == f for o in I.ops if isp(F, o)) and re.search('perm|swap|std::move', I.dem or '')]
            if other:
                ctx.notes.append('%s: reordering not recognised' % f)
            else:
                ctx.bad('arcs-sorted-together', S.where(), '%s is not reordered when the arcs are sorted' % f)
    # first_out
    fo = [I for I in F.calls(r'^std::vector<.*>::operator=\(') if gfield(T.addr_of(I.ops[0])) == 'first_out']
    for I in fo:
        ps = prod.get(T.addr_of(I.ops[1]), [])
        if len(ps) == 1 and fname(ps[0]) == 'invert_vector':
            A = ps[0]
            ctx.check(T.addr_of(A.ops[1]) == R.tail, 'arcs-sorted-together', I.where(), 'first_out is computed from %s instead of the sorted tails' % show(T.addr_of(A.ops[1]), T))
            ctx.check(F.inst_dominates(S, A), 'arcs-sorted-together', I.where(), 'first_out is computed before the arcs are sorted by tail')
            ctx.check(count_role(F, R, T.term(A.ops[2])) in ('routing', None), 'arcs-sorted-together', I.where(), 'first_out is computed for %s nodes' % show(T.term(A.ops[2]), T))
    ctx.check(bool(fo) and F.reach_avoiding(S.blk, S.pos, ends, lambda J: J in fo) is None, 'arcs-sorted-together', S.where(), 'first_out is not set on every path')
    geometry_order(ctx, R, p, inv)


def isp(F, o):
    v = F.val(o)
    return (v is not None and v.ty == 'ptr') or ('a' in o and F.params[o['a']]['ty'] == 'ptr')


def addr(T, F, o):
    return T.addr_of(o)


def count_role(F, R, t):
    t = strip(t)
    T = T_of(F)
    if t[0] == 'call' and t[1].endswith('local_id_count'):
        return R.mapper.get(name(T.addr_of(F.by_id[t[2]].ops[0])), '?')
    return None


def geo_walk(R, goal, start, d):
    """is the return reached without goal, if the requested geometry is d?"""
    F = R.F
    def leaf(s, t):
        if t[0] == 'ld' and (name(t[1]) == R.geo or t[1] == R.geocell):
            return d
        if t == R.geoarg:
            return d
    W = Walk(F, leaf)
    seen, st = set(), [start]
    hit = False
    while st:
        b, pos = st.pop()
        blk = F.blocks[b]
        if any(goal(I) for I in blk[pos:]):
            continue
        t = blk[-1]
        if t.op == 'ret':
            return True
        for x in W.next(State(W), b, t):
            if x not in seen:
                seen.add(x)
                st.append((x, 0))
    return False


def geometry_order(ctx, R, p, inv):
    F, T = R.F, R.T
    lat, lon, first = 'modelling_node_latitude', 'modelling_node_longitude', 'first_modelling_node'
    ass = {f: [I for I in F.calls(r'^std::vector<.*>::(operator=|swap)\(') if gfield(T.addr_of(I.ops[0])) == f] for f in (lat, lon, first)}
    # the cell that holds the parameter
    i = R.T.argnames.index(R.geo) if R.geo in R.T.argnames else -1
    R.geoarg = ('arg', i)
    R.geocell = None
    for I in F.insts():
        if I.op == 'store' and T.term(I.ops[0]) == R.geoarg:
            R.geocell = T.addr_of(I.ops[1])
    if not all(ass.values()):
        if not any(ass.values()):
            ctx.notes.append('the reordering of the geometry was not recognised')
        else:
            ctx.bad('geometry-sorted-with-arcs', R.sort.where(), 'only some arrays of the geometry are reordered with the arcs: ' + ', '.join(k for k, v in ass.items() if v))
        return
    for f in ass:
        for d in (1, 2):
            ctx.check(not geo_walk(R, lambda I: I in ass[f], (R.sort.blk, R.sort.pos + 1), d), 'geometry-sorted-with-arcs', ass[f][0].where(), '%s is not reordered with the arcs if the geometry is %s' % (f, GNAME[d]))
    new = {f: T.addr_of(ass[f][0].ops[1]) for f in ass}
    if len(set(new.values())) < 3:
        return
    rev = {v: k for k, v in new.items()}
    ins = [I for I in F.calls(r'std::vector<float, std::allocator<float>>::insert[(<]') if T.addr_of(I.ops[0]) in rev and len(I.ops) == 4]
    got = {}
    for I in ins:
        f = rev[T.addr_of(I.ops[0])]
        a, b = T.addr_of(I.ops[2]), T.addr_of(I.ops[3])
        if a[0] != 'at' or b[0] != 'at':
            continue
        ctx.check(gfield(a[1]) == f and gfield(b[1]) == f, 'geometry-sorted-with-arcs', I.where(), '%s receives elements of %s' % (f, gfield(a[1]) or show(a[1], T)))
        x, y = strip(a[2]), strip(b[2])
        if x[0] == 'ld' and y[0] == 'ld' and x[1][0] == 'at' and gfield(x[1][1]) == first:
            y1 = norm_at(y[1])
            ctx.check(y1 is not None and gfield(y1[0]) == first and y1[1] == plus1(strip(x[1][2])), 'geometry-sorted-with-arcs', I.where(), 'the modelling nodes %s to %s are copied instead of those of one arc' % (show(x, T), show(y, T)))
            e = strip(x[1][2])
            src = None
            if e[0] == 'ld' and e[1][0] == 'at':
                src = orig(F, T, e[1][1])
            if src is not None:
                q = R.prod.get(src, [])
                okd = (src == p and not inv) or (len(q) == 1 and fname(q[0]) == 'invert_permutation' and orig(F, T, T.addr_of(q[0].ops[1])) == p and inv)
                wrong = (src == p and inv) or (len(q) == 1 and fname(q[0]) == 'invert_permutation' and orig(F, T, T.addr_of(q[0].ops[1])) == p and not inv)
                if okd or wrong:
                    ctx.check(okd, 'geometry-sorted-with-arcs', I.where(), 'the geometry is reordered by the inverse of the permutation of the arcs')
            elif e[0] == 'phi':
                ctx.check(False, 'geometry-sorted-with-arcs', I.where(), 'the geometry is not reordered with the arcs') if inv and e[0] == 'phi' and is_counter(F, T, e) else None
        got[f] = (I, x, y)
    if lat in got and lon in got:
        ctx.check(got[lat][1:] == got[lon][1:] and got[lat][0].blk == got[lon][0].blk, 'geometry-sorted-with-arcs', got[lon][0].where(), 'latitudes and longitudes of different modelling nodes are copied')
        ps = [I for I in F.calls(r'^std::vector<unsigned int, .*push_back') if T.addr_of(I.ops[0]) == new[first]]
        blk = got[lat][0].blk
        loop = [(len(b), h) for h, b in F.loops().items() if blk in b]
        if loop and ps:
            h = min(loop)[1]
            body = F.loops()[h]
            inside = [I for I in ps if I.blk in body]
            after = [I for I in ps if I.blk not in body]
            ctx.check(len(inside) == 1 and all(F.inst_dominates(inside[0], got[f][0]) for f in (lat, lon)), 'geometry-sorted-with-arcs', ps[0].where(), 'first_modelling_node is not set once per arc before its modelling nodes are copied')
            ctx.check(len(after) == 1 and F.dominates(h, after[0].blk), 'geometry-sorted-with-arcs', ps[-1].where(), 'first_modelling_node has no entry for the end of the last arc')
            for I in ps:
                v = pushed(F, T, I)
                ctx.check(v is None or (v[0] == 'size' and v[1] in (new[lat], new[lon])), 'geometry-sorted-with-arcs', I.where(), 'first_modelling_node is set to %s' % (show(v, T) if v else ''))
    sent = [I for I in F.calls(r'^std::vector<unsigned int, .*push_back') if gfield(T.addr_of(I.ops[0])) == first]
    if got:
        I0 = next(iter(got.values()))[0]
        ctx.check(any(F.inst_dominates(I, I0) for I in sent), 'geometry-sorted-with-arcs', I0.where(), 'the end of the modelling nodes of the last arc is not marked before the geometry is reordered')
        for I in sent:
            v = pushed(F, T, I)
            ctx.check(v is None or v[0] != 'size' or gfield(v[1]) in (lat, lon), 'geometry-sorted-with-arcs', I.where(), 'the end of the modelling nodes is set to %s' % (show(v, T) if v else ''))


def is_counter(F, T, e):
    I = F.by_id[e[1]]
    return I.op == 'phi' and any(T.term(o) == ('c', 0) for o in I.ops)


def plus1(t):
    if t[0] == 'add' and t[2][0] == 'c':
        return ('add', t[1], ('c', t[2][1] + 1)) if t[2][1] != -1 else t[1]
    if t[0] == 'c':
        return ('c', t[1] + 1)
    return ('add', t, ('c', 1))


def norm_at(a):
    """(vector, index) of an element address, with constant byte offsets turned into indices"""
    if a[0] == 'at':
        return a[1], strip(a[2])
    if a[0] == 'off' and a[1][0] == 'at' and a[2] % 4 == 0:
        i = strip(a[1][2])
        for _ in range(a[2] // 4):
            i = plus1(i)
        return a[1][1], i
    return None


def pushed(F, T, I):
    """the value appended by push_back"""
    o = I.ops[1]
    if not isp(F, o):
        return strip(T.term(o))
    a = T.addr_of(o)
    if a[0] != 'alloca':
        return ('ld', a)
    st = [J for J in F.insts() if J.op == 'store' and T.addr_of(J.ops[1]) == a]
    same = [J for J in st if J.blk == I.blk and J.pos < I.pos]
    if same:
        return strip(T.term(same[-1].ops[0]))
    if len(st) == 1:
        return strip(T.term(st[0].ops[0]))
    dom = [J for J in st if F.inst_dominates(J, I)]
    if len(dom) != 1:
        return ('ld', a)
    if any(F.reach_avoiding(J.blk, J.pos, lambda K: K is I, lambda K: K is dom[0]) for J in st if J is not dom[0]):
        return ('ld', a)
    return strip(T.term(dom[0].ops[0]))


# ------------------------------------------------------------------------------------------------- positions of routing nodes
def positions(ctx, R):
    F, T = R.F, R.T
    bits = {}
    for f, want in (('latitude', R.lat), ('longitude', R.lon)):
        for I in F.calls(r'^std::vector<float, .*::operator=\('):
            if gfield(T.addr_of(I.ops[0])) != f:
                continue
            ps = R.prod.get(T.addr_of(I.ops[1]), [])
            if len(ps) != 1 or fname(ps[0]) != 'keep_element_of_vector_if':
                continue
            A = ps[0]
            src = T.addr_of(A.ops[2])
            cp = [J for J in F.calls(r'^std::vector<float, .*::vector\(std::vector') if T.addr_of(J.ops[0]) == src]
            if cp:
                src = T.addr_of(cp[0].ops[1])
            if want is not None and name(src) in (R.lat, R.lon):
                ctx.check(name(src) == want, 'positions-of-routing-nodes', I.where(), 'the %ss of the graph are taken from %s' % (f, name(src)))
            bits[f] = (T.addr_of(A.ops[1]), I, A)
    if len(bits) == 2:
        ctx.check(bits['latitude'][0] == bits['longitude'][0], 'positions-of-routing-nodes', bits['longitude'][1].where(), 'latitudes and longitudes are filtered by different node sets')
        for f, (b, I, A) in bits.items():
            sets = [J for J in F.calls(r'RoutingKit::BitVector::set\(') if T.addr_of(J.ops[0]) == b or root(T.addr_of(J.ops[0])) == root(b)]
            for J in sets:
                t = strip(T.term(J.ops[1]))
                r = to_local(F, R, t)
                if not r:
                    if t[0] == 'phi':
                        for h, body in F.loops().items():
                            if F.by_id[t[1]].blk == h and J.blk in body and F.blocks[h][-1].ops:
                                c = T.term(F.blocks[h][-1].ops[0])
                                if c[0] == 'cmp' and any(count_role(F, R, x) == 'routing' for x in c[2:4]):
                                    ctx.bad('positions-of-routing-nodes', J.where(), 'routing node %s is marked among the modelling nodes without being translated' % show(t, T))
                    continue
                g = strip(r[1])
                okk = r[0] == 'modelling' and g[0] == 'call' and g[1].endswith('IDMapper::to_global') and R.mapper.get(name(T.addr_of(F.by_id[g[2]].ops[0]))) == 'routing'
                ctx.check(okk, 'positions-of-routing-nodes', J.where(), 'the node %s is marked as routing node' % show(t, T))
                if okk:
                    i = strip(T.term(F.by_id[g[2]].ops[1]))
                    if i[0] == 'phi':
                        P = F.by_id[i[1]]
                        start = [T.term(o) for o in P.ops if T.term(o)[0] == 'c']
                        lim = None
                        for h, body in F.loops().items():
                            if P.blk == h and J.blk in body:
                                c = T.term(F.blocks[h][-1].ops[0]) if F.blocks[h][-1].ops else None
                                if c and c[0] == 'cmp':
                                    lim = [x for x in c[2:4] if strip(x) != i]
                        ctx.check(start in ([], [('c', 0)]), 'positions-of-routing-nodes', J.where(), 'the first routing nodes are skipped')
                        if lim:
                            r2 = count_role(F, R, lim[0])
                            ctx.check(r2 in ('routing', None), 'positions-of-routing-nodes', J.where(), 'not all routing nodes are marked')


# ------------------------------------------------------------------------------------------------- turn restrictions
RF = ('osm_relation_id', 'category', 'direction', 'from_way', 'via_node', 'to_way')


def rvec(F, T):
    for I in F.calls(r'^std::vector<RoutingKit::OSMTurnRestriction'):
        a = T.addr_of(I.ops[0]) if I.ops else None
        if a and a[0] == 'alloca':
            return a
    return None


def rfield(V, t):
    """member X if t is the value of member X of an element of the list of restrictions"""
    t = strip(t)
    if isinstance(t, tuple) and t and t[0] == 'ld' and t[1][0] == 'f' and t[1][2] in RF:
        b = t[1][1]
        if b[0] == 'at' and b[1] == V:
            return t[1][2]
        if b[0] in ('alloca', 'phi') and b[0] != V:
            return t[1][2]
    return None


def restrictions(ctx, R):
    F, T = R.F, R.T
    V = rvec(F, T)
    if V is None:
        ctx.notes.append('no list of turn restrictions')
        return
    R.V = V
    groups = {}
    for I in F.insts():
        a = None
        if I.op == 'store':
            a = T.addr_of(I.ops[1])
            if not (a[0] == 'f' and a[2] in RF and (a[1][0] == 'phi' or (a[1][0] == 'at' and a[1][1] == V))):
                continue
            base = a[1]
        elif I.is_call and (I.dem or '').startswith('llvm.memcpy'):
            a = T.addr_of(I.ops[0])
            base = a[1] if a[0] == 'f' and a[2] == RF[0] else a
            if not (base[0] == 'phi' or (base[0] == 'at' and base[1] == V)) or T.term(I.ops[2]) != ('c', 40):
                continue
        else:
            continue
        k = base if base[0] == 'phi' else strip(base[2])
        hs = [(len(b), h) for h, b in F.loops().items() if I.blk in b and k[0] == 'phi' and F.by_id[k[1]].blk == h]
        if hs:
            groups.setdefault(min(hs)[1], []).append((I, base, k))
    if not groups:
        ctx.notes.append('the selection of turn restrictions was not recognised')
    for h, g in sorted(groups.items()):
        select(ctx, R, h, g)


def select(ctx, R, h, g):
    """restrictions are kept completely or not at all while the list is compacted"""
    F, T, V = R.F, R.T, R.V
    body = F.loops()[h]
    out = {k for _, _, k in g}
    if len(out) != 1:
        ctx.notes.append('selection of turn restrictions: several output positions')
        return
    out = out.pop()
    OUT = F.by_id[out[1]]
    ids = {I.i: b for I, b, k in g}
    maps = any(to_local(F, R, T.term(I.ops[0])) for I, b, k in g if I.op == 'store')
    configs = [(f, t, v) for f in (0, 1) for t in (0, 1) for v in ('none', 'bad', 'ok')] if maps else [(1, 1, 'none'), (1, 1, 'ok')]
    for f, t, v in configs:
        def leaf(s, x):
            if x[0] == 'call':
                r = to_local(F, R, x)
                if r:
                    fl = rfield(V, r[1])
                    if fl == 'from_way':
                        return 3 if f else INV
                    if fl == 'to_way':
                        return 4 if t else INV
                    if fl == 'via_node':
                        return 5 if v == 'ok' else INV
            if x[0] == 'ld' and rfield(V, x) == 'via_node':
                if maps:
                    return (1 << 64) - 1 if v == 'none' else 17
                return INV if v == 'none' else 17
            if x[0] == 'call' and 'operator bool' in x[1] and 'function' in x[1]:
                return 0
            return None

        def on(s, I):
            if I.i in ids:
                if I.op == 'store':
                    s.x.setdefault('copy', []).append((T.addr_of(I.ops[1])[2], strip(s.val(I.ops[0])), I))
                else:
                    src = s.addr(I.ops[1])
                    for q in RF:
                        s.x.setdefault('copy', []).append((q, ('ld', ('f', src[1] if src[0] == 'f' else src, q)), I))
        W = Walk(F, leaf, on, limit=3000)
        try:
            tr = W.run(h, {h}, region=body)
        except TooMany:
            ctx.notes.append('selection of turn restrictions: too many paths')
            return
        what = 'from way %s, to way %s, via node %s' % ('known' if f else 'unknown', 'known' if t else 'unknown', {'none': 'not given', 'bad': 'unknown', 'ok': 'known'}[v])
        for s, e in tr:
            if e[0] != 'stop':
                continue
            cp = s.x.get('copy', [])
            wh = cp[0][2].where() if cp else OUT.where()
            latch = e[1]
            ov = next((s.val(o) for o, p in zip(OUT.ops, OUT.d['in']) if p == latch), None)
            ctx.check((ov != ('phi', OUT.i)) == bool(cp), 'restrictions-kept-completely', wh, 'the position for the next restriction is %s although the current one is %s' % ('advanced' if ov != ('phi', OUT.i) else 'not advanced', 'kept' if cp else 'dropped'))
            if maps:
                keep = bool(f and t and v != 'bad')
                ctx.check(bool(cp) == keep, 'restrictions-selected', wh, 'a restriction is %s (%s)' % ('kept' if cp else 'dropped', what))
            elif v == 'ok':
                ctx.check(bool(cp), 'restrictions-selected', wh, 'a restriction with a via node is dropped')
            if not cp:
                continue
            miss = [q for q in RF if q not in {c[0] for c in cp}]
            ctx.check(not miss, 'restrictions-kept-completely', wh, 'members of a restriction are not copied when the list is compacted: ' + ', '.join(miss))
            for q, val, I in cp:
                r = to_local(F, R, val)
                fl = rfield(V, r[1] if r else val)
                if fl is not None:
                    ctx.check(fl == q, 'restrictions-kept-completely', I.where(), '%s of a restriction is set from its %s' % (q, fl))
                if maps and q in ('from_way', 'to_way'):
                    ctx.check(r is not None or fl is None, 'restrictions-kept-completely', I.where(), '%s is not replaced by the local id' % q)
                if r is not None:
                    ctx.check(r[0] == ('routing' if q == 'via_node' else 'way'), 'restrictions-kept-completely', I.where(), '%s is looked up among the %s ids' % (q, r[0]))
                if maps and q == 'via_node':
                    ev = s.eval(val)
                    if ev is not None:
                        ctx.check((ev == INV) == (v == 'none'), 'restrictions-kept-completely', I.where(), 'the via node of a restriction is %s (%s)' % ('unset' if ev == INV else 'set', what))
    er = [I for I in F.calls(r'^std::vector<RoutingKit::OSMTurnRestriction.*::(erase|resize)') if I.blk not in body and F.dominates(h, I.blk)]
    if er:
        a = T.addr_of(er[0].ops[1])
        ok_ = root(a) == out or out in list(subterms(a)) or out in list(subterms(T.term(er[0].ops[1])))
        ctx.check(any(out in list(subterms(T.addr_of(I.ops[1]))) or out in list(subterms(T.term(I.ops[1]))) for I in er), 'restrictions-kept-completely', er[0].where(), 'the restrictions that were dropped are not removed from the list')
    else:
        ctx.bad('restrictions-kept-completely', OUT.where(), 'the restrictions that were dropped are not removed from the list')


# ---- the via node of a restriction that does not name one
def phis_at(F, h):
    return [I for I in F.blocks[h] if I.op == 'phi']


def via_search(ctx, R):
    F, T, V = R.F, R.T, R.V
    if R.tail is None:
        return
    for h, body in F.loops().items():
        c = []
        for I in phis_at(F, h):
            if I.ty not in ('i32', 'i64'):
                continue
            ini = [T.term(o) for o, p in zip(I.ops, I.d['in']) if p not in body]
            if ini and all(t == ('c', INV) for t in ini) and any(isinstance(x, tuple) and x[:1] == ('ld',) and x[1][0] == 'at' and x[1][1] == R.tail for x in leaves(F, T, ('phi', I.i))):
                c.append(I)
        if len(c) != 2:
            continue
        outer = [(len(b), hh) for hh, b in F.loops().items() if h in b and hh != h]
        if not outer:
            continue
        H = min(outer)[1]
        B = F.loops()[H]
        stores = [I for I in F.insts() if I.op == 'store' and I.blk in B and T.addr_of(I.ops[1])[0] == 'f' and T.addr_of(I.ops[1])[2] == 'via_node']
        via = [I for I in c if any(strip(T.term(J.ops[0])) == ('phi', I.i) for J in stores)]
        if len(via) != 1:
            continue
        via = via[0]
        sec = [I for I in c if I is not via][0]
        keepers = [J for J in stores if strip(T.term(J.ops[0])) == ('phi', via.i)]
        ex = [x for b in body for x in F.succ[b] if x not in body]
        for a in (INV, 21):
            for b in (INV, 22):
                def leaf(s, x):
                    if x == ('phi', via.i):
                        return a
                    if x == ('phi', sec.i):
                        return b
                W = Walk(F, leaf, lambda s, I: s.ev.append(I) if I in keepers else None)
                for x in set(ex):
                    for s, e in W.run(x, {H}, came=h):
                        if e[0] == 'stop':
                            ctx.check(bool(s.ev) == (a != INV and b == INV), 'via-node-derived', keepers[0].where(), 'a restriction without via node is %s although %s' % ('kept' if s.ev else 'dropped', 'no via node was found' if a == INV else 'there are several candidates for it' if b != INV else 'there is exactly one candidate for it'))
        for a in (INV, 21):
            for hit in (0, 1):
                def leaf(s, x):
                    if x == ('phi', via.i):
                        return a
                    if x[0] == 'call' and '_Bit_reference::operator bool' in x[1]:
                        return hit
                    if x[0] == 'call' and x[1].endswith('BitVector::is_set'):
                        return hit
                W = Walk(F, leaf)
                for s, e in W.run(h, {h}, region=body):
                    if e[0] != 'stop':
                        continue
                    nv = {I.i: next(s.val(o) for o, p in zip(I.ops, I.d['in']) if p == e[1]) for I in (via, sec)}
                    isn = lambda t: isinstance(t, tuple) and t[:1] == ('ld',) and t[1][0] == 'at' and t[1][1] == R.tail
                    if hit == 0:
                        okk = nv[via.i] == ('phi', via.i) and nv[sec.i] == ('phi', sec.i)
                    elif a == INV:
                        okk = isn(nv[via.i])
                    else:
                        okk = isn(nv[sec.i]) or nv[via.i] == ('c', INV) or (s.eval(nv[sec.i]) not in (None, INV))
                    ctx.check(okk, 'via-node-derived', via.where(), 'the candidates for a via node are not collected correctly (%s, %s)' % ('node is on both ways' if hit else 'node is not on both ways', 'first candidate' if a == INV else 'second candidate'))


def leaves(F, T, t, seen=None):
    """values a term can take through phis and selects"""
    seen = seen if seen is not None else set()
    t = strip(t)
    if not isinstance(t, tuple) or not t:
        return set()
    if t[0] == 'phi' and len(t) == 2:
        if t[1] in seen:
            return set()
        seen.add(t[1])
        I = F.by_id[t[1]]
        out = set()
        for o in (I.ops if I.op == 'phi' else I.ops[1:]):
            out |= leaves(F, T, T.term(o), seen)
        return out
    if t[0] == 'sel':
        return leaves(F, T, t[2], seen) | leaves(F, T, t[3], seen)
    return {t}


# ---- marks that are made and taken back
def marks(ctx, R):
    """helper arrays that are filled for one restriction are restored before the next one"""
    F, T, V = R.F, R.T, R.V
    acc = {}       # array -> [(Inst, index term, value)]
    for I in F.insts():
        if I.op == 'store':
            a = T.addr_of(I.ops[1])
            if a[0] == 'at' and a[1][0] == 'alloca' and a[1] != V:
                acc.setdefault(a[1], []).append((I, strip(a[2]), strip(T.term(I.ops[0]))))
        elif I.is_call and re.search(r'_Bit_reference::operator=\(bool\)', I.dem or ''):
            r = T.addr_of(I.ops[0])
            r = root(r)
            src = [J for J in F.insts() if J.op == 'store' and root(T.addr_of(J.ops[1])) == r]
            for J in src[:1]:
                t = T.term(J.ops[0])
                if t[0] == 'ev' and t[1][0] == 'call':
                    C = F.by_id[t[1][2]]
                    acc.setdefault(T.addr_of(C.ops[0]), []).append((I, strip(T.term(C.ops[-1])), strip(T.term(I.ops[1]))))
    fill = {}
    for I in F.calls(r'^std::vector<(unsigned int|bool).*::vector\(unsigned long, '):
        if len(I.ops) >= 4:
            o = I.ops[2]
            a = T.addr_of(o)
            if a[0] == 'glob':
                fill[T.addr_of(I.ops[0])] = INV if 'invalid_id' in a[1] else None
            elif a[0] == 'alloca':
                v = [strip(T.term(J.ops[0])) for J in F.insts() if J.op == 'store' and T.addr_of(J.ops[1]) == a]
                if len(v) == 1 and v[0][0] == 'c':
                    fill[T.addr_of(I.ops[0])] = v[0][1]
    for A, ws in acc.items():
        if fill.get(A) is None:
            continue
        f = fill[A]
        sets = [w for w in ws if w[2] != ('c', f)]
        undo = [w for w in ws if w[2] == ('c', f)]
        for I, ix, v in sets:
            L = [(len(b), h) for h, b in F.loops().items() if I.blk in b]
            if len(L) < 2:
                continue
            L.sort()
            inner, outer = L[0][1], L[1][1]
            shape = T.mu(ix)
            cand = []
            for J, jx, _ in undo:
                K = sorted((len(b), h) for h, b in F.loops().items() if J.blk in b)
                if len(K) >= 2 and K[1][1] == outer and F.dominates(K[0][1], J.blk):
                    cand.append((J, jx, K[0][1]))
            if not ctx.check(bool(cand), 'marks-taken-back', I.where(), 'entries of %s that are made for one restriction are never reset' % show(A, T)):
                continue
            same = [c for c in cand if T.mu(c[1]) == shape]
            if not ctx.check(bool(same) or any(c[1][0] == 'phi' for c in cand), 'marks-taken-back', cand[0][0].where(), 'other entries of %s are reset than were made' % show(A, T)):
                continue
            same = same or cand
            hs = {c[2] for c in same}
            ex = [(b, x) for b in F.loops()[inner] for x in F.succ[b] if x not in F.loops()[inner]]
            bad = None
            for b, x in ex:
                seen, st = {x}, [x]
                while st:
                    y = st.pop()
                    if y in hs:
                        continue
                    if y == outer:
                        bad = y
                        break
                    for z in F.succ[y]:
                        if z not in seen:
                            seen.add(z)
                            st.append(z)
            ctx.check(bad is None, 'marks-taken-back', I.where(), 'entries of %s are not reset on every path before the next restriction' % show(A, T))
            # the same range of arcs
            for J, jx, hh in same:
                r1, r2 = loop_range(F, T, inner), loop_range(F, T, hh)
                if r1 and r2:
                    ctx.check(T.mu(r1) == T.mu(r2), 'marks-taken-back', J.where(), 'entries of %s are reset for other arcs (%s) than they are made for (%s)' % (show(A, T), show(r2, T), show(r1, T)))
            # an undone element is reset unconditionally
            for J, jx, hh in same:
                dom = [g for g in F.guards(J.blk) if g[2] in F.loops()[hh] and g[2] != hh]
                domS = [g for g in F.guards(I.blk) if g[2] in F.loops()[inner] and g[2] != inner]
                ctx.check(not dom or bool(domS), 'marks-taken-back', J.where(), 'entries of %s are reset under a condition only' % show(A, T))


def loop_range(F, T, h):
    """('range', V, x) of a loop whose counter runs from V[x] to V[x + 1]"""
    body = F.loops()[h]
    for I in phis_at(F, h):
        if I.ty not in ('i32', 'i64'):
            continue
        r = phi_range(F, T, I)
        if r:
            return r
    return None


def phi_range(F, T, I):
    h = I.blk
    body = F.loops().get(h)
    if not body:
        return None
    ini = [strip(T.term(o)) for o, p in zip(I.ops, I.d['in']) if p not in body]
    upd = [strip(T.term(o)) for o, p in zip(I.ops, I.d['in']) if p in body]
    if len(ini) != 1 or ini[0][0] != 'ld' or not all(u == ('add', ('phi', I.i), ('c', 1)) or (u[0] == 'add' and u[2] == ('c', 1)) for u in upd):
        return None
    a = norm_at(ini[0][1])
    if a is None:
        return None
    lim = None
    for b in body:
        t = F.blocks[b][-1]
        if t.op == 'br' and t.ops and any(x not in body for x in F.succ[b]):
            c = T.term(t.ops[0])
            if c[0] == 'cmp' and ('phi', I.i) in (strip(c[2]), strip(c[3])):
                o = strip(c[3]) if strip(c[2]) == ('phi', I.i) else strip(c[2])
                lim = norm_at(o[1]) if o[0] == 'ld' else None
                lim = lim or ('?', o)
    if lim is None:
        return None
    if lim == (a[0], plus1(a[1])):
        return ('range', a[0], a[1])
    return ('odd range', a[0], a[1], lim)


# ---- forbidden turns
def elements_of(F, T, t):
    """vectors whose elements t can be (undefined and other constants are ignored)"""
    out = set()
    for x in leaves(F, T, t):
        if x[0] in ('undef', 'c'):
            continue
        if x[0] == 'ld' and x[1][0] == 'at':
            out.add(x[1][1])
        else:
            out.add(None)
    return out


def category_set(F, T, V, blk, V2=None):
    ok = {0, 1}
    for f, pol in facts(F, blk):
        if isinstance(f, tuple):
            if f[0] == 'switch' and rfield(V, T.term(f[1])) == 'category':
                _, vals, dflt, cases = pol
                s = {int(v) for v in vals}
                if dflt:
                    s |= ok - {int(c) for c in cases}
                ok &= s
            continue
        t = T.term_inst(f)
        if t[0] == 'cmp' and t[1] in ('eq', 'ne') and rfield(V, t[2]) == 'category' and t[3][0] == 'c':
            s = {t[3][1]} if (t[1] == 'eq') == pol else {0, 1} - {t[3][1]}
            ok &= s
    return ok


def eq_facts(F, T, blk):
    out = []
    for f, pol in facts(F, blk):
        if isinstance(f, tuple):
            continue
        t = T.term_inst(f)
        if t[0] == 'cmp' and t[1] in ('eq', 'ne'):
            out.append((strip(t[2]), strip(t[3]), (t[1] == 'eq') == pol))
    return out


def in_arcs(R, F, T, A, f):
    """A lists the arcs by head and f is the index of that list"""
    q, g = R.prod.get(A, []), R.prod.get(f, [])
    if len(q) != 1 or len(g) != 1:
        return None
    q, g = q[0], g[0]
    if fname(q) != 'compute_sort_permutation_using_key' or fname(g) != 'invert_vector':
        return None
    key = gfield(T.addr_of(q.ops[1]))
    ap = R.prod.get(T.addr_of(g.ops[1]), [])
    k2 = None
    if len(ap) == 1 and fname(ap[0]) == 'apply_permutation' and T.addr_of(ap[0].ops[1]) == A:
        k2 = gfield(T.addr_of(ap[0].ops[2]))
    return key, k2


def turns(ctx, R):
    F, T, V = R.F, R.T, R.V
    tgt = {}
    for I in F.calls(r'^std::vector<unsigned int, .*::(operator=|swap)\('):
        f = gfield(T.addr_of(I.ops[0]))
        if f in ('forbidden_turn_from_arc', 'forbidden_turn_to_arc'):
            tgt[f] = (T.addr_of(I.ops[1]), I)
    if len(tgt) != 2:
        ctx.notes.append('forbidden turns: the lists were not recognised')
        return
    ff, ft = tgt['forbidden_turn_from_arc'][0], tgt['forbidden_turn_to_arc'][0]
    pf = [I for I in F.calls(r'^std::vector<unsigned int, .*push_back') if T.addr_of(I.ops[0]) == ff]
    pt = [I for I in F.calls(r'^std::vector<unsigned int, .*push_back') if T.addr_of(I.ops[0]) == ft]
    if not pf and not pt:
        # roles by content are not available: the lists may be filled elsewhere
        ctx.notes.append('forbidden turns: no elements are appended in the builder itself')
        return
    pairs = []
    for b in sorted({I.blk for I in pf + pt}):
        x = [I for I in pf if I.blk == b]
        y = [I for I in pt if I.blk == b]
        if ctx.check(len(x) == len(y), 'turns-have-both-arcs', (x or y)[0].where(), 'a forbidden turn is added to only one of the two lists of arcs'):
            pairs += list(zip(x, y))
    kinds_seen = set()
    for x, y in pairs:
        a, b = pushed(F, T, x), pushed(F, T, y)
        if a is None or b is None:
            ctx.notes.append('forbidden turns: value not resolved')
            continue
        ea, eb = elements_of(F, T, a), elements_of(F, T, b)
        w = x.where()
        # the second arc leaves the node the first one enters
        rb = phi_range(F, T, F.by_id[b[1]]) if b[0] == 'phi' and F.by_id[b[1]].op == 'phi' else None
        ra = phi_range(F, T, F.by_id[a[1]]) if a[0] == 'phi' and F.by_id[a[1]].op == 'phi' else None
        if ra:
            ctx.bad('turns-of-the-restriction', w, 'the first arc of a forbidden turn runs over the outgoing arcs of a node')
            continue
        def via(r):
            return r is not None and r[0] == 'range' and gfield(r[1]) == 'first_out' and rfield(V, r[2]) == 'via_node'
        cat = category_set(F, T, V, x.blk)
        if rb is not None and gfield(rb[1]) == 'first_out':
            ctx.check(rb[0] == 'range', 'turns-of-the-restriction', w, 'not all arcs that leave a node are looked at: %s' % show(rb, T))
            # all but one
            exc = [(p, q) for p, q, pol in eq_facts(F, T, x.blk) if not pol and b in (p, q) and 'c' not in (p[0], q[0])]
            eqs = [(p, q) for p, q, pol in eq_facts(F, T, x.blk) if pol and b in (p, q)]
            ctx.check(bool(exc) and not eqs, 'turns-of-the-restriction', w, 'a mandatory turn does not forbid exactly the other turns at its node')
            ctx.check(0 in cat and 1 not in cat or rfield(V, rb[2]) != 'via_node' and cat == {0}, 'turns-of-the-restriction', w, 'all turns but one are forbidden for a restriction that is not mandatory')
            kinds_seen.add('mandatory')
            for p, q in exc[:1]:
                other = q if p == b else p
                eo = elements_of(F, T, other)
                R.to_sources = eo
                if rfield(V, rb[2]) == 'via_node':
                    cands(ctx, R, ea, eo, w)
                else:
                    straight(ctx, R, a, other, rb, w)
        elif rb is None:
            ctx.check(cat == {1}, 'turns-of-the-restriction', w, 'a single turn is forbidden for a restriction that is not prohibitive')
            kinds_seen.add('prohibitive')
            cands(ctx, R, ea, eb, w)
    ctx.check(kinds_seen == {'mandatory', 'prohibitive'} or not pairs, 'turns-of-the-restriction', (pf + pt)[0].where(), 'no turns are forbidden for restrictions that are %s' % ' or '.join({'mandatory', 'prohibitive'} - kinds_seen))
    sort_turns(ctx, R, ff, ft, tgt)


def straight(ctx, R, a, other, rb, w):
    """mandatory restriction from a way to itself: in-arc and out-arc belong to the way"""
    F, T, V = R.F, R.T, R.V
    # a = arc remembered for node v, v = tail of other, range over the out-arcs of v
    v = rb[2]
    ok = True
    if a[0] == 'ld' and a[1][0] == 'at':
        ctx.check(strip(a[1][2]) == v, 'turns-of-the-restriction', w, 'the arc that enters %s is combined with the arcs that leave %s' % (show(a[1][2], T), show(v, T)))
    if v[0] == 'ld' and v[1][0] == 'at':
        ctx.check(v[1][1] == R.tail and strip(v[1][2]) == other, 'turns-of-the-restriction', w, 'the arc %s does not leave the node %s' % (show(other, T), show(v, T)))


def cands(ctx, R, ea, eb, w):
    F, T, V = R.F, R.T, R.V
    for e, side in ((ea, 'from'), (eb, 'to')):
        if None in e or len(e) != 1:
            ctx.notes.append('forbidden turns: candidates of the %s arc not resolved' % side)
            continue
        A = next(iter(e))
        ps = [I for I in F.calls(r'^std::vector<unsigned int, .*push_back') if T.addr_of(I.ops[0]) == A]
        if not ps:
            ctx.notes.append('forbidden turns: list of %s candidates not recognised' % side)
        for I in ps:
            v = pushed(F, T, I)
            if v is not None and v[0] == 'ld' and v[1][0] == 'alloca':
                v = local_value(F, T, v[1], I) or v
            if v is None:
                continue
            wf = None
            for p, q, pol in eq_facts(F, T, I.blk):
                for x, y in ((p, q), (q, p)):
                    if rfield(V, y) in ('from_way', 'to_way', 'via_node') and x[0] == 'ld' and x[1][0] == 'at' and gfield(x[1][1]) == 'way':
                        wf = (strip(x[1][2]), rfield(V, y), pol)
            if not ctx.check(wf is not None, 'turns-of-the-restriction', I.where(), 'arcs of any way are accepted as %s arc of a restriction' % side):
                continue
            ctx.check(wf[1] == side + '_way' and wf[2], 'turns-of-the-restriction', I.where(), 'the %s arc of a restriction is searched on its %s' % (side, wf[1]))
            vv = {v} | ({strip(T.term(J.ops[0])) for J in F.insts() if J.op == 'store' and v[0] == 'ld' and T.addr_of(J.ops[1]) == v[1]})
            ctx.check(wf[0] in vv or wf[0][0] not in ('ld', 'phi'), 'turns-of-the-restriction', I.where(), 'the way of %s is compared, but %s is accepted' % (show(wf[0], T), show(v, T)))
            x = wf[0]
            if side == 'from':
                if x[0] == 'ld' and x[1][0] == 'at' and strip(x[1][2])[0] == 'phi':
                    r = phi_range(F, T, F.by_id[strip(x[1][2])[1]])
                    if r:
                        k = in_arcs(R, F, T, x[1][1], r[1])
                        if k:
                            ctx.check(k == ('head', 'head') or None in k, 'turns-of-the-restriction', I.where(), 'the from arcs of a restriction are not taken from the arcs that enter its via node (sorted by %s, indexed by %s)' % k)
                        ctx.check(r[0] == 'range' and rfield(V, r[2]) == 'via_node', 'turns-of-the-restriction', I.where(), 'not exactly the arcs that enter the via node are looked at: %s' % show(r, T))
                elif x[0] == 'phi':
                    r = phi_range(F, T, F.by_id[x[1]])
                    if r:
                        ctx.check(gfield(r[1]) != 'first_out', 'turns-of-the-restriction', I.where(), 'the from arcs of a restriction are searched among the arcs that leave a node')
            else:
                if x[0] == 'phi':
                    r = phi_range(F, T, F.by_id[x[1]])
                    if r:
                        ctx.check(gfield(r[1]) == 'first_out', 'turns-of-the-restriction', I.where(), 'the to arcs of a restriction are not searched among the arcs that leave its via node')
                        ctx.check(r[0] == 'range' and rfield(V, r[2]) == 'via_node', 'turns-of-the-restriction', I.where(), 'not exactly the arcs that leave the via node are looked at: %s' % show(r, T))
                elif x[0] == 'ld' and x[1][0] == 'at' and R.prod.get(x[1][1]):
                    k = fname(R.prod[x[1][1]][0])
                    ctx.check(k != 'compute_sort_permutation_using_key' or gfield(T.addr_of(R.prod[x[1][1]][0].ops[1])) != 'head', 'turns-of-the-restriction', I.where(), 'the to arcs of a restriction are searched among the arcs that enter a node')


def local_value(F, T, a, I):
    al = [J for J in F.insts() if J.op == 'store' and T.addr_of(J.ops[1]) == a]
    dom = [J for J in al if F.inst_dominates(J, I)]
    if len(al) != 1:
        return None
    return strip(T.term(dom[-1].ops[0])) if dom else None


def sort_turns(ctx, R, ff, ft, tgt):
    F, T = R.F, R.T
    S = [I for I in F.calls(SORT) if {T.addr_of(I.ops[2]), T.addr_of(I.ops[3])} <= {ff, ft}]
    if len(S) == 1:
        S = S[0]
        p, inv = T.addr_of(S.ops[0]), 'inverse' in fname(S)
        ctx.check((T.addr_of(S.ops[2]), T.addr_of(S.ops[3])) == (ff, ft), 'turns-sorted-together', S.where(), 'forbidden turns are not sorted by their first arc')
        other = ft if T.addr_of(S.ops[2]) == ff else ff
        n = T.term(S.ops[1])
        if n[0] == 'size':
            ctx.check(gfield(n[1]) in ARC, 'turns-sorted-together', S.where(), 'forbidden turns are sorted by %s arcs' % show(n, T))
        good = []
        for I in F.calls(r'^std::vector<unsigned int, .*::operator=\('):
            if T.addr_of(I.ops[0]) != other:
                continue
            ps = R.prod.get(T.addr_of(I.ops[1]), [])
            if len(ps) == 1:
                A = ps[0]
                if T.addr_of(A.ops[1]) == p:
                    ctx.check(fname(A) == ('apply_inverse_permutation' if inv else 'apply_permutation') and T.addr_of(A.ops[2]) == other, 'turns-sorted-together', I.where(), 'the second arcs of the forbidden turns are not reordered like the first ones')
                    good.append(I)
                else:
                    good.append(I)
        ctx.check(bool(good), 'turns-sorted-together', S.where(), 'the second arcs of the forbidden turns are not reordered with the first ones')
    rem = [I for I in F.calls(r'RoutingKit::inplace_(remove|keep)_element\w*_of_vector_if|RoutingKit::inplace_(remove|keep)_element\w*from_vector_if') if T.addr_of(I.ops[1]) in (ff, ft)]
    by = {}
    for I in rem:
        by.setdefault(T.addr_of(I.ops[1]), []).append((T.addr_of(I.ops[0]), fname(I), I))
    if by:
        w = rem[0].where()
        ctx.check(set(by) == {ff, ft} and [x[:2] for x in by[ff]] == [x[:2] for x in by[ft]], 'turns-sorted-together', w, 'duplicates are not removed alike from both lists of arcs of the forbidden turns')
    for f, (a, I) in tgt.items():
        for J in rem:
            ctx.check(not F.reach_avoiding(I.blk, I.pos, lambda K: K is J, lambda K: False), 'turns-sorted-together', J.where(), 'duplicates are removed after the forbidden turns were stored')
    # which turns are duplicates
    for G in R.M.functions.values():
        if 'load_osm_routing_graph_from_pbf' in G.dem and re.search(r'operator\(\)\(unsigned (int|long)\) const', G.dem) and not list(G.calls()):
            TG = T_of(G)
            rd = set()
            for I in G.insts():
                if I.op == 'load' and I.ty == 'i32':
                    a = TG.term_inst(I)
                    if a[0] == 'ld' and a[1][0] == 'at':
                        rd.add((name(a[1][1]), strip(a[1][2])))
            if not rd:
                continue
            ns = {n for n, _ in rd}
            if ns & {name(ff), name(ft)}:
                x = ('arg', 1)
                prev = {x, ('add', x, ('c', -1)), ('add', x, ('c', INV))}
                per = {n: {i for m, i in rd if m == n} for n in ns}
                w = G.blocks[0][0].where()
                ctx.check({name(ff), name(ft)} <= ns, 'turns-sorted-together', w, 'turns count as duplicates although only one of their arcs is compared')
                ctx.check(all(len(v) == 2 and v <= prev for v in per.values()), 'turns-sorted-together', w, 'turns that are not adjacent are compared')
                for e in (0, 1):
                    for g in (0, 1):
                        for first in (0, 1):
                            def leaf(s, t):
                                if t == x:
                                    return 0 if first else 9
                                if t[0] == 'ld' and t[1][0] == 'at':
                                    n = name(t[1][1])
                                    eq = e if n == name(ff) else g
                                    return 100 if eq or strip(t[1][2]) == x else 101
                            W = Walk(G, leaf)
                            for s, en in W.run(0, set()):
                                if en[0] == 'ret':
                                    r = G.blocks[en[1]][-1]
                                    v = s.eval(TG.term(r.ops[0]), 0) if r.ops else None
                                    v = s._ev(s.val(r.ops[0]), 1) if r.ops else None
                                    if v is not None:
                                        ctx.check(bool(v) == bool(e and g and not first), 'turns-sorted-together', w, 'a turn is %streated as a duplicate of the turn before it (%s)' % ('' if v else 'not ', 'first turn' if first else 'first arcs %s, second arcs %s' % ('equal' if e else 'different', 'equal' if g else 'different')))


# ---- ambiguous restrictions are resolved by the turn direction
INTERVAL = {0: lambda a: 45 < a < 135, 1: lambda a: 225 < a < 315, 2: lambda a: a < 60 or a > 300, 3: lambda a: 120 < a < 240}
TURN = {0: 'left', 1: 'right', 2: 'straight on', 3: 'u-turn'}


def directions(ctx, R):
    import math
    F, T, V = R.F, R.T, R.V
    blks = []
    for b in sorted(F.reachable()):
        t = F.blocks[b][-1]
        if t.op in ('br', 'switch') and t.ops:
            c = T.term(t.ops[0])
            if any(rfield(V, x) == 'direction' for x in subterms(c) if isinstance(x, tuple) and x[:1] == ('ld',)):
                blks.append(b)
    if not blks:
        ctx.notes.append('the use of turn directions was not recognised')
        return
    start = [b for b in blks if all(F.dominates(b, c) for c in blks)]
    if len(start) != 1:
        return
    start = start[0]
    hs = sorted((len(bd), h) for h, bd in F.loops().items() if start in bd)
    if len(hs) < 2:
        return
    h = hs[0][1]
    cnt = [I for I in phis_at(F, h) if I.ty in ('i32', 'i64') and any(x[0] == 'add' and x[2] == ('c', 1) for x in leaves(F, T, ('phi', I.i)))]
    if len(cnt) != 1:
        return
    cnt = cnt[0]
    others = [I for I in phis_at(F, h) if I.ty in ('i32', 'i64') and I is not cnt]
    w = F.blocks[start][-1].where()
    for d in INTERVAL:
        for deg in (5, 30, 50, 57, 63, 90, 115, 125, 130, 140, 180, 220, 230, 237, 243, 270, 297, 303, 312, 320, 350):
            rad = deg * math.pi / 180

            def leaf(s, x):
                if x[0] == 'phi' and len(x) == 2 and F.by_id[x[1]].ty in ('float', 'double'):
                    return rad
                if x[0] == 'call' and F.by_id[x[2]].ty in ('float', 'double'):
                    return rad
                if rfield(V, x) == 'direction':
                    return d
            W = Walk(F, leaf)
            for s, e in W.run(start, {h}):
                if e[0] != 'stop':
                    continue
                nv = lambda I: next((strip(s.val(o)) for o, p in zip(I.ops, I.d['in']) if p == e[1]), None)
                c = nv(cnt)
                hit = c is not None and c[0] == 'add'
                ctx.check(hit == INTERVAL[d](deg), 'turn-direction', w, 'a turn by %d degrees (counterclockwise) is %sa %s turn' % (deg, '' if hit else 'not ', TURN[d]))
                for I in others:
                    v = nv(I)
                    ctx.check((v != ('phi', I.i)) == hit, 'turn-direction', w, 'the arcs of a turn are %s although the turn %s' % ('remembered' if v != ('phi', I.i) else 'not remembered', 'matches' if hit else 'does not match'))
    # exactly one match
    H = hs[1][1]
    C2 = [I for I in phis_at(F, H) if I.ty in ('i32', 'i64') and ('phi', cnt.i) in {x for o in I.ops for x in [strip(T.term(o))]}]
    push = [I for I in F.calls(r'^std::vector<unsigned int, .*push_back') if I.blk not in F.loops()[H] and root(T.addr_of(I.ops[0])) in R.fvecs]
    if len(C2) == 1 and len(hs) > 2 and push:
        top = hs[2][1]
        for k in (0, 1, 2, 3):
            def leaf(s, x):
                if x == ('phi', C2[0].i):
                    return k
            W = Walk(F, leaf, lambda s, I: s.ev.append(I) if I in push else None)
            ex = {x for b in F.loops()[H] for x in F.succ[b] if x not in F.loops()[H]}
            tr = [s for x in ex for s, e in W.run(x, {top}, came=H) if e[0] == 'stop']
            got = any(s.ev for s in tr)
            ctx.check(got == (k == 1), 'turn-direction', push[0].where(), 'with %d matching turns a turn is %sforbidden' % (k, '' if got else 'not '))
    angles(ctx, R)


def angles(ctx, R):
    F, T, V = R.F, R.T, R.V
    at = [I for I in F.calls(r'(^|[^\w])atan2f?\(|^std::atan2|^atan2') if len(I.ops) == 2]
    info = {}
    for I in at:
        d = []
        for o in I.ops:
            t = T.term(o)
            while t[0] in ('fpext', 'fptrunc'):
                t = t[1]
            if t[0] != 'fsub':
                d = None
                break
            d.append((point(R, t[1]), point(R, t[2])))
        if not d or any(None in p or len(p) == 0 for q in d for p in q):
            continue
        w = I.where()
        co = [{c for p in q for c, _, _ in p} for q in d]
        if not ctx.check(co == [{'lat'}, {'lon'}], 'turn-direction', w, 'the angle of a turn is not computed from latitude and longitude differences'):
            continue
        who = [[{k for _, k, _ in p} for p in q] for q in d]
        ctx.check(who[0] == who[1], 'turn-direction', w, 'the latitudes and longitudes of different points are used for an angle')
        first, second = who[0]
        FROM, TO = {'from-tail', 'from-last'}, {'to-head', 'to-first'}
        if first == {'via'} and second <= FROM and second:
            info[I.i] = ('from', 1)
        elif second == {'via'} and first <= TO and first:
            info[I.i] = ('to', 1)
        elif second == {'via'} and first <= FROM and first:
            info[I.i] = ('from', -1)
        elif first == {'via'} and second <= TO and second:
            info[I.i] = ('to', -1)
        else:
            ctx.bad('turn-direction', w, 'the angle is computed between %s and %s' % ('/'.join(sorted(first)), '/'.join(sorted(second))))
            continue
        ctx.ok('turn-direction', w)
        for q in d:
            for p in q:
                for c, k, blk in p:
                    if k in ('from-tail', 'to-head', 'from-last', 'to-first') and blk is not None:
                        e = [pol for x, y, pol in eq_facts(F, T, blk) if is_first(x) and is_first(y)]
                        if e:
                            ctx.check(e[0] == (k in ('from-tail', 'to-head')), 'turn-direction', w, 'the end of the arc is used %s its modelling nodes exist' % ('although' if not e[0] else 'if no'))
    if len(info) == 2 and {v[0] for v in info.values()} == {'from', 'to'}:
        sg = {v[0]: v[1] for v in info.values()}
        ctx.check(sg['from'] == sg['to'], 'turn-direction', at[0].where(), 'the directions of the two arcs of a turn are compared in opposite orientation')
        for I in F.insts():
            if I.op == 'fsub':
                t = T.term_inst(I)
                if all(x[0] == 'call' and x[2] in info for x in t[1:3]):
                    ctx.check(info[t[1][2]][0] == 'to' and info[t[2][2]][0] == 'from', 'turn-direction', I.where(), 'the angle of a turn has the wrong sign')


def is_first(t):
    t = strip(t)
    return t[0] == 'ld' and norm_at(t[1]) is not None and gfield(norm_at(t[1])[0]) == 'first_modelling_node'


def point(R, t):
    """{(lat|lon, which point, block of the choice)}"""
    F, T, V = R.F, R.T, R.V
    out = set()
    while t[0] in ('fpext', 'fptrunc'):
        t = t[1]
    def one(a, blk):
        n = norm_at(a)
        if n is None:
            return out.add(None)
        f = gfield(n[0])
        i = n[1]
        c = 'lat' if f in ('latitude', 'modelling_node_latitude') else 'lon' if f in ('longitude', 'modelling_node_longitude') else None
        if c is None:
            return out.add(None)
        if f in ('latitude', 'longitude'):
            if rfield(V, i) == 'via_node':
                return out.add((c, 'via', None))
            if i[0] == 'ld' and i[1][0] == 'at':
                s = side(R, i[1][2])
                if i[1][1] == R.tail and s:
                    return out.add((c, s + '-tail', blk))
                if gfield(i[1][1]) == 'head' and s:
                    return out.add((c, s + '-head', blk))
            return out.add(None)
        if i[0] == 'ld':
            m = norm_at(i[1])
            if m and gfield(m[0]) == 'first_modelling_node':
                s = side(R, m[1])
                return out.add((c, s + '-first', blk) if s else None)
        if i[0] == 'add' and i[2][0] == 'c' and i[1][0] == 'ld':
            m = norm_at(i[1][1])
            if m and gfield(m[0]) == 'first_modelling_node' and i[2][1] in (-1, INV) and m[1][0] == 'add' and m[1][2] == ('c', 1):
                s = side(R, m[1][1])
                return out.add((c, s + '-last', blk) if s else None)
            if m and gfield(m[0]) == 'first_modelling_node':
                s = side(R, m[1])
                return out.add((c, (s or '?') + '-other', blk) if s else None)
        return out.add(None)
    if t[0] == 'ld' and t[1][0] == 'phi':
        I = F.by_id[t[1][1]]
        if I.op == 'phi':
            for o, p in zip(I.ops, I.d['in']):
                one(T.addr_of(o), p)
        else:
            out.add(None)
    elif t[0] == 'phi':
        I = F.by_id[t[1]]
        if I.op == 'phi':
            for o, p in zip(I.ops, I.d['in']):
                x = T.term(o)
                while x[0] in ('fpext', 'fptrunc'):
                    x = x[1]
                one(x[1], p) if x[0] == 'ld' else out.add(None)
        else:
            out.add(None)
    elif t[0] == 'ld':
        one(t[1], None)
    else:
        out.add(None)
    return out


def side(R, t):
    t = strip(t)
    if t[0] == 'ld' and t[1][0] == 'at':
        return R.cand.get(t[1][1])
    return None


def turn_part(ctx, R):
    F, T, V = R.F, R.T, R.V
    R.fvecs = set()
    for I in F.calls(r'^std::vector<unsigned int, .*::(operator=|swap)\('):
        if gfield(T.addr_of(I.ops[0])) in ('forbidden_turn_from_arc', 'forbidden_turn_to_arc'):
            R.fvecs.add(T.addr_of(I.ops[1]))
    # lists of candidates: filled with arcs whose way is compared with from_way / to_way
    R.cand = {}
    for I in F.calls(r'^std::vector<unsigned int, .*push_back'):
        A = T.addr_of(I.ops[0])
        if A[0] != 'alloca':
            continue
        for p, q, pol in eq_facts(F, T, I.blk):
            for x, y in ((p, q), (q, p)):
                f = rfield(V, y)
                if f in ('from_way', 'to_way') and x[0] == 'ld' and x[1][0] == 'at' and gfield(x[1][1]) == 'way':
                    R.cand[A] = f[:-4]
    via_search(ctx, R)
    marks(ctx, R)
    turns(ctx, R)
    directions(ctx, R)


# ------------------------------------------------------------------------------------------------- the simple loaders
VEHICLE = {'car': 'car', 'cars': 'car', 'pedestrian': 'pedestrian', 'pedestrians': 'pedestrian', 'bicycle': 'bicycle', 'bicycles': 'bicycle'}
GRAPH = ('first_out', 'head', 'way', 'geo_distance', 'latitude', 'longitude', 'is_arc_antiparallel_to_way', 'forbidden_turn_from_arc', 'forbidden_turn_to_arc', 'first_modelling_node', 'modelling_node_latitude', 'modelling_node_longitude')


def fieldname(a):
    return a[2] if a[0] == 'f' else None


def simple(ctx, M):
    for F in M.functions.values():
        m = re.match(r'RoutingKit::simple_load_osm_(\w+?)_routing_graph_from_pbf\(', F.dem)
        if not m:
            continue
        vehicle = VEHICLE.get(m.group(1))
        ctx.fn(F)
        T = T_of(F)
        for I in F.calls(r'RoutingKit::(is_osm|get_osm|decode_osm)_\w+\('):
            n = re.search(r'RoutingKit::(\w+)\(', I.dem).group(1)
            v = {VEHICLE[w] for w in n.split('_') if w in VEHICLE}
            if v:
                ctx.check(v == {vehicle}, 'profile-of-the-vehicle', I.where(), '%s is used for the graph for %ss' % (n, vehicle))
        if '::operator()(' in F.dem:
            simple_callback(ctx, F, T)
        else:
            simple_main(ctx, M, F, T)


def simple_callback(ctx, F, T):
    sig = F.dem.split('::operator()(')[-1]
    for I in F.calls(r'RoutingKit::(is_osm_way|get_osm)_\w+\(unsigned long, RoutingKit::TagMap const&'):
        tag = ('arg', 3) if 'unsigned int' in sig.split(',')[1] else ('arg', 2)
        a = (strip(T.term(I.ops[0])), T.term(I.ops[1]))
        ctx.check(a == (('arg', 1), tag), 'profile-of-the-vehicle', I.where(), 'the profile is asked about %s with the tags %s instead of the way at hand' % (show(a[0], T), show(a[1], T)))
    own = [I for I in F.calls(r'RoutingKit::(is_osm_way_used_by|get_osm_(car|bicycle|pedestrian)_direction_category)\w*\(')]
    if own:
        ids = {('call', re.sub(r'\(.*', '', I.dem), I.i) for I in own}
        for I in F.insts():
            if I.op == 'ret' and I.ops:
                ls = leaves(F, T, T.term(I.ops[0]))
                if all(x[0] in ('c', 'call') for x in ls):
                    ctx.check(any(x[0] == 'call' and x[2] in {i[2] for i in ids} for x in ls), 'profile-of-the-vehicle', I.where(), 'the answer of %s is not used' % short(own[0].dem))
    for I in F.insts():
        if I.op == 'store':
            a, v = T.addr_of(I.ops[1]), strip(T.term(I.ops[0]))
            if v[0] == 'call' and v[1].startswith('RoutingKit::get_osm_way_') and a[0] == 'at':
                ctx.check(strip(a[2]) == ('arg', 2), 'attributes-of-ways', I.where(), 'the attribute of a way is stored at %s instead of its local id' % show(a[2], T))


def simple_main(ctx, M, F, T):
    gen = [I for I in F.calls(r'^RoutingKit::load_osm_routing_graph_from_pbf\(')]
    idm = [I for I in F.calls(r'^RoutingKit::load_osm_id_mapping_from_pbf\(')]
    if len(gen) != 1 or len(idm) != 1:
        ctx.notes.append('%s: graph construction not recognised' % short(F.dem))
        return
    gen, idm = gen[0], idm[0]
    G, A = T.addr_of(gen.ops[0]), T.addr_of(idm.ops[0])
    G, A = root(G), root(A)
    ctx.check(T.term(gen.ops[1]) == T.term(idm.ops[1]) == ('arg', 1), 'both-passes-read-the-same-file', gen.where(), 'the two passes read different files')
    ctx.check(root(T.addr_of(gen.ops[2])) == A and before(F, idm, gen), 'both-passes-read-the-same-file', gen.where(), 'the graph is built with another id mapping')
    n = len(F.params)
    ctx.check(strip(T.term(idm.ops[5])) == ('arg', 3), 'options-passed-on', idm.where(), 'all_modelling_nodes_are_routing_nodes is not passed on (%s)' % show(T.term(idm.ops[5]), T))
    ctx.check(strip(T.term(gen.ops[6])) == ('arg', 4), 'options-passed-on', gen.where(), 'file_is_ordered_even_though_file_header_says_that_it_is_unordered is not passed on (%s)' % show(T.term(gen.ops[6]), T))
    # vectors handed over
    ret = lambda a: a == ('arg', 0) or a[0] == 'f' and a[1] == ('arg', 0)
    rname = lambda a: 'first_out' if a == ('arg', 0) else a[2]
    moved, got = {}, {}
    for I in F.calls(r'^std::vector<.*::(operator=|swap|vector)\('):
        if len(I.ops) < 2 or not isp(F, I.ops[1]):
            continue
        a, b = T.addr_of(I.ops[0]), T.addr_of(I.ops[1])
        if ret(b) and not ret(a) and 'swap(' in I.dem:
            a, b = b, a
        if ret(a) and (b == G or b[0] == 'f' and b[1] == G):
            bn = 'first_out' if b == G else b[2]
            got.setdefault(rname(a), []).append((bn, I))
            if re.search(r'&&\)', I.dem) or 'swap(' in I.dem:
                moved.setdefault(bn, []).append(I)
        elif ret(a) and ret(b):
            src = rname(b)
            fill = got.get(src)
            ctx.check(bool(fill) and any(before(F, J, I) for _, J in fill), 'fields-carried-over', I.where(), '%s is copied from %s before that is filled' % (rname(a), src))
            got.setdefault(rname(a), []).append((src, I))
    if not got:
        ctx.notes.append('%s: no vectors handed over' % short(F.dem))
        return
    want = set(got)
    for I in F.calls(r'^std::vector<.*::vector\(\)'):
        a = T.addr_of(I.ops[0])
        if ret(a):
            want.add(rname(a))
    for f in sorted(want):
        if f not in GRAPH:
            continue
        l = got.get(f, [])
        if not l:
            other = [I for I in F.insts() if I.op in ('call', 'store') and any(x == ('f', ('arg', 0), f) for o in I.ops if isp(F, o) for x in subterms(T.addr_of(o))) and not re.search(r'::~?vector\(\)', I.dem or '')]
            if other:
                ctx.notes.append('%s: %s is filled in another way' % (short(F.dem), f))
                continue
        ctx.check(bool(l), 'fields-carried-over', short(F.dem), '%s of the graph stays empty' % f)
        for b, I in l:
            ctx.check(b == f, 'fields-carried-over', I.where(), '%s of the graph is filled with %s' % (f, b))
    for f, l in moved.items():
        for I in l:
            def uses(K):
                if K is I or K.op not in ('load', 'call') or 'llvm.' in (K.dem or '') or '::~' in (K.dem or ''):
                    return False
                return any(isp(F, o) and T.addr_of(o) == ('f', G, f) or isp(F, o) and T.addr_of(o)[0] in ('f', 'off') and T.addr_of(o)[1] == ('f', G, f) for o in K.ops)
            bad = F.reach_avoiding(I.blk, I.pos, uses, lambda K: False)
            ctx.check(not bad, 'fields-carried-over', I.where(), '%s is used after it was moved away' % f)
    attributes(ctx, F, T, G, A, gen)


def attributes(ctx, F, T, G, A, gen):
    way = ('f', G, 'way')
    # arrays captured by the callback: indexed with local way ids
    cap = {}
    for I in F.insts():
        if I.op == 'store':
            v = T.term(I.ops[0])
            if v[0] == 'addr' and v[1][0] == 'alloca' and v[1] != A and v[1] != G and before(F, I, gen):
                cap[v[1]] = I
    for I in F.calls(r'^std::vector<[^()]*>::vector\(unsigned long'):
        a = T.addr_of(I.ops[0])
        if a in cap:
            c = [x for x in subterms(T.term(I.ops[1])) if isinstance(x, tuple) and x[:1] == ('call',) and x[1].endswith('BitVector::population_count')]
            if c:
                ctx.check(name(T.addr_of(F.by_id[c[0][2]].ops[0])) == 'is_routing_way', 'attributes-of-ways', I.where(), '%s has one element per %s' % (show(a, T), name(T.addr_of(F.by_id[c[0][2]].ops[0]))))
    for I in F.insts():
        if I.op != 'store':
            continue
        a = T.addr_of(I.ops[1])
        if not (a[0] == 'at' and a[1][0] == 'f' and a[1][1] == ('arg', 0)):
            continue
        v = strip(T.term(I.ops[0]))
        idx = strip(a[2])
        for x in subterms(v):
            if isinstance(x, tuple) and x[:1] == ('ld',) and x[1][0] == 'at':
                if x[1][1] in cap:
                    ctx.check(strip(x[1][2]) == ('ld', ('at', way, idx)), 'attributes-of-ways', I.where(), '%s of arc %s is derived from %s' % (a[1][2], show(idx, T), show(x, T)))
                elif x[1][1] != way:
                    ctx.check(strip(x[1][2]) == idx, 'attributes-of-ways', I.where(), '%s of arc %s is derived from %s' % (a[1][2], show(idx, T), show(x, T)))
        if idx[0] == 'phi' and F.by_id[idx[1]].blk in F.loops():
            P = F.by_id[idx[1]]
            ini = [T.term(o) for o, p in zip(P.ops, P.d['in']) if p not in F.loops()[P.blk]]
            ctx.check(ini == [('c', 0)] or not ini or ini[0][0] != 'c', 'attributes-of-ways', I.where(), 'the attributes of the first arcs are not set')
        if a[1][2] == 'travel_time':
            from ..evalx import Eval
            bad = None
            for d, sp in ((1, 3), (7, 50), (36, 120), (1000, 7), (999, 130), (238610, 30), (1000000, 100), (3000000, 60)):
                def leaf(t, J):
                    if t[0] == 'ld' and t[1][0] == 'at':
                        return sp if t[1][1] in cap else d if t[1][1] != way else None
                r = Eval(F, leaf).ref(I.ops[0])
                if r is None:
                    bad = None
                    break
                if abs(r - d * 3600 / sp) > 1:
                    bad = '%d m at %d km/h take %d instead of %d ms' % (d, sp, r, d * 3600 // sp)
                    break
            ctx.check(bad is None, 'travel-time', I.where(), bad or '')


def run(ctx):
    M = build.module(opaque=OPAQUE, drivers=('headers', 'links'))
    ctx.use(M)
    id_mapping(ctx, M)
    R = main_info(M, ctx)
    if R:
        R.M = M
        node_callback(ctx, R)
        for F in R.way:
            try:
                WayCallback(ctx, R, F).run()
            except TooMany:
                ctx.notes.append('way callback: too many paths')
        sorting(ctx, R)
        positions(ctx, R)
        R.V = None
        restrictions(ctx, R)
        if R.V is not None:
            turn_part(ctx, R)
    simple(ctx, M)
    if not (R and R.way):
        ctx.floor('arcs-described-completely', 1)
    return ctx.finish('Every callback and loop of the OSM import is interpreted abstractly for all configurations of direction category, geometry option and validity of ids; the provenance of every value pushed into or stored in an array of the graph is compared with the way, arc, node or restriction it has to describe; arrays that describe the same objects must be permuted, filtered and deduplicated together.',
                      ['The bodies of the profile functions, of the PBF decoder and of the permutation and sort utilities are not part of this check.', 'Numeric values (lengths, angles) are checked for the points they are computed from, not for their precision.'])
