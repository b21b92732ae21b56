"""O01: the OSM profiles classify ways by their tags as documented, for every combination of tags."""
import re
from .. import build
from ..common import *
from ..tags import Tags, State, Facts, TooMany

INF = 2147483647
OTHER = ('other',)          # a value none of the clauses mentions
ANY = ('any',)              # present, whatever the value

EXPL = ('Path sensitive data flow over the flow graph of every profile function: the state knows which tags are absent, which literal a tag equals or differs from; '
        'all other tags stay unconstrained and every undecided branch is followed both ways. Each clause of the decision tables is checked on all paths compatible with it; '
        'on the same paths the value of a tag that may be absent must not be dereferenced. The accumulation of digits, the unit factors and the buffer bound are checked on the terms of the code.')
ASSUME = ['TagMap::operator[] returns a null pointer exactly if the key is absent and otherwise a zero terminated string', 'paths that depend on a condition the analysis does not follow are not judged (listed in the notes)']

DIR = {'both': 'open_in_both', 'fw': 'only_open_forwards', 'bw': 'only_open_backwards', 'closed': 'closed'}
BACK, FORW, NO, CHANGING = ('-1', 'reverse', 'backward'), ('yes', 'true', '1'), ('no', 'false', '0'), ('reversible', 'alternating')
OPPOSITE = ('opposite', 'opposite_track', 'opposite_lane', 'opposite_share_busway')

CAR_OPEN = ('motorway trunk primary secondary tertiary unclassified residential service motorway_link trunk_link primary_link secondary_link '
            'tertiary_link motorway_junction living_street track ferry').split()
CAR_SHUT = 'construction path footway cycleway bridleway pedestrian bus_guideway raceway escape steps proposed conveying'.split()
CAR_ACCESS = 'yes permissive delivery designated destination'.split()
BIKE_OPEN = ('secondary tertiary unclassified residential service secondary_link tertiary_link living_street track bicycle_road primary primary_link '
             'path footway cycleway bridleway pedestrian crossing escape steps ferry').split()
BIKE_SHUT = 'motorway motorway_link motorway_junction trunk trunk_link construction bus_guideway raceway conveying proposed'.split()
SOFT_ACCESS = CAR_ACCESS + 'agricultural forestry public'.split()
FOOT_OPEN = ('secondary tertiary unclassified residential service secondary_link tertiary_link living_street track bicycle_road path footway cycleway '
             'bridleway pedestrian escape steps crossing escalator elevator platform ferry').split()
FOOT_SHUT = 'motorway motorway_link motorway_junction trunk trunk_link primary primary_link construction bus_guideway raceway proposed conveying'.split()
SPEED = {'motorway': 90, 'motorway_link': 45, 'trunk': 85, 'trunk_link': 40, 'primary': 65, 'primary_link': 30, 'secondary': 55, 'secondary_link': 25,
         'tertiary': 40, 'tertiary_link': 20, 'unclassified': 25, 'residential': 25, 'living_street': 10, 'service': 8, 'track': 8, 'ferry': 5}
PART = {INF: 'signals variable unknown ??:walks ??:urbane walker', 130: 'none unlimited at:motorway ro:motorway de:motorway', 5: 'walk foot walking_pace schritt ??:walk',
        40: 'urban ??:urban', 10: 'living_street ??:living_street', 100: 'de:rural at:rural ro:rural rural national ro:trunk',
        90: 'ru:rural ua:rural it:rural hu:rural', 110: 'ru:motorway', 120: 'ch:motorway', 80: 'dk:rural ch:rural fr:rural',
        30: 'de:zone:30 de:zone30 at:zone30'}
PUBLIC = {'public_transport': 'stop_position platform stop_area station'.split(), 'railway': 'halt platform subway_entrance station tram_stop'.split()}


def car_direction():
    R = 'direction of cars'
    for v in BACK:
        yield R, {'oneway': v}, 'bw'
    for v in FORW:
        yield R, {'oneway': v}, 'fw'
    for v in NO:
        yield R, {'oneway': v}, 'both'
    for v in CHANGING:
        yield R, {'oneway': v}, 'closed'
    yield R, {'oneway': None, 'junction': 'roundabout'}, 'fw'
    for h in ('motorway', 'motorway_link'):
        yield R, {'oneway': None, 'highway': h}, 'fw'
    for j in (None, OTHER):
        for h in (None, OTHER, 'trunk', 'primary', 'residential', 'service'):
            yield R, {'oneway': None, 'junction': j, 'highway': h}, 'both'


def bicycle_direction():
    R = 'direction of bicycles'
    K = 'oneway:bicycle'
    for v in ('-1', 'opposite'):
        yield R, {K: v}, 'bw'
    for v in ('1', 'yes', 'true', 'no_planned'):
        yield R, {K: v}, 'fw'
    for v in ('0', 'no', 'false', 'tolerated', 'permissive'):
        yield R, {K: v}, 'both'
    yield R, {K: OTHER}, 'closed'
    yield R, {K: None, 'oneway': None}, 'both'
    for v in NO:
        yield R, {K: None, 'oneway': v}, 'both'
    for o in BACK[:1] + FORW[:1] + CHANGING[:1] + (OTHER,):
        for v in OPPOSITE:
            yield R, {K: None, 'oneway': o, 'cycleway': v}, 'both'
        yield R, {K: None, 'oneway': o, 'cycleway:both': ANY}, 'both'
        yield R, {K: None, 'oneway': o, 'cycleway:left': ANY, 'cycleway:right': ANY}, 'both'
    for c in (None, OTHER):
        for l, r in ((None, None), (ANY, None), (None, ANY)):
            base = {K: None, 'cycleway': c, 'cycleway:both': None, 'cycleway:left': l, 'cycleway:right': r}
            for L, e in ((BACK, 'bw'), (FORW, 'fw'), (CHANGING + (OTHER,), 'closed')):
                for v in L:
                    yield R, dict(base, oneway=v), e


def cars():
    R = 'ways used by cars'
    yield R, {'junction': ANY}, 1
    yield R, {'route': 'ferry'}, 1
    yield R, {'ferry': 'yes'}, 1
    base = {'junction': None, 'route': None, 'ferry': None}
    for b in (base, dict(base, route=OTHER), dict(base, ferry=OTHER)):
        yield R, dict(b, highway=None), 0
    yield R, dict(base, motorcar='no'), 0
    yield R, dict(base, motor_vehicle='no'), 0
    yield R, dict(base, access=OTHER), 0
    for a in ('no', 'private', 'agricultural', 'forestry'):
        yield R, dict(base, access=a), 0
    for m in (None, 'yes', OTHER):
        for v in (None, OTHER):
            for a in (None,) + tuple(CAR_ACCESS):
                for h in CAR_OPEN if a is None or (m is None and v is None) else CAR_OPEN[:1]:
                    yield R, dict(base, highway=h, motorcar=m, motor_vehicle=v, access=a), 1
    for h in CAR_SHUT:
        yield R, dict(base, highway=h), 0
    yield R, dict(base, highway='bicycle_road', motorcar='yes', motor_vehicle=None, access=None), 1
    yield R, dict(base, highway='bicycle_road', motorcar=None), 0
    yield R, dict(base, highway='bicycle_road', motorcar=OTHER), 0
    free = dict(base, highway=OTHER, motorcar=None, motor_vehicle=None, access=None)
    yield R, dict(free, maxspeed=None), 0
    for o in CHANGING:
        yield R, dict(free, oneway=o), 0
    yield R, dict(free, oneway=None, maxspeed=ANY), 1


def bicycles():
    R = 'ways used by bicycles'
    yield R, {'junction': ANY}, 1
    yield R, {'route': 'ferry'}, 1
    yield R, {'ferry': 'ferry'}, 1
    base = {'junction': None, 'route': None, 'ferry': None}
    for b in (base, dict(base, route=OTHER), dict(base, ferry=OTHER)):
        yield R, dict(b, highway=None), 0
    yield R, dict(base, highway='proposed'), 0
    yield R, dict(base, access=OTHER), 0
    yield R, dict(base, access='no'), 0
    yield R, dict(base, access='private'), 0
    yield R, dict(base, bicycle='no'), 0
    yield R, dict(base, bicycle='use_sidepath'), 0
    CW = ('cycleway', 'cycleway:left', 'cycleway:right', 'cycleway:both')
    for k in CW:
        for h in ('motorway', 'residential', OTHER):
            yield R, dict(base, highway=h, access=None, bicycle=None, **{k: ANY}), 1
    for b in (None, OTHER):
        for a in (None,) + tuple(SOFT_ACCESS):
            for h in BIKE_OPEN if a is None else BIKE_OPEN[:2]:
                yield R, dict(base, highway=h, bicycle=b, access=a), 1
    none = {k: None for k in CW}
    for h in BIKE_SHUT + [OTHER]:
        yield R, dict(dict(base, highway=h), **none), 0


def pedestrians():
    R = 'ways used by pedestrians'
    yield R, {'junction': ANY}, 1
    yield R, {'route': 'ferry'}, 1
    yield R, {'ferry': 'ferry'}, 1
    base = {'junction': None, 'route': None, 'ferry': None, 'public_transport': None, 'railway': None}
    for k, L in PUBLIC.items():
        for v in L:
            yield R, {k: v}, 1
        yield R, dict(base, highway=None, **{k: OTHER}), 0
    for b in (base, dict(base, route=OTHER), dict(base, ferry=OTHER)):
        yield R, dict(b, highway=None), 0
    yield R, dict(base, access=OTHER), 0
    yield R, dict(base, access='no'), 0
    yield R, dict(base, access='private'), 0
    yield R, dict(base, crossing='no'), 0
    for x in (None, OTHER):
        for a in (None,) + tuple(SOFT_ACCESS):
            for h in FOOT_OPEN if a is None else FOOT_OPEN[:2]:
                yield R, dict(base, highway=h, crossing=x, access=a), 1
    for h in FOOT_SHUT + [OTHER]:
        yield R, dict(base, highway=h), 0


def comfort():
    R = 'bicycle comfort level'
    yield R, {'highway': 'cycleway'}, 4
    for h in (None, OTHER, 'primary', 'primary_link', 'residential'):
        yield R, {'highway': h, 'cycleway': 'track'}, 3
        yield R, {'highway': h, 'cycleway': OTHER}, 2
    for h in ('primary', 'primary_link'):
        yield R, {'highway': h, 'cycleway': None}, 0
    for h in (None, OTHER, 'residential'):
        yield R, {'highway': h, 'cycleway': None, 'bicycle': 'dismount'}, 0
        yield R, {'highway': h, 'cycleway': None, 'bicycle': None}, 1
        yield R, {'highway': h, 'cycleway': None, 'bicycle': OTHER}, 1


def speed():
    R = 'speed without a usable maxspeed'
    for m in (None, 'unposted'):
        for h, v in SPEED.items():
            yield R, {'maxspeed': m, 'highway': h}, v
        for h in (None, OTHER):
            yield R, {'maxspeed': m, 'highway': h, 'junction': ANY}, 20
            yield R, {'maxspeed': m, 'highway': h, 'junction': None, 'route': 'ferry'}, 5
            for r in (None, OTHER):
                yield R, {'maxspeed': m, 'highway': h, 'junction': None, 'route': r, 'ferry': ANY}, 5
                yield R, {'maxspeed': m, 'highway': h, 'junction': None, 'route': r, 'ferry': None}, 50


TABLES = {'get_osm_car_direction_category': car_direction, 'get_osm_bicycle_direction_category': bicycle_direction, 'is_osm_way_used_by_cars': cars,
          'is_osm_way_used_by_bicycles': bicycles, 'is_osm_way_used_by_pedestrians': pedestrians, 'get_osm_way_bicycle_comfort_level': comfort,
          'get_osm_way_speed': speed}


def directions():
    import os
    f = os.path.join(build.REPO, 'include/routingkit/osm_graph_builder.h')
    out = {}
    for r, ds, fs in os.walk(os.path.join(build.REPO, 'include')):
        for x in fs:
            s = re.sub(r'//.*', '', open(os.path.join(r, x), errors='replace').read())
            m = re.search(r'enum\s+class\s+OSMWayDirectionCategory\s*(?::[^{]*)?\{(.*?)\}', s, re.S)
            if m:
                n = 0
                for e in m.group(1).split(','):
                    e = e.strip()
                    if e:
                        if '=' in e:
                            e, v = e.split('=')
                            n = int(v.strip(), 0)
                        out[e.strip()] = n
                        n += 1
    return out


def words(tab):
    """every literal the clauses of a table mention, by key"""
    W = {}
    for _, cond, _ in tab():
        for k, v in cond.items():
            if isinstance(v, str):
                W.setdefault(k, set()).add(v)
    return W


def initial(cond, W):
    s = State()
    for k, v in cond.items():
        if v is None:
            s.facts[k] = Facts(null=True)
        elif v == OTHER:
            s.facts[k] = Facts(null=False, neq={(0, w) for w in W.get(k, ())})
        elif v == ANY:
            s.facts[k] = Facts(null=False)
        else:
            s.facts[k] = Facts(null=False, full=v)
    return s


def describe(cond):
    return ', '.join('no %s' % k if v is None else '%s=%s' % (k, v if isinstance(v, str) else ('(unknown)' if v == OTHER else '(any)')) for k, v in cond.items())


def fresh_literal(s, cond, W):
    """the path assumes a literal value no clause speaks about for a key that the clause calls unknown"""
    for k, v in cond.items():
        if v == OTHER:
            f = s.facts.get(k)
            if f is not None and (f.full is not None or f.ch):
                return True
    return False


def table(c, M, name, tab, hook=None):
    F = entry(M, name)
    if F is None:
        c.notes.append('no function %s' % name)
        return
    c.fn(F)
    W = words(tab)
    D = directions()
    n = 0
    unsure = 0
    for rule, cond, exp in tab():
        want = D.get(DIR[exp]) if isinstance(exp, str) else exp
        if want is None:
            continue
        A = Tags(M, F, hook=hook)
        try:
            res = A.run(initial(cond, W))
        except TooMany:
            unsure += 1
            continue
        nulls(c, F, A)
        good = sure = 0
        for s, v, I in res:
            if s.unsure or fresh_literal(s, cond, W) or v is None or v[0] != 'i':
                if not fresh_literal(s, cond, W):
                    unsure += 1
                continue
            sure += 1
            if v[1] == want:
                good += 1
            else:
                c.bad(rule, where_ret(F, I), '%s: a way with %s gets %s instead of %s (path: %s)' % (name, describe(cond), said(v[1], exp, D), said(want, exp, D), s.text()))
        if sure and good == sure:
            c.ok(rule, describe(cond))
    if unsure:
        c.notes.append('%s: %d paths depend on something the analysis does not follow' % (name, unsure))


def said(v, exp, D):
    if isinstance(exp, str):
        for k, x in D.items():
            if x == v:
                return k
    return str(v)


def where_ret(F, I):
    return '%s (%s)' % (F.file.replace(build.REPO + '/', ''), F.sname) if not I.loc() else I.where()


_n = set()


def nulls(c, F, A):
    for key, I, txt in A.nullbad:
        if (I.i, F.name) not in _n:
            _n.add((I.i, F.name))
            c.bad('absent tags are never dereferenced', I.where(), 'the value of "%s" is used although the tag may be absent (path: %s)' % (key, txt))


def entry(M, name):
    L = [F for F in M.functions.values() if F.sname == name and F.d.get('link') != 'internal' and len(F.blocks)]
    L = [F for F in L if re.search(r'RoutingKit::%s\(' % re.escape(name), F.dem)]
    return L[0] if L else None


def all_nulls(c, M):
    """every function that looks tags up, any tags"""
    rule = 'absent tags are never dereferenced'
    for F in M.functions.values():
        L = [I for I in F.insts() if I.is_call and re.search(r'TagMap::operator\[\]', I.dem or '')]
        if not L:
            continue
        c.fn(F)
        A = Tags(M, F, widen=True)
        try:
            A.run()
        except TooMany:
            c.notes.append('%s: too many paths for the analysis of absent tags' % F.dem[:80])
            continue
        nulls(c, F, A)
        for I in L:
            c.ok(rule, I.where())


# ------------------------------------------------------------------------------------------------- maxspeed

def parser(M):
    """the function that turns one value of a maxspeed tag into a speed"""
    out = []
    for F in M.functions.values():
        if F.d.get('ret') not in (None, 'i32') and not any(I.op == 'ret' and I.ops for I in F.insts()):
            continue
        if any(re.search(r'TagMap::operator\[\]', I.dem or '') for I in F.insts() if I.is_call):
            continue
        lits = {}
        A = Tags.__new__(Tags)
        A.M, A.F = M, F
        for I in F.insts():
            if I.is_call and I.dem == 'strcmp':
                v = [A.ref(State(), o) for o in I.ops]
                for a, b in (v, v[::-1]):
                    if a and b and a[0] == 'arg' and b[0] == 'lit':
                        lits.setdefault(a[1], set()).add(b[1])
        for a, S in lits.items():
            if len(S & {'signals', 'none', 'walk', 'urban', 'de:rural', 'national'}) >= 3 and rets(F):
                out.append((F, a))
    return out


def rets(F):
    return [I for I in F.insts() if I.op == 'ret' and I.ops]


def parts(c, M):
    rule = 'named values of maxspeed'
    L = parser(M)
    if not L:
        c.notes.append('no function was recognised as the parser of a maxspeed value')
        return None
    for F, a in L:
        c.fn(F)
        for want, ws in PART.items():
            for w in ws.split():
                s = State()
                s.env[('arg', a)] = ('tag', '<value>', 0)
                if '?' in w:       # any two characters
                    n = w.rindex('?') + 1
                    s.facts['<value>'] = Facts(null=False, ch={i: ord(x) for i, x in enumerate(w + '\0') if i >= n}, nch={(i, 0) for i in range(n)})
                else:
                    s.facts['<value>'] = Facts(null=False, full=w)
                A = Tags(M, F)
                try:
                    res = A.run(s)
                except TooMany:
                    c.notes.append('%s: too many paths for the value %s' % (F.sname, w))
                    continue
                sure = good = 0
                for st, v, I in res:
                    if st.unsure or v is None or v[0] != 'i':
                        continue
                    sure += 1
                    if v[1] == want:
                        good += 1
                    else:
                        c.bad(rule, where_ret(F, I), 'a maxspeed of "%s" is read as %s instead of %s' % (w, v[1], 'no limit' if want == INF else want))
                if sure and sure == good:
                    c.ok(rule, '%s = %s' % (w, want))
        units(c, M, F, a)
    return L[0]


UNITS = {'mph': 1.609, 'knots': 1.852, 'km/h': 1, 'kmh': 1, 'kph': 1}


def edge_literals(A, F, blk, target):
    """literals the value equals for sure when control flows from blk into target"""
    out = set()
    L = list(facts(F, blk))
    I = F.blocks[blk][-1]
    if I.op == 'br' and I.ops and F.succ[blk][0] != F.succ[blk][1]:
        L += cond_atoms(T_of(F), I.ops[0], F.succ[blk][0] == target)
    for J, pol in L:
        if isinstance(J, tuple) or J.op != 'icmp' or J.d['pred'] not in ('eq', 'ne') or not any(o.get('c') == '0' for o in J.ops):
            continue
        if pol != (J.d['pred'] == 'eq'):
            continue
        for o in J.ops:
            C = F.val(o)
            if C is not None and C.is_call and C.dem == 'strcmp':
                for x in C.ops:
                    v = A.ref(State(), x)
                    if v and v[0] == 'lit':
                        out.add(v[1])
    return out


def num(t, leaf):
    """value of an integer term"""
    if t in leaf:
        return leaf[t]
    if not isinstance(t, tuple):
        return None
    if t[0] == 'c':
        return t[1]
    if t[0] in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'shl') and len(t) == 3:
        x, y = num(t[1], leaf), num(t[2], leaf)
        if x is None or y is None or (t[0][1:] == 'div' and not y):
            return None
        return {'add': x + y, 'sub': x - y, 'mul': x * y, 'shl': x << (y & 31)}.get(t[0], x // (y or 1) if t[0][1:] == 'div' else 0)
    return None


def digit_phi(F, T, t):
    """(phi instruction, step term, char term) when the phi is the value of the decimal digits read so far"""
    if not (isinstance(t, tuple) and t[0] == 'phi'):
        return None
    I = F.by_id.get(t[1])
    if I is None or I.op != 'phi':
        return None
    for o in I.ops:
        st = T.term(o)
        if st != ('c', 0) and t in list(subterms(st)):
            chars = [x for x in subterms(st) if isinstance(x, tuple) and x and x[0] == 'ld']
            return I, st, chars
    return None


def units(c, M, F, a):
    """numbers: decimal value of the digits, converted by the factor of the unit"""
    rule = 'numbers with a unit in maxspeed'
    T = T_of(F)
    A = Tags.__new__(Tags)
    A.M, A.F = M, F
    seen = set()
    for R in rets(F):
        for o, p, tgt in edge_leaves(F, R.ops[0], R.blk):
            t = T.term(o)
            if t[0] == 'c':
                continue
            phis = [x for x in subterms(t) if isinstance(x, tuple) and x and x[0] == 'phi' and digit_phi(F, T, x)]
            phis = list(dict.fromkeys(phis))
            if len(phis) != 1:
                c.notes.append('%s: value %s is not followed' % (F.sname, show(t)[:60]))
                continue
            I, st, chars = digit_phi(F, T, phis[0])
            if I.i not in seen:
                seen.add(I.i)
                chars = list(dict.fromkeys(chars))
                vals = [num(st, dict({phis[0]: x}, **{})) if not chars else num(st, {phis[0]: x, chars[0]: ch}) for x, ch in ((0, 48), (1, 57), (23, 53))] if len(chars) <= 1 else [None]
                if None in vals:
                    c.notes.append('%s: digits are accumulated as %s' % (F.sname, show(st)[:60]))
                else:
                    c.check(vals == [0, 19, 235], rule, I.where(), 'reading a digit d makes %s of the number read so far instead of ten times that plus d' % show(st)[:80], show(st)[:60])
            lits = edge_literals(A, F, p, tgt) & set(UNITS)
            u = lits.pop() if len(lits) == 1 else None
            f = UNITS[u] if u else 1
            v = [num(t, {phis[0]: x}) for x in (10, 100, 1000)]
            if None in v:
                c.notes.append('%s: value %s is not followed' % (F.sname, show(t)[:60]))
                continue
            good = all(abs(y - x * f) <= 1 + 0.002 * x for x, y in zip((10, 100, 1000), v))
            c.check(good, rule, R.where(), 'a number%s is returned as %s: 100 becomes %s km/h instead of %d' % (' followed by "%s"' % u if u else ' without a unit or in km/h', show(t)[:60], v[1], 100 * f), '%s: %s' % (u or 'km/h', show(t)[:60]))


def every_part(c, F, calls):
    """each part that was cut off at a separator is read before the next one is cut off"""
    rule = 'the slowest part of a maxspeed tag counts'
    T = T_of(F)
    for I in F.insts():
        if I.op != 'store' or I.d.get('vty') != 'i8' or I.ops[0].get('c') != '0' or not any(I.blk in L for L in loop_sets(F)):
            continue
        inl = [J for J in calls if any(J.blk in L for L in loop_sets(F))]
        if inl and not any(I.blk in L and J.blk in L for J in inl for L in loop_sets(F)):
            continue
        r = F.reach_avoiding(I.blk, I.pos, lambda J: J is I, lambda J: J in calls)
        c.check(r is None, rule, I.where(), 'a part that ends here can be skipped: the next one is cut off before it was read', I.where())


def loop_sets(F):
    L = F.loops()
    return list(L.values()) if isinstance(L, dict) else [x[1] if isinstance(x, tuple) else x for x in L]


def lower(c, M):
    """upper case letters and only those are replaced by lower case letters"""
    rule = 'values of maxspeed are compared in lower case'
    for F in M.functions.values():
        if 'osm_profile' not in F.file:
            continue
        T = T_of(F)
        for I in F.insts():
            if I.op != 'store' or I.d.get('vty') != 'i8' or 'v' not in I.ops[0]:
                continue
            L = list(edge_leaves(F, I.ops[0], I.blk))
            ld = list(dict.fromkeys(x for o, p, t in L for x in [T.term(o)] + list(subterms(T.term(o))) if isinstance(x, tuple) and x and x[0] == 'ld'))
            if len(ld) != 1:
                continue
            for o, p, tgt in L:
                t = T.term(o)
                if t == ld[0]:
                    continue
                v = num(t, {ld[0]: 65})
                if v is None:
                    continue
                c.check((v & 255) == 97, rule, I.where(), 'the letter A is replaced by character %d' % (v & 255), 'A -> a')
                atoms = [(J, pol) for J, pol in facts(F, p) if not isinstance(J, tuple) and J.op == 'icmp']
                B = F.blocks[p][-1]
                if B.op == 'br' and B.ops and tgt is not None and F.succ[p][0] != F.succ[p][1]:
                    atoms += [(J, pol) for J, pol in cond_atoms(T, B.ops[0], F.succ[p][0] == tgt) if J.op == 'icmp']
                tests = []
                for J, pol in atoms:
                    x, y = T.term(J.ops[0]), T.term(J.ops[1])
                    if ld[0] in [x, y] + list(subterms(x)) + list(subterms(y)):
                        tests.append((J.d['pred'], x, y, pol))
                S = []
                for ch in range(128):
                    ok = True
                    for pr, x, y, pol in tests:
                        a, b = num(x, {ld[0]: ch}), num(y, {ld[0]: ch})
                        if a is None or b is None:
                            ok = None
                            break
                        if pr[0] == 'u':
                            a, b = a & 0xffffffff, b & 0xffffffff
                        q = pr[-2:]
                        if {'eq': a == b, 'ne': a != b, 'lt': a < b, 'gt': a > b, 'le': a <= b, 'ge': a >= b}[q] != pol:
                            ok = False
                            break
                    if ok is None:
                        S = None
                        break
                    if ok:
                        S.append(ch)
                if S is not None and tests:
                    want = list(range(65, 91))
                    c.check(S == want, rule, I.where(), 'characters %s are replaced by lower case letters' % (''.join(chr(x) for x in S if 32 < x < 127)[:60]), 'A-Z')


def edge_leaves(F, ref, blk, seen=None, tgt=None):
    """(operand, block it flows out of, block it flows into)"""
    seen = seen if seen is not None else set()
    I = F.val(ref)
    if I is not None and I.op == 'phi' and not digit_phi(F, T_of(F), T_of(F).term(ref)):
        if I.i in seen:
            return
        seen.add(I.i)
        for o, p in zip(I.ops, I.d['in']):
            yield from edge_leaves(F, o, p, seen, I.blk)
        return
    if I is not None and I.op == 'select':
        yield from edge_leaves(F, I.ops[1], blk, seen, tgt)
        yield from edge_leaves(F, I.ops[2], blk, seen, tgt)
        return
    yield ref, blk, tgt


def combine(c, par):
    """with the parser of one value kept opaque: the slowest part counts, 0 becomes 1, unusable values fall back to the road class"""
    F0, a = par
    M = build.module(opaque=[r'TagMap::operator', re.escape('::' + F0.sname) + r'\('], mention=r'TagMap', drivers=(), inline=build.STD_INLINE)
    F = entry(M, 'get_osm_way_speed')
    if F is None:
        return
    calls = [I for I in F.insts() if I.is_call and re.search(r'::%s\(' % re.escape(F0.sname), I.dem or '')]
    if not calls:
        c.notes.append('get_osm_way_speed does not call %s directly' % F0.sname)
        return

    def hook(vals):
        def h(A, s, I):
            if I in calls:
                return [(('i', v, 32), tuple(sorted(set(s.extra) | {v}))) for v in vals]
            return None
        return h
    CASES = [('the slowest part of a maxspeed tag counts', (30, 50), lambda S: min(S)), ('the slowest part of a maxspeed tag counts', (20, INF), lambda S: min(S) if min(S) != INF else None),
             ('a speed is never 0', (0,), lambda S: 1), ('a speed is never 0', (0, 50), lambda S: 1 if 0 in S else 50),
             ('speed without a usable maxspeed', (INF,), lambda S: None)]
    for rule, vals, exp in CASES:
        for h in ('motorway', 'residential', None):
            cond = {'maxspeed': OTHER, 'highway': h, 'junction': None, 'route': None, 'ferry': None}
            s0 = initial(cond, {'maxspeed': {'unposted'}})
            A = Tags(M, F, hook=hook(vals), plain=True)
            try:
                res = A.run(s0)
            except TooMany:
                c.notes.append('get_osm_way_speed: too many paths')
                continue
            sure = good = skipped = 0
            for s, v, I in res:
                if s.unsure or v is None or v[0] != 'i':
                    skipped += 1
                    continue
                if not s.extra:
                    c.bad(rule, where_ret(F, I), 'a way with highway=%s and a maxspeed tag gets speed %s without a look at the value of the tag' % (h, v[1]))
                    continue
                want = exp(s.extra)
                if want is None:
                    want = SPEED.get(h, 50)
                sure += 1
                if v[1] == want:
                    good += 1
                else:
                    c.bad(rule, where_ret(F, I), 'a way with highway=%s and a maxspeed whose parts are read as %s gets speed %s instead of %s' % (h, ', '.join('unusable' if x == INF else str(x) for x in s.extra), v[1], want))
            if sure and sure == good:
                c.ok(rule, 'parts %s, highway=%s' % (vals, h))
            if skipped:
                c.notes.append('get_osm_way_speed: %d paths with a maxspeed tag are not followed' % skipped)
    every_part(c, F, calls)


def leaves(F, ref, blk=None, seen=None):
    """(operand, block it flows from) of a returned value"""
    seen = seen if seen is not None else set()
    I = F.val(ref)
    if I is not None and I.op == 'phi':
        if I.i in seen:
            return
        seen.add(I.i)
        for o, p in zip(I.ops, I.d['in']):
            yield from leaves(F, o, p, seen)
        return
    if I is not None and I.op == 'select':
        yield from leaves(F, I.ops[1], blk, seen)
        yield from leaves(F, I.ops[2], blk, seen)
        return
    yield ref, blk


def way_name(c, M):
    """the name of a way is made of exactly the tags that are there"""
    rule = 'name of a way'
    F = entry(M, 'get_osm_way_name')
    if F is None:
        return
    c.fn(F)
    STR = re.compile(r'basic_string|std::operator\+|std::allocator|char_traits')

    def hook(A, s, I):
        if STR.search(I.dem or '') and not re.search(r'::~', I.dem or ''):
            L = []
            for o in I.ops:
                v = A.ref(s, o)
                if v and v[0] == 'tag' and v[2] == 0:
                    L.append(v[1])
                elif v and v[0] == 'lit' and v[1]:
                    L.append(repr(v[1]))
                elif v and v[0] in ('tag', 'lit'):
                    L.append('?')
            if L:
                s.extra = s.extra + tuple(L)
        return None
    for n, r, exp in ((ANY, ANY, ('name', "';'", 'ref')), (ANY, None, ('name',)), (None, ANY, ('ref',)), (None, None, ())):
        cond = {'name': n, 'ref': r}
        A = Tags(M, F, hook=hook)
        try:
            res = A.run(initial(cond, {}))
        except TooMany:
            continue
        nulls(c, F, A)
        for s, v, I in res:
            if s.unsure or '?' in s.extra or any(not c2 in ('name', 'ref', "';'") for c2 in s.extra):
                c.notes.append('get_osm_way_name builds the name in a way that is not followed')
                continue
            c.check(s.extra == exp, rule, where_ret(F, I), 'a way with %s is named by %s instead of %s' % (describe(cond), ' '.join(s.extra) or 'nothing', ' '.join(exp) or 'nothing'), describe(cond))


def level(c, M):
    rule = 'bicycle comfort level'
    F = entry(M, 'get_osm_way_bicycle_comfort_level')
    b = {}
    for n in ('min', 'max'):
        G = entry(M, 'get_%s_bicycle_comfort_level' % n)
        if G is not None:
            c.fn(G)
            for I in rets(G):
                if 'c' in I.ops[0]:
                    b[n] = int(I.ops[0]['c'])
    if F is None or len(b) < 2:
        return
    for I in rets(F):
        for o, p in leaves(F, I.ops[0]):
            if 'c' in o:
                v = int(o['c']) & 255
                c.check(b['min'] <= v <= b['max'], rule, I.where(), 'the comfort level %d lies outside of [%d, %d]' % (v, b['min'], b['max']), 'level %d' % v)


def roots_of(F, P):
    out, st, seen = [], [P], set()
    while st:
        J = st.pop()
        if J is None or J.i in seen:
            continue
        seen.add(J.i)
        if J.op in ('phi', 'select', 'getelementptr'):
            st += [F.val(o) for o in (J.ops[:1] if J.op == 'getelementptr' else J.ops)]
        else:
            out.append(J)
    return out


def chars_only(F, ref):
    I = F.val(ref)
    if I is None or I.op != 'icmp':
        return False
    for o in I.ops:
        J = F.val(o)
        while J is not None and J.op in ('zext', 'sext', 'trunc'):
            J = F.val(J.ops[0])
        if J is not None and not (J.op == 'load' and J.ty == 'i8'):
            return False
    return True


def buffer(c, M):
    """copies into a buffer of fixed size stop in front of its end"""
    rule = 'copies of a tag value stay inside their buffer'
    for F in M.functions.values():
        if 'osm_profile' not in F.file:
            continue
        T = T_of(F)
        for I in F.insts():
            if I.op != 'store' or I.d.get('vty') != 'i8':
                continue
            G = F.val(I.ops[1])
            if G is not None and G.op == 'phi':
                B = [J for J in roots_of(F, G) if J.op == 'alloca']
                if len(B) != 1 or any(J.op not in ('alloca',) for J in roots_of(F, G)):
                    continue
                L = [L for L in loop_sets(F) if I.blk in L and G.blk in L]
                ex = [X for l in L for b in l for X in [F.blocks[b][-1]] if any(t not in l for t in F.succ[b]) and X.ops]
                if I.ops[0].get('c') is None and L:
                    c.check(not ex or not all(chars_only(F, X.ops[0]) for X in ex), rule, I.where(), 'the copy ends only with the value of the tag, which may be longer than the buffer')
                continue
            if G is None or G.op != 'getelementptr' or len(G.d.get('var') or ()) != 1:
                continue
            B = F.val(G.ops[0])
            if B is None or B.op != 'alloca':
                continue
            m = re.match(r'\[(\d+) x i8\]', B.d.get('aty') or B.d.get('alty') or '')
            size = int(m.group(1)) if m else None
            if size is None:
                t = T.alloca_type(B)
                size = M.types[t]['sz'] if t is not None and t >= 0 else None
            X = F.val(G.d['var'][0][0])
            while X is not None and X.op in ('zext', 'sext'):
                X = F.val(X.ops[0])
            if size is None or X is None or X.op != 'phi':
                continue
            lo = F.loops().get(X.blk) if isinstance(F.loops(), dict) else None
            caps = []
            for J in F.insts():
                if J.op == 'icmp' and any(o.get('v') == X.i for o in J.ops):
                    for o in J.ops:
                        if 'c' in o:
                            caps.append((J, int(o['c'])))
            off = G.d.get('off', 0)
            if not caps:
                ex = [B for L in loop_sets(F) if X.blk in L for b in L for B in [F.blocks[b][-1]] if any(t not in L for t in F.succ[b]) and B.ops]
                only_chars = ex and all(chars_only(F, B.ops[0]) for B in ex)
                c.check(not only_chars, rule, I.where(), 'the copy ends only with the value of the tag, which may be longer than the buffer of %d characters' % size)
                continue
            cap = min(v for _, v in caps)
            c.check(cap + off < size, rule, I.where(), 'index %d can be written in a buffer of %d characters' % (cap + off, size), 'index at most %d of %d' % (cap + off, size))


def run(c):
    M = build.module(opaque=[r'TagMap::operator'], mention=r'TagMap', drivers=(), inline=build.STD_INLINE)
    c.use(M)
    par = parts(c, M)
    for name, tab in TABLES.items():
        if name == 'get_osm_way_speed' and par:
            continue
        table(c, M, name, tab)
    if par:
        M2 = build.module(opaque=[r'TagMap::operator', re.escape('::' + par[0].sname) + r'\('], mention=r'TagMap', drivers=(), inline=build.STD_INLINE)
        table(c, M2, 'get_osm_way_speed', speed)
        combine(c, par)
    way_name(c, M)
    level(c, M)
    buffer(c, M)
    lower(c, M)
    all_nulls(c, M)
    return c.finish(EXPL, ASSUME)
