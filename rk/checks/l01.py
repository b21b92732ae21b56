"""L01: message callbacks are optional and purely observational."""
import re
from .. import build
from ..common import *

CALL = re.compile(r'std::function<.*>::operator\(\)\(')
TEST = re.compile(r'std::function<.*>::operator bool\(\)')
TESTN = re.compile(r'bool std::operator(==|!=)<.*>\((std::function<.*> const&, std::nullptr_t|std::nullptr_t, std::function<.*> const&)\)|bool std::operator(==|!=)<.*std::function<.*nullptr')
LOGSIG = re.compile(r'std::function<void \((std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>|std::string)( const&)?\)>')
DECODER = re.compile(r'std::function<void \(unsigned long, (double, double, |std::vector<)')
# the scan benchmark prints its result through the callback and nothing else: the callback is a mandatory parameter there
MANDATORY = re.compile(r'^RoutingKit::speedtest_osm_pbf_reading\(')


def sig(I):
    m = re.search(r'(std::function<.*>)::operator', I.dem)
    return m.group(1) if m else I.dem


class Src:
    """canonical identity of std::function objects: copies are traced to what they were copied from"""

    def __init__(self, F):
        self.F, self.T = F, T_of(F)
        self.ctor = {}
        for I in F.calls(r'std::function<.*>::function'):
            t = self.T.obj_of(I.ops[0])
            if t[0] == 'alloca':
                self.ctor.setdefault(t, []).append(I)
            else:
                self.ctor.setdefault(t, []).append(I)

    def canon(self, t, n=0):
        """('nonnull',) / ('null',) / object term"""
        c = self.ctor.get(t)
        if not c or n > 6:
            return t
        I = c[0]
        if len(c) > 1:
            return t
        d = I.dem
        if re.search(r'::function\(std::function<.*> (const&|&&)\)$', d) or re.search(r'::function\(std::function<.*>(&&| const&)\)$', d):
            return self.canon(self.T.obj_of(I.ops[1]), n + 1)
        if re.search(r'::function\(\)$', d) or 'nullptr_t' in d:
            return ('null',)
        if re.search(r'function<.*\$_|lambda|::function<', d):
            return ('nonnull',)
        return t


def tests(F, src):
    """instruction id -> (canonical object, polarity of 'non empty')"""
    out = {}
    T = T_of(F)
    for I in F.calls():
        if not I.dem:
            continue
        if TEST.search(I.dem):
            out[I.i] = (src.canon(T.obj_of(I.ops[0])), True)
        elif 'nullptr' in I.dem and re.search(r'bool std::operator(==|!=)<', I.dem):
            o = [x for x in I.ops if not x.get('null')]
            if o:
                out[I.i] = (src.canon(T.obj_of(o[0])), 'operator!=' in I.dem)
    return out


PURE = re.compile(r'^(std::(__cxx11::)?(to_string|basic_string|allocator|function|char_traits|basic_ostream|basic_ostringstream|basic_stringstream|ostream|operator|set[wpf]|fixed|endl)|RoutingKit::get_micro_time|llvm\.|operator (new|delete)|__cxa|_Unwind|std::basic_ostream|std::ios|std::basic_ios|std::_Setw|std::chrono|strlen|memcpy|snprintf|__clang|std::terminate)')


def region(F, b, s):
    return F.edge_region(b, s)


def observational(ctx, F, tst):
    """no value that survives a logging region may differ from the silent run"""
    T = T_of(F)
    regions = []
    for b in F.reachable():
        t = F.blocks[b][-1]
        if t.op != 'br' or not t.ops or len(F.succ[b]) != 2:
            continue
        for pol in (True, False):
            atoms = cond_atoms(T, t.ops[0], pol)
            hit = [I for I, p in atoms if I.i in tst and LOGSIG.search(sig(I) or '')]
            # only branches whose condition depends on the log test: a conjunction with other facts is fine
            if hit:
                s = t.d['succ'][0 if pol else 1]
                if len(F.pred[s]) >= 1:
                    reg = region(F, b, s)
                    regions.append((b, s, reg, hit[0]))
    if not regions:
        return
    inlog = set()
    for b, s, reg, h in regions:
        inlog |= reg
    # values used only by logging
    memo = {}

    def logonly(v, stack=()):
        if v in memo:
            return memo[v]
        if v in stack:
            return True
        I = F.by_id[v]
        r = True
        for U in F.users(I):
            if U.blk in inlog and U.op != 'phi':
                continue
            if U.op == 'phi' or U.op in ('add', 'sub', 'zext', 'sext', 'trunc', 'select', 'mul', 'udiv', 'sdiv', 'and', 'or', 'uitofp', 'sitofp', 'bitcast', 'icmp', 'freeze'):
                if not logonly(U.i, stack + (v,)):
                    r = False
                    break
                continue
            r = False
            break
        if not stack:
            memo[v] = r
        return r

    def local_only(root, reg_all):
        """alloca touched outside logging only by construction / destruction"""
        A = F.by_id[root[1]]
        st, seen = [A], set()
        while st:
            X = st.pop()
            for U in F.users(X):
                if U.i in seen:
                    continue
                seen.add(U.i)
                if U.op in ('getelementptr', 'bitcast', 'phi', 'select'):
                    st.append(U)
                    continue
                if U.blk in inlog:
                    continue
                if U.op == 'store' and U.ops[0].get('v') != X.i:
                    continue
                if U.is_call and re.search(r'~|::(basic_string|vector|function|BitVector|ostringstream|basic_ostringstream)\(|^llvm\.', U.dem or ''):
                    continue
                if U.op == 'load' and logonly(U.i):
                    continue
                return False
        return True

    def writable_local(t):
        while True:
            if t[0] == 'alloca':
                return local_only(t, inlog)
            if t[0] in ('f', 'at', 'off', 'ix', 'data', 'addr', 'ld', 'dend'):
                t = t[1]
                continue
            if t[0] == 'call':
                return F.by_id[t[2]].blk in inlog
            if t[0] == 'phi':
                I = F.by_id[t[1]]
                return I.blk in inlog and all(writable_local(T.ptr(o).root) for o in I.ops if o.get('v') != I.i and T.ptr(o).root != t)
            if t[0] == 'uptr':
                t = t[1]
                continue
            return False

    for b, s, reg, h in regions:
        where = F.blocks[b][-1].where()
        bad = None
        for x in sorted(reg):
            for I in F.blocks[x]:
                if I.op == 'store':
                    if not writable_local(T.ptr(I.ops[1]).root):
                        bad = (I, 'writes %s, which outlives the logging block' % show(T.addr_of(I.ops[1]), T))
                elif I.op in ('atomicrmw', 'cmpxchg'):
                    bad = (I, 'modifies shared memory')
                elif I.is_call and (I.fn or '') == '__cxa_throw':
                    bad = (I, 'throws an exception')
                elif I.is_call and I.dem:
                    if PURE.search(short(I.dem)) or CALL.search(I.dem):
                        continue
                    if I.d.get('noret'):
                        continue
                    cst = I.dem.rstrip().endswith('const')
                    for k, o in enumerate(I.ops):
                        v = F.val(o)
                        isptr = (v is not None and v.ty == 'ptr') or ('a' in o and F.params[o['a']]['ty'] == 'ptr')
                        if not isptr:
                            continue
                        if k == 0 and cst:
                            continue
                        r = T.ptr(o).root
                        if writable_local(r):
                            continue
                        if const_param(I.dem, k, len(I.ops)):
                            continue
                        bad = (I, 'passes %s to %s' % (show(T.addr_of(o), T), short(I.dem)))
                elif I.op == 'ret':
                    rets = [F.blocks[e][-1] for e in F.exits()]
                    if I.ops and any(R.ops and T.term(R.ops[0]) != T.term(I.ops[0]) for R in rets) or any(e not in reg for e in F.exits()) and not I.ops and F.params and False:
                        bad = (I, 'returns early')
                if bad:
                    break
            if bad:
                break
            for y in F.succ[x]:
                if y not in reg:
                    for I in F.blocks[y]:
                        if I.op != 'phi':
                            break
                        vals = {repr(T.term(o)) for o in I.ops}
                        inreg = {repr(T.term(o)) for o, p in zip(I.ops, I.d['in']) if p in reg}
                        outreg = {repr(T.term(o)) for o, p in zip(I.ops, I.d['in']) if p not in reg}
                        if inreg - outreg and not logonly(I.i):
                            nm = (I.d.get('vars') or [['a value']])[0][0]
                            bad = (F.blocks[x][-1], '"%s" differs after the logging block and is used by non-logging code' % nm)
                            break
                if bad:
                    break
            if bad:
                break
        if not bad:
            bad = detour(F, b, s, reg)
        if bad:
            ctx.bad('logging-is-observational', bad[0].where(), 'code that runs only when a message callback is%s set %s' % ('' if True else ' not', bad[1]))
        else:
            ctx.ok('logging-is-observational', where)


def detour(F, b, s, reg):
    """the logging code continues where the silent run does"""
    other = [x for x in F.succ[b] if x != s]
    outs = []
    for x in sorted(reg):
        br = F.blocks[x][-1]
        for y in normal_succ(F, x):
            if y not in reg:
                outs.append((br, y))
    for br, y in outs:
        for o in other:
            if o in reg or o == y or o in region(F, b, o):
                continue
            if forwards(F, o) == forwards(F, y):
                continue
            return br, 'leaves the code that follows (it continues at %s)' % F.blocks[y][0].where()
    return None


def forwards(F, x):
    """the block that is reached from x without doing anything"""
    for _ in range(8):
        if len(F.blocks[x]) == 1 and F.blocks[x][0].op == 'br' and len(F.succ[x]) == 1:
            x = F.succ[x][0]
    return x


def normal_succ(F, x):
    """successors without those that handle an exception"""
    return [y for y in F.succ[x] if not any(I.op == 'landingpad' for I in F.blocks[y])]


def const_param(dem, k, n):
    m = re.search(r'\((.*)\)( const)?$', dem)
    if not m:
        return False
    parts, d, cur = [], 0, ''
    for c in m.group(1):
        if c in '<([':
            d += 1
        if c in '>)]':
            d -= 1
        if c == ',' and d == 0:
            parts.append(cur)
            cur = ''
        else:
            cur += c
    if cur:
        parts.append(cur)
    j = k - (n - len(parts))
    return 0 <= j < len(parts) and 'const' in parts[j] and re.search(r'const[&*]$', parts[j].strip()) is not None


def run(ctx):
    M = build.module()
    ctx.use(M)
    R = roots(M)
    for F in R:
        calls = [I for I in F.calls() if I.dem and CALL.search(I.dem)]
        has_test = any(I.dem and (TEST.search(I.dem) or 'nullptr' in I.dem) for I in F.calls())
        if not calls and not has_test:
            continue
        if MANDATORY.search(F.dem):
            continue
        ctx.fn(F)
        T = T_of(F)
        src = Src(F)
        tst = tests(F, src)
        tested = {o for o, p in tst.values()}
        for I in calls:
            o = src.canon(T.obj_of(I.ops[0]))
            s = sig(I)
            log = bool(LOGSIG.search(s))
            optional = log or bool(DECODER.search(s)) or o in tested
            if not optional:
                continue
            if o == ('nonnull',):
                ctx.ok('callback-guarded', I.where())
                continue
            good = any(J.i in tst and tst[J.i][0] == o and pol == tst[J.i][1] for J, pol in facts(F, I.blk) if not isinstance(J, tuple))
            if not good and T.obj_of(I.ops[0])[0] != 'alloca' and closure_guarded(M, F, T, I, R):
                good = True
            ctx.check(good, 'callback-guarded', I.where(), 'optional callback %s is invoked on a path where it was not tested for being set' % show(T.obj_of(I.ops[0]), T))
        observational(ctx, F, tst)
    ctx.floor('callback-guarded', 100)
    ctx.floor('logging-is-observational', 40)
    return ctx.finish('Every invocation of a std::function in every entry point of the library (helpers and lambdas inlined) must be dominated by a test that the object is set when the callback is optional; and everything executed only because a message callback is set must leave no trace in values or memory used by non-logging code.',
                      ['callbacks of other types (data sources, separators, way decoders) are mandatory parameters'])


def closure_guarded(M, F, T, I, R):
    """the invocation sits in a lambda that captured the callback: the lambda is only created where the callback is set"""
    m = re.match(r'(RoutingKit::.*)::operator\(\)\(', F.dem)
    t = T.obj_of(I.ops[0])
    if not m:
        return False
    clos = m.group(1)
    names = [x[2] for x in subterms(t) if x[0] == 'f']
    if not names:
        return False
    found = False
    for G in R:
        for C in G.calls():
            if C.dem and re.search(re.escape(clos) + r'(?!::|[0-9])', C.dem) and 'std::function' in C.dem and re.search(r'::(operator=|function)<', C.dem):
                found = True
                TG = T_of(G)
                src = Src(G)
                tst = tests(G, src)
                if not any(J.i in tst and pol == tst[J.i][1] and objname(TG, J) == names[-1] for J, pol in facts(G, C.blk) if not isinstance(J, tuple)):
                    return False
    return found


def objname(T, J):
    t = T.obj_of(J.ops[0])
    return show(t, T).split('#')[0].split('.')[-1]
