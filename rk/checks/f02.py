"""F02: no failure of an I/O operation goes unnoticed."""
import re
from .. import build
from ..common import *

CHECK = re.compile(r'^std::basic_ios<.*>::(operator!|operator bool|fail|good)\(\) const$')
NEG = re.compile(r'operator!|::fail\(')
WRITE = re.compile(r'^(std::ostream|std::basic_ostream<.*>)::(write|put)\(|^std::basic_ostream<.*>& std::operator<<|^std::basic_ostream<.*>::operator<<|^std::ostream::(operator<<|_M_insert)')
READ = re.compile(r'^(std::istream|std::basic_istream<.*>)::(read|get|getline|readsome|operator>>|_M_extract)|^std::basic_istream<.*>& std::(operator>>|getline)')
CLOSE = re.compile(r'^std::basic_[io]?fstream<.*>::close\(|^(std::ostream|std::basic_ostream<.*>)::flush\(')
OPEN = re.compile(r'^std::basic_([io]?)fstream<.*>::(basic_[io]?fstream|open)\((std::|char const)')
DTOR = re.compile(r'^std::basic_[io]?fstream<.*>::~')
STREAMPARM = re.compile(r'std::(basic_)?[io]?f?(stream|ostream|istream|ofstream|ifstream)\b[^,()]*&')

# C functions: result values that mean failure
CFAIL = {
    'open': [-1], 'open64': [-1], 'read': [-1], 'lseek': [-1], 'lseek64': [-1], 'fstat': [-1], 'fstat64': [-1], 'pread': [-1], 'pread64': [-1], 'mmap': [-1],
    'write': [-1], 'ftruncate': [-1], 'fsync': [-1],
    'fopen': [0], 'fopen64': [0], 'fseek': [-1], 'fseeko': [-1], 'ftell': [-1], 'ftello': [-1], 'ferror': [1],
    'inflateInit_': [-2, -4, -6], 'inflateInit2_': [-2, -4, -6], 'inflate': [0, 2, -2, -3, -4, -5], 'uncompress': [-3, -4, -5],
}


def ident(F, o, n=0):
    """identity of the stream a pointer operand designates"""
    T = T_of(F)
    while n < 40:
        n += 1
        if 'v' not in o:
            return ('arg', o['a']) if 'a' in o else ('k', str(o))
        I = F.by_id[o['v']]
        if I.op in ('getelementptr', 'bitcast'):
            o = I.ops[0]
            continue
        if I.op == 'alloca':
            return ('alloca', I.i)
        if I.is_call and I.dem and (WRITE.search(I.dem) or READ.search(I.dem) or re.search(r'::(seekg|seekp|flush)\(', I.dem)):
            o = I.ops[0]
            continue
        if I.op == 'load':
            return ('ld', T.addr_of(I.ops[0]))
        if I.op in ('phi', 'select'):
            ids = {ident(F, x, n + 5) for x in (I.ops if I.op == 'phi' else I.ops[1:])}
            return ids.pop() if len(ids) == 1 else ('phi', I.i)
        return ('v', I.i)
    return ('?',)


def buf_root(F, o, n=0):
    while 'v' in o and n < 40:
        n += 1
        I = F.by_id[o['v']]
        if I.op in ('getelementptr', 'bitcast'):
            o = I.ops[0]
            continue
        return I
    return None


def stream_events(F):
    """block -> list of (pos, kind, stream id, inst)"""
    ev = {}
    for I in F.calls():
        d = I.dem or ''
        if not d or not I.ops:
            continue
        k = None
        if OPEN.search(d):
            k = 'open'
        elif WRITE.search(d):
            k = 'write'
        elif READ.search(d):
            k = 'read'
        elif CLOSE.search(d):
            k = 'close'
        elif DTOR.search(d):
            k = 'dtor'
        elif CHECK.search(d):
            continue
        else:
            m = re.search(r'\((.*)\)( const)?$', d)
            if m and STREAMPARM.search(m.group(1)) and not d.startswith('std::') and 'operator()' not in d.split('(')[0]:
                for o in I.ops:
                    s = ident(F, o)
                    ev.setdefault(I.blk, []).append((I.pos, 'pass', s, I))
            continue
        ev.setdefault(I.blk, []).append((I.pos, k, ident(F, I.ops[0]), I))
    return ev


def streams(ctx, F):
    T = T_of(F)
    ev = stream_events(F)
    if not ev:
        return
    ids = {}
    for L in ev.values():
        for p, k, s, I in L:
            if k in ('open', 'read', 'write'):
                ids.setdefault(s, set()).add((k, 'ofstream' in I.dem or 'ostream' in I.dem))
    if not ids:
        return
    ctx.fn(F)
    for s in ids:
        # std::cout / std::cerr and in-memory streams carry no files
        if s[0] in ('k',):
            continue
        if s[0] == 'alloca':
            ts = {I.dem for L in ev.values() for p, k, x, I in L if x == s and k in ('open', 'dtor')}
            if not any('fstream' in t for t in ts):
                continue
        owned_out = s[0] == 'alloca' and any(x == s and k in ('open', 'dtor') and 'basic_ofstream' in I.dem or x == s and 'basic_fstream' in I.dem for L in ev.values() for p, k, x, I in L)
        # state: (unflushed, unchecked inst id or 0, failed)
        # an exit block can only be reached with (0, 0, 0) [owned output], (*, 0, 0) otherwise
        work = [(0, 0, (0, 0, 0))]
        seen = set()
        bad = None
        checks = 0
        while work and not bad:
            b, p, st = work.pop()
            if (b, p, st) in seen:
                continue
            seen.add((b, p, st))
            unfl, unch, failed = st
            dead = False
            dest = None
            for I in F.blocks[b][p:]:
                if I.is_call and I.dem:
                    for q, k, x, J in ev.get(b, []):
                        if J is I and x == s:
                            if k == 'open':
                                unch = I.i
                            elif k == 'write':
                                unch = I.i
                                unfl = I.i
                            elif k == 'read':
                                unch = I.i
                            elif k == 'close':
                                if unfl:
                                    unch = I.i
                                    unfl = 0
                            elif k == 'pass' and owned_out:
                                unfl = I.i
                                unch = I.i
                            elif k == 'dtor' and I.dem.count('~') and not failed:
                                if unfl and owned_out:
                                    bad = (F.by_id[unfl], 'data is written to a file that is destroyed without closing it and testing the result, so a failure to write the buffered data is ignored')
                                elif unch:
                                    bad = (F.by_id[unch], 'the result of this operation is never tested: a failure goes unnoticed')
                if bad:
                    break
                # use of data that was read but not confirmed
                if unch and I.op == 'load':
                    R = F.by_id[unch]
                    if READ.search(R.dem or '') and '::read(' in R.dem and len(R.ops) > 1:
                        a, c = buf_root(F, R.ops[1]), buf_root(F, I.ops[0])
                        if a is not None and c is not None and a is c and a.op == 'alloca':
                            bad = (R, 'the data read here is used before the success of the read was tested')
                            break
                if I.op == 'ret':
                    if failed:
                        bad = (F.by_id[failed], 'the function returns normally although the stream reported a failure')
                    elif unch:
                        bad = (F.by_id[unch], 'the result of this operation is never tested: a failure goes unnoticed')
                    elif unfl and owned_out:
                        bad = (F.by_id[unfl], 'written data is not flushed and confirmed before the function returns')
                    break
            if bad:
                break
            t = F.blocks[b][-1]
            if t.op == 'br' and t.ops and len(F.succ[b]) == 2:
                for pol in (True, False):
                    nb = t.d['succ'][0 if pol else 1]
                    ns = (unfl, unch, failed)
                    for J, pp in cond_atoms(T, t.ops[0], pol):
                        if J.is_call and J.dem and CHECK.search(J.dem) and ident(F, J.ops[0]) == s:
                            checks += 1
                            good = pp != bool(NEG.search(J.dem))
                            if good:
                                ns = (ns[0], 0, 0)
                            else:
                                ns = (ns[0], ns[1], J.i)
                    work.append((nb, 0, ns))
            else:
                for nb in F.succ[b]:
                    work.append((nb, 0, (unfl, unch, failed)))
        what = 'stream %s in %s' % (show(s if s[0] != 'ld' else s[1], T) if s[0] in ('ld', 'arg') else varname(F, s), short(F.dem))
        if bad:
            ctx.bad('stream-failure-noticed', bad[0].where(), '%s: %s' % (what, bad[1]))
        else:
            ctx.ok('stream-failure-noticed', what)


def varname(F, s):
    if s[0] == 'alloca':
        I = F.by_id[s[1]]
        v = I.d.get('vars')
        return v[0][0] if v else 'temporary'
    return str(s)


def ev_int(T, t, env):
    """value of an integer term under env, or None"""
    if t in env:
        return env[t]
    if t[0] == 'c':
        return t[1]
    if t[0] == 'null':
        return 0
    if t[0] == 'cmp':
        a, b = ev_int(T, t[2], env), ev_int(T, t[3], env)
        if a is None or b is None:
            return None
        p = t[1]
        if p.startswith('u'):
            a &= (1 << 64) - 1
            b &= (1 << 64) - 1
        else:
            a, b = sgn(a), sgn(b)
        return {'eq': a == b, 'ne': a != b, 'slt': a < b, 'sgt': a > b, 'sle': a <= b, 'sge': a >= b, 'ult': a < b, 'ugt': a > b, 'ule': a <= b, 'uge': a >= b}[p]
    if t[0] in ('add', 'and', 'or', 'xor', 'lshr', 'sub') and len(t) == 3:
        a, b = ev_int(T, t[1], env), ev_int(T, t[2], env)
        if a is None or b is None:
            return None
        if t[0] == 'lshr':
            return (a & ((1 << 32) - 1)) >> b if a < 0 else a >> b
        return {'add': a + b, 'and': a & b, 'or': a | b, 'xor': a ^ b, 'sub': a - b}[t[0]]
    return None


def sgn(v):
    for w in (32, 64):
        if v >= 1 << (w - 1) and v < 1 << w:
            return v - (1 << w)
    return v


def cfuncs(ctx, F, tag=''):
    T = T_of(F)
    for I in F.calls():
        n = I.fn or ''
        n = n.lstrip('\x01')
        if n not in CFAIL:
            continue
        ctx.fn(F)
        me = T.term_inst(I)
        bad = None
        for v in CFAIL[n]:
            seen = set()
            st = [(I.blk, I.pos + 1)]
            while st and not bad:
                b, p = st.pop()
                for J in F.blocks[b][p:]:
                    if J.op == 'ret':
                        bad = (v, J)
                        break
                    if J is I:
                        break
                t = F.blocks[b][-1]
                if t.op == 'br' and t.ops and len(F.succ[b]) == 2:
                    x = ev_int(T, T.term(t.ops[0]), {me: v})
                    if x is None:
                        # conjunctions of tests
                        x = cond_val(T, t.ops[0], {me: v})
                    nxt = [t.d['succ'][0 if x else 1]] if x is not None else F.succ[b]
                elif t.op == 'switch':
                    x = ev_int(T, T.term(t.ops[0]), {me: v})
                    nxt = F.succ[b]
                    if x is not None:
                        ss, cs = t.d['succ'], t.d['cases']
                        nxt = [ss[1 + cs.index(c)] for c in cs if sgn(int(c)) == sgn(x)][:1] or [ss[0]]
                else:
                    nxt = F.succ[b]
                for y in nxt:
                    if y not in seen:
                        seen.add(y)
                        st.append((y, 0))
            if bad:
                break
        if bad:
            ctx.bad('system-call-failure-noticed', I.where(), '%s() can fail with result %d, but %s then still returns normally' % (n, bad[0], short(F.dem)))
        else:
            ctx.ok('system-call-failure-noticed', '%s%s %s' % (n, tag, I.where()))


def cond_val(T, ref, env):
    I = T.F.val(ref)
    if I is None:
        return None
    if I.op == 'select' and I.ty == 'i1':
        c, a, b = [cond_val(T, o, env) if 'v' in o else (o.get('c') not in ('0', None)) for o in I.ops]
        if c is not None:
            return a if c else b
        if a is not None and a == b:
            return a
        return None
    if I.op == 'xor':
        x = cond_val(T, I.ops[0], env)
        return None if x is None else not x
    if I.op in ('and', 'or'):
        a, b = [cond_val(T, o, env) for o in I.ops]
        if I.op == 'and':
            return False if a is False or b is False else (True if a and b else None)
        return True if a or b else (False if a is False and b is False else None)
    return ev_int(T, T.term(ref), env)


NULLABLE = re.compile(r'BufferedAsynchronousReader::read\(unsigned int\)$')


def end_of_data(ctx, F):
    """the result of an attempt to read from an asynchronous reader is null at the end of the data"""
    T = T_of(F)
    for I in F.calls(NULLABLE):
        ctx.fn(F)
        me = T.term_inst(I)
        bad = None
        for U in F.insts():
            uses = False
            if U.op in ('load',):
                uses = derived(F, U.ops[0], I)
            elif U.op == 'store':
                uses = derived(F, U.ops[1], I)
            elif U.is_call and not re.search(r'^llvm\.(dbg|lifetime)', U.dem or ''):
                uses = any(derived(F, o, I) for o in U.ops)
            elif U.op == 'getelementptr' and U.ops[0].get('v') == I.i:
                uses = True
            if uses and U.blk in F.reachable():
                ok = False
                for J, pol in facts(F, U.blk):
                    if isinstance(J, tuple):
                        continue
                    t = T.term_inst(J)
                    if t[0] == 'cmp' and t[1] in ('eq', 'ne') and me in (t[2], t[3]) and (('null',) in (t[2], t[3])):
                        if pol == (t[1] == 'ne'):
                            ok = True
                if not ok:
                    bad = U
                    break
        ctx.check(bad is None, 'end-of-data-tested', (bad or I).where(), 'data from the asynchronous reader is used without testing whether the end of the data was reached')


def truncation(ctx, F):
    """once part of a record was read, the end of the data is an error"""
    T = T_of(F)
    R = list(F.calls(NULLABLE))
    for B in R:
        if not any(A is not B and F.inst_dominates(A, B) and ident(F, A.ops[0]) == ident(F, B.ops[0]) for A in R):
            continue
        ctx.fn(F)
        me = T.term_inst(B)
        seen = set()
        st = [(B.blk, B.pos + 1)]
        bad = None
        while st and not bad:
            b, p = st.pop()
            for J in F.blocks[b][p:]:
                if J.op == 'ret' or J in R:
                    bad = J
                    break
            t = F.blocks[b][-1]
            nxt = F.succ[b]
            if t.op == 'br' and t.ops and len(nxt) == 2:
                x = cond_val(T, t.ops[0], {me: 0})
                if x is not None:
                    nxt = [t.d['succ'][0 if x else 1]]
            for y in nxt:
                if y not in seen:
                    seen.add(y)
                    st.append((y, 0))
        ctx.check(bad is None, 'truncation-noticed', B.where(), 'the data can end here in the middle of a record, but %s then carries on without reporting an error' % short(F.dem))


def exceptions(ctx, M):
    """nothing catches an exception without passing it on, and exceptions passed between threads arrive"""
    carried = set()
    for F in M.functions.values():
        T = T_of(F)
        for I in F.calls():
            if (I.fn or '') != '__cxa_begin_catch' or not any(f.startswith(M.repo) for f, l, c, n in I.loc()):
                continue
            ctx.fn(F)

            def passes(J):
                return J.is_call and bool(re.search(r'^(__cxa_rethrow|__cxa_throw|_ZSt9terminatev|abort)$', J.fn or '') or re.search(r'std::(current_exception|rethrow_exception|terminate)\(', J.dem or ''))
            lost, seen, st = None, set(), [(I.blk, I.pos + 1)]
            while st and lost is None:
                b, q = st.pop()
                stop = False
                for J in F.blocks[b][q:]:
                    if J.op == 'ret' or (J.fn or '') == '__cxa_end_catch':
                        lost = J
                        break
                    if passes(J):
                        stop = True
                        break
                if stop or lost is not None:
                    continue
                t = F.blocks[b][-1]
                for y in ([t.d['normal']] if t.op == 'invoke' else F.succ[b]):
                    if y not in seen:
                        seen.add(y)
                        st.append((y, 0))
            ctx.check(lost is None, 'exception-not-swallowed', I.where(), 'an exception is caught in %s and neither rethrown nor passed on' % short(F.dem))
        for I in F.calls(r'^std::current_exception\(\)'):
            for J in F.calls(r'^std::__exception_ptr::exception_ptr::(operator=|swap)'):
                a = T.addr_of(J.ops[0])
                if a[0] == 'f':
                    carried.add(a[2])
    for f in sorted(carried):
        found = False
        for F in M.functions.values():
            T = T_of(F)
            W = list(F.calls(r'^(void )?std::condition_variable::wait\b|^std::condition_variable::wait'))
            if not W or any(True for _ in F.calls(r'^std::current_exception\(\)')):
                continue
            tests = {J.i for J in F.calls() if J.ty == 'i1' and any(T.addr_of(o)[0] == 'f' and T.addr_of(o)[2] == f for o in J.ops if ('v' in o and F.by_id[o['v']].ty == 'ptr'))}
            ctx.fn(F)
            bad = None
            ends = {}
            for e in F.exits():
                r = F.blocks[e][-1]
                v = F.val(r.ops[0]) if r.ops else None
                if v is not None and v.op == 'phi' and v.ty == 'ptr':
                    for o, pb in zip(v.ops, v.d['in']):
                        if 'null' in o or o.get('c') == '0':
                            ends[pb] = r
                else:
                    ends[e] = r
            for W0 in W:
                # path to a normal return (of "end of data") that does not take the "no exception" side of a test
                seen, st = set(), [(W0.blk, W0.pos + 1)]
                while st and not bad:
                    b, p = st.pop()
                    bad = ends.get(b)
                    t = F.blocks[b][-1]
                    for k, y in enumerate(t.d['succ'] if t.op == 'br' else F.succ[b]):
                        if t.op == 'br' and t.ops and len(F.succ[b]) == 2:
                            if any(A.i in tests and (pp is False if not re.search(r'operator==|_M_is_null|operator!\(', A.dem or '') else pp) for A, pp in cond_atoms(T, t.ops[0], k == 0)):
                                continue
                        if y in F.succ[b] and y not in seen:
                            seen.add(y)
                            st.append((y, 0))
            found = found or bool(tests)
            ctx.check(bad is None, 'exception-delivered', (bad or W[0]).where(), '%s can report the end of the data although %s holds an exception of the other thread' % (short(F.dem), f))
            re_ = [J for J in F.calls(r'std::rethrow_exception')]
            ctx.check(bool(re_), 'exception-delivered', W[0].where(), '%s waits for the other thread but never rethrows its exception' % short(F.dem))


def derived(F, o, I, n=0):
    while 'v' in o and n < 20:
        if o['v'] == I.i:
            return True
        J = F.by_id[o['v']]
        if J.op in ('getelementptr', 'bitcast'):
            o = J.ops[0]
            n += 1
            continue
        return False
    return False


def run(ctx):
    M = build.module(opaque=[r'^RoutingKit::BufferedAsynchronousReader::read\('])
    ctx.use(M)
    for F in roots(M):
        streams(ctx, F)
        cfuncs(ctx, F)
        end_of_data(ctx, F)
        truncation(ctx, F)
    exceptions(ctx, build.module(keep_eh=True, no_inline=True))
    N = build.module(units=['file_data_source'], extra=('-DROUTING_KIT_NO_POSIX',), drivers=())
    ctx.use(N)
    for F in roots(N):
        cfuncs(ctx, F, ' (configured without POSIX)')
    ctx.floor('stream-failure-noticed', 8)
    ctx.floor('system-call-failure-noticed', 8)
    ctx.floor('end-of-data-tested', 2)
    ctx.floor('exception-not-swallowed', 1)
    return ctx.finish('Typestate analysis of every stream object (opened, read, written, flushed, tested) on all paths of all entry points, failing-value propagation through the flow graph for every POSIX, C stdio and zlib call, null-test dominance for end-of-data results, and reachability from every handler to a normal exit without the exception being passed on.',
                      ['the failbit of a stream is sticky, so seekg/tellg failures surface at the following tested read', 'callbacks that act as data source or sink report failures by throwing'])
