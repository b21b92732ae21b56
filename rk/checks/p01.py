"""P01: nothing outside the data that was read is accessed, whatever a PBF file contains."""
import re
from .. import build
from ..bounds import Bounds
from ..terms import short
from ..common import *

READ = r'BufferedAsynchronousReader::read(_or_throw)?\('
SIZE = {'i1': 1, 'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'float': 4, 'double': 8, 'ptr': 8}


ZERO = ('c', 0)


def run(ctx):
    M = build.module(opaque=[r'BufferedAsynchronousReader::read\(|BufferedAsynchronousReader::read_or_throw\('], mention=r'BufferedAsynchronousReader|varint', drivers=(), inline=build.STD_INLINE + [r'^std::pair<char|std::make_pair<'])
    ctx.use(M)
    fs = [F for F in M.functions.values() if F.d.get('from_repo') and any(re.search(READ, I.dem or '') for I in F.calls())]
    seen = set()
    # a helper that is part of a bigger function is analysed within it, every source location once
    for F in sorted(fs, key=lambda F: (len(F.blocks) > 1500, -len(F.blocks))):
        locs = {I.where() for I in F.calls(READ)}
        if {I.where() for I in F.calls(READ)} <= seen and (len(F.blocks) > 1500 or not is_root(F, M)):
            continue
        seen |= locs
        if re.search(READ, F.dem):
            reader(ctx, F)
        else:
            one(ctx, F)
    for r, n in (('readable-byte', 20), ('progress', 4)):
        ctx.floor(r, n)
    return ctx.finish(EXPL, ASSUME)


EXPL = ('Every function that consumes data of a BufferedAsynchronousReader, with everything it calls inlined, was analysed on its SSA form. A pointer into the data is a cursor; '
        'a cursor p and an end e form a range if p <= e and everything between them was delivered by one read (proved by coinduction over the loops: initial values come from '
        'read(n) and begin + n, or from a range that was proved before it was put into a list; every advance is covered by a dominating comparison with the end). '
        'Every load, store and copy through a cursor, every index into the table of strings, every copy into a local or caller supplied buffer and every number of bytes '
        'that the decompressor announces is one obligation; and every loop over a cursor must move it forward.')
ASSUME = ['BufferedAsynchronousReader::read(n) returns null or a pointer to n bytes that stay valid until the next read (its own comparisons of n are checked, its ring buffer arithmetic is not)',
          'zlib reads at most avail_in bytes and writes at most avail_out bytes',
          'the buffer handed to the decompressor has the size that is handed to it together with it, at least 4 bytes',
          'TagMap::build calls its callbacks with indices smaller than the number it was given']


def at(I):
    c = I.chain().split(' <- ')
    w = I.where()
    for x in c[1:]:
        if not re.search(r'protobuf\.(h|cpp)', x):
            return '%s, from %s' % (w, x)
    return w


def one(ctx, F):
    ctx.fn(F)
    T = T_of(F)
    B = Bounds(F, lambda I: I.ops[1] if re.search(READ, I.dem or '') else None)
    pairs(ctx, F, B)
    B.settle()
    for b in sorted(F.reachable()):
        for I in F.blocks[b]:
            if I.op == 'load' or I.op == 'store':
                ref = I.ops[0] if I.op == 'load' else I.ops[1]
                p = B.lin(ref)
                if not B.data(p):
                    local(ctx, F, B, I, ref, b)
                    continue
                n = SIZE.get(I.ty if I.op == 'load' else I.d.get('vty'), 1)
                ctx.check(B.room(p, ('c', n), b) or (I.op == 'store' and last_byte(B, p, b)), 'readable-byte' if I.op == 'load' else 'writable-byte', at(I), '%d bytes are %s at a position that was not tested to be in front of the end of the data' % (n, 'read' if I.op == 'load' else 'written'))
            elif I.is_call and re.match(r'llvm\.mem(cpy|move|set)|mem(cpy|move|set)$', I.dem or ''):
                p, n = B.lin(I.ops[1]), B.val(I.ops[2])
                D = B.lin(I.ops[0])
                src = 'memset' not in I.dem and B.data(p)
                if src:
                    ctx.check(copied(B, p, I.ops[2], b), 'readable-range', at(I), '%s bytes of the data are copied that are not known to be inside of it' % show(T.term(I.ops[2]), T))
                if B.data(D):
                    ctx.check(copied(B, D, I.ops[2], b) or copied(B, B.shift(D, 1), I.ops[2], b) and before(B, B.shift(D, 1), b), 'writable-range', at(I), '%s bytes are written into the data that are not known to be inside of it' % show(T.term(I.ops[2]), T))
                A = F.by_id.get(D[0][1]) if D[0][0] == 'v' else None
                if src and A is not None and A.op == 'alloca':
                    u = ubound(B, I.ops[2], b)
                    ctx.check(u is not None and D[1] + u <= A.d.get('asz', 0), 'local-buffer', at(I), 'up to %s bytes are copied into a local buffer of %s bytes' % (u, A.d.get('asz')))
                if src and D[0][0] == 'a':
                    fits(ctx, F, B, I, D, I.ops[2], b)
            elif I.is_call and re.search(r'\b(inflate|uncompress2?)$', I.dem or ''):
                zstream(ctx, F, B, I)
    nonnull(ctx, F, B)
    strings(ctx, F, B)
    progress(ctx, F, B)
    returned(ctx, F, B)


def nonnull(ctx, F, B):
    """data that a read which may fail returned is used only after the test for null"""
    users = {}
    for I in F.insts():
        for o in I.ops:
            if 'v' in o:
                users.setdefault(o['v'], []).append(I)
    for R in F.calls(r'BufferedAsynchronousReader::read\('):
        if R.blk not in F.reachable():
            continue

        def tested(b, edge=None):
            return any(f.d['pred'] in ('eq', 'ne') and (f.d['pred'] == 'ne') == pol and {('null',), ('v', R.i)} == {B.lin(o)[0] for o in f.ops} for f, pol in B.facts(b, edge))

        todo, seen = [R.i], set()
        while todo:
            i = todo.pop()
            if i in seen:
                continue
            seen.add(i)
            for U in users.get(i, []):
                if U.op in ('getelementptr', 'freeze', 'bitcast'):
                    todo.append(U.i)
                elif U.op == 'phi':
                    for x, q in zip(U.ops, U.d['in']):
                        if x.get('v') == i and not tested(q, U.blk) and U.i not in seen:
                            todo.append(U.i)
                elif U.op == 'load' or U.op == 'store' and U.ops[1].get('v') == i or U.is_call and re.match(r'llvm\.mem|mem(cpy|move)$', U.dem or ''):
                    ctx.check(tested(U.blk), 'end-of-file-tested', at(U), 'the result of BufferedAsynchronousReader::read is used without a test for the end of the file')


def local(ctx, F, B, I, ref, b):
    """an element of a local array of bytes at a position that depends on data"""
    G = F.val(ref)
    if G is None or G.op != 'getelementptr' or not G.d.get('var') or len(G.d['var']) != 1:
        return
    A = F.val(G.ops[0])
    if A is None or A.op != 'alloca' or not re.match(r'\[\d+ x i\d+\]', A.d.get('aty', '')):
        return
    u = ubound(B, G.d['var'][0][0], b)
    sc = G.d['var'][0][1]
    w = SIZE.get(I.ty if I.op == 'load' else I.d.get('vty'), 1)
    ctx.check(u is not None and G.d['off'] + u * sc + w <= A.d['asz'], 'local-buffer', at(I), 'position %s of a local buffer of %d bytes is accessed' % ('up to %d' % u if u is not None else 'without bound', A.d['asz']))


def le_cap(B, n, cap, o, b, edge=None):
    """n <= cap - o on the way to b"""
    F, T = B.F, T_of(B.F)
    want = T.term(n) if not isinstance(n, tuple) else n
    cap = T.term(cap)
    lim = [('add', cap, ('c', -o)), ('add', cap, ('c', (1 << 64) - o)), ('sub', cap, ('c', o))]
    if any(want == l for l in lim):
        return True
    for f, pol in B.facts(b, edge):
        r = f.d['pred'] if pol else {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'ugt': 'ule', 'ule': 'ugt', 'uge': 'ult'}.get(f.d['pred'])
        for x, y, ok in ((f.ops[0], f.ops[1], ('eq', 'ult', 'ule')), (f.ops[1], f.ops[0], ('eq', 'ugt', 'uge'))):
            if r in ok and T.term(x) == want and upper(T.term(y), cap, o):
                return True
    I = F.val(n) if not isinstance(n, tuple) else None
    if I is not None and I.op in ('trunc', 'zext', 'and', 'freeze'):
        return le_cap(B, I.ops[0], {'a': cap[1]} if cap[0] == 'arg' else cap, o, b, edge)
    return False


def upper(t, cap, o):
    """is the term at most cap - o"""
    if t[0] == 'add' and len(t) == 3 and t[1] == cap and t[2][0] == 'c':
        k = t[2][1]
        k = k - (1 << 64) if k >= 1 << 63 else k
        return k <= -o
    if t[0] == 'sub' and len(t) == 3 and t[1] == cap and t[2][0] == 'c':
        return t[2][1] >= o
    return t == cap and o == 0


def buffer_args(F, D):
    """the argument with the size of the buffer, if D is a buffer argument"""
    ps = F.d.get('params') or []
    a = D[0][1]
    if a + 1 < len(ps) and ps[a + 1].get('ty') == 'i64' and ps[a].get('ty') == 'ptr':
        return a + 1
    return None


def fits(ctx, F, B, I, D, n, b):
    c = buffer_args(F, D)
    if c is None:
        return
    ctx.check(le_cap(B, n, {'a': c}, D[1], b), 'caller-buffer', at(I), 'more bytes may be copied than the buffer has behind the first %d bytes' % D[1])


def zstream(ctx, F, B, I):
    T = T_of(F)
    z = T.addr_of(I.ops[0])
    if z[0] == 'f' and z[2] == 'next_in':
        z = z[1]
    st = {}
    for J in F.insts():
        if J.op == 'store' and F.inst_dominates(J, I):
            X = T.addr_of(J.ops[1])
            if X[0] == 'f' and X[1] == z and X[2] in ('next_in', 'avail_in', 'next_out', 'avail_out') or X == z:
                st[X[2] if X != z else 'next_in'] = J
    if 'next_in' in st and 'avail_in' in st:
        J = st['avail_in']
        p = B.lin(st['next_in'].ops[0])
        if B.data(p):
            ctx.check(copied(B, p, J.ops[0], J.blk), 'compressed-range', at(J), 'zlib is told to read bytes that are not known to be data of the file')
    else:
        ctx.notes.append('input of %s not recognised' % I.dem)
    if 'next_out' in st and 'avail_out' in st:
        D = B.lin(st['next_out'].ops[0])
        J = st['avail_out']
        if D[0][0] == 'a' and buffer_args(F, D) is not None:
            ctx.check(le_cap(B, J.ops[0], {'a': buffer_args(F, D)}, D[1], J.blk), 'decompressed-range', at(J), 'zlib is told to write more bytes than the buffer has behind the first %d bytes' % D[1])


def returned(ctx, F, B):
    """a source of bytes must not announce more bytes than it was asked for, nor bytes that it did not write"""
    ps = F.d.get('params') or []
    if len(ps) < 2 or ps[-1].get('ty') != 'i64' or ps[-2].get('ty') != 'ptr' or F.d.get('ret') not in (None, 'i64'):
        return
    cap = len(ps) - 1
    T = T_of(F)
    done = set()

    def go(ref, b, edge):
        I = F.val(ref)
        if (I.i if I else str(ref), b, edge) in done:
            return
        done.add((I.i if I else str(ref), b, edge))
        if I is not None and I.op == 'phi':
            for x, q in zip(I.ops, I.d['in']):
                go(x, q, I.blk)
            return
        t = T.term(ref)
        if t[0] == 'c':
            ctx.check(t[1] <= 4, 'announced-bytes', I.where() if I else '%s:%d' % (F.file, F.line), '%s bytes are announced that were not written' % t[1])
            return
        o = 0
        n = ref
        if I is not None and I.op == 'add' and B.val(I.ops[1])[0] == 'c':
            o, n = B.val(I.ops[1])[1], I.ops[0]
        ctx.check(le_cap(B, n, {'a': cap}, o, b, edge), 'announced-bytes', at(I) if I else F.sname, 'more bytes may be announced than the buffer can hold')
        # the bytes were written
        w = False
        tn = T.term(n)
        for J in F.calls():
            if re.match(r'llvm\.mem(cpy|move)|mem(cpy|move)$', J.dem or '') and B.lin(J.ops[0]) == (('a', cap - 1), o) and T.term(J.ops[2]) == tn and (F.dominates(J.blk, b)):
                w = True
        for f, pol in B.facts(b, edge):
            if f.d['pred'] in ('eq', 'ne') and (f.d['pred'] == 'eq') == pol:
                x, y = T.term(f.ops[0]), T.term(f.ops[1])
                for u, v in ((x, y), (y, x)):
                    if v == tn and u[0] == 'ld' and 'total_out' in str(u):
                        w = True
        if 'total_out' in str(tn):
            w = True
        ctx.check(w, 'announced-bytes-written', at(I) if I else F.sname, 'bytes are announced although it is not known that as many were written')

    for b in F.reachable():
        t = F.blocks[b][-1]
        if t.op == 'ret' and t.ops and F.ret_is_int(t) if hasattr(F, 'ret_is_int') else t.op == 'ret' and t.ops:
            go(t.ops[0], b, None)


def strings(ctx, F, B):
    """tables of strings: what is put into them is terminated, what is taken from them has a valid index"""
    T = T_of(F)
    R = F.reachable()
    tabs = set()
    for I in F.calls(r'std::vector<char const\*, .*>::(push_back|emplace_back)'):
        if I.blk not in R:
            continue
        V = T.addr_of(I.ops[0])
        tabs.add(V)
        q = pushed(F, T, I)
        if q is None or not B.data(B.lin(q)):
            continue
        q = B.lin(q)
        ok = False
        for J in F.insts():
            if J.op == 'store' and J.ops[0].get('c') == '0' and F.inst_dominates(J, I):
                b, o = B.lin(J.ops[1])
                if b == q[0] and o >= q[1]:
                    ok = True
                # q + length
                if b[0] == 'vg' and b[1][0] == q[0] and b[1][1] + o >= q[1]:
                    ok = True
        ctx.check(ok, 'terminated-string', at(I), 'a string of the file is put into the table without a terminating zero behind it')
    sizes = {}
    for I in F.insts():
        if I.op == 'load' and I.blk in R:
            A = T.addr_of(I.ops[0])
            if A[0] != 'at' or A[1][0] not in ('alloca', 'arg', 'f'):
                continue
            V, i = A[1], A[2]
            if V in tabs:
                ctx.check(below(F, T, i, V, I.blk), 'string-index', at(I), 'a string is looked up with an index that was not compared with the number of strings')
            elif V[0] == 'alloca' and i[0] != 'c':
                sizes.setdefault(i, set()).add(V)
    for V, W in sorted({tuple(sorted((V, W), key=str)) for vs in sizes.values() for V in vs for W in vs if V != W}, key=str):
        parallel(ctx, F, T, V, W)


def pushed(F, T, I):
    """the pointer that is appended"""
    x = F.val(I.ops[1])
    if x is not None and x.op == 'alloca':
        best = None
        for J in F.insts():
            if J.op == 'store' and J.ops[1] == I.ops[1] and F.inst_dominates(J, I):
                best = J if best is None or F.inst_dominates(best, J) else best
        return best.ops[0] if best is not None else None
    return I.ops[1]


def below(F, T, i, V, b):
    for f, pol in facts(F, b):
        if isinstance(f, tuple) or f.op != 'icmp':
            continue
        r = f.d['pred'] if pol else {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'ugt': 'ule', 'ule': 'ugt', 'uge': 'ult'}.get(f.d['pred'])
        x, y = T.term(f.ops[0]), T.term(f.ops[1])
        if r == 'ult' and x == i and y == ('size', V) or r == 'ugt' and y == i and x == ('size', V):
            return True
    return False


def parallel(ctx, F, T, V, W):
    """V and W are read with the same index: both grow and are emptied together"""
    R = F.reachable()
    ops = {V: [], W: []}
    for J in F.calls(r'std::vector<.*>::(push_back|emplace_back|clear|resize|assign|pop_back|insert|erase)'):
        if J.blk in R:
            A = T.addr_of(J.ops[0])
            if A in ops:
                ops[A].append(J)
    kind = lambda J: 'clear' if '::clear(' in J.dem else 'push' if re.search(r'::(push|emplace)_back', J.dem) else 'other'
    if any(kind(J) == 'other' for X in ops.values() for J in X):
        return
    loops = {J.i: frozenset(h for h, body in F.loops().items() if J.blk in body) for X in ops.values() for J in X}
    for X, Y in ((V, W), (W, V)):
        for J in ops[X]:
            ok = any(kind(K) == kind(J) and loops[K.i] == loops[J.i] and (F.inst_dominates(J, K) or F.inst_dominates(K, J)) and together(F, J, K) for K in ops[Y])
            ctx.check(ok, 'parallel-lists', at(J), '%s changes without %s, although both are read with the same index' % (show(X, T), show(Y, T)))


def together(F, J, K):
    """on every way from the first to the next turn of the loop or to a normal end, the second is reached"""
    a, b = (J, K) if F.inst_dominates(J, K) else (K, J)
    if a.blk == b.blk:
        return True
    # from a, without b, can a be reached again or the function be left normally
    seen, todo = set(), list(F.succ[a.blk])
    while todo:
        x = todo.pop()
        if x == b.blk or x in seen:
            continue
        if x == a.blk:
            return False
        seen.add(x)
        if F.blocks[x][-1].op == 'ret':
            return False
        todo.extend(F.succ[x])
    return True


def progress(ctx, F, B):
    """a loop that is left when a cursor reaches its end moves a cursor forward in every turn"""
    R = F.reachable()
    for h, body in sorted(F.loops().items()):
        if h not in R:
            continue
        phis = [I for I in F.blocks[h] if I.op == 'phi' and I.ty == 'ptr' and B.data((('v', I.i), 0))]
        if not phis:
            continue
        # loops over something else that only carry cursors along
        ends = False
        for b in body:
            t = F.blocks[b][-1]
            if t.op == 'br' and len(t.d.get('succ', [])) == 2:
                for c in cond_insts(F, t.ops[0]):
                    if c.op == 'icmp' and any(depends(F, B, o, {p.i for p in phis}) for o in c.ops):
                        ends = True
        if not ends:
            continue
        back = [q for q in F.pred[h] if q in body]
        # some cursor moves in every turn, none moves backward: prove one that moves on all back edges, or one per edge
        if not carried(F, B, h, body, phis):
            continue
        ok = True
        for q in back:
            if not any(ahead(F, B, B.lin(I.ops[I.d['in'].index(q)]), I, True) for I in phis):
                ok = False
        ctx.check(ok, 'progress', at(phis[0]), 'the loop may take a turn without reading anything, so it need not end')


def carried(F, B, h, body, phis):
    """is a cursor changed in the loop at all, or its end compared"""
    for b in body:
        t = F.blocks[b][-1]
        if t.op == 'br' and len(t.d.get('succ', [])) == 2 and any(s not in body for s in t.d['succ']):
            for c in cond_insts(F, t.ops[0]):
                if c.op == 'icmp' and any(depends(F, B, o, {p.i for p in phis}) for o in c.ops):
                    return True
    return False


def cond_insts(F, ref):
    out, todo, seen = [], [ref], set()
    while todo:
        r = todo.pop()
        I = F.val(r)
        if I is None or I.i in seen:
            continue
        seen.add(I.i)
        out.append(I)
        if I.op in ('and', 'or', 'xor', 'select', 'freeze') and I.ty == 'i1':
            todo.extend(I.ops)
    return out


def depends(F, B, ref, phis):
    """does a pointer operand derive from one of the phis"""
    todo, seen = [ref], set()
    while todo:
        I = F.val(todo.pop())
        if I is None or I.i in seen:
            continue
        seen.add(I.i)
        if I.i in phis:
            return True
        if I.op in ('getelementptr', 'phi', 'select', 'freeze', 'ptrtoint', 'sub', 'bitcast'):
            todo.extend(I.ops)
    return False


def ahead(F, B, l, P, strict, seen=None):
    """l >= P (or l > P if strict), where P is the value at the head of the loop"""
    seen = seen if seen is not None else set()
    b, o = l
    while b[0] == 'vg':
        # a length that is not negative
        (b, o2) = b[1]
        o += o2
    if b == ('v', P.i):
        return o > 0 if strict else o >= 0
    if b[0] != 'v' or (b, strict, o > 0) in seen:
        return b[0] == 'v'
    seen.add((b, strict, o > 0))
    I = F.by_id[b[1]]
    if I.op == 'phi':
        return all(ahead(F, B, B.lin(x), P, strict and o <= 0, seen) for x in I.ops)
    if I.op == 'select':
        return all(ahead(F, B, B.lin(x), P, strict and o <= 0, seen) for x in I.ops[1:])
    return False


def reader(ctx, F):
    """read returns data only after it compared the size with what there is; read_or_throw never returns null"""
    ctx.fn(F)
    T = T_of(F)
    B = Bounds(F, lambda I: None)
    size = {('a', 1)}
    for I in F.insts():
        # captured by reference
        if I.op == 'load' and 'v' in I.ops[0] and F.val(I.ops[0]).op == 'alloca':
            st = [J for J in F.insts() if J.op == 'store' and J.ops[1] == I.ops[0]]
            if len(st) == 1 and st[0].ops[0].get('a') == 1:
                size.add(('v', I.i))
    for b in F.reachable():
        t = F.blocks[b][-1]
        if t.op != 'ret' or not t.ops:
            continue
        todo, seen = [(t.ops[0], b, None)], set()
        while todo:
            r, q, e = todo.pop()
            I = F.val(r)
            if I is not None and I.op == 'phi' and I.i not in seen:
                seen.add(I.i)
                todo.extend((x, y, I.blk) for x, y in zip(I.ops, I.d['in']))
                continue
            if 'null' in r:
                ctx.check('or_throw' not in F.dem, 'read-or-throw', '%s:%d' % (F.file, F.line), 'null is returned although the caller relies on data')
                continue
            fs = B.facts(q, e)
            if 'or_throw' in F.dem:
                ok = any(f.d['pred'] in ('eq', 'ne') and (f.d['pred'] == 'ne') == pol and any('null' in o for o in f.ops) and r in f.ops for f, pol in fs)
                ctx.check(ok, 'read-or-throw', I.where() if I else F.sname, 'the result of read is returned without a test for null')
                continue
            ok = 0
            for f, pol in fs:
                r2 = f.d['pred'] if pol else {'ult': 'uge', 'ugt': 'ule', 'ule': 'ugt', 'uge': 'ult'}.get(f.d['pred'])
                x, y = B.val(f.ops[0]), B.val(f.ops[1])
                if y in size and r2 in ('uge', 'eq') or x in size and r2 in ('ule', 'eq'):
                    ok += 1
            ctx.check(ok >= 2, 'read-size', I.where() if I else F.sname, 'data is returned although the size was not compared with the block size and with the number of bytes in the buffer')


def before(B, p, b):
    """the byte in front of p is data, too"""
    return p[1] >= 1 and B.room((p[0], p[1] - 1), ('c', 1), b)


def last_byte(B, p, b):
    """the byte in front of the end of a range in front of which there is a byte"""
    base, o = p
    if base[0] != 'vg':
        return False
    q, n = base[1], base[2]
    s = (q[0], q[1] + o + 1)
    return B.valid(s, (('vg', s, n), 0), b) and before(B, s, b)


def copied(B, p, ref, b, edge=None, seen=()):
    """are the first ref bytes at p readable"""
    F = B.F
    n = B.val(ref)
    d = B.diff(ref)
    if d is not None and d[1] == p and B.valid(p, d[0], b, edge):
        return True
    if n in seen:
        return False
    seen = seen + (n,)
    if B.room(p, n, b, edge):
        return True
    # equal to, or at most, the length of the range
    for f, pol in B.facts(b, edge):
        r = f.d['pred'] if pol else {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'ugt': 'ule', 'ule': 'ugt', 'uge': 'ult'}.get(f.d['pred'])
        for x, y, ok in ((f.ops[0], f.ops[1], ('eq', 'ult', 'ule')), (f.ops[1], f.ops[0], ('eq', 'ugt', 'uge'))):
            if r in ok and B.val(x) == n and B.diff(y) is not None:
                e, s = B.diff(y)
                if s == p and B.valid(p, e, b, edge):
                    return True
    I = F.by_id.get(n[1]) if n[0] == 'v' else None
    if I is None:
        return False
    if I.op in ('trunc', 'and', 'lshr', 'udiv', 'urem') and 'v' in I.ops[0]:
        # no more than the operand
        return copied(B, p, I.ops[0], b, edge, seen)
    if I.op == 'phi':
        return all(copied(B, p, o, q, I.blk, seen) for o, q in zip(I.ops, I.d['in']))
    if I.is_call and 'umin' in (I.dem or ''):
        return any(copied(B, p, o, b, edge, seen) for o in I.ops[:2])
    if I.op == 'select':
        c = F.val(I.ops[0])
        if c is not None and c.op == 'icmp':
            k = (b, edge)
            base = B.facts(b, edge)
            r = []
            for o, pol in ((I.ops[1], True), (I.ops[2], False)):
                B._ef[k] = base + [(c, pol)]
                r.append(copied(B, p, o, b, edge, seen))
            B._ef[k] = base
            return all(r)
    return False


def ubound(B, ref, b, edge=None, seen=()):
    """the largest value ref can have, or None"""
    F = B.F
    n = B.val(ref)
    if n[0] == 'c':
        return n[1]
    if n in seen:
        return None
    seen = seen + (n,)
    out = []
    for f, pol in B.facts(b, edge):
        r = f.d['pred'] if pol else {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'ugt': 'ule', 'ule': 'ugt', 'uge': 'ult'}.get(f.d['pred'])
        for x, y, m in ((f.ops[0], f.ops[1], {'eq': 0, 'ult': -1, 'ule': 0}), (f.ops[1], f.ops[0], {'eq': 0, 'ugt': -1, 'uge': 0})):
            c = B.val(y)
            if r in m and c[0] == 'c' and B.val(x) == n:
                out.append(c[1] + m[r])
    for v, m, w in B.masks(B.facts(b, edge), False):
        if v == n and w >= 64:
            out.append(m - 1)
    I = F.by_id.get(n[1]) if n[0] == 'v' else None
    if I is None:
        return min(out) if out else None
    if I.op == 'and':
        for o in I.ops:
            c = B.val(o)
            if c[0] == 'c':
                out.append(c[1])
                w = c[1]
                # the facts may speak of the truncated value
                x = I.ops[0] if o is I.ops[1] else I.ops[1]
                if w == 0xffffffff:
                    y = lower(B, x, b, edge, seen)
                    if y is not None:
                        out.append(y)
            elif 'v' in o:
                y = ubound(B, o, b, edge, seen)
                if y is not None:
                    out.append(y)
    elif I.op == 'trunc':
        y = ubound(B, I.ops[0], b, edge, seen)
        if y is not None:
            out.append(y)
    elif I.op == 'phi':
        y = [ubound(B, o, q, I.blk, seen) for o, q in zip(I.ops, I.d['in'])]
        if None not in y:
            out.append(max(y))
    elif I.op == 'select':
        c = F.val(I.ops[0])
        k = (b, edge)
        base = B.facts(b, edge)
        y = []
        for o, pol in ((I.ops[1], True), (I.ops[2], False)):
            if c is not None and c.op == 'icmp':
                B._ef[k] = base + [(c, pol)]
            y.append(ubound(B, o, b, edge, seen))
        B._ef[k] = base
        if None not in y:
            out.append(max(y))
    elif I.is_call and 'umin' in (I.dem or ''):
        y = [y for y in (ubound(B, o, b, edge, seen) for o in I.ops[:2]) if y is not None]
        if y:
            out.append(min(y))
    elif I.op == 'urem' and B.val(I.ops[1])[0] == 'c':
        out.append(B.val(I.ops[1])[1] - 1)
    return min(out) if out else None


def lower(B, ref, b, edge, seen):
    """the largest value the lower 32 bit of ref can have"""
    F = B.F
    n = B.val(ref)
    if n[0] == 'c':
        return n[1] & 0xffffffff
    if ('low', n) in seen:
        return None
    seen = seen + (('low', n),)
    out = []
    for f, pol in B.facts(b, edge):
        r = f.d['pred'] if pol else {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'ugt': 'ule', 'ule': 'ugt', 'uge': 'ult'}.get(f.d['pred'])
        for x, y, m in ((f.ops[0], f.ops[1], {'eq': 0, 'ult': -1, 'ule': 0}), (f.ops[1], f.ops[0], {'eq': 0, 'ugt': -1, 'uge': 0})):
            c = B.val(y)
            if r in m and c[0] == 'c' and low(B, x) == n:
                out.append(c[1] + m[r])
    for v, m, w in B.masks(B.facts(b, edge), False):
        if v == n and w >= 32:
            out.append(m - 1)
    I = F.by_id.get(n[1]) if n[0] == 'v' else None
    if I is not None and I.op == 'phi':
        y = [lower(B, o, q, I.blk, seen) for o, q in zip(I.ops, I.d['in'])]
        if None not in y:
            out.append(max(y))
    y = ubound(B, ref, b, edge, seen)
    if y is not None and y <= 0xffffffff:
        out.append(y)
    return min(out) if out else None


def low(B, ref):
    """the value whose lower 32 bit ref is"""
    I = B.F.val(ref)
    while I is not None and I.op in ('zext', 'freeze'):
        I = B.F.val(I.ops[0])
    if I is not None and I.op == 'trunc' and I.ty == 'i32':
        return B.val(I.ops[0])
    if I is not None and I.op == 'and' and B.val(I.ops[1]) == ('c', 0xffffffff):
        return B.val(I.ops[0])
    return None


def stored(F, ref, I):
    """the value behind a reference to a local variable at I"""
    best = None
    for J in F.insts():
        if J.op == 'store' and J.ops[1] == ref and F.inst_dominates(J, I):
            best = J if best is None or F.inst_dominates(best, J) else best
    return best.ops[0] if best is not None else None


def pairs(ctx, F, B):
    """ranges that are put into a list"""
    T = T_of(F)
    obl = []
    for I in F.calls(r'std::vector<std::pair<(char const\*|char\*), (char const\*|char\*)>'):
        if not re.search(r'::(push_back|emplace_back)\b', I.dem) or I.blk not in F.reachable():
            continue
        V = T.addr_of(I.ops[0])
        x = y = None
        if len(I.ops) == 3:
            x, y = stored(F, I.ops[1], I), stored(F, I.ops[2], I)
        else:
            A = B.lin(I.ops[1])
            for J in F.insts():
                if not F.inst_dominates(J, I):
                    continue
                if J.op == 'store' and B.lin(J.ops[1]) == A:
                    x = J.ops[0]
                elif J.op == 'store' and B.lin(J.ops[1]) == (A[0], A[1] + 8):
                    y = J.ops[0]
                elif J.is_call and re.search(r'std::pair<.*>::pair', J.dem or '') and len(J.ops) == 3 and B.lin(J.ops[0]) == A:
                    x, y = (stored(F, o, J) if F.val(o) is not None and F.val(o).op == 'alloca' else o for o in J.ops[1:])
        if x is None or y is None:
            ctx.notes.append('the range that is stored at %s was not recognised' % I.where())
            continue
        B.elems[V] = []
        obl.append((I, B.lin(x), B.lin(y)))
    for I, x, y in obl:
        ctx.check(B.valid(x, y, I.blk), 'stored-range', at(I), 'a range is kept whose bounds are not known to be those of data')
