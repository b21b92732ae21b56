"""F01: what is saved can be loaded again: writers and readers agree on the layout, and files of a wrong size or kind are rejected."""
import re
from .. import build
from ..common import *
from ..evalx import Eval

SINK = re.compile(r'std::function<void \(char const\*, unsigned long long\)>::operator\(\)')
SOURCE = re.compile(r'std::function<void \(char\*, unsigned long long\)>::operator\(\)')
OUT = re.compile(r'^(std::ostream|std::basic_ostream<.*>)::write\(')
IN = re.compile(r'^(std::istream|std::basic_istream<.*>)::read\(')
VASSIGN = re.compile(r'^std::vector<.*>::(operator=|swap|vector)\(')
BVCALL = re.compile(r'RoutingKit::BitVector::(operator=|BitVector|swap)\(')


def strip_root(t):
    """(root term, [member names])"""
    names = []
    while True:
        if t[0] in ('ld', 'addr', 'data', 'off', 'uptr'):
            t = t[1]
        elif t[0] == 'at' or t[0] == 'ix':
            if t[2] == ('c', 0):
                t = t[1]
            else:
                return ('elem', t), names
        elif t[0] == 'f':
            if t[2] not in ('data_', 'size_'):
                names.insert(0, t[2])
            t = t[1]
        else:
            return t, names


class Seq:
    """the sequence of transfers of a function, or why it cannot be determined"""

    def __init__(self, F, rx):
        self.F, self.T = F, T_of(F)
        ops = [I for I in F.calls() if I.dem and rx(I.dem)]
        inloop = set()
        for h, body in F.loops().items():
            inloop |= body
        self.loop = any(I.blk in inloop for I in ops)
        order = {b: k for k, b in enumerate(F.rpo())}
        ops.sort(key=lambda I: (order[I.blk], I.pos))
        self.ops = ops
        self.linear = not self.loop and all(F.inst_dominates(a, b) for a, b in zip(ops, ops[1:]))

    def buf(self, I):
        return self.T.addr_of(I.ops[1])


def count_of(path, n, f, b):
    if not path:
        return None
    if path[-1] in ('rank', 'order'):
        return n
    if path[-1] == 'first_out':
        return n + 1
    if 'forward' in path:
        return f
    if 'backward' in path:
        return b
    return None


SAMPLES = [(0, 0, 0), (1, 0, 0), (5, 3, 4), (7, 511, 2), (513, 512, 1024), (1000, 513, 1537), (100000, 250001, 300007), (2000000000, 4000000001, 4100000003), (4294967294, 4294967295, 4294967294), (4294967295, 4294967295, 4294967295)]


def wleaf(F, smp, hdr):
    n, f, b = smp

    def leaf(t, I):
        if t[0] in ('bytes', 'size'):
            r, p = strip_root(t[1])
            c = count_of(p, n, f, b)
            if c is not None:
                return c * 4 if t[0] == 'bytes' else c
        if t[0] == 'ld':
            r, p = strip_root(t[1])
            if p and p[-1] == 'is_shortcut_an_original_arc':
                return count_of(p, n, f, b)
            if p and p[-1] in hdr:
                return hdr[p[-1]]
        return None
    return leaf


def ch_writer(ctx, F):
    S = Seq(F, SINK.search)
    T = S.T
    if not S.linear or not S.ops:
        ctx.notes.append('%s transfers data in a loop or conditionally; its layout is not compared' % short(F.dem))
        return None
    hdr_addr = strip_root(S.buf(S.ops[0]))[0]
    hdr_stores = {}
    for I in F.insts():
        if I.op == 'store' and I.blk in F.reachable():
            r, p = strip_root(T.addr_of(I.ops[1]))
            if r == hdr_addr and p:
                hdr_stores[p[-1]] = I
    out = []
    for k, I in enumerate(S.ops):
        r, p = strip_root(S.buf(I))
        out.append(p if k else ['<header>'])
    samples = []
    for smp in SAMPLES:
        E = Eval(F, wleaf(F, smp, {}))
        hdr = {k: E.ref(I.ops[0]) for k, I in hdr_stores.items()}
        lens = [E.ref(I.ops[2]) for I in S.ops]
        samples.append((smp, hdr, lens))
    return {'F': F, 'paths': out, 'samples': samples, 'ops': S.ops, 'hdr': hdr_stores}


def dest_path(F, T, root):
    """member a local buffer object ends up in"""
    for I in F.insts():
        if I.blk not in F.reachable():
            continue
        if I.is_call and I.dem and (VASSIGN.search(I.dem) or BVCALL.search(I.dem)) and len(I.ops) >= 2:
            r, p = strip_root(T.obj_of(I.ops[1]))
            if r == root and not p:
                r2, p2 = strip_root(T.addr_of(I.ops[0]))
                if p2:
                    return p2
                if r2 != root and r2[0] == 'alloca':
                    q = dest_path(F, T, r2)
                    if q:
                        return q
            if 'swap' in I.dem:
                r, p = strip_root(T.obj_of(I.ops[0]))
                if r == root and not p:
                    p2 = strip_root(T.addr_of(I.ops[1]))[1]
                    if p2:
                        return p2
        if I.op == 'store':
            v = T.term(I.ops[0])
            if v[0] == 'ld':
                r, p = strip_root(v[1])
                if r == root and not p:
                    r2, p2 = strip_root(T.addr_of(I.ops[1]))
                    if p2 and r2 != root:
                        return p2
    return None


def capacity(F, T, root, buf):
    """call that determines the size of the buffer object"""
    for I in F.insts():
        if I.is_call and I.dem and I.blk in F.reachable() and re.search(r'std::vector<.*>::(vector|resize|assign)\(|RoutingKit::BitVector::(BitVector|resize)\(', I.dem) and len(I.ops) >= 2:
            a = T.addr_of(I.ops[0])
            if strip_root(a) == strip_root(buf) and F.params is not None:
                o = I.ops[1]
                v = F.val(o)
                if (v is not None and v.ty != 'ptr') or 'c' in o or ('a' in o and F.params[o['a']]['ty'] != 'ptr'):
                    return I
    return None


def filesize_term(F, T):
    """terms that hold the size of the file in this function"""
    out = set()
    for k, p in enumerate(F.params):
        if p.get('name') == 'file_size' or (p['ty'] == 'i64' and k == len(F.params) - 1 and re.search(r', unsigned long long\)$', F.dem)):
            out.add(('arg', k))
    for I in F.calls(r'std::fpos<.*>::operator long\(\)'):
        out.add(T.term_inst(I))
    return out


def holds(F, blk, leaf):
    """(all facts at blk that can be evaluated hold, number evaluated)"""
    n, ok = 0, True
    T = T_of(F)
    E = Eval(F, leaf)
    for J, pol in facts(F, blk):
        if isinstance(J, tuple):
            continue
        v = E.inst(J)
        if v is None:
            continue
        n += 1
        if bool(v) != pol:
            ok = False
    return ok, n


def ch_reader(ctx, F, W):
    S = Seq(F, SOURCE.search)
    T = S.T
    name = re.sub(r'std::__cxx11::basic_string<.*?>>', 'std::string', F.dem)
    if not S.linear or not S.ops:
        ctx.notes.append('%s transfers data in a loop or conditionally; its layout is not compared' % name)
        return
    ctx.fn(F)
    if not ctx.check(len(S.ops) == len(W['ops']), 'reader-matches-writer', (S.ops[-1]).where(), '%s reads %d items but the writer writes %d' % (name, len(S.ops), len(W['ops']))):
        return
    hdr_root = strip_root(S.buf(S.ops[0]))[0]
    dests = []
    for k, I in enumerate(S.ops):
        if k == 0:
            dests.append(['<header>'])
            continue
        r, p = strip_root(S.buf(I))
        if p:
            dests.append(p)
        else:
            dests.append(dest_path(F, T, r))
    for k, (a, b) in enumerate(zip(W['paths'], dests)):
        if b is None:
            ctx.notes.append('%s: destination of item %d not resolved' % (name, k))
            continue
        ctx.check(a == b, 'reader-matches-writer', S.ops[k].chain().split(' <- ')[-1] if S.ops[k].chain() else S.ops[k].where(), 'item %d of a saved hierarchy is %s, but %s loads it into %s' % (k, '.'.join(a), name, '.'.join(b)))
    # sizes
    for k, I in enumerate(S.ops):
        cap = None
        if k:
            cap = capacity(F, T, strip_root(S.buf(I))[0], S.buf(I))
        for smp, hdr, lens in W['samples']:
            E = Eval(F, wleaf(F, smp, hdr))
            l = E.ref(I.ops[2])
            if l is None or lens[k] is None:
                continue
            what = '%s (nodes %d, forward arcs %d, backward arcs %d)' % ('.'.join(W['paths'][k]), *smp)
            if not ctx.check(l == lens[k], 'item-size-agrees', I.where(), '%s: %d bytes are written but %s reads %d' % (what, lens[k], name, l)):
                break
            if cap is not None:
                c = E.ref(cap.ops[1])
                if c is not None:
                    bv = 'BitVector' in cap.dem
                    room = (c + 511) // 512 * 64 if bv else c * 4
                    want = count_of(W['paths'][k], *smp)
                    if not ctx.check(room == l and (want is None or c == want), 'buffer-size-agrees', I.where(), '%s: %d bytes are read into a buffer for %d elements, expected are %s' % (what, l, c, want)):
                        break
    # magic
    wm = {k: v for k, v in W['samples'][0][1].items() if 'magic' in k} or {k: v for k, v in W['samples'][0][1].items() if all(s[1].get(k) == v for s in W['samples'])}
    for k, v in wm.items():
        for bit in (0, 7, 8, 31, 32, 63):
            def bad(t, I, k=k, v=v, bit=bit):
                if t[0] == 'ld':
                    r, p = strip_root(t[1])
                    if r == hdr_root and p and p[-1] == k:
                        return v ^ (1 << bit)
                return None
            ok, n = holds(F, S.ops[1].blk, bad)
            if not ctx.check(not ok, 'wrong-kind-rejected', S.ops[1].where(), '%s uses the content of a file without testing bit %d of its %s' % (name, bit, k)):
                break

        def right(t, I, k=k, v=v):
            if t[0] == 'ld':
                r, p = strip_root(t[1])
                if r == hdr_root and p and p[-1] == k:
                    return v
            return None
        ok, n = holds(F, S.ops[1].blk, right)
        ctx.check(ok, 'wrong-kind-rejected', S.ops[1].where(), '%s rejects files with the %s that is written' % (name, k))
    # expected size
    fs = filesize_term(F, T)
    if fs:
        for smp, hdr, lens in W['samples']:
            if None in lens:
                continue
            tot = sum(lens)
            for delta in (0, 4, -4, 64):
                base = wleaf(F, smp, hdr)

                def leaf(t, I, tot=tot, delta=delta, base=base):
                    if t in fs:
                        return (tot + delta) & ((1 << 64) - 1)
                    return base(t, I)
                ok, n = holds(F, S.ops[1].blk, leaf)
                what = 'file of %d nodes, %d forward and %d backward arcs with %d bytes (written are %d)' % (*smp, tot + delta, tot)
                if delta == 0:
                    ctx.check(ok, 'right-size-accepted', S.ops[1].where(), '%s rejects a %s' % (name, what))
                else:
                    ctx.check(not ok, 'wrong-size-rejected', S.ops[1].where(), '%s accepts a %s' % (name, what))
    unchanged(ctx, F, T, S, dests, name)
    # completeness
    return set('.'.join(d) for d in dests if d) | assigned(F, T)


MUTATE = re.compile(r'^std::vector<.*>::(swap|operator=|resize|assign|push_back|emplace_back|pop_back|clear|erase|insert)\(|^(void )?std::(swap|sort|reverse|rotate|random_shuffle|shuffle|stable_sort|fill|iter_swap|swap_ranges)<')


def follows(F, a, b):
    """can instruction b be executed after a?"""
    if a.blk == b.blk and b.pos > a.pos:
        return True
    seen, todo = set(), list(F.succ[a.blk])
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        todo += F.succ[x]
    return b.blk in seen


def unchanged(ctx, F, T, S, dests, name):
    """once a part was read it stays as it is"""
    for k, (I, p) in enumerate(zip(S.ops, dests)):
        if not k or not p:
            continue
        hit = None
        for J in F.insts():
            if J.blk not in F.reachable() or J is I:
                continue
            if J.op == 'store':
                a = T.addr_of(J.ops[1])
                if a[0] == 'at' and strip_root(a[1])[1] == p and follows(F, I, J):
                    hit = J
            elif J.is_call and J.dem and MUTATE.search(J.dem) and J.ops:
                q = [strip_root(T.addr_of(o))[1] for o in J.ops[:2]]
                sw = 'swap' in J.dem.split('(')[0]
                if p not in (q if sw or J.dem.startswith(('std::', 'void std::')) and not J.dem.startswith('std::vector') else q[:1]) or not follows(F, I, J):
                    continue
                if (sw or 'operator=' in J.dem) and any(x == [] or x == p for x in (q if not sw else [x for x in q if x != p] or [p])) and (sw or q[1:] in ([[]], [p])):
                    continue
                hit = J
        ctx.check(hit is None, 'part-stays-as-read', hit.where() if hit else I.where(), '%s changes %s after it was read' % (name, '.'.join(p)))


def rewound(ctx, M):
    """after the end of a file was looked up, reading starts at its begin again"""
    for F in roots(M):
        ends, resets = [], []
        for I in F.calls(r'^(std::istream|std::basic_istream<.*>)::seekg\('):
            if len(I.ops) == 3:
                E = Eval(F, lambda t, J: None)
                o, w = E.ref(I.ops[1]), E.ref(I.ops[2])
                if w == 2:
                    ends.append(I)
                elif w == 0 and o not in (0, None):
                    ends.append(I)
                else:
                    resets.append(I)
            else:
                resets.append(I)
        for I in F.calls(r'^std::basic_ifstream<.*>::(basic_ifstream|open)\((std::|char const)'):
            mode = Eval(F, lambda t, J: None).ref(I.ops[-1])
            if mode is not None and mode & 2:
                ends.append(I)
        if not ends:
            continue
        ctx.fn(F)
        use = [I for I in F.calls() if I.dem and (IN.search(I.dem) or SOURCE.search(I.dem))]
        for e in ends:
            hit = None
            seen, todo = set(), [(e.blk, e.pos + 1)]
            while todo and not hit:
                b, p = todo.pop()
                stop = False
                for J in F.blocks[b]:
                    if J.pos < p:
                        continue
                    if J in resets:
                        stop = True
                        break
                    if J in use:
                        hit = J
                        break
                if not stop and not hit:
                    for s in F.succ[b]:
                        if s not in seen:
                            seen.add(s)
                            todo.append((s, 0))
            ctx.check(hit is None, 'read-from-begin', hit.where() if hit else e.where(), '%s reads where the search for the size of the file has ended instead of at its begin' % short(F.dem))


def avoids(F, src, dst, block, body):
    """can dst be reached from src inside body without passing a block of `block`?"""
    seen, todo = set(), [src]
    while todo:
        x = todo.pop()
        if x in seen or x in block or x not in body:
            continue
        if x == dst:
            return True
        seen.add(x)
        todo += F.succ[x]
    return False


def assigned(F, T):
    out = set()
    for I in F.insts():
        if I.is_call and I.dem and VASSIGN.search(I.dem) and len(I.ops) >= 2:
            p = strip_root(T.addr_of(I.ops[0]))[1]
            if p:
                out.add('.'.join(p))
        elif I.op == 'store' and I.blk in F.reachable():
            a = T.addr_of(I.ops[1])
            if a[0] == 'at' and strip_root(a[1])[1]:
                out.add('.'.join(strip_root(a[1])[1]))
    return out


def inverse_restored(ctx, F):
    """the order is the inverse of the rank: every store into what becomes the order stores an index at the position the rank of that index gives"""
    T = T_of(F)
    for J in F.insts():
        if J.op == 'store' and J.blk in F.reachable():
            a, v = T.addr_of(J.ops[1]), T.term(J.ops[0])
            if a[0] == 'at' and strip_root(a[1])[1][-1:] == ['order']:
                idx = a[2]
                good = idx[0] == 'ld' and idx[1][0] == 'at' and idx[1][2] == v
                ctx.check(good, 'order-is-inverse-of-rank', J.where(), 'the order is not filled with the inverse of the rank')
    for I in F.insts():
        if not (I.is_call and I.dem and VASSIGN.search(I.dem) and len(I.ops) >= 2 and I.blk in F.reachable()):
            continue
        if strip_root(T.addr_of(I.ops[0]))[1][-1:] != ['order']:
            continue
        src = T.obj_of(I.ops[1])
        r, p = strip_root(src)
        if p == ['order'] or p and p[-1] == 'order':
            continue
        if (p or strip_root(T.addr_of(I.ops[1]))[1])[-1:] == ['rank']:
            ctx.bad('order-is-inverse-of-rank', I.where(), 'the order is a copy of the rank')
            continue
        st = [J for J in F.insts() if J.op == 'store' and T.addr_of(J.ops[1])[0] == 'at' and T.addr_of(J.ops[1])[1] == src]
        for J in st:
            a, v = T.addr_of(J.ops[1]), T.term(J.ops[0])
            idx = a[2]
            good = idx[0] == 'ld' and idx[1][0] == 'at' and idx[1][2] == v
            ctx.check(good, 'order-is-inverse-of-rank', J.where(), 'the order is not filled with the inverse of the rank')


def members(M, tname):
    """all container members of a class"""
    out = []

    def rec(t, pre):
        t = M.strip(t)
        if t is None or t < 0:
            return
        ty = M.types[t]
        if ty['k'] == 'struct' and (ty['n'].startswith('std::vector') or ty['n'].endswith('BitVector')):
            out.append('.'.join(pre))
        elif ty['k'] == 'struct' and not ty['n'].startswith('std::'):
            for m in ty['m']:
                if not m['n'] or m.get('static'):
                    continue
                rec(m['t'], pre + [m['n']])
    for i, ty in enumerate(M.types):
        if ty['k'] == 'struct' and ty['n'] == tname and ty.get('m'):
            rec(i, [])
            break
    return out


def simple(ctx, M):
    """vector_io: element vectors, values, bit vectors, strings"""
    for F in roots(M):
        d = F.dem
        T = T_of(F)
        # file modes
        for I in F.calls(r'^std::basic_([io])fstream<.*>::(basic_[io]fstream|open)\((std::|char const)'):
            mode = Eval(F, lambda t, J: None).ref(I.ops[-1])
            if mode is None:
                continue
            isout = 'basic_ofstream' in I.dem
            ctx.fn(F)
            ctx.check(mode & 4 and not (isout and mode & (1 | 2 | 8)), 'binary-mode', I.where(), 'file is opened in mode %d: it must be opened in binary mode and writing must replace an existing file' % mode)
        m = re.search(r'RoutingKit::(save|load|write|read)_(vector|value|bit_vector)\b', d)
        if not m or 'basic_string<char, std::char_traits<char>, std::allocator<char>>>(' in d.split('(')[0] + '(':
            if m:
                strings(ctx, F, m)
            continue
        kind, what = m.groups()
        out = kind in ('save', 'write')
        S = Seq(F, (lambda s: SINK.search(s) or OUT.search(s)) if out else (lambda s: SOURCE.search(s) or IN.search(s)))
        if not S.ops or not S.linear:
            continue
        ctx.fn(F)
        nm = short(d) + ('<...>' if '<' in d.split('(')[0] else '')
        last = S.ops[-1]
        if out:
            for s in (0, 1, 7, 511, 512, 513, 100000, 1 << 33):
                def leaf(t, I, s=s):
                    if t[0] == 'bytes':
                        return s * 4
                    if t[0] == 'size':
                        return s
                    if t[0] == 'ld' and what == 'bit_vector' and strip_root(t[1])[0][0] == 'arg':
                        return s
                    return None
                if what == 'value' and kind == 'save':
                    continue
                l = Eval(F, leaf).ref(last.ops[2])
                want = {'vector': 4 * s, 'value': 4, 'bit_vector': (s + 511) // 512 * 64}[what]
                if l is None:
                    continue
                if not ctx.check(l == want, 'all-elements-written', last.where(), '%s writes %d bytes for %d elements, expected are %d' % (nm, l, s, want)):
                    break
            b = S.buf(last)
            r, p = strip_root(b)
            ctx.check(r[0] != 'elem', 'all-elements-written', last.where(), '%s does not start with the first element' % nm)
            if what == 'bit_vector' and kind == 'save':
                if ctx.check(len(S.ops) == 2, 'reader-matches-writer', last.where(), 'a saved bit vector consists of its size and its data, but %s writes %d items' % (nm, len(S.ops))):
                    st = [I for I in F.insts() if I.op == 'store' and strip_root(T.addr_of(I.ops[1])) == strip_root(S.buf(S.ops[0]))]
                    l = Eval(F, lambda t, I: None).ref(S.ops[0].ops[2])
                    ctx.check(l == 8, 'reader-matches-writer', S.ops[0].where(), '%s writes a size of %s bytes' % (nm, l))
                    for I in st:
                        def lf(t, J):
                            if t[0] == 'ld' and strip_root(t[1])[0][0] == 'arg':
                                return 4660
                            return None
                        v = Eval(F, lf).ref(I.ops[0])
                        ctx.check(v in (None, 4660), 'reader-matches-writer', I.where(), '%s does not write the number of bits as size' % nm)
        else:
            fs = filesize_term(F, T) if kind == 'load' else set()
            r, p = strip_root(S.buf(last))
            cap = capacity(F, T, r, S.buf(last))
            elem = 4
            if what == 'vector' or (what == 'value' and kind == 'load'):
                mm = re.search(r'(load|read)_(vector|value)<(char|unsigned int|float|unsigned long|double|int)>', d)
                elem = {'char': 1, 'unsigned long': 8, 'double': 8}.get(mm.group(3), 4) if mm else 4
            for s in (0, 1, 7, 511, 512, 513, 100000, 1 << 33):
                nbytes = (s + 511) // 512 * 64 if what == 'bit_vector' else s * elem
                tot = nbytes + (8 if what == 'bit_vector' and kind == 'load' else 0)
                hdrbuf = strip_root(S.buf(S.ops[0])) if len(S.ops) == 2 else None

                def mk(tot):
                    def leaf(t, I):
                        if t in fs:
                            return tot & ((1 << 64) - 1)
                        if t[0] == 'arg' and F.params[t[1]]['ty'] == 'i64':
                            return s
                        if hdrbuf and t[0] == 'ld' and strip_root(t[1]) == hdrbuf:
                            return s
                        return None
                    return leaf
                E = Eval(F, mk(tot))
                if what == 'value' and kind == 'read':
                    l = E.ref(last.ops[2])
                    ctx.check(l in (None, 4), 'item-size-agrees', last.where(), '%s reads %s bytes' % (nm, l))
                    break
                l = E.ref(last.ops[2])
                if l is not None:
                    if not ctx.check(l == nbytes, 'item-size-agrees', last.where(), '%s reads %d bytes for %d elements, written are %d' % (nm, l, s, nbytes)):
                        break
                if cap is not None:
                    c = E.ref(cap.ops[1])
                    if c is not None and not ctx.check(c == s, 'buffer-size-agrees', cap.where(), '%s allocates %d elements for %d' % (nm, c, s)):
                        break
                if kind == 'load' and fs:
                    ok, n = holds(F, last.blk, mk(tot))
                    ctx.check(ok, 'right-size-accepted', last.where(), '%s rejects a file with %d elements and %d bytes' % (nm, s, tot))
                    deltas = [x for x in (1, 2, 3)] if elem > 1 and what != 'bit_vector' else []
                    if what == 'bit_vector':
                        deltas = [1, 8, 56, 64, 4096] + ([-64, -8] if s else [])
                    for dl in deltas:
                        ok, n = holds(F, last.blk, mk(tot + dl))
                        ctx.check(not ok, 'wrong-size-rejected', last.where(), '%s accepts a file with %d bytes although the content of %d elements has %d bytes' % (nm, tot + dl, s, tot))
            if what == 'value' and kind == 'load':
                for e in F.exits():
                    for s in (0, 2, 3):
                        def lf(t, I, s=s):
                            if t[0] == 'size':
                                return s
                            if t[0] == 'bytes':
                                return 4 * s
                            if t[0] == 'cmp' and t[1] in ('eq', 'ne') and {t[2][0], t[3][0]} == {'data', 'dend'}:
                                return (s == 0) == (t[1] == 'eq')
                            return None
                        ok, n = holds(F, e, lf)
                        if n:
                            ctx.check(not ok, 'wrong-size-rejected', F.blocks[e][-1].where(), '%s accepts a file with %d values' % (nm, s))


def strings(ctx, F, m):
    T = T_of(F)
    if m.group(1) == 'save':
        for I in F.calls(OUT):
            v = F.val(I.ops[1])
            t = T.term(I.ops[2])
            if v is None or not v.is_call or not re.search(r'c_str|data', v.dem or ''):
                continue
            # length()+1 of the same string

            def leaf(x, J):
                if J is not None and J.is_call and re.search(r'::(length|size)\(\) const', J.dem or ''):
                    return 10
                return None
            l = Eval(F, leaf).ref(I.ops[2])
            puts = any(re.search(r'ostream.*::put\(', J.dem or '') for J in F.calls())
            ctx.fn(F)
            for h, body in sorted(F.loops().items(), key=lambda x: len(x[1])):
                if I.blk not in body:
                    continue
                wr = {J.blk for J in F.calls(OUT) if J.blk in body}
                skip = any(s != h and s in body and avoids(F, s, h, wr, body) for s in F.succ[h]) if h not in wr else False
                ctx.check(not skip, 'every-string-saved', I.where(), 'some strings are not written at all')
                for J in F.blocks[h]:
                    if J.op == 'phi' and re.match(r'i([1-9]|1\d|2\d|3[01])$', J.ty):
                        ctx.bad('every-string-saved', I.where(), 'the strings are counted with %s bits, so vectors with more elements are never saved' % J.ty[1:])
                break
            ctx.check(l == 11 or l == 10 and puts or l is None, 'string-terminator', I.where(), 'a string of length 10 is saved with %s bytes, so its terminator is missing or wrong' % l)
    elif m.group(1) == 'load':
        ctx.fn(F)
        pb = [I for I in F.calls(r'::(push_back|emplace_back)')]
        for I in pb:
            ok = False
            for J, pol in facts(F, I.blk):
                if isinstance(J, tuple):
                    continue
                t = T.term_inst(J)
                if t[0] == 'cmp' and t[3] == ('c', 0) and pol == (t[1] == 'eq'):
                    ok = True
            if any(re.search(r'std::(find|strlen)', J.dem or '') or (J.fn or '') in ('strlen', 'memchr') for J in F.calls()):
                ok = True
            skip = None
            for h, body in sorted(F.loops().items(), key=lambda x: len(x[1])):
                if I.blk not in body:
                    continue
                for b in body:
                    br = F.blocks[b][-1]
                    if br.op != 'br' or not br.ops or len(F.succ[b]) != 2 or b == h:
                        continue
                    t = T.term(br.ops[0])
                    if t[0] == 'cmp' and t[1] in ('eq', 'ne') and ('c', 0) in t[2:4] and any(isinstance(x, tuple) and x and x[0] == 'ld' for x in subterms(t)):
                        s = F.succ[b][0 if t[1] == 'eq' else 1]
                        if s in body and F.dominates(b, I.blk) and avoids(F, s, h, {J.blk for J in pb}, body):
                            skip = br
                break
            ctx.check(skip is None, 'every-string-restored', I.where(), 'some terminators that were saved do not lead to a string when the file is loaded')
            ctx.check(ok, 'string-terminator', I.where(), 'a loaded string does not end at the terminator that separates saved strings')


def run(ctx):
    M = build.module()
    ctx.use(M)
    R = roots(M)
    ws = [F for F in R if re.match(r'RoutingKit::ContractionHierarchy::write\(std::function', F.dem)]
    rs = [F for F in R if re.match(r'RoutingKit::ContractionHierarchy::(read\(|load_file\()', F.dem) and '::$_' not in F.dem and 'operator()' not in F.dem]
    if len(ws) != 1 or not rs:
        from ..ir import AnalysisBroken
        raise AnalysisBroken('the functions that write and read a contraction hierarchy were not found')
    W = ch_writer(ctx, ws[0])
    ctx.fn(ws[0])
    if W is not None:
        ok = all(l is not None for s in W['samples'] for l in s[2])
        for k, I in enumerate(W['ops']):
            for smp, hdr, lens in W['samples']:
                p = W['paths'][k]
                c = count_of(p, *smp)
                if c is None or lens[k] is None:
                    continue
                want = (c + 511) // 512 * 64 if p[-1] == 'is_shortcut_an_original_arc' else 4 * c
                if not ctx.check(lens[k] == want, 'all-elements-written', I.where(), '%s of a hierarchy with %d nodes, %d forward and %d backward arcs is written with %d bytes instead of %d' % ('.'.join(p), *smp, lens[k], want)):
                    break
        mem = members(M, 'RoutingKit::ContractionHierarchy')
        for F in rs:
            got = ch_reader(ctx, F, W)
            inverse_restored(ctx, F)
            if got is not None:
                for x in mem:
                    ctx.check(x in got or x in assigned(F, T_of(F)), 'every-part-restored', F.blocks[0][0].where(), '%s does not restore %s' % (short(F.dem), x))
        written = {'.'.join(p) for p in W['paths']}
        for x in mem:
            ctx.check(x in written or x == 'order', 'every-part-saved', W['ops'][0].where(), 'the member %s of a hierarchy is not saved' % x)
    simple(ctx, M)
    rewound(ctx, M)
    ctx.floor('binary-mode', 4)
    ctx.floor('all-elements-written', 10)
    ctx.floor('item-size-agrees', 10)
    return ctx.finish('Extracts the sequence of transfers (member, byte count as an expression) of every function that writes or reads a file format of the library and compares writer and reader item by item; byte counts, buffer sizes and the size tests are compared as functions of the element counts by evaluating the expressions of the source at representative counts (0, around block boundaries, near 2^32) with exact bit widths.',
                      ['per-node and per-arc arrays of a hierarchy have the lengths its consistency check demands', 'the sink and source callbacks transfer exactly the bytes they are given'])
