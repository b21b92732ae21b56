"""U01: memory, files, zlib streams and threads have one owner and are released exactly once."""
import itertools, re
from .. import build
from ..common import *
from ..own import Own, State, TooMany, ACQ, ZINIT, NAME, ev, syms

EXPL = ('Ownership analysis over the flow graph with exception edges. The destructor of every class is followed to find what it releases. Every constructor, assignment and method of such a class is then '
        'followed on all paths, for objects that hold or do not hold the resource, for two objects and for assignment to itself: at every normal and exceptional exit each resource must be held by exactly one '
        'surviving object or be released. Functions that acquire a resource in a local are followed from the acquisition to all exits.')
ASSUME = ['the standard library releases what it owns', 'C functions do not throw', 'locking a mutex in a destructor does not fail']
OPAQUE = [r'^std::thread::', r'std::unique_lock<', r'^std::condition_variable', r'^std::function<', r'^std::(__cxx11::)?(basic_)?string', r'^std::(__cxx11::)?to_string', r'^std::operator\+']
INLINE = list(build.STD_INLINE) + [r'^std::unique_ptr<', r'^std::__uniq_ptr', r'^std::tuple<', r'^std::_Tuple_impl<', r'^std::_Head_base<', r'std::default_delete<', r'^std::get<', r'std::__get_helper',
                                   r'std::exchange<', r'std::swap<', r'std::make_unique']
SIZES = (0, 1, 63, 64, 65, 511, 512, 513, 1023, 1024, 1025, 1536, 1537, 5000)


def cls_of(F):
    """class of a member function"""
    m = re.match(r'^(.*)::(~?)([A-Za-z_]\w*|operator[^\w(]+|operator bool)(<.*>)?\(', strip_args(F.dem))
    return m.group(1) if m else None


def strip_args(d):
    """demangled name with the outermost argument list emptied"""
    k, i = 0, len(d)
    for i in range(len(d) - 1, -1, -1):
        if d[i] == ')':
            k += 1
        elif d[i] == '(':
            k -= 1
            if k == 0:
                break
    return d[:i] + '()'


def args_of(F):
    d = F.dem
    h = strip_args(d)
    a = d[len(h) - 1:]
    return a[:a.rfind(')')] if ')' in a else ''


class Cls:
    def __init__(self, name, cells, M):
        self.name, self.cells = name, cells
        self.short = name.split('::')[-1]
        self.size_off = None
        if [k for c, k in cells] == ['malloc']:
            for t in M.types:
                if t.get('k') == 'struct' and t.get('n') == name and t.get('m'):
                    L = [m for m in t['m'] if m['o'] != cells[0][0][1] and re.search(r'^(unsigned |u?int64_t|size_t|unsigned long)', M.tname(m['t']) or '')]
                    if len(L) == 1:
                        self.size_off = L[0]['o']

    def fill(self, s, root, held, nm):
        """object that holds everything or nothing"""
        at = {}
        toks = []
        for (r, off), kind in self.cells:
            base = off[1] if isinstance(off, tuple) else off
            if r[0] == 'obj':
                R = root[0]
                o = base + root[1]
            else:
                if not held:
                    continue
                R, o = at.get(r[1]), base
                if R is None:
                    continue
            key = (R, ('r', o)) if isinstance(off, tuple) else (R, o)
            if held:
                t = (nm, (r, off))
                s.tok[t] = (kind, 'held', 'an earlier call', ('cap', (R, self.size_off)) if self.size_off is not None else None)
                s.mem[key] = ('tok', t, kind) if kind in ('fd', 'thread', 'z') else ('ptr', ('tok', t, kind), 0)
                at[(r, off)] = ('tok', t, kind)
                toks.append(t)
            else:
                s.mem[key] = ('none',) if isinstance(off, tuple) else (('i', 0xffffffff, 32) if kind == 'fd' else ('null',))
        if not held and self.size_off is not None:
            s.mem[(root[0], self.size_off + root[1])] = ('i', 0, 64)
        return toks


def top(cell):
    r, off = cell
    while r[0] == 'init':
        r, off = r[1]
    return r, (off[1] if isinstance(off, tuple) else off)


def discover(c, M):
    out, methods = {}, {}
    for F in M.functions.values():
        k = cls_of(F)
        if k:
            methods.setdefault(k, set()).add(F.sname)
    for F in M.functions.values():
        m = re.match(r'^(RoutingKit::.*)::~(\w+)\(\)$', F.dem)
        if not m or not m.group(1).endswith(m.group(2)) or 'lambda' in F.dem or '$_' in F.dem:
            continue
        A = Own(M, lambda *a: None, limit=6000)
        try:
            A.run(F, [('ptr', ('obj', 'this'), 0)], State())
        except TooMany:
            continue
        cells = []
        for cell, kind, I in A.found:
            if top(cell)[0] == ('obj', 'this') and (cell, kind) not in cells:
                cells.append((cell, kind))
        # the outer objects first
        cells.sort(key=lambda x: (nest(x[0]), str(x[0])))
        # whatever an inner resource hangs on has to be released as well
        own = [I for cell, kind, I in A.found if at(I) in methods.get(m.group(1), ())]
        if cells and own and len(cells) <= 4:
            out[m.group(1)] = Cls(m.group(1), cells, M)
    acquired(c, M, out, methods)
    # the implementation of another class is looked at together with it
    return {k: v for k, v in out.items() if not any(k.startswith(x + '::') for x in out)}


def acquired(c, M, out, methods):
    """what constructors and methods leave in the object"""
    for F in sorted(M.functions.values(), key=lambda F: F.name):
        k = cls_of(F)
        if not k or not k.startswith('RoutingKit::') or 'lambda' in F.dem or '$_' in F.dem or not F.params or not F.file.startswith(build.REPO):
            continue
        if any(k.startswith(x + '::') for x in out):
            continue
        if k not in out and not any(I.is_call and (I.dem in ACQ and ACQ[I.dem][0] not in ('new', 'new[]') or re.match(r'^std::thread::thread<', I.dem or '')) for I in F.insts()):
            continue
        base = 1 if F.params[0].get('sret') else 0
        A = Own(M, lambda *a: None, limit=6000)
        s = State()
        args = [('ptr', ('obj', 'this'), 0) if i == base else ('ptr', ('ext', 'a%d' % i), 0) if q.get('ty') == 'ptr' else None for i, q in enumerate(F.params)]
        try:
            R = A.run(F, args, s)
        except TooMany:
            continue
        for st, kd, v, I in R:
            if kd != 'ret':
                continue
            names = {('obj', 'this'): ('obj', 'this')}
            grow = True
            while grow:
                grow = False
                for (rr, off), val in st.mem.items():
                    if rr not in names or not val:
                        continue
                    t = val[1] if val[0] == 'tok' else (val[1][1] if val[0] == 'ptr' and val[1][0] == 'tok' and val[2] == 0 else None)
                    if t is None or st.tok.get(t, ('', ''))[1] != 'held':
                        continue
                    cell, kind = (names[rr], off), st.tok[t][0]
                    x = ('tok', t, kind)
                    if x not in names:
                        names[x] = ('init', cell)
                        grow = True
                    have = dict(out[k].cells) if k in out else {}
                    if cell not in have and (kind not in ('new', 'new[]') or cell[0][0] == 'init' and k in out):
                        L = (out[k].cells if k in out else []) + [(cell, kind)]
                        if len(L) <= 4:
                            L.sort(key=lambda x: (nest(x[0]), str(x[0])))
                            out[k] = Cls(k, L, M)


def at(I):
    m = re.search(r'\((.*)\)$', I.where())
    return m.group(1) if m else None


def nest(cell):
    n, r = 0, cell[0]
    while r[0] == 'init':
        n, r = n + 1, r[1][0]
    return n


class Run:
    def __init__(self, c, M, classes):
        self.c, self.M, self.classes = c, M, classes
        self.seen = set()

    def bad(self, F, what):
        def f(rule, I, msg):
            k = (rule, I.where(), msg)
            if k not in self.seen:
                self.seen.add(k)
                self.c.bad(rule, I.where(), '%s (%s)' % (msg, what) if what else msg)
            self.n += 1
        return f

    def method(self, F, C):
        """all entry states of one member function"""
        nm = strip_args(F.dem)[len(C.name) + 2:-2]
        kind = 'ctor' if re.match(r'^%s(<.*>)?$' % C.short, nm) else 'dtor' if nm == '~' + C.short else 'other'
        a = args_of(F)
        others = []
        P = split_args(a)
        shift = 1 + (1 if F.params and F.d.get('sret') else 0)
        for i, t in enumerate(P):
            for D in self.classes.values():
                if re.sub(r'( const)?(&|&&)?$', '', t) == D.name:
                    others.append((i, D, t))
        base = 1 if F.params and F.params[0].get('sret') else 0
        combos = []
        for mine in ((True, False) if kind != 'ctor' else (None,)):
            for th in itertools.product((True, False), repeat=len(others)):
                combos.append((mine, th, False))
        if kind == 'other' and len(others) == 1 and others[0][1] is C and others[0][2].endswith('&'):
            combos += [(True, (True,), True), (False, (False,), True)]
        sret = base > 0
        for mine, th, alias in combos:
            s = State()
            T = ('obj', 'this')
            if mine is not None:
                C.fill(s, (T, 0), mine, 'this')
            elif kind == 'ctor':
                for cell, k in C.cells:
                    if cell[0][0] == 'obj':
                        s.mem[(T, cell[1])] = ('undef',)
                        if C.size_off is not None:
                            s.mem[(T, C.size_off)] = ('undef',)
            args = []
            for i in range(len(F.params)):
                j = i - base
                if sret and i < base:
                    args.append(('ptr', ('obj', 'ret'), 0))
                elif j == 0:
                    args.append(('ptr', T, 0))
                else:
                    o = [x for x in others if x[0] == j - 1]
                    if o and alias:
                        args.append(('ptr', T, 0))
                    elif o:
                        k = others.index(o[0])
                        R = ('obj', 'o%d' % k)
                        o[0][1].fill(s, (R, 0), th[k], 'o%d' % k)
                        args.append(('ptr', R, 0))
                    else:
                        ty = F.params[i].get('ty')
                        args.append(('sym', ('arg', i)) if ty in ('i64',) else None)
            what = '%s of %s%s%s' % ('constructor' if kind == 'ctor' else 'destructor' if kind == 'dtor' else nm, C.short,
                                     '' if mine is None else ', the object %s' % ('holds a resource' if mine else 'is empty'),
                                     ', assigned to itself' if alias else ''.join(', the other %s' % ('holds a resource' if x else 'is empty') for x in th))
            self.n = 0
            A = Own(self.M, self.bad(F, what))
            try:
                R = A.run(F, args, s)
            except TooMany:
                self.c.notes.append('%s: too many paths' % F.dem[:120])
                continue
            for n in A.used:
                self.c.fns.add(n) if hasattr(self.c, 'fns') else None
            for st, k, v, I in R:
                self.exit(F, C, kind, others, alias, st, k, v, I, what)
            self.c.ok('one owner, released exactly once', '%s: %d exits' % (what, len(R)))

    def exit(self, F, C, kind, others, alias, st, k, v, I, what):
        """state at an exit"""
        say = self.bad(F, what + (', by an exception' if k == 'throw' else ''))
        roots = set()
        if not (kind == 'dtor' or kind == 'ctor' and k == 'throw'):
            roots.add(('obj', 'this'))
        for i, _ in enumerate(others):
            roots.add(('obj', 'o%d' % i))
        roots.add(('obj', 'ret'))
        refs = {}
        todo = set(roots)
        done = set()
        outside = set()
        while todo:
            r = todo.pop()
            done.add(r)
            for (rr, off), val in st.mem.items():
                if rr != r:
                    continue
                t = val[1] if val and val[0] == 'tok' else (val[1][1] if val and val[0] == 'ptr' and val[1][0] == 'tok' and val[2] == 0 else None)
                if t is None:
                    continue
                refs.setdefault(t, []).append((rr, off))
                x = ('tok', t, st.tok[t][0]) if t in st.tok else None
                if x and x not in done:
                    todo.add(x)
        # memory that is not followed may hold it, too
        for (rr, off), val in st.mem.items():
            if rr[0] not in ('obj', 'al', 'tok', 'tmp') and val:
                t = val[1] if val[0] == 'tok' else (val[1][1] if val[0] == 'ptr' and val[1][0] == 'tok' else None)
                if t is not None:
                    outside.add(t)
        for t, x in st.tok.items():
            if x[1] == 'held':
                if t not in refs and t not in outside and not (v and (v[0] == 'tok' and v[1] == t or v[0] == 'ptr' and v[1][0] == 'tok' and v[1][1] == t)):
                    say('released exactly once', I, '%s (acquired by %s) is never released' % (NAME[x[0]], x[2]))
                elif len(refs.get(t, ())) > 1 and len(set(refs[t])) > 1:
                    say('one owner at a time', I, '%s (acquired by %s) is held by two objects, both will release it' % (NAME[x[0]], x[2]))
            elif refs.get(t):
                say('nothing is used after its release', I, 'the object still refers to %s that was released, and will release it again' % NAME[x[0]])
        for o, D in [(('obj', 'this'), C)] + [(('obj', 'o%d' % i), D) for i, (j, D, t) in enumerate(others)]:
            if o not in roots:
                continue
            for cell, kd in D.cells:
                if cell[0][0] != 'obj':
                    continue
                x = st.mem.get((o, cell[1]))
                if x and x[0] == 'i' and kd == 'fd' and not x[1] >> 31 & 1:
                    say('only what was acquired is released', I, 'the object is left with the file descriptor %d that it never opened, and will close it' % x[1])
                t = x[1] if x and x[0] == 'tok' else (x[1][1] if x and x[0] == 'ptr' and x[1][0] == 'tok' else None)
                if t in st.tok and st.tok[t][1] == 'held' and st.tok[t][0] != kd:
                    say('released with the function that belongs to it', I, '%s acquired by %s (%s) will be released as %s by the destructor' % (NAME[st.tok[t][0]], st.tok[t][2], st.tok[t][0], kd))
        if kind == 'ctor' and k == 'ret':
            for cell, kd in C.cells:
                if cell[0][0] == 'obj' and st.mem.get((('obj', 'this'), cell[1])) == ('undef',):
                    say('only what was acquired is released', I, 'the constructor leaves the %s unset, the destructor will release it' % NAME[kd].split(' ', 1)[-1])
        if C.size_off is not None:
            objs = [('obj', 'this')] if ('obj', 'this') in roots else []
            objs += [('obj', 'o%d' % i) for i, (j, D, t) in enumerate(others) if D is C]
            for o in objs:
                self.capacity(C, o, st, say, I)

    def capacity(self, C, o, st, say, I):
        p = st.mem.get((o, C.cells[0][0][1]))
        z = st.mem.get((o, C.size_off), ('sym', (o, C.size_off)))
        if p is None or z is None:
            return
        if p[0] == 'null':
            cap = ('i', 0, 64)
        elif p[0] == 'ptr' and p[1][0] == 'tok' and p[1][1] in st.tok:
            x = st.tok[p[1][1]][3]
            if x is None:
                return
            if x[0] == 'cap':
                q = ('sym', x[1])
                cap = ('x', 'mul', ('x', 'lshr', ('x', 'add', q, ('i', 511, 64)), ('i', 9, 64)), ('i', 64, 64))
            else:
                cap = x
        else:
            return
        if z == ('undef',):
            say('the memory of a bit vector covers its size', I, 'the size is not set')
            return
        S = sorted(set(syms(z)) | set(syms(cap)) | {x for c, t in st.conds for x in syms(c)}, key=str)
        if len(S) > 3 or any(x[0] != 'sym' for x in S):
            return
        for vals in itertools.product(SIZES, repeat=len(S)):
            env = dict(zip(S, vals))
            if any(x[1][0][0] == 'obj' and x[1][0] in (('obj', 'this'), ('obj', 'o0'), ('obj', 'o1')) and env[x] == 0 for x in S if isinstance(x[1], tuple)):
                continue                        # an object that holds memory is not empty
            if any(ev(c, env) is not None and bool(ev(c, env)) != t for c, t in st.conds):
                continue
            a, b = ev(z, env), ev(cap, env)
            if a is None or b is None:
                return
            if (a + 511) // 512 * 64 > b:
                say('the memory of a bit vector covers its size', I, 'a bit vector can have size %d and only %d bytes of memory' % (a, b))
                return

    def local(self, F, I):
        """from an acquisition in a function to its exits"""
        what = 'in %s' % F.sname
        self.n = 0
        A = Own(self.M, self.bad(F, what), light=True, limit=8000)
        args = [('ptr', ('ext', 'a%d' % i), 0) if p.get('ty') == 'ptr' else None for i, p in enumerate(F.params)]
        try:
            R = A.run(F, args, State(), start=I)
        except TooMany:
            self.c.notes.append('%s: too many paths from %s' % (F.sname, I.where()))
            return
        for st, k, v, J in R:
            for t, x in st.tok.items():
                if x[1] != 'held' or x[0] == 'new':
                    continue
                kept = False
                for (rr, off), val in st.mem.items():
                    tt = val[1] if val and val[0] == 'tok' else (val[1][1] if val and val[0] == 'ptr' and val[1][0] == 'tok' else None)
                    if tt == t and rr[0] != 'al':
                        kept = True
                if v and (v[0] == 'tok' and v[1] == t or v[0] == 'ptr' and v[1][0] == 'tok' and v[1][1] == t):
                    kept = True
                if not kept:
                    self.bad(F, what)('released exactly once', J, '%s acquired at %s is not released when the function is left%s' % (NAME[x[0]], x[2], ' by an exception' if k == 'throw' else ''))
        self.c.ok('released on every way out', '%s: %s at %s, %d exits' % (F.sname, (I.dem or '').split('(')[0], I.where(), len(R)))


def split_args(a):
    out, k, cur = [], 0, ''
    for ch in a:
        if ch in '<([{':
            k += 1
        elif ch in '>)]}':
            k -= 1
        if ch == ',' and k == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip() and cur.strip() != 'void':
        out.append(cur.strip())
    return out


def one(c, M):
    classes = discover(c, M)
    R = Run(c, M, classes)
    members = set()
    for F in M.functions.values():
        k = cls_of(F)
        if k in classes and 'lambda' not in F.dem and '$_' not in F.dem and F.params:
            if re.search(r'\bstatic\b', F.dem):
                continue
            members.add(F.name)
            c.fn(F)
            R.method(F, classes[k])
    for k, C in classes.items():
        if not any(cls_of(F) == k and '::~' in F.dem for F in M.functions.values()) and any(cls_of(F) == k for F in M.functions.values()):
            F = [F for F in M.functions.values() if cls_of(F) == k][0]
            c.bad('released exactly once', '%s (%s)' % (F.file, k), 'objects of the class keep %s, but it has no destructor that releases it' % NAME[C.cells[0][1]])
    n = 0
    for F in M.functions.values():
        if F.name in members or not F.file.startswith(build.REPO):
            continue
        for I in list(F.insts()):
            if I.is_call and (I.dem in ACQ and ACQ[I.dem][0] not in ('new', 'new[]') or ZINIT.match(I.dem or '')):
                c.fn(F)
                R.local(F, I)
                n += 1
    return classes, n


def run(c):
    M = build.module(opaque=OPAQUE, inline=INLINE, keep_eh=True, mention=r'BitVector|FileDataSource|BufferedAsynchronousReader|inflate|aligned_alloc|malloc|fopen|std::thread')
    c.use(M)
    classes, n = one(c, M)
    for k, C in sorted(classes.items()):
        c.notes.append('%s owns %s' % (k, ', '.join(NAME[x] for _, x in C.cells)))
    N = build.module(units=['file_data_source'], opaque=OPAQUE, inline=INLINE, keep_eh=True, extra=('-DROUTING_KIT_NO_POSIX', '-femit-all-decls'), drivers=())
    one(c, N)
    for need in ('BitVector', 'FileDataSource', 'BufferedAsynchronousReader'):
        if not any(k.endswith('::' + need) for k in classes):
            c.notes.append('%s owns nothing that is released by its destructor' % need)
    return c.finish(EXPL, ASSUME)
