"""Compiles /repo's current working tree to bitcode and exports it through rkir (with a content keyed cache)."""
import hashlib, os, re, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
from .ir import Module, AnalysisBroken

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('RK_REPO', '/repo')
CACHE = os.environ.get('RK_CACHE', os.path.join(VERIF, '.cache'))
CXX = 'clang++-18' if shutil.which('clang++-18') else 'clang++'
FLAGS = ['-std=c++11', '-DNDEBUG', '-fopenmp', '-O0', '-g', '-Xclang', '-disable-O0-optnone', '-w']

STD_INLINE = [
    r'^std::vector<[^>]*[^l]>?, std::allocator<.*>>::(operator\[\]|at|begin|end|cbegin|cend|size|empty|data|front|back|_M_data_ptr|_M_range_check)',
    r'std::vector<.*>::_M_data_ptr<',
    r'^std::array<.*>::(operator\[\]|begin|end|size|data)',
    r'__gnu_cxx::__normal_iterator<[^()]*>::(__normal_iterator|operator|base)',
    r'__gnu_cxx::operator(!=|==|-|<|>|<=|>=)<',
    r'std::(move|forward|addressof|__addressof|__niter_base|as_const|get)<',
    r'^std::.*std::swap<',
    r'^std::operator[|&^~]+\(std::_Ios_',
    r'std::swap<(unsigned|int|float|double|RoutingKit::IDKeyPair)',
]


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def tool():
    src = os.path.join(VERIF, 'tool', 'rkir.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    os.makedirs(CACHE, exist_ok=True)
    exe = os.path.join(CACHE, 'rkir-' + h)
    if not os.path.exists(exe):
        lc = 'llvm-config-18' if shutil.which('llvm-config-18') else 'llvm-config'
        cxxf = [x for x in run([lc, '--cxxflags']).stdout.split() if not x.startswith('-std=')]
        ldf = run([lc, '--ldflags']).stdout.split()
        tmp = exe + '.%d.tmp' % os.getpid()
        r = run([CXX, '-O1', '-std=c++17', '-fno-rtti'] + cxxf + [src, '-o', tmp] + ldf + ['-lLLVM-18'])
        if r.returncode:
            raise AnalysisBroken('cannot build rkir: ' + r.stderr[-2000:])
        os.rename(tmp, exe)
    return exe


def lib_sources():
    out = []
    d = os.path.join(REPO, 'src')
    for f in sorted(os.listdir(d)):
        if f.endswith('.cpp'):
            s = open(os.path.join(d, f), errors='replace').read()
            if not re.search(r'int\s+main', s):
                out.append(os.path.join(d, f))
    return out


def main_sources():
    out = []
    d = os.path.join(REPO, 'src')
    for f in sorted(os.listdir(d)):
        if f.endswith('.cpp') and not f.startswith('test_'):
            s = open(os.path.join(d, f), errors='replace').read()
            if re.search(r'int\s+main', s):
                out.append(os.path.join(d, f))
    return out


_tree = None


def tree_hash():
    """hash of everything the compiler can see in the repository and of the analyser's own inputs"""
    global _tree
    if _tree is None:
        h = hashlib.sha256()
        for base in ('include', 'src'):
            for r, ds, fs in sorted(os.walk(os.path.join(REPO, base))):
                ds.sort()
                for f in sorted(fs):
                    if f.endswith(('.h', '.cpp', '.proto', '.hpp', '.inc')):
                        p = os.path.join(r, f)
                        h.update(p.encode())
                        h.update(open(p, 'rb').read())
        for r, ds, fs in sorted(os.walk(os.path.join(VERIF, 'tool'))):
            for f in sorted(fs):
                h.update(open(os.path.join(r, f), 'rb').read())
        _tree = h.hexdigest()
    return _tree


def compile_unit(src, extra=()):
    k = hashlib.sha256((tree_hash() + src + ' '.join(extra) + ' '.join(FLAGS)).encode()).hexdigest()[:24]
    d = os.path.join(CACHE, 'bc')
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, os.path.basename(src) + '-' + k + '.bc')
    if not os.path.exists(out):
        tmp = out + '.%d.tmp' % os.getpid()
        r = run([CXX] + FLAGS + list(extra) + ['-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(REPO, 'src'), '-idirafter', os.path.join(VERIF, 'tool', 'include'), '-emit-llvm', '-c', src, '-o', tmp], cwd=REPO)
        if r.returncode:
            raise AnalysisBroken('cannot compile %s:\n%s' % (src, r.stderr[-3000:]))
        os.rename(tmp, out)
    return out


def bitcode(units, extra=()):
    """units: list of source files"""
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(lambda u: compile_unit(u, extra), units))


def module(units=None, opaque=(), inline=STD_INLINE, emit=(), keep_eh=False, no_inline=False, no_simplify=False, extra=(), drivers=('headers',), mention=None):
    """units: base names of library sources (None = all); mention: only the sources that match this expression"""
    libs = lib_sources()
    if units is not None:
        sel = [s for s in libs if os.path.basename(s)[:-4] in units]
        if len(sel) != len(units):
            raise AnalysisBroken('missing translation units: %s' % (set(units) - {os.path.basename(s)[:-4] for s in sel}))
    else:
        sel = libs
    if mention:
        sel = [s for s in sel if re.search(mention, open(s, errors='replace').read())]
        if not sel:
            raise AnalysisBroken('no translation unit mentions ' + mention)
    dr = [os.path.join(VERIF, 'tool', 'drivers', d + '.cpp') for d in drivers]
    bcs = bitcode(sel, extra) + bitcode(dr, tuple(extra) + ('-femit-all-decls',))
    sel = sel + dr
    args = [REPO]
    posix = lambda r: r.replace(r'\b', '').replace(r'\w', '[A-Za-z0-9_]')      # the exporter uses POSIX regular expressions
    opaque, inline, emit = [posix(o) for o in opaque], [posix(o) for o in inline], [posix(o) for o in emit]
    for o in opaque:
        args += ['--opaque', o]
    for o in inline:
        args += ['--inline', o]
    for o in emit:
        args += ['--emit', o]
    if keep_eh:
        args.append('--keep-eh')
    if no_inline:
        args.append('--no-inline')
    if no_simplify:
        args.append('--no-simplify')
    k = hashlib.sha256((tree_hash() + repr(args) + repr(bcs)).encode()).hexdigest()[:24]
    d = os.path.join(CACHE, 'js')
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, k + '.json')
    if not os.path.exists(out):
        tmp = out + '.%d.tmp' % os.getpid()
        r = run([tool(), tmp] + args + ['--'] + bcs)
        if r.returncode:
            raise AnalysisBroken('rkir failed: ' + r.stderr[-2000:])
        os.rename(tmp, out)
    M = Module(out, REPO)
    M.units = [os.path.relpath(s, REPO) for s in sel]
    return M
