"""Helpers shared by the checks."""
import os, re
from . import build, terms
from .ir import AnalysisBroken
from .terms import Terms, show, short, subterms

_hdr = None


def header_text():
    """text of every header of the repository (public and private)"""
    global _hdr
    if _hdr is None:
        out = []
        for base in ('include', 'src'):
            for r, ds, fs in os.walk(os.path.join(build.REPO, base)):
                for f in sorted(fs):
                    if f.endswith(('.h', '.hpp')):
                        out.append(open(os.path.join(r, f), errors='replace').read())
        _hdr = '\n'.join(out)
    return _hdr


def in_header(name):
    return re.search(r'\b%s\s*\(' % re.escape(name), header_text()) is not None


def is_root(F, M):
    """entry points of the analysis: functions that a user (or the C++ runtime / a std algorithm) can call directly.
    Helpers with internal linkage, or external helpers no header declares, are analysed inlined into their callers."""
    d = F.d
    if d.get('addr') or d.get('from_other') or d.get('rec'):
        return True
    if not d.get('from_repo'):
        return True
    if d.get('link') == 'internal':
        return False
    if F.file.startswith(build.REPO + '/include/') or F.file.endswith('.h'):
        return True
    n = F.sname
    return in_header(n)


def roots(M):
    return [F for F in M.functions.values() if is_root(F, M)]


_T = {}


def T_of(F):
    k = id(F)
    if k not in _T:
        _T[k] = Terms(F)
    return _T[k]


def cond_atoms(T, ref, pol):
    """conjunction of (instruction/term, polarity) implied by condition ref == pol"""
    out = []
    I = T.F.val(ref)
    if I is None:
        return out
    if I.op == 'xor' and any(o.get('c') in ('1', '-1') and o.get('w') == 1 for o in I.ops):
        o = [o for o in I.ops if 'c' not in o]
        return cond_atoms(T, o[0], not pol) if o else out
    if I.op == 'and' and pol:
        return cond_atoms(T, I.ops[0], True) + cond_atoms(T, I.ops[1], True)
    if I.op == 'or' and not pol:
        return cond_atoms(T, I.ops[0], False) + cond_atoms(T, I.ops[1], False)
    if I.op == 'select' and I.ty == 'i1':
        c, a, b = I.ops
        if pol and b.get('c') == '0':
            return cond_atoms(T, c, True) + cond_atoms(T, a, True)
        if not pol and a.get('c') in ('1', '-1'):
            return cond_atoms(T, c, False) + cond_atoms(T, b, False)
    if I.op == 'icmp' and I.d['pred'] in ('eq', 'ne') and I.ops[1].get('c') == '0' and 'v' in I.ops[0]:
        J = T.F.val(I.ops[0])
        if J is not None and J.op in ('zext', 'sext') and J.d.get('sfrom') == 'i1':
            return cond_atoms(T, J.ops[0], pol == (I.d['pred'] == 'ne'))
    return [(I, pol)]


def facts(F, blk):
    """atomic facts that hold on entry of blk (from dominating branch edges)"""
    T = T_of(F)
    out = []
    for ref, pol, b in F.guards(blk):
        if isinstance(pol, tuple):
            out.append((('switch', ref), pol))
        else:
            out.extend(cond_atoms(T, ref, pol))
    return out


def loc_fn(I):
    return I.where()
