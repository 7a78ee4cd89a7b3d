"""Generates the translation unit that instantiates (and, for the driver, runs) the functions under contract."""
import re
from .spec import *

def ctype(k):
    base, elt = kind_elt(k)
    if base in ('cmat', 'mat', 'mvmat', 'vmat', 'newmat', 'deadmat'): return 'susa::matrix<%s>' % ELT[elt][0]
    if base == 'tup': return 'std::tuple<size_t,size_t>'
    if base in CPP: return CPP[base]
    from .verify import OBJ
    return OBJ[base].ctype(elt)

def decls(ct):
    """(declarations of the arguments, [(name, printable)])"""
    out = []; posts = []
    new = None
    for k, (n, kd) in enumerate(ct.params):
        base, elt = kind_elt(kd)
        nm = 'self' if n == 'this' else n
        T = ctype(kd)
        if base.startswith('new'): new = nm; continue
        if base == 'null': continue
        const = base in ('cmat', 'tup') or base.startswith('c') and base not in CPP
        if base in CPP: out.append('%s %s = vc_ref<%s>(%d);' % (T, nm, T, k))
        else:
            out.append('%s%s& %s = vc_ref<%s>(%d);' % ('const ' if const else '', T, nm, T, k))
            if base != 'tup': posts.append(nm)
    return out, posts, new

def tu(cts, driver=False, includes=()):
    o = ['#include <susa.h>', '#include "%s"' % ('driver.h' if driver else 'extract.h')]
    if driver:
        from . import structs
        used = []
        for ct in cts:
            for k in [k for _, k in ct.params] + [ct.retk]:
                b = re.sub('^(c|new|dead)(?=[A-Z])', '', kind_elt(k)[0])
                if b in structs.StructDef.reg and b not in used: used.append(b)
        o += dict.fromkeys(structs.driver_code(structs.StructDef.reg[b]) for b in used)
    for i in includes: o.append('#include "%s"' % i)
    tab = []
    for k, ct in enumerate(cts):
        if not ct.cpp: continue
        d, posts, new = decls(ct)
        body = ' '.join(d) + ' ' + re.sub(r'\bT\b(?=[ *&])', ELT[ct.T][0] if getattr(ct, 'T', None) else 'T', ct.cpp)
        o.append('// ' + ct.name)
        o.append('void w_%d() { %s' % (k, body))
        if driver:
            if new: o.append('  vc_post("%s", %s);' % ('this', new))
            elif ct.retk != 'void' and re.search(r'\bret\b', ct.cpp): o.append('  vc_res(ret);')
            for p in posts: o.append('  vc_post("%s", %s);' % ('this' if p == 'self' else p, p))
            if ct.opts.get('tracked'): o.append('  vc_balance();')
        o.append('}')
        tab.append((k, ct))
    if driver:
        o.append('vc_entry vc_table[] = {')
        for k, ct in tab: o.append('  {%d, w_%d},' % (k, k))
        o.append('  {-1, nullptr}};')
    return '\n'.join(o) + '\n'
