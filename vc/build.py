"""Mechanical extraction: real C++ sources -> normalised LLVM IR text.

Nothing is written by hand here: harness translation units only #include the headers
of /repo and call the public API so that the templates are instantiated; src/*.cpp of
/repo is compiled as it is."""
import os, re, subprocess, hashlib, tempfile, shutil

REPO = os.environ.get('SUSA_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LLVM = '/usr/lib/llvm-18/bin/'
CLANG = LLVM + 'clang++'
# -fcx-limited-range: complex products by the textbook formula (differs only for NaN/inf operands)
CFLAGS = ['-std=c++17', '-O1', '-Xclang', '-disable-llvm-passes', '-DSUSA_NDEBUG', '-ffp-contract=off',
          '-fno-math-errno', '-fno-access-control', '-fcx-limited-range', '-fno-vectorize', '-fno-slp-vectorize', '-w']
PASSES = ('function(lowerinvoke),always-inline,'
          'function(simplifycfg,sroa,early-cse,instsimplify,simplifycfg,adce,sroa,early-cse,simplifycfg,adce,loop-simplify)')

class BuildError(Exception):
    pass

def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    if p.returncode != 0:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stderr[-4000:]))
    return p.stdout

_alloc = re.compile(r', std::allocator<((?:[^<>]|<(?:[^<>]|<(?:[^<>]|<[^<>]*>)*>)*>)*) ?>( ?)(?=>)')
def short(name):
    """demangled name without defaulted allocator arguments"""
    prev = None
    while prev != name:
        prev = name
        name = _alloc.sub('', name)
    name = re.sub(r', std::char_traits<char>', '', name)
    name = name.replace('std::__cxx11::', 'std::')
    name = re.sub(r'\s+>', '>', name)
    return name

PRIMITIVES = [re.compile(p) for p in (
    r'^std::__new_allocator<.*>::(allocate|deallocate)\(',
    r'^std::vector<.*>::(vector|~vector|push_back|emplace_back|resize|insert|reserve|operator=|pop_back|assign|clear|erase)\b',
    r'^(.* )?std::vector<.*>::(vector|~vector|push_back|emplace_back|resize|insert|reserve|operator=|pop_back|assign|clear|erase)[<(]',
    r'^std::basic_string<char>::',
    r'^(.* )?std::basic_string<char>::',
    r'^(.* )?std::(getline|operator>>|operator<<)',
    r'^(std::(__cxx11::)?basic_string<char> )?std::operator\+<char',
    r'^(.* )?std::(basic_[io]?stringstream|basic_[io]stream|basic_ostream|basic_ios)',
    r'^susa::assert_log\(',
    r'^__clang_call_terminate',
    r'^(.* )?std::sort<', r'^(.* )?std::__sort',
)]

def demangle(names):
    p = subprocess.run(['c++filt'], input='\n'.join(names), stdout=subprocess.PIPE, text=True)
    d = dict(zip(names, p.stdout.split('\n')))
    rest = [n for n in names if d[n] == n and n.startswith('_Z')]     # spellings c++filt does not know
    if rest:
        p = subprocess.run([LLVM + 'llvm-cxxfilt'], input='\n'.join(rest), stdout=subprocess.PIPE, text=True)
        d.update(zip(rest, p.stdout.split('\n')))
    return d

def compile_ir(srcs, keep, outdir, extra=(), retain=lambda n: False):
    """compile+link the sources, inline everything except functions for which keep(shortname)
    is true (and library primitives); returns (path of .ll, {mangled: short})"""
    os.makedirs(outdir, exist_ok=True)
    lls = []
    procs = []
    for s in srcs:
        out = os.path.join(outdir, re.sub(r'\W', '_', s) + '.ll')
        cmd = [CLANG] + CFLAGS + list(extra) + ['-I' + REPO + '/inc', '-S', '-emit-llvm', s, '-o', out]
        procs.append((cmd, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)))
        lls.append(out)
    for cmd, p in procs:
        so, se = p.communicate()
        if p.returncode: raise BuildError(' '.join(cmd) + '\n' + se[-4000:])
    allp = os.path.join(outdir, 'all.ll')
    if len(lls) > 1:
        run([LLVM + 'llvm-link', '-S', '-o', allp] + lls)
    else:
        shutil.copy(lls[0], allp)
    text = open(allp).read()
    names = re.findall(r'^define [^@]*@("[^"]*"|[\w.$]+)\(', text, re.M)
    names += re.findall(r'^declare [^@]*@("[^"]*"|[\w.$]+)\(', text, re.M)
    dm = {k.strip('"'): short(v) for k, v in demangle([n.strip('"') for n in names]).items()}
    def keepit(sn):
        return any(p.search(sn) for p in PRIMITIVES) or keep(sn)
    # attribute groups: drop every inlining attribute, then mark each definition explicitly
    text = re.sub(r'^(attributes #\d+ = \{)([^}]*)\}', lambda m: m.group(1) + re.sub(r'\b(noinline|alwaysinline|inlinehint|optnone)\b', '', m.group(2)) + '}', text, flags=re.M)
    def fixdef(m):
        n = m.group(2).strip('"')
        line = m.group(0)
        attr = 'noinline' if keepit(dm[n]) else 'alwaysinline'
        mm = re.search(r'\)((?: unnamed_addr| local_unnamed_addr)?)((?: #\d+| comdat(?:\([^()]*\))?| personality ptr @\S+| align \d+| section "[^"]*")*) \{$', line)
        if mm is None: raise BuildError('cannot place attribute on: ' + line)
        j = mm.start() + 1 + len(mm.group(1))
        line = line[:j] + ' ' + attr + line[j:]
        if retain(dm[n]): line = re.sub(r'^define (linkonce_odr|linkonce|internal) ', 'define weak_odr ', line)
        return line
    text = re.sub(r'^define ([^@]*)@("[^"]*"|[\w.$]+)\(.*\{$', fixdef, text, flags=re.M)
    pre = os.path.join(outdir, 'pre.ll')
    open(pre, 'w').write(text)
    out = os.path.join(outdir, 'norm.ll')
    run([LLVM + 'opt', '-S', '-passes=' + PASSES, pre, '-o', out])
    return out, dm

def sources():
    d = os.path.join(REPO, 'src')
    return [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith('.cpp')]
