"""Builds the code under test and the monitors from /repo's working tree, with sanitizers.

Objects are cached under /verif/.build by content hash (source + every header + flags), so a
change anywhere in /repo's sources always leads to a rebuild of what it can influence."""
import glob, hashlib, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
HARN = os.path.join(VERIF, 'harness')
INC = [REPO, REPO+'/src', REPO+'/generated', REPO+'/src/gdlib', REPO+'/src/global', REPO+'/src/rtl', REPO+'/src/tools', HARN]
COMMON = ['-g1', '-fPIC', '-DNDEBUG', '-DGC_NO_MUTEX', '-DZ_HAVE_UNISTD_H', '-w', '-fno-omit-frame-pointer']
FLAVORS = {
    'asan': ['-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=function,vptr', '-D_GLIBCXX_ASSERTIONS'],
    'tsan': ['-O1', '-UGC_NO_MUTEX', '-fsanitize=thread', '-DMON_TSAN'],
    'msan': ['-O1', '-fsanitize=memory', '-fsanitize-memory-track-origins'],
    'plain': ['-O1'],
}
class BuildError(Exception): pass

def core_sources():
    """the library's own list in CMakeLists.txt, so that added or moved files are followed"""
    txt = open(REPO+'/CMakeLists.txt').read()
    m = re.search(r'set\(\s*gdx-core\s+(.*?)\)', txt, re.S)
    files = []
    if m:
        for w in m.group(1).split():
            w = w.strip('"')
            if re.search(r'\.(cpp|c|cc|cxx)$', w) and os.path.exists(os.path.join(REPO, w)):
                files.append(w)
    if not any(f.endswith('gxfile.cpp') for f in files):
        files = ['src/rtl/dtoaLoc.c','src/rtl/p3io.cpp','src/rtl/p3utils.cpp','src/rtl/sysutils_p3.cpp','src/rtl/system_p3.cpp',
                 'src/rtl/p3platform.cpp','src/rtl/math_p3.cpp','src/gdlib/gmsstrm.cpp','src/gdlib/utils.cpp','src/gdlib/strutilx.cpp','src/gxfile.cpp']
    return [os.path.join(REPO, f) for f in files]

_hdr = None
def header_hash():
    global _hdr
    if _hdr is None:
        h = hashlib.sha256()
        for base in (REPO+'/src', REPO+'/generated', HARN):
            for d, ds, fs in os.walk(base):
                ds.sort()
                if 'tests' in ds: ds.remove('tests')
                for f in sorted(fs):
                    if re.search(r'\.(h|hpp|hh|inc|ipp)$', f):
                        p = os.path.join(d, f)
                        h.update(p.encode()); h.update(open(p, 'rb').read())
        _hdr = h.hexdigest()
    return _hdr

def obj(src, flavor, extra=()):
    flags = COMMON + FLAVORS[flavor] + list(extra) + ['-I'+i for i in INC]
    isC = src.endswith('.c')
    cc = ['clang'] if isC else ['clang++', '-std=c++17']
    key = hashlib.sha256(('\0'.join(cc+flags)+src+header_hash()).encode() + open(src, 'rb').read()).hexdigest()[:24]
    out = os.path.join(BUILD, 'obj', os.path.basename(src)+'.'+key+'.o')
    return src, cc+flags, out

def compile_all(items):
    """items: (src, flavor, extra); returns object paths in order"""
    os.makedirs(os.path.join(BUILD, 'obj'), exist_ok=True)
    jobs = [obj(*i) for i in items]
    def one(j):
        src, cmd, out = j
        if os.path.exists(out):
            return None
        tmp = '%s.%d.%s.tmp.o' % (out, os.getpid(), abs(hash(src)) % 9999)
        p = subprocess.run(cmd+['-c', src, '-o', tmp], capture_output=True, text=True)
        if p.returncode:
            return 'compile %s failed:\n%s' % (src, p.stderr[-4000:])
        os.rename(tmp, out)
        return None
    uniq = {j[2]: j for j in jobs}
    order = sorted(uniq.values(), key=lambda j: -os.path.getsize(j[0]))
    with ThreadPoolExecutor(8) as ex:
        errs = [e for e in ex.map(one, order) if e]
    if errs:
        raise BuildError('\n'.join(errs))
    return [j[2] for j in jobs]

def link(out, objs, flavor, shared=False, libs=('-lz', '-lpthread', '-ldl', '-lm'), extra=()):
    key = hashlib.sha256(('\0'.join(objs)+out+flavor+str(shared)+' '.join(extra)+'v3').encode()).hexdigest()
    stamp = out+'.key'
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == key:
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    san = [f for f in FLAVORS[flavor] if f.startswith('-fsanitize') or f.startswith('-fno-sanitize')]
    tmp = '%s.%d.tmp' % (out, os.getpid())
    cmd = ['clang++']+san+(['-shared', '-Wl,-Bsymbolic', '-Wl,-soname,'+os.path.basename(out)] if shared else [])+['-o', tmp]+objs+list(extra)+list(libs)
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode:
        raise BuildError('link %s failed:\n%s' % (out, p.stderr[-4000:]))
    os.rename(tmp, out)
    open(stamp, 'w').write(key)
    return out

def tool_sources(tool):
    base = REPO+'/src/tools/'
    srcs = [REPO+'/generated/gdxcc.c', REPO+'/src/gdlib/gmsobj.cpp']
    for d in ('library', tool):
        srcs += sorted(os.path.join(base+d, f) for f in os.listdir(base+d) if re.search(r'\.(cpp|c|cc)$', f))
    for f in ('dblutil.cpp',):
        if tool == 'gdxdump': srcs.append(REPO+'/src/gdlib/'+f)
    return srcs

def build(monitor, flavor='asan', tools=(), internal=False, lib=True, extra=()):
    """returns dict(bin=, libdir=, tools={name: path})"""
    t0 = time.time()
    core = core_sources()
    items, names = [], []
    def add(srcs, fl):
        idx = (len(items), len(items)+len(srcs))
        items.extend((s, fl, ()) for s in srcs)
        return idx
    ci = add(core+[REPO+'/generated/gdxcclib.cpp'], flavor)
    mi = None
    if monitor:
        mi = add([os.path.join(HARN, monitor+'.cpp'), os.path.join(HARN, 'core.cpp'), os.path.join(HARN, 'trans.cpp'), os.path.join(HARN, 'codec.cpp'), REPO+'/generated/gdxcc.c']+[os.path.join(HARN, e) for e in extra], flavor)
    xi = None
    if internal:# the support classes the library itself does not link
        xi = add([f for pat in ('gdlib', 'rtl') for f in sorted(glob.glob(REPO+'/src/'+pat+'/*.cpp')) if f not in core], flavor)
    ti = {t: add(tool_sources(t), flavor) for t in tools}
    objs = compile_all(items)
    d = os.path.join(BUILD, flavor)
    res = {'libdir': d, 'tools': {}}
    cobjs = objs[ci[0]:ci[1]]
    if lib:
        link(os.path.join(d, 'libgdxcclib64.so'), cobjs, flavor, shared=True)
    if monitor:
        o = objs[mi[0]:mi[1]]
        if internal:
            o = o+cobjs[:-1]+objs[xi[0]:xi[1]]
        res['bin'] = link(os.path.join(d, monitor), o, flavor, extra=('-rdynamic',))
    for t in tools:
        res['tools'][t] = link(os.path.join(d, t), sorted(set(objs[ti[t][0]:ti[t][1]]))+cobjs[:-1], flavor)
    res['build_s'] = round(time.time()-t0, 1)
    return res
