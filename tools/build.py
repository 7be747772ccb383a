"""Content-hash build driver: compiles /repo's current sources (and /verif's own C++ tools)
into /verif/.build.  Nothing is written in /repo."""
import os, re, sys, json, hashlib, subprocess, concurrent.futures as cf, fcntl, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
B = os.environ.get('VERIF_BUILD', os.path.join(VERIF, '.build'))
CXX = '/usr/bin/clang++-20'
LLVM = '/usr/lib/llvm-20'
DEFS = ['-DCLAZY_VERSION="1.18"', '-DHAVE_CLANG_CONFIG_H', '-D_GNU_SOURCE', '-D__STDC_CONSTANT_MACROS', '-D__STDC_LIMIT_MACROS', '-DNDEBUG']
INCS = [f'-I{B}/gen', f'-I{LLVM}/include', f'-I{REPO}', f'-I{REPO}/src']
BASE = ['-std=gnu++20', '-fno-exceptions', '-fno-rtti', '-fPIC', '-fno-strict-aliasing', '-w']
FLAGS = BASE + DEFS + INCS
LINK = [f'-L{LLVM}/lib', '-lclang-cpp', '-lLLVM-20', f'-Wl,-rpath,{LLVM}/lib']
JOBS = int(os.environ.get('VERIF_JOBS', '8'))

class BuildError(Exception): pass
_sha = {}
def sha(path):
    if path not in _sha:
        try: _sha[path] = hashlib.sha1(open(path, 'rb').read()).hexdigest()
        except OSError: _sha[path] = None
    return _sha[path]

def tracked(p):
    p = os.path.realpath(p)
    return p.startswith(REPO + '/') or (p.startswith(VERIF + '/') and not p.startswith(B + '/')) or p.startswith(B + '/gen/')

def fresh(out, cmdkey):
    try:
        d = json.load(open(out + '.dep'))
        if d['cmd'] != cmdkey or not os.path.exists(out): return False
        return all(sha(p) == h for p, h in d['deps'].items())
    except (OSError, ValueError, KeyError):
        return False

def stamp(out, cmdkey, deps):
    deps = sorted({os.path.realpath(d) for d in deps if tracked(d)})
    with open(out + '.dep', 'w') as f: json.dump({'cmd': cmdkey, 'deps': {d: sha(d) for d in deps}}, f)

def depfile(path):
    s = open(path).read().replace('\\\n', ' ')
    s = s.split(':', 1)[1]
    return [x.replace('\0', ' ') for x in s.replace('\\ ', '\0').split()]

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def gen():
    """what cmake's configure_file generates"""
    os.makedirs(B + '/gen', exist_ok=True)
    s = open(REPO + '/checks.json').read()
    # CMake: unquoted ${var} argument: ';' would split; the file contains none
    t = open(REPO + '/checks.json.h.in').read()
    out = t.replace('${SUPPORTED_CHECKS_JSON_STR}', '\nR"meta(' + s + ')meta"\n')
    p = B + '/gen/checks.json.h'
    if not os.path.exists(p) or open(p).read() != out:
        with open(p, 'w') as f: f.write(out)

def plugin_srcs():
    txt = open(REPO + '/ClazySources.cmake').read() + '\n' + open(REPO + '/CheckSources.generated.cmake').read()
    res = []
    for m in re.finditer(r'\$\{CMAKE_CURRENT_LIST_DIR\}/(src/\S+\.cpp)', txt):
        if m.group(1) not in res and 'ClazyStandaloneMain' not in m.group(1): res.append(m.group(1))
    if 'src/MiniAstDumper.cpp' not in res: res.append('src/MiniAstDumper.cpp')
    return [s for s in res if os.path.exists(f'{REPO}/{s}')]

def pch(opt='-O1'):
    """checkbase.h, which the real build also precompiles and force-includes (target_precompile_headers)"""
    gen()
    src = f'{REPO}/src/checkbase.h'
    out = f'{B}/obj/checkbase{opt}.pch'
    cmd = [CXX] + FLAGS + [opt, '-Xclang', '-fno-pch-timestamp', '-fpch-instantiate-templates', '-x', 'c++-header', src, '-o', out]
    ck = ' '.join(cmd)
    if fresh(out, ck): return out
    os.makedirs(B + '/obj', exist_ok=True)
    r = run(cmd + ['-MD', '-MF', out + '.d'])
    if r.returncode: raise BuildError(f'compile {src}:\n{r.stdout[-3000:]}')
    stamp(out, ck, depfile(out + '.d'))
    return out

def compile_obj(src, extra=(), pch=True, opt='-O1', root=None):
    """src: absolute path; returns object path"""
    key = hashlib.sha1(src.encode() + repr(extra).encode() + opt.encode()).hexdigest()[:10]
    out = f'{B}/obj/{os.path.basename(src)}.{key}.o'
    cmd = [CXX] + FLAGS + [opt] + list(extra) + (['-include-pch', globals()['pch'](opt)] if pch else []) + ['-c', src, '-o', out]
    ck = ' '.join(cmd)
    if fresh(out, ck): return out
    os.makedirs(B + '/obj', exist_ok=True)
    r = run(cmd + ['-MD', '-MF', out + '.d'])
    if r.returncode: raise BuildError(f'compile {src}:\n{r.stdout[-3000:]}')
    stamp(out, ck, depfile(out + '.d') + (list(json.load(open(globals()['pch'](opt) + '.dep'))['deps']) if pch else []))
    return out

def pmap(f, xs):
    with cf.ThreadPoolExecutor(JOBS) as ex: return list(ex.map(f, xs))

def link(out, objs, args):
    cmd = [CXX] + objs + ['-o', out] + args
    ck = ' '.join(cmd)
    out_dep = {o: None for o in objs}
    h = hashlib.sha1()
    for o in objs:
        _sha.pop(o, None); h.update((sha(o) or '').encode())
    for a in args:
        if a.startswith(B) and os.path.exists(a): _sha.pop(a, None); h.update((sha(a) or '').encode())
    ck += h.hexdigest()
    if fresh(out, ck): return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    r = run(cmd)
    if r.returncode: raise BuildError(f'link {out}:\n{r.stdout[-3000:]}')
    stamp(out, ck, [])
    return out

def lib():
    gen(); pch()
    objs = pmap(lambda s: compile_obj(f'{REPO}/{s}'), plugin_srcs())
    return link(f'{B}/lib/ClazyPlugin.so', objs, ['-shared', '-fuse-ld=lld' if os.path.exists('/usr/bin/ld.lld') else '-Wl,--build-id'] + LINK)

def standalone():
    so = lib()
    o = compile_obj(f'{REPO}/src/ClazyStandaloneMain.cpp', pch=False)
    return link(f'{B}/bin/clazy-standalone', [o], [so, f'-Wl,-rpath,{B}/lib'] + LINK)

def tidy():
    so = lib()
    o = compile_obj(f'{REPO}/src/ClazyClangTidyModule.cpp')
    return link(f'{B}/lib/ClazyClangTidy.so', [o], ['-shared', so, f'-Wl,-rpath,{B}/lib'] + LINK)

def native(name, extra=(), link_lib=True, opt='-O1'):
    """build /verif/native/<name>.cpp against /repo's objects"""
    so = [lib(), f'-Wl,-rpath,{B}/lib'] if link_lib else []
    gen()
    o = compile_obj(f'{VERIF}/native/{name}.cpp', extra=tuple(extra) + (f'-I{VERIF}/native',), pch=False, opt=opt)
    return link(f'{B}/bin/n_{name}', [o], so + LINK)

def extractor():
    src = VERIF + '/tools/extract/cxxast.cpp'
    out = B + '/bin/cxxast'
    os.makedirs(B + '/bin', exist_ok=True)
    cmd = [CXX, '-std=gnu++20', '-O1', '-fno-rtti', '-fno-exceptions', '-w', f'-I{LLVM}/include'] + DEFS[2:] + [src, '-o', out] + LINK
    ck = ' '.join(cmd)
    if fresh(out, ck): return out
    r = run(cmd)
    if r.returncode: raise BuildError(f'extractor:\n{r.stdout[-3000:]}')
    stamp(out, ck, [src])
    return out

def dump(src, pch=True):
    """mechanical extraction of one translation unit of /repo: JSON path"""
    gen()
    ex = extractor()
    path = f'{REPO}/{src}' if not src.startswith('/') else src
    out = f'{B}/dump/{src.strip("/").replace("/", "_")}.json'
    cmd = [ex, REPO + '/src' if path.startswith(REPO) else os.path.dirname(path), out, path, '--', '-O1'] + FLAGS + (['-include-pch', globals()['pch']()] if pch else []) + ['-resource-dir', f'{LLVM}/lib/clang/20']
    ck = ' '.join(cmd) + (sha(VERIF + '/tools/extract/cxxast.cpp') or '')
    if fresh(out, ck): return out
    os.makedirs(B + '/dump', exist_ok=True)
    r = run(cmd)
    if r.returncode or not os.path.exists(out): raise BuildError(f'extract {src}:\n{r.stdout[-3000:]}')
    d = json.load(open(out))
    stamp(out, ck, [path] + [f for f in d['files']])
    return out

def dumps(srcs):
    gen(); extractor(); pch()
    return pmap(dump, srcs)

if __name__ == '__main__':
    what = sys.argv[1:] or ['lib', 'standalone', 'tidy']
    import time
    for w in what:
        t = time.time()
        print(w, globals()[w]() if w in globals() and w not in ('dump', 'native') else None, f'{time.time()-t:.1f}s')
