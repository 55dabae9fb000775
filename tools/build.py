"""Builds the simulators from /repo's working tree; objects are cached by content."""
import hashlib, os, re, subprocess, sys, glob, shutil
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('XRTM_REPO', '/repo')
OUT = os.environ.get('XRTM_BUILD', os.path.join(VERIF, 'build'))
DEFS = ['-DVERSION="0.93"', '-DGBYTE_ORDER=BYTE_ORDER_LE', '-DNATIVE_SIZE=NATIVE_SIZE_64_BIT', '-DUNIX', '-DPLATFORM=LINUX_GCC']
INC = ['-I%s/%s' % (REPO, d) for d in ('src', 'interfaces', 'misc', 'utils')]
C = ['-O2', '-g1', '-fPIC', '-w', '-fno-strict-aliasing', '-fopenmp', '-U_FORTIFY_SOURCE', '-fno-stack-protector'] + DEFS + INC
F77 = ['-O2', '-fPIC', '-w', '-fno-second-underscore', '-ffixed-line-length-none']
F90 = ['-O2', '-fPIC', '-w', '-fno-second-underscore', '-ffree-line-length-0']
WRAP = 'malloc calloc realloc free strdup exit abort dgetrf_ dgetri_ dgbtrf_ zgbtrf_ zgetrf_ zgetri_ dgeev_ dsyev_ dasymtx_ _gfortran_stop_string _gfortran_stop_numeric _gfortran_error_stop_string'.split()

PY = ['-I/usr/include/python3.12', '-I/usr/lib/python3/dist-packages/numpy/core/include']

class BuildError(Exception): pass

def objects(d):
    """OBJECTS of a Makefile of the project, development objects left out."""
    t = open('%s/%s/Makefile' % (REPO, d)).read().replace('\\\n', ' ')
    t = re.sub(r'ifdef make_dev_build.*?endif', '', t, flags=re.S)
    r = []
    for m in re.finditer(r'^OBJECTS\s*\+?=(.*)$', t, re.M): r += [x for x in m.group(1).split() if x.endswith('.o')]
    return [x[:-2] for x in r]

def source(d, o):
    for e in ('.c', '.cpp', '.f', '.f90'):
        p = '%s/%s/%s%s' % (REPO, d, o, e)
        if os.path.exists(p): return p
    return None

_hdr = {}
def hdrs(root, pats):
    k = (root, tuple(pats))
    if k not in _hdr:
        h = hashlib.sha256()
        for p in sorted(sum([glob.glob(os.path.join(root, q), recursive=True) for q in pats], [])):
            if '/_build/' in p: continue
            h.update(p.encode()); h.update(open(p, 'rb').read())
        _hdr[k] = h.hexdigest()
    return _hdr[k]

def compile_one(src, flags, tag, hh, cc=None):
    ext = os.path.splitext(src)[1]
    cc = cc or {'.c': 'gcc', '.cpp': 'g++', '.f': 'gfortran', '.f90': 'gfortran'}[ext]
    key = hashlib.sha256('\0'.join([cc, src, tag, hh] + flags).encode() + open(src, 'rb').read()).hexdigest()[:24]
    os.makedirs(OUT + '/obj', exist_ok=True)
    o = '%s/obj/%s-%s.o' % (OUT, os.path.basename(src).replace('.', '_'), key)
    if not os.path.exists(o):
        t = o + '.%d.tmp' % os.getpid()
        p = subprocess.run([cc] + flags + ['-c', src, '-o', t], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
        if p.returncode: raise BuildError('%s\n%s' % (src, p.stdout[-4000:]))
        os.replace(t, o)
    return o

def version_c():
    os.makedirs(OUT + '/gen', exist_ok=True); p = OUT + '/gen/version.c'
    t = '#include "version.h"\nconst char *build_date = "simulated";\nconst char *build_sha_1 = "simulated";\n'
    if not os.path.exists(p) or open(p).read() != t: open(p, 'w').write(t)
    return p

def repo_jobs(dirs, extra, tag, fextra=[]):
    hh = hdrs(REPO, ['src/**/*.h', 'misc/**/*.h', 'interfaces/**/*.h', 'utils/**/*.h', 'src/*.inc', 'interfaces/*.inc'])
    jobs = []
    for d in dirs:
        for o in objects(d):
            s = version_c() if (d, o) == ('src', 'version') else source(d, o)
            if not s: raise BuildError('no source for %s/%s' % (d, o))
            e = os.path.splitext(s)[1]
            fl = (C + extra) if e in ('.c', '.cpp') else F77 + fextra if e == '.f' else F90 + fextra
            # some sources include other sources
            hx = hh + hdrs(REPO, ['%s/*.c' % d]) if '#include "' in open(s, errors='replace').read() and re.search(r'#include\s+"[^"]+\.c"', open(s, errors='replace').read()) else hh
            jobs.append((s, fl, tag, hx))
    return jobs

def sim_jobs(names, extra, tag):
    hh = hdrs(REPO, ['src/**/*.h', 'misc/**/*.h', 'interfaces/**/*.h', 'utils/**/*.h']) + hdrs(VERIF, ['sim/*.h', 'sim/*.inc'])
    return [(VERIF + '/sim/' + n, ['-O1', '-g1', '-w', '-fPIC', '-U_FORTIFY_SOURCE', '-I' + VERIF + '/sim'] + DEFS + INC + extra, tag, hh) for n in names]

def run_jobs(jobs):
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        return list(ex.map(lambda j: compile_one(*j), jobs))

def link(objs, name, extra=[], wrap=WRAP):
    key = hashlib.sha256('\0'.join(objs + extra + wrap).encode()).hexdigest()[:16]
    os.makedirs(OUT + '/bin', exist_ok=True)
    b = '%s/bin/%s-%s' % (OUT, name, key)
    if not os.path.exists(b):
        t = b + '.%d.tmp' % os.getpid()
        cmd = ['g++', '-o', t] + objs + ['-Wl,--wrap=' + w for w in wrap] + extra + ['-lopenblas', '-lgfortran', '-lm', '-fopenmp', '-lpthread']
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
        if p.returncode: raise BuildError(p.stdout[-4000:])
        os.replace(t, b)
    return b

def prune(days=0.5):
    import time
    for p in glob.glob(OUT + '/obj/*') + glob.glob(OUT + '/bin/*'):
        try:
            if time.time() - os.path.getatime(p) > 86400 * days: os.unlink(p)
        except OSError: pass

CORE = ['rt.cpp', 'core.cpp', 'api.cpp', 'gen.cpp', 'exec.cpp', 'props.cpp', 'main.cpp']

def build_sim():
    """The library driven through its C interface; steps counted at every branch."""
    jobs = repo_jobs(['src', 'misc'], ['-fsanitize-coverage=trace-pc'], 'cov') + sim_jobs(CORE, [], 'sim') + sim_jobs(['cov.c'], [], 'sim')
    return link(run_jobs(jobs), 'sim')

def repo_object(objs, name):
    """One relocatable object whose writable static data are in a section of their own."""
    key = hashlib.sha256('\0'.join(objs).encode()).hexdigest()[:16]; o = '%s/obj/%s-%s.o' % (OUT, name, key)
    if not os.path.exists(o):
        t = o + '.%d.tmp' % os.getpid(); ren = ['--rename-section=%s=repodata,alloc,load,contents,data' % x for x in ('.data', '.bss', '.data.rel', '.data.rel.local', '.sdata', '.sbss', '.lbss', '.ldata')]
        for cmd in (['ld', '-r', '-d', '-o', t] + objs, ['objcopy'] + ren + [t]):
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
            if p.returncode: raise BuildError(p.stdout[-4000:])
        os.replace(t, o)
    return o

def build_conc():
    """The library with every memory access passing through the scheduler."""
    T = ['-fsanitize=thread']
    jobs = repo_jobs(['src', 'misc'], T, 'tsan', T); n = len(jobs)
    jobs += sim_jobs(CORE + ['conc.cpp'], [], 'sim')
    o = run_jobs(jobs)
    return link([repo_object(o[:n], 'repo-conc')] + o[n:], 'conc', wrap=WRAP + ['pthread_mutex_lock', 'pthread_once', 'GOMP_critical_start', 'GOMP_critical_end', 'strtok', 'rand'])

def build_io():
    """The file functions against the simulated disk."""
    jobs = repo_jobs(['src', 'misc'], ['-fsanitize-coverage=trace-pc'], 'cov') + sim_jobs(['rt.cpp', 'core.cpp', 'main.cpp', 'disk.cpp', 'io.cpp', 'cov.c'], [], 'sim')
    return link(run_jobs(jobs), 'io', wrap=WRAP + ['fopen', 'fclose'])

LEX = {'c': 'f1c5a5684c8dc72146bb3426df414a988fd4a0bc8f5c8d57f7f8c52380fa4210', 'h': '28d63a5c2886dabdd4b5e7e6e6a3fd7a3f976f5d961c78fbdb4f09ae86d66f9e'}

def scanner():
    """utils/input_yylex.c as the project builds it: made from the .l if the committed copy is the one that came with it."""
    u = REPO + '/utils/input_yylex.'
    if any(hashlib.sha256(open(u + e, 'rb').read()).hexdigest() != LEX[e] for e in 'ch') or not shutil.which('flex'): return u + 'c'
    k = hashlib.sha256(open(u + 'l', 'rb').read()).hexdigest()[:16]; d = OUT + '/gen/lex-' + k
    if not os.path.exists(d + '/input_yylex.c'):
        os.makedirs(d, exist_ok=True)
        t = d + '/t%d' % os.getpid(); os.makedirs(t, exist_ok=True)
        p = subprocess.run(['flex', '-o', 'input_yylex.c', '--header-file=input_yylex.h', u + 'l'], cwd=t, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
        if p.returncode: raise BuildError(p.stdout)
        for f in ('input_yylex.h', 'input_yylex.c'): os.replace(t + '/' + f, d + '/' + f)
        os.rmdir(t)
    return d + '/input_yylex.c'

def build_call():
    """The command-line program, main() and all, as a process inside the simulator."""
    cov = ['-fsanitize-coverage=trace-pc']; jobs = repo_jobs(['src', 'misc'], cov, 'cov')
    hh = hdrs(REPO, ['src/**/*.h', 'misc/**/*.h', 'interfaces/**/*.h', 'utils/**/*.h']); lex = scanner()
    for f in (REPO + '/utils/callxrtm.c', REPO + '/utils/input_util.c', lex):
        fl = C + cov + (['-Dmain=callxrtm_main'] if f.endswith('callxrtm.c') else [])
        if lex.startswith(OUT): fl = ['-I' + os.path.dirname(lex)] + fl
        jobs.append((f, fl, 'util', hh))
    n = len(jobs)
    jobs += sim_jobs(['rt.cpp', 'core.cpp', 'api.cpp', 'gen.cpp', 'main.cpp', 'disk.cpp', 'call.cpp', 'cov.c'], [], 'sim')
    o = run_jobs(jobs)
    return link([repo_object(o[:n], 'repo-call')] + o[n:], 'call', wrap=WRAP + ['fopen', 'fclose', 'clock'])

def build_bind():
    """The library behind its C++, Fortran 77, Fortran 90 and Python interfaces."""
    cov = ['-fsanitize-coverage=trace-pc']; I = REPO + '/interfaces/'; jobs = repo_jobs(['src', 'misc'], cov, 'cov')
    hh = hdrs(REPO, ['src/**/*.h', 'misc/**/*.h', 'interfaces/**/*.h', 'interfaces/*.inc'])
    for f in ('xrtm_int_cpp.cpp', 'xrtm_fd_int_cpp.cpp', 'xrtm_int_f77_util.c', 'xrtm_fd_int_f77_util.c', 'xrtm_int_f90_util.c', 'xrtm_fd_int_f90_util.c'): jobs.append((I + f, C + cov, 'cov', hh))
    for f in ('xrtm_int_f77.f', 'xrtm_fd_int_f77.f'): jobs.append((I + f, F77, 'bind', hh))
    jobs.append((VERIF + '/sim/f77shim.f', F77 + ['-I' + REPO + '/interfaces'], 'bind', hh))
    # the modules in their order, each needing the one before
    mods = [I + 'xrtm_int_f90.f90', I + 'xrtm_fd_int_f90.f90', VERIF + '/sim/f90shim.f90']; h = hashlib.sha256(hh.encode()); o90 = []
    for m in mods: h.update(open(m, 'rb').read())
    d = OUT + '/gen/mod-' + h.hexdigest()[:16]
    if not os.path.exists(d + '/done'):
        t = d + '.%d.tmp' % os.getpid(); os.makedirs(t, exist_ok=True)
        for m in mods:
            p = subprocess.run(['gfortran'] + F90 + ['-J' + t, '-I' + t, '-c', m, '-o', t + '/' + os.path.basename(m)[:-4] + '.o'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
            if p.returncode: raise BuildError('%s\n%s' % (m, p.stdout[-4000:]))
        open(t + '/done', 'w').close(); shutil.rmtree(d, ignore_errors=True)
        try: os.rename(t, d)
        except OSError: shutil.rmtree(t, ignore_errors=True)
    o90 = [d + '/' + os.path.basename(m)[:-4] + '.o' for m in mods]
    jobs.append((I + 'xrtm_int_py.c', C + cov + PY, 'cov', hh))
    jobs += sim_jobs(CORE + ['cov.c'], [], 'sim') + sim_jobs(['bind.cpp'], PY, 'sim')
    return link(run_jobs(jobs) + o90, 'bind', extra=['-lpython3.12'])

BUILDERS = {'sim': build_sim, 'conc': build_conc, 'io': build_io, 'call': build_call, 'bind': build_bind}
if __name__ == '__main__':
    for n in sys.argv[1:] or sorted(BUILDERS):
        try: print(BUILDERS[n]())
        except BuildError as e: print('BUILD FAILED', e); sys.exit(2)
