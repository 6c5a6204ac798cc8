#!/usr/bin/env python3
"""Builds the simulator of one property from /repo's current working tree (content-hash object cache).
usage: build.py TARGET [TARGET...]     prints the path of each binary
"""
import concurrent.futures, fcntl, hashlib, os, re, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'orocos_kdl', 'src')
OUT = os.environ.get('VERIF_BUILD', os.path.join(os.path.dirname(HERE), 'build'))
CXX = 'clang++'
COMMON = ['-std=c++17', '-g1', '-fno-omit-frame-pointer', '-I/usr/include/eigen3', '-Wno-everything',
          '-include', os.path.join(HERE, 'sut_assert.h'), '-ftrivial-auto-var-init=pattern']
FLAVOURS = {
    # every fault/history check: address and undefined-behaviour sanitizers, assertions on
    'asan': dict(flags=['-O1', '-fsanitize=address,undefined', '-fno-sanitize=vptr,function', '-fno-sanitize-recover=all', '-fno-sanitize-address-use-after-scope'], kdl=[]),
    # memory exhaustion: as asan, with a copy of Eigen whose matrices survive a failed allocation of their own
    # (Eigen 3.4 keeps a pointer to released storage when resize() runs out of memory)
    'oom': dict(flags=['-O1', '-fsanitize=address,undefined', '-fno-sanitize=vptr,function', '-fno-sanitize-recover=all', '-fno-sanitize-address-use-after-scope'], kdl=[], eigen=True),
    # Python bindings: as asan, with an interpreter in the process and the module linked in
    'py': dict(flags=['-O1', '-fsanitize=address,undefined', '-fno-sanitize=vptr,function', '-fno-sanitize-recover=all', '-fno-sanitize-address-use-after-scope'], kdl=[], python=True),
    # thread-isolation check: the library calls back at every basic-block edge, so that the simulator
    # can preempt the running task there
    'fib': dict(flags=['-O1'], kdl=['-fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores']),
}
WRAP = ['-Wl,' + ','.join('--wrap=' + f for f in ('malloc', 'calloc', 'realloc', 'free', 'posix_memalign', 'aligned_alloc'))]
WRAP_THREADS = ['-pthread', '-Wl,' + ','.join('--wrap=' + f for f in ('pthread_mutex_lock', 'pthread_once', 'pthread_rwlock_rdlock', 'pthread_rwlock_wrlock'))]
TARGETS = {}
for f in sorted(os.listdir(HERE)):
    m = re.match(r'p_(\w+)\.cpp$', f)
    if m:
        TARGETS[m.group(1)] = 'fib' if m.group(1).startswith('fib') else 'oom' if m.group(1).startswith('oom') else 'py' if m.group(1).startswith('py') else 'asan'

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode()); h.update(b'\0')
    return h.hexdigest()[:24]

def read(p):
    with open(p, 'rb') as f: return f.read()

def kdl_files():
    srcs, hdrs = [], []
    for d, _, fs in os.walk(SRC):
        for f in sorted(fs):
            p = os.path.join(d, f)
            if f.startswith('.'): continue
            if f.endswith(('.cpp', '.cxx')): srcs.append(p)
            elif f.endswith(('.hpp', '.h', '.inl', '.in')): hdrs.append(p)
    return sorted(srcs), sorted(hdrs)

def make_config(inc):
    t = read(os.path.join(SRC, 'config.h.in')).decode()
    cm = read(os.path.join(REPO, 'orocos_kdl', 'CMakeLists.txt')).decode()
    v = {}
    for part in ('MAJOR', 'MINOR', 'PATCH'):
        m = re.search(r'KDL_VERSION_%s\s+(\d+)' % part, cm); v['KDL_VERSION_' + part] = m.group(1) if m else '0'
    v['KDL_VERSION'] = '%s.%s.%s' % (v['KDL_VERSION_MAJOR'], v['KDL_VERSION_MINOR'], v['KDL_VERSION_PATCH'])
    t = re.sub(r'@(\w+)@', lambda m: v.get(m.group(1), '0'), t)
    t = re.sub(r'#cmakedefine\s+HAVE_STL_CONTAINER_INCOMPLETE_TYPES', '#define HAVE_STL_CONTAINER_INCOMPLETE_TYPES', t)
    t = re.sub(r'#cmakedefine\s+(\w+)', r'/* #undef \1 */', t)
    os.makedirs(inc, exist_ok=True)
    p = os.path.join(inc, 'config.h')
    if not os.path.exists(p) or read(p).decode() != t:
        with open(p + '.tmp%d' % os.getpid(), 'w') as f: f.write(t)
        os.replace(p + '.tmp%d' % os.getpid(), p)
    return t

def eigen_copy():
    d = os.path.join(OUT, 'eigen_oom_v2')
    if os.path.exists(os.path.join(d, 'done')): return d
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree('/usr/include/eigen3/Eigen', os.path.join(d, 'Eigen'))
    f = os.path.join(d, 'Eigen', 'src', 'Core', 'DenseStorage.h'); t = read(f).decode()
    for rel, reset in (('m_data, m_rows*m_cols', 'm_rows = 0; m_cols = 0;'), ('m_data, _Rows*m_cols', 'm_cols = 0;'), ('m_data, _Cols*m_rows', 'm_rows = 0;')):
        call = '        internal::conditional_aligned_delete_auto<T,(_Options&DontAlign)==0>(%s);\n        if' % rel
        assert t.count(call) == 1, 'unexpected version of Eigen'
        t = t.replace(call, call[:-len('        if')] + '        m_data = 0; ' + reset + '\n        if')
    with open(f, 'w') as o: o.write(t)
    f = os.path.join(d, 'Eigen', 'src', 'SVD', 'JacobiSVD.h'); t = read(f).decode()
    t, n = re.subn(r'm_qr\.~QRType\(\);\s*::new \(&m_qr\) QRType\(', 'm_qr = QRType(', t)
    assert n == 6, 'unexpected version of Eigen'
    with open(f, 'w') as o: o.write(t)
    open(os.path.join(d, 'done'), 'w').close()
    return d

PYSRC = os.path.join(REPO, 'python_orocos_kdl', 'PyKDL')
def python_parts(inc):
    """flags, sources and link flags of the Python module; its headers are included as <kdl/...>"""
    import sysconfig
    d = os.path.join(OUT, 'pyinc', 'kdl'); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    for f in os.listdir(SRC): os.symlink(os.path.join(SRC, f), os.path.join(d, f))
    if not os.path.exists(os.path.join(d, 'config.h')): os.symlink(os.path.join(inc, 'config.h'), os.path.join(d, 'config.h'))
    files = sorted(os.path.join(r, f) for r, _, fs in os.walk(PYSRC) for f in fs)
    lib = sysconfig.get_config_var('LIBDIR') or '/usr/lib'; ver = sysconfig.get_config_var('LDVERSION') or sysconfig.get_python_version()
    return (['-I' + os.path.dirname(d), '-I' + sysconfig.get_paths()['include']], [f for f in files if f.endswith('.cpp')], sha(*[read(f) for f in files if not f.endswith('.cpp')]),
            ['-L' + lib, '-L/usr/lib/x86_64-linux-gnu', '-lpython' + ver])

def main():
    names = sys.argv[1:]
    if names == ['all']: names = sorted(TARGETS)
    objdir = os.path.join(OUT, 'obj'); os.makedirs(objdir, exist_ok=True)
    lock = open(os.path.join(OUT, 'lock'), 'w'); fcntl.flock(lock, fcntl.LOCK_EX)
    inc = os.path.join(OUT, 'inc'); cfg = make_config(inc)
    srcs, hdrs = kdl_files()
    hh = sha(cfg, *[read(p) for p in hdrs], *[os.path.relpath(p, SRC) for p in hdrs])
    own = sorted(p for p in os.listdir(HERE) if p.endswith(('.hpp', '.h', '.inc')))
    own_h = sha(*[read(os.path.join(HERE, p)) for p in own])
    assert_h = sha(read(os.path.join(HERE, 'sut_assert.h')))
    jobs = {}   # obj -> cmd
    def obj(src, flags, key):
        content = read(src)
        k = sha(content, os.path.basename(src), key, ' '.join(flags))
        o = os.path.join(objdir, os.path.basename(src) + '.' + k + '.o')
        if not os.path.exists(o) and o not in jobs:
            jobs[o] = [CXX] + flags + ['-c', src, '-o']
        return o
    plan = {}
    for n in names:
        if n not in TARGETS: print('unknown target', n, file=sys.stderr); return 2
        fl = FLAVOURS[TARGETS[n]]
        base = COMMON + fl['flags'] + ['-I' + SRC, '-I' + inc]
        if fl.get('eigen'): base = ['-I' + eigen_copy()] + [f for f in base if f != '-I/usr/include/eigen3']
        extra = []
        if fl.get('python'):
            pf, psrc, pkey, plink = python_parts(inc); base = base + pf; fl = dict(fl, link=plink)
            extra = [obj(s, base, hh + assert_h + pkey) for s in psrc]
        # (instrumented copies of inline functions come first, so that the linker keeps those)
        objs = [obj(os.path.join(HERE, 'p_%s.cpp' % n), base + fl['kdl'] + ['-I' + HERE], hh + own_h)]
        if fl['kdl']: objs += [obj(s, base + fl['kdl'], hh + assert_h) for s in srcs]
        core_h = sha(read(os.path.join(HERE, 'core.hpp')), assert_h)
        objs.append(obj(os.path.join(HERE, 'core.cpp'), COMMON + fl['flags'] + ['-I' + HERE], core_h))
        objs += extra
        if not fl['kdl']: objs += [obj(s, COMMON + fl['flags'] + ['-I' + SRC, '-I' + inc] if extra else base, hh + assert_h) for s in srcs]
        plan[n] = (objs, fl)
    def run(item):
        o, cmd = item
        tmp = o + '.tmp%d' % os.getpid()
        r = subprocess.run(cmd + [tmp], capture_output=True, text=True)
        if r.returncode: return '%s\n%s' % (' '.join(cmd), r.stderr[-4000:])
        os.replace(tmp, o); return None
    # harness files first: they take longest
    order = sorted(jobs.items(), key=lambda j: 0 if os.sep + 'sim' + os.sep in j[1][-3] or HERE in j[1][-3] else 1)
    with concurrent.futures.ThreadPoolExecutor(max_workers=max(2, os.cpu_count() or 2)) as ex:
        errs = [e for e in ex.map(run, order) if e]
    if errs:
        print('BUILD ERROR\n' + errs[0], file=sys.stderr); return 2
    for n, (objs, fl) in plan.items():
        wrap = WRAP + (WRAP_THREADS if fl['kdl'] else []) + fl.get('link', [])
        k = sha(*objs, ' '.join(fl['flags'] + wrap))
        b = os.path.join(OUT, 'bin', n + '.' + k)
        if not os.path.exists(b):
            os.makedirs(os.path.dirname(b), exist_ok=True)
            r = subprocess.run([CXX] + fl['flags'] + objs + wrap + ['-o', b + '.tmp'], capture_output=True, text=True)
            if r.returncode: print('LINK ERROR\n' + r.stderr[-4000:], file=sys.stderr); return 2
            os.replace(b + '.tmp', b)
            # keep the cache small: older binaries of this target go
            old = sorted((os.path.join(OUT, 'bin', f) for f in os.listdir(os.path.join(OUT, 'bin')) if f.startswith(n + '.') and not f.endswith('.tmp')), key=os.path.getmtime)
            for f in old[:-3]: os.unlink(f)
        print(b)
    return 0
sys.exit(main())
