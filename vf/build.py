"""Builds vt from /repo's working tree, with the checkpoint stand-in, for the harnesses.

Everything is compiled by us, from source lists found by walking /repo: no build
product of /repo/_build is used.  Objects go to /verif/.build/<variant>; ccache, when
present, makes a second build of unchanged sources cheap (it hashes contents, so a
fresh checkout with new time stamps still hits).
"""
import hashlib, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
ROOT = os.environ.get('VF_BUILD', os.path.join(VERIF, '.build'))
NCPU = os.cpu_count() or 4
MPI_INC = '/usr/lib/x86_64-linux-gnu/openmpi/include'
MPI_LIB = '/usr/lib/x86_64-linux-gnu/openmpi/lib'
NUNITY = 14

SAN = '-fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-sanitize=vptr'.split()
BASE_CFG = dict(
    no_feature=0, bit_check_overflow=0, trace_enabled=0, trace_only=0, lblite=1,
    production=0, mpi_rdma=0, print_term_msgs=0, no_pool_alloc_env=0, memory_pool=1,
    priority_bits_level=3, priorities=0, fcontext=0, test_trace_on=0, mimalloc=0,
    mpi_access_guards=0, zoltan=0, ci_build=0, diagnostics=1, diagnostics_runtime=0,
    libfort=0, production_build=0, debug_verbose=0, rdma_tests=1, external_fmt=0,
    libunwind=0, tv=0, perf=0)
HAS = ('malloc_h popen pclose sbrk mallinfo mallinfo2 getrusage sysinfo getpid '
       'sys_resource_h unistd_h inttypes_h sysconf execinfo_h').split()

VARIANTS = {
    # address + undefined sanitizers, assertions on: the default for behaviour harnesses
    'asan': dict(flags=['-O0', '-g1'] + SAN, cfg={}),
    # no sanitizer, for runs that are bounded by time
    'plain': dict(flags=['-O0', '-g1'], cfg={}),
    'prio': dict(flags=['-O0', '-g1'] + SAN, cfg=dict(priorities=1)),
    'trace': dict(flags=['-O0', '-g1'] + SAN, cfg=dict(trace_enabled=1)),
    'ult': dict(flags=['-O0', '-g1'], cfg=dict(fcontext=1)),
    'nopool': dict(flags=['-O0', '-g1'] + SAN, cfg=dict(memory_pool=0)),
    'tsan': dict(flags=['-O1', '-g1', '-fsanitize=thread'], cfg={}),
}


class BuildError(Exception):
    pass


def log(*a):
    print('[build]', *a, file=sys.stderr, flush=True)


def ccache_prefix():
    if os.environ.get('VF_NO_CCACHE') or not shutil.which('ccache'):
        return []
    return ['ccache']


def env():
    e = dict(os.environ)
    e['CCACHE_DIR'] = os.path.join(ROOT, 'ccache')
    e['CCACHE_MAXSIZE'] = '4G'
    e['CCACHE_NOHASHDIR'] = '1'
    e['CCACHE_SLOPPINESS'] = 'include_file_ctime,include_file_mtime,time_macros'
    e['LC_ALL'] = 'C.UTF-8'
    return e


def write_if_changed(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        with open(path) as f:
            if f.read() == text:
                return
    except OSError:
        pass
    with open(path, 'w') as f:
        f.write(text)


def gen_config(dst, cfg):
    c = dict(BASE_CFG)
    c.update(cfg)
    src = open(os.path.join(REPO, 'cmake_config.h.in')).read()

    def sub(m):
        n = m.group(1)
        if n == 'cmake_detected_max_num_nodes':
            return '8'
        if n.startswith('vt_feature_cmake_'):
            return str(c.get(n[len('vt_feature_cmake_'):], 0))
        return ''
    src = re.sub(r'@(\w+)@', sub, src)

    def cd(m):
        n = m.group(1)
        return '#define ' + n if n.startswith('vt_has_') and n[7:] in HAS else '/* #undef %s */' % n
    src = re.sub(r'#cmakedefine (\w+)', cd, src)
    write_if_changed(os.path.join(dst, 'vt', 'cmake_config.h'), src)


def includes(cfgdir):
    R = REPO
    return ['-I' + os.path.join(VERIF, 'shim'), '-I' + os.path.join(VERIF, 'harness'),
            '-I%s/lib/CLI' % R, '-I%s/src' % R, '-I' + cfgdir, '-I%s/lib/json/include' % R,
            '-I%s/lib/fmt/include' % R, '-I%s/lib/brotli/c/include' % R,
            '-isystem', MPI_INC, '-isystem', R + '/lib/EngFormat-Cpp/include',
            '-isystem', R + '/lib/yaml-cpp/include', '-isystem', R + '/lib/libfort/lib',
            '-I%s/lib/context/src' % R]


CXXSTD = ['-std=c++17', '-DJSON_USE_IMPLICIT_CONVERSIONS=1', '-DOMPI_SKIP_MPICXX=1', '-w', '-ferror-limit=5']


def run_job(job):
    cmd, out = job
    t = time.time()
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       env=env(), cwd=ROOT)
    return r.returncode, r.stdout, out, time.time() - t


def pool_run(jobs):
    with ThreadPoolExecutor(NCPU) as ex:
        return list(ex.map(run_job, jobs))


def vt_sources():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, 'src', 'vt')):
        if '/standalone' in d or '/pmpi' in d:
            continue
        for f in fs:
            if f.endswith('.cc'):
                out.append(os.path.join(d, f))
    return sorted(out)


def variant_dir(v):
    return os.path.join(ROOT, v)


def cxx_cmd(v, src, obj, extra=()):
    d = VARIANTS[v]
    return (ccache_prefix() + ['clang++'] + CXXSTD + d['flags'] + list(extra) +
            includes(os.path.join(variant_dir(v), 'cfg')) + ['-c', src, '-o', obj])


def vendor_jobs():
    d = os.path.join(ROOT, 'vend')
    os.makedirs(d, exist_ok=True)
    jobs = []
    R = REPO
    cpp = []
    for base in ('lib/yaml-cpp/src', 'lib/EngFormat-Cpp/src'):
        b = os.path.join(R, base)
        cpp += [os.path.join(b, f) for f in sorted(os.listdir(b)) if f.endswith('.cpp')]
    cpp.append(R + '/lib/fmt/src/format.cc')
    inc = ['-I%s/lib/fmt/include' % R, '-I%s/lib/yaml-cpp/include' % R,
           '-I%s/lib/EngFormat-Cpp/include' % R]
    # yaml-cpp as one unit
    u = os.path.join(d, 'vend_unity.cc')
    write_if_changed(u, ''.join('#include "%s"\n' % f for f in cpp))
    jobs.append((ccache_prefix() + ['clang++'] + CXXSTD + ['-O1'] + inc +
                 ['-c', u, '-o', os.path.join(d, 'vend_unity.o')], os.path.join(d, 'vend_unity.o')))
    for sub in ('common', 'dec', 'enc'):
        b = R + '/lib/brotli/c/' + sub
        for f in sorted(os.listdir(b)):
            if f.endswith('.c'):
                o = os.path.join(d, 'b_%s_%s.o' % (sub, f))
                jobs.append((ccache_prefix() + ['clang', '-O1', '-w', '-I%s/lib/brotli/c/include' % R,
                                                '-c', os.path.join(b, f), '-o', o], o))
    a = R + '/lib/context/src'
    for dd, _, fs in os.walk(a):
        for f in sorted(fs):
            if f.endswith('.S') and 'x86_64_sysv_elf' in f:
                o = os.path.join(d, 'ctx_%s.o' % f)
                jobs.append((['gcc', '-c', os.path.join(dd, f), '-o', o], o))
    b = R + '/lib/context/src/context'
    write_if_changed(os.path.join(d, 'inc', 'context_config.h'), '/* no valgrind */\n')
    for f in sorted(os.listdir(b)):
        if f in ('fcontext.cc', 'context_stack.cc', 'context_page.cc'):
            o = os.path.join(d, 'ctx_%s.o' % f)
            jobs.append((ccache_prefix() + ['clang++'] + CXXSTD + ['-O1', '-I' + os.path.join(d, 'inc'), '-I%s/lib/context/src' % R, '-c', os.path.join(b, f), '-o', o], o))
    return jobs


def build(variant, harness, sources=None):
    """harness: {exe name: [harness source files]}.  sources: restrict the vt sources
    linked (list of paths relative to src/vt), or None for all.  Returns {exe: path}."""
    t0 = time.time()
    vd = variant_dir(variant)
    os.makedirs(os.path.join(vd, 'obj'), exist_ok=True)
    os.makedirs(os.path.join(vd, 'bin'), exist_ok=True)
    gen_config(os.path.join(vd, 'cfg'), VARIANTS[variant]['cfg'])
    rev = os.path.join(vd, 'gen', 'rev.cc')
    write_if_changed(rev, '#include <string>\n' + ''.join(
        'extern int const %s; int const %s = 0;\n' % (n, n) for n in
        ('vt_version_major', 'vt_version_minor', 'vt_version_patch')) + ''.join(
        'extern std::string const %s; std::string const %s = "x";\n' % (n, n) for n in
        ('vt_git_sha1', 'vt_git_exact_tag', 'vt_git_refspec', 'vt_git_description',
         'vt_git_clean_status')))
    jobs = []
    hobjs = {}
    for exe, srcs in harness.items():
        hobjs[exe] = []
        for s in srcs:
            o = os.path.join(vd, 'obj', 'h_' + os.path.basename(s) + '.o')
            hobjs[exe].append(o)
            jobs.append((cxx_cmd(variant, os.path.join(VERIF, 'harness', s), o), o))
    # unity groups, assigned by a hash of the path so that they are stable
    groups = {}
    for s in vt_sources():
        rel = os.path.relpath(s, os.path.join(REPO, 'src', 'vt'))
        if sources is not None and rel not in sources:
            continue
        g = int(hashlib.md5(rel.encode()).hexdigest(), 16) % NUNITY
        groups.setdefault(g, []).append(s)
    unity = {}
    for g, ss in groups.items():
        u = os.path.join(vd, 'gen', 'u%d.cc' % g)
        write_if_changed(u, ''.join('#include "%s"\n' % s for s in ss))
        o = os.path.join(vd, 'obj', 'u%d.o' % g)
        unity[o] = ss
        jobs.append((cxx_cmd(variant, u, o), o))
    jobs.sort(key=lambda j: -sum(os.path.getsize(s) for s in unity.get(j[1], [])) if j[1] in unity else -10**9)
    jobs.append((cxx_cmd(variant, rev, os.path.join(vd, 'obj', 'rev.o')), os.path.join(vd, 'obj', 'rev.o')))
    vj = vendor_jobs()
    res = pool_run(jobs + vj)
    objs = [os.path.join(vd, 'obj', 'rev.o')]
    retry = []
    vend = []
    harness_objs = {o for v in hobjs.values() for o in v}
    for rc, out, o, dt in res:
        if o in unity:
            if rc == 0:
                objs.append(o)
            else:
                log('unity group failed, compiling its files one by one:', o, out[:600])
                for s in unity[o]:
                    so = os.path.join(vd, 'obj', 's_' + hashlib.md5(s.encode()).hexdigest()[:12] + '.o')
                    retry.append((cxx_cmd(variant, s, so), so))
                    objs.append(so)
        elif rc != 0:
            raise BuildError('compile failed: %s\n%s' % (o, out[-4000:]))
        elif o.startswith(os.path.join(ROOT, 'vend')):
            vend.append(o)
    if retry:
        for rc, out, o, dt in pool_run(retry):
            if rc != 0:
                log('compile failed, left out:', out[:1500])
                objs.remove(o)
    link = []
    exes = {}
    ld = [l for l in ('lld', 'gold') if os.path.exists('/usr/bin/ld.' + l)]
    ld = ['-fuse-ld=' + ld[0]] if ld else []
    for exe in harness:
        p = os.path.join(vd, 'bin', exe)
        exes[exe] = p
        link.append((['clang++'] + ld +
                     VARIANTS[variant]['flags'] + hobjs[exe] + objs + vend +
                     ['-L' + MPI_LIB, '-lmpi', '-lz', '-ldl', '-lpthread', '-o', p], p))
    for rc, out, o, dt in pool_run(link):
        if rc != 0:
            raise BuildError('link failed: %s\n%s' % (o, out[-4000:]))
    log('built', variant, ','.join(harness), 'in %.1fs' % (time.time() - t0))
    return exes


def build_many(builds):
    """builds: [(variant, {exe: [sources]}, vt source subset or None)].  Returns {exe: path}."""
    out = {}
    for variant, harness, sources in builds:
        out.update(build(variant, harness, sources))
    return out
