#!/usr/bin/env python3
"""Builds vt from the current directory with the program given and runs it.  mk.py [np [VARIANT=1...]] program.cc [args]
Everything is kept in a scratch directory that is removed at the end."""
import hashlib, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.getcwd()
NP = int(sys.argv[1])
CFG = {}
rest = sys.argv[2:]
SAN = []
while '=' in rest[0]:
    k, v = rest.pop(0).split('=')
    if k == 'san':
        SAN = ['-fsanitize=' + v, '-fno-sanitize=vptr', '-fno-sanitize-recover=undefined']
    else:
        CFG[k] = v
PROG = rest[0]
ARGS = rest[1:]
D = tempfile.mkdtemp(prefix='vtdemo')
MPI = '/usr/lib/x86_64-linux-gnu/openmpi/'
BASE = dict(lblite=1, memory_pool=1, priority_bits_level=3, diagnostics=1, rdma_tests=1)
BASE.update(CFG)
HAS = 'malloc_h popen pclose sbrk mallinfo mallinfo2 getrusage sysinfo getpid sys_resource_h unistd_h inttypes_h sysconf execinfo_h'.split()


def put(p, t):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    open(p, 'w').write(t)


t = open('cmake_config.h.in').read()
t = re.sub(r'@(\w+)@', lambda m: '8' if m.group(1) == 'cmake_detected_max_num_nodes' else str(BASE.get(m.group(1)[17:], 0)) if m.group(1).startswith('vt_feature_cmake_') else '', t)
t = re.sub(r'#cmakedefine (\w+)', lambda m: '#define ' + m.group(1) if m.group(1)[7:] in HAS else '', t)
put(D + '/cfg/vt/cmake_config.h', t)
put(D + '/rev.cc', '#include <string>\n' + ''.join('extern int const %s; int const %s = 0;\n' % (n, n) for n in ('vt_version_major', 'vt_version_minor', 'vt_version_patch')) +
    ''.join('extern std::string const %s; std::string const %s = "x";\n' % (n, n) for n in ('vt_git_sha1', 'vt_git_exact_tag', 'vt_git_refspec', 'vt_git_description', 'vt_git_clean_status')))
R = REPO
INC = ['-I' + HERE + '/shim', '-I' + HERE, '-I%s/lib/CLI' % R, '-I%s/src' % R, '-I' + D + '/cfg', '-I%s/lib/json/include' % R, '-I%s/lib/fmt/include' % R,
       '-I%s/lib/brotli/c/include' % R, '-isystem', MPI + 'include', '-isystem', R + '/lib/EngFormat-Cpp/include', '-isystem', R + '/lib/yaml-cpp/include',
       '-isystem', R + '/lib/libfort/lib', '-I%s/lib/context/src' % R]
CXX = ['clang++', '-std=c++17', '-DJSON_USE_IMPLICIT_CONVERSIONS=1', '-DOMPI_SKIP_MPICXX=1', '-w', '-ferror-limit=3', '-O0', '-g0']
vt = []
for d, _, fs in os.walk(R + '/src/vt'):
    if '/standalone' in d or '/pmpi' in d:
        continue
    vt += [os.path.join(d, f) for f in fs if f.endswith('.cc')]
groups = {}
for s in sorted(vt):
    groups.setdefault(int(hashlib.md5(os.path.relpath(s, R).encode()).hexdigest(), 16) % 14, []).append(s)
jobs = []


def job(src, obj, cxx=True, extra=()):
    jobs.append(((CXX + SAN + INC if cxx else ['clang', '-O1', '-w', '-I%s/lib/brotli/c/include' % R]) + list(extra) + ['-c', src, '-o', D + '/' + obj], D + '/' + obj))


for g, ss in groups.items():
    put(D + '/u%d.cc' % g, ''.join('#include "%s"\n' % s for s in ss))
    job(D + '/u%d.cc' % g, 'u%d.o' % g)
job(os.path.join(HERE, PROG), 'prog.o')
job(D + '/rev.cc', 'rev.o')
cpp = []
for b in ('lib/yaml-cpp/src', 'lib/EngFormat-Cpp/src'):
    cpp += ['%s/%s/%s' % (R, b, f) for f in sorted(os.listdir(R + '/' + b)) if f.endswith('.cpp')]
put(D + '/v.cc', ''.join('#include "%s"\n' % f for f in cpp + [R + '/lib/fmt/src/format.cc']))
job(D + '/v.cc', 'v.o')
for sub in ('common', 'dec', 'enc'):
    for f in sorted(os.listdir(R + '/lib/brotli/c/' + sub)):
        if f.endswith('.c'):
            job(R + '/lib/brotli/c/%s/%s' % (sub, f), 'b_%s_%s.o' % (sub, f), False)
for dd, _, fs in os.walk(R + '/lib/context/src'):
    for f in fs:
        if f.endswith('.S') and 'x86_64_sysv_elf' in f:
            jobs.append((['gcc', '-c', os.path.join(dd, f), '-o', D + '/c_' + f + '.o'], D + '/c_' + f + '.o'))


def run(j):
    return subprocess.run(j[0], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


rc = 3
try:
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        for r in ex.map(run, jobs):
            if r.returncode:
                print(r.stdout[-3000:])
                sys.exit(3)
    r = subprocess.run(['clang++'] + SAN + [o for _, o in jobs] + ['-L' + MPI + 'lib', '-lmpi', '-lz', '-ldl', '-lpthread', '-o', D + '/demo'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        print(r.stdout[-3000:])
        sys.exit(3)
    env = dict(os.environ, TMPDIR=D, OMPI_MCA_orte_tmpdir_base=D, HOME=D, ASAN_OPTIONS='detect_leaks=0', DEMO_DIR=D)
    cmd = [D + '/demo'] + ARGS
    if NP:
        cmd = ['mpirun', '--allow-run-as-root', '--oversubscribe', '--bind-to', 'none', '--mca', 'btl', 'vader,self', '--mca', 'btl_vader_single_copy_mechanism', 'none',
               '--mca', 'plm', 'isolated', '--mca', 'oob_tcp_if_include', 'lo', '-np', str(NP)] + cmd
    try:
        r = subprocess.run(['timeout', '-k', '5', '60'] + cmd, cwd=D, env=env, stdin=subprocess.DEVNULL)
        rc = r.returncode
    except OSError as e:
        print(e)
finally:
    shutil.rmtree(D, ignore_errors=True)
print('demo exit', rc)
sys.exit(1 if rc else 0)
