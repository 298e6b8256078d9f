"""Runs one check: builds the harnesses from /repo, runs them, judges what the monitors saw."""
import array, fcntl, json, os, random, re, shutil, signal, subprocess, sys, threading, time, traceback
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
import specs

VERIF = build.VERIF
MPIRUN = ['mpirun', '--allow-run-as-root', '--oversubscribe', '--bind-to', 'none',
          '--mca', 'btl', 'vader,self', '--mca', 'btl_vader_single_copy_mechanism', 'none',
          '--mca', 'plm', 'isolated', '--mca', 'oob_tcp_if_include', 'lo', '--mca', 'rmaps_base_oversubscribe', '1']
SLOTS = int(os.environ.get('VF_SLOTS', '0')) or max(8, (os.cpu_count() or 4))


def log(*a):
    print('[check]', *a, file=sys.stderr, flush=True)


class Inconclusive(Exception):
    pass


class Slots:
    """Bounds how many ranks run at once."""
    def __init__(self, n):
        self.n = n
        self.free = n
        self.cv = threading.Condition()

    def take(self, k):
        k = min(k, self.n)
        with self.cv:
            while self.free < k:
                self.cv.wait()
            self.free -= k
        return k

    def give(self, k):
        with self.cv:
            self.free += k
            self.cv.notify_all()


SAN_RE = re.compile(r'ERROR: (AddressSanitizer|LeakSanitizer): ([\w-]+)|WARNING: (ThreadSanitizer): ([\w -]+)|runtime error: (.*)')


def frames(text, n=4):
    out = []
    for m in re.finditer(r'#\d+ 0x[0-9a-f]+ (?:in )?(.+?) (/\S+?):(\d+)', text):
        fn, path = m.group(1), m.group(2)
        if '/src/vt/' in path or '/harness/' in path:
            fn = re.sub(r'<.*', '', fn.split('(')[0]).split('::')[-1]
            out.append('%s@%s' % (fn, os.path.basename(path)))
            if len(out) == n:
                break
    return out


def san_key(text):
    m = SAN_RE.search(text)
    if not m:
        return None
    kind = m.group(2) or m.group(4) or m.group(5)
    kind = re.sub(r'0x[0-9a-f]+|-?\d+', 'N', kind.strip())
    kind = re.sub(r"'[^']*'", 'T', kind)
    f = frames(text[m.start():], 2)
    # the location named by UBSan itself
    loc = re.findall(r'(\S+/(?:src/vt|harness)/\S+?):\d+:\d+: runtime error', text)
    if loc:
        f = [os.path.basename(loc[0])] + f[:1]
    return 'sanitizer:%s:%s' % (re.sub(r'[^\w-]+', '-', kind)[:60], '/'.join(f))


def abort_key(out, scen):
    """Names a crash by the assertion text, when there is one."""
    for pat in (r'Assertion failed:?\s*(.{0,100})', r'Reason:\s*(.{0,100})', r'SHIM-SERIALIZE: (.{0,80})', r'what\(\):\s*(.{0,80})',
                r'Signal: (.{0,40})', r'(terminate called[^\n]{0,80})'):
        m = re.search(pat, out)
        if m:
            t = re.sub(r'\x1b\[[0-9;]*m', '', m.group(1))
            t = re.sub(r'[0-9a-f]{6,}|\d+', 'N', t)
            return 'abort:' + re.sub(r'[^\w.:<>=!&|+ -]+', '', t).strip()[:90].replace(' ', '_')
    return 'abort:' + scen


class Result:
    def __init__(self):
        self.stats, self.viol, self.samples, self.distinct = {}, [], [], set()
        self.ok = False
        self.kind = ''


def judge(run, d, rc, timed_out, out):
    r = Result()
    np_ = max(1, run.get('np', 0))
    started = done = 0
    scen = 'start'
    hang = []
    for k in range(np_):
        p = os.path.join(d, 'rank%d.log' % k)
        if not os.path.exists(p):
            continue
        started += 1
        for ln in open(p, errors='replace'):
            ln = ln.rstrip('\n')
            if ln.startswith('MON-STAT '):
                _, n, v = ln.split(' ')
                r.stats[n] = r.stats.get(n, 0) + int(v)
            elif ln.startswith('MON-SCENARIO '):
                scen = ln[13:]
            elif ln.startswith('MON-SAMPLE '):
                r.samples.append(ln[11:])
            elif ln.startswith('MON-VIOLATION '):
                key, _, detail = ln[14:].partition(' | ')
                # a harness shared by several properties: each check reports its own
                if not run.get('keys') or key.startswith(tuple(run['keys'])):
                    r.viol.append((key, detail))
                else:
                    r.stats['other_property_reports'] = r.stats.get('other_property_reports', 0) + 1
            elif ln.startswith('MON-HANG '):
                hang.append(ln[9:])
            elif ln == 'MON-DONE':
                done += 1
        dp = os.path.join(d, 'rank%d.distinct' % k)
        if os.path.exists(dp):
            a = array.array('Q')
            with open(dp, 'rb') as f:
                a.frombytes(f.read())
            r.distinct.update(a)
    for f in sorted(os.listdir(d)):
        if '.san.' in f or f == 'out':
            text = open(os.path.join(d, f), errors='replace').read()
            for blk in re.split(r'(?=={60,})', text) if f != 'out' else [text]:
                if 'LeakSanitizer: detected' in blk:
                    # only what vt or the harness allocated: the MPI library leaks a little
                    for one in re.split(r'(?=(?:Direct|Indirect) leak of )', blk)[1:]:
                        f4 = frames(one, 8)
                        lib = re.search(r'/lib(?:mpi|open-|pmix|event|hwloc|c\.so)', re.split(r'/src/vt/|/harness/', one)[0])
                        if f4 and not lib:
                            r.viol.append(('sanitizer:leak:' + '/'.join(f4[:2]), '%s | %s' % (one.splitlines()[0], ' < '.join(f4))))
                    continue
                k = san_key(blk)
                if k:
                    m = SAN_RE.search(blk)
                    r.viol.append((k, 'scenario %s: %s | %s' % (scen, m.group(0), ' < '.join(frames(blk[m.start():], 8)))))
    if started == 0 and np_ > 0:
        r.kind = 'nolaunch'
    elif timed_out or hang:
        r.kind = 'hang'
        r.hang = ('hang:' + re.sub(r'\d+', '', scen), '; '.join(hang)[:600] or 'wall-clock limit, scenario ' + scen)
    elif rc != 0 or done < np_:
        if rc in (137, -9) or 'signal 9 ' in out:
            r.kind = 'killed'
        else:
            r.kind = 'crash'
            tail = re.sub(r'\x1b\[[0-9;]*m', '', out)
            i = max(tail.find('Assertion failed'), tail.find('*** '), tail.find('Reason'))
            r.viol.append((abort_key(tail, scen), 'scenario %s exit %s: %s' % (scen, rc, ' '.join(tail[i if i >= 0 else -600:][:600].split()))))
    else:
        r.ok = True
        r.kind = 'done'
    return r


def execute(run, exes, root, tag, factor=1):
    d = os.path.join(root, tag)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    e = dict(os.environ)
    e.update(MON_DIR=d, MON_SEED=str(run['seed']), MON_TIER=specs.TIER,
             TMPDIR=d, OMPI_MCA_orte_tmpdir_base=d, HOME=d, LC_ALL='C.UTF-8',
             ASAN_OPTIONS='detect_leaks=%d:exitcode=%d:abort_on_error=0:log_path=%s/a.san:detect_stack_use_after_return=0:allocator_may_return_null=1:handle_segv=1' % (run.get('leaks', 0), 0 if run.get('leaks') else 88, d),
             UBSAN_OPTIONS='print_stacktrace=1:log_path=%s/u.san' % d,
             TSAN_OPTIONS='halt_on_error=0:exitcode=0:log_path=%s/t.san:suppressions=%s' % (d, os.path.join(VERIF, 'vf', 'tsan.supp')))
    for k, v in run.get('env', {}).items():
        e[k] = str(v)
    cmd = [exes[run['exe']]] + [str(a) for a in run.get('args', [])]
    np_ = run.get('np', 0)
    if np_:
        cmd = MPIRUN + ['-np', str(np_)] + cmd
    limit = run.get('timeout', 90) * factor
    out = os.path.join(d, 'out')
    to = False
    with open(out, 'wb') as f:
        p = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, env=e, cwd=d, start_new_session=True)
        try:
            rc = p.wait(limit)
        except subprocess.TimeoutExpired:
            to = True
            rc = -1
        finally:
            try:
                os.killpg(p.pid, signal.SIGTERM if to else signal.SIGKILL)
                if to:
                    time.sleep(1)
                    os.killpg(p.pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass
            p.wait()
            # ranks run in process groups of their own
            for k in range(max(1, np_)):
                try:
                    m = re.search(r'pid=(\d+)', open(os.path.join(d, 'rank%d.log' % k)).readline())
                    pid = int(m.group(1))
                    if open('/proc/%d/cmdline' % pid, 'rb').read().split(b'\0')[0].decode() == exes[run['exe']]:
                        os.kill(pid, signal.SIGKILL)
                except (OSError, AttributeError):
                    pass
    text = open(out, errors='replace').read()
    if len(text) > 400000:
        text = text[:200000] + text[-200000:]
    return judge(run, d, rc, to, text), cmd, d


def known_findings():
    p = os.path.join(VERIF, 'known_findings.txt')
    out = []
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', ln.strip())
            if m:
                out.append(m.groups())
    return out


def main(pid):
    t0 = time.time()
    spec = specs.get(pid)
    seed = specs.SEED
    rng = random.Random('%s-%d' % (pid, seed))
    os.makedirs(build.ROOT, exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'evidence', 'replay'), exist_ok=True)
    exes = {}
    with open(os.path.join(build.ROOT, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        exes = build.build_many(spec['builds'])
    tb = time.time() - t0
    runs = spec['runs'](rng, specs.TIER == 'thorough')
    for i, r in enumerate(runs):
        r.setdefault('seed', rng.randrange(1, 1 << 40))
        r['i'] = i
        if spec.get('keys'):
            r['keys'] = list(spec['keys'])
    root = os.path.join(build.ROOT, 'run', pid)
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    slots = Slots(SLOTS)
    results = [None] * len(runs)
    stop = threading.Event()
    errors = []

    def go(i):
        if stop.is_set():
            return
        run = runs[i]
        k = slots.take(max(1, run.get('np', 0)))
        try:
            if stop.is_set():
                return
            res, cmd, d = execute(run, exes, root, 'r%d' % i)
            tries = 0
            while res.kind in ('nolaunch', 'killed') and tries < 3:
                tries += 1
                time.sleep(1)
                res, cmd, d = execute(run, exes, root, 'r%d' % i)
            if res.kind == 'hang' and not res.viol:
                log('no progress in run', i, res.hang, '- running it again')
                res2, cmd, d = execute(run, exes, root, 'r%d' % i, 2)
                if res2.kind == 'hang' and not res2.viol:
                    res2.viol.append(res2.hang)
                else:
                    res2.stats['inconclusive_hangs'] = 1
                res = res2
            res.cmd = cmd
            results[i] = res
            if res.kind in ('nolaunch', 'killed') and not res.viol:
                errors.append('run %d %s' % (i, res.kind))
            if res.viol:
                log('run', i, 'reports', res.viol[0][0])
                if not all(any(p == pid and k2 == key for p, k2, _ in known_findings()) for key, _ in res.viol):
                    stop.set()
            else:
                shutil.rmtree(d, ignore_errors=True)
        except Exception:
            errors.append(traceback.format_exc())
            stop.set()
        finally:
            slots.give(k)

    with ThreadPoolExecutor(max(1, min(len(runs), SLOTS))) as ex:
        list(ex.map(go, range(len(runs))))
    stats, samples, distinct, viol = {}, [], set(), []
    nrun = 0
    for i, r in enumerate(results):
        if r is None:
            continue
        nrun += 1
        for k, v in r.stats.items():
            stats[k] = stats.get(k, 0) + v
        samples += r.samples[:2]
        distinct |= r.distinct
        for key, detail in r.viol:
            viol.append((i, key, detail))
    kf = [(k, t) for p, k, t in known_findings() if p == pid]
    new = [v for v in viol if v[1] not in [k for k, _ in kf]]
    evaluations = stats.pop('eval', 0)
    need = spec.get('require', {})
    thin = {k: stats.get(k, 0) for k, v in need.items() if stats.get(k, 0) < v}
    ev = dict(property=pid, tier=specs.TIER, seed=seed, level='exploration',
              coverage=dict(evaluations=evaluations, distinct_nontrivial=len(distinct),
                            rule=spec['rule'], samples=samples[:8] or ['none'],
                            runs=nrun, observed=stats),
              assumptions=spec.get('assumptions', []) + specs.COMMON_ASSUMPTIONS,
              wall_s=round(time.time() - t0, 1), build_s=round(tb, 1), violations=len(new),
              known_findings=[k for k, _ in kf])
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for k, t in kf:
        print('KNOWN-FINDING: property=%s %s %s' % (pid, k, t))
    if new:
        i, key, detail = new[0]
        path = os.path.join(VERIF, 'evidence', 'replay', '%s-%d.json' % (pid, seed))
        with open(path, 'w') as f:
            json.dump(dict(property=pid, key=key, detail=detail, run=runs[i], cmd=results[i].cmd,
                           replay='./check %s --replay %s' % (pid, path), all=[(a, b, c) for a, b, c in new[:20]]), f, indent=1)
        for a, b, c in new[:5]:
            print('  run %d: %s: %s' % (a, b, c[:700]))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if errors:
        print('check error:', errors[0])
        return 2
    if thin or evaluations == 0:
        print('check error: observed too little:', thin or 'nothing')
        return 2
    print('OK %s: %d runs, %d events judged, %d distinct cases, %.0fs (build %.0fs)' % (pid, nrun, evaluations, len(distinct), time.time() - t0, tb))
    shutil.rmtree(root, ignore_errors=True)
    return 0


def replay(pid, path):
    spec = specs.get(pid)
    info = json.load(open(path))
    exes = build.build_many(spec['builds'])
    res, cmd, d = execute(info['run'], exes, os.path.join(build.ROOT, 'run'), 'replay')
    print(res.kind, res.viol, getattr(res, 'hang', ''), d)
    return 1 if res.viol or res.kind == 'hang' else 0


if __name__ == '__main__':
    try:
        if len(sys.argv) > 3 and sys.argv[2] == '--replay':
            sys.exit(replay(sys.argv[1], sys.argv[3]))
        sys.exit(main(sys.argv[1]))
    except build.BuildError as e:
        print('check error: build failed:', str(e)[-3000:])
        sys.exit(2)
