#!/usr/bin/env python3
"""Builds /repo's current tree with the harness, runs the monitored workloads of one property and decides it.

usage: check.py ID [--thorough]        (VERIF_SEED, VERIF_TIER as in MANIFEST; VERIF_REPO: another tree, for development)
exit 0: held on everything explored; 1: VIOLATION line(s); 2: the check itself failed (no verdict)
"""
import array, fcntl, glob, hashlib, json, mmap, os, re, resource, shutil, signal, struct, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
HARNESS = os.path.join(VERIF, 'harness')
BUILD = os.path.join(VERIF, 'build')
EVID = os.path.join(VERIF, 'evidence')
KNOWN = os.path.join(VERIF, 'known-findings.txt')
NCPU = min(8, os.cpu_count() or 8)


class HarnessError(Exception):
    pass


# ------------------------------------------------------------------ building
COMMON = ['-std=c++17', '-I' + REPO, '-I' + HARNESS, '-pthread']
VARIANTS = {
    # locals that the code forgets to initialise start with a repeatable odd pattern
    'plain': ('g++', ['-O1', '-D_GLIBCXX_ASSERTIONS', '-ftrivial-auto-var-init=pattern']),
    'zero': ('g++', ['-O1', '-D_GLIBCXX_ASSERTIONS', '-ftrivial-auto-var-init=zero']),
    'natural': ('g++', ['-O0', '-g']),  # for valgrind, where a report has to be repeated
    'light': ('g++', ['-Og', '-g']),  # for valgrind
    'asan': ('g++', ['-O1', '-g', '-fno-omit-frame-pointer', '-D_GLIBCXX_ASSERTIONS', '-fsanitize=address,undefined',
                     '-fsanitize=float-cast-overflow', '-fno-sanitize-recover=all']),
    'tsan': ('g++', ['-O1', '-g', '-fsanitize=thread']),
    'fuzz': ('clang++', ['-O1', '-g', '-fsanitize=fuzzer-no-link,address,undefined', '-fno-sanitize-recover=all']),
}
SAN_ENV = {
    'asan': {'ASAN_OPTIONS': 'abort_on_error=1:detect_leaks=0:strict_string_checks=1:allocator_may_return_null=0:hard_rss_limit_mb=3000',
             'UBSAN_OPTIONS': 'print_stacktrace=1:abort_on_error=1:halt_on_error=1'},
    'tsan': {'TSAN_OPTIONS': 'halt_on_error=1:exitcode=66:second_deadlock_stack=1:history_size=4:hard_rss_limit_mb=6000'},
    'fuzz': {'ASAN_OPTIONS': 'abort_on_error=1:detect_leaks=0', 'UBSAN_OPTIONS': 'print_stacktrace=1:abort_on_error=1:halt_on_error=1'},
}


def run_cmd(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def digest_files(paths, extra):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(f.read())
    return h.hexdigest()[:24]


def repo_files():
    fs = []
    for d, _, names in os.walk(os.path.join(REPO, 'src')):
        fs += [os.path.join(d, n) for n in names if n.endswith(('.cpp', '.hpp', '.h', '.inc', '.ipp'))]
    return fs


def compile_obj(variant, src, deps, extra=()):
    cc, flags = VARIANTS[variant]
    cmd = [cc] + COMMON + flags + list(extra) + ['-c', src]
    key = digest_files(deps, ' '.join(cmd))
    out = os.path.join(BUILD, variant, key + '.o')
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + '.%d' % os.getpid()
        rc, log = run_cmd(cmd + ['-o', tmp])
        if rc != 0:
            raise HarnessError('compiling %s (%s) failed:\n%s' % (src, variant, log[-4000:]))
        os.replace(tmp, out)
    return out


def build_many(jobs):
    """jobs: list of (variant, main source or None for the program itself, link extras) -> list of binaries"""
    rf = repo_files()
    hf = glob.glob(HARNESS + '/*.hpp') + glob.glob(HARNESS + '/*.inc')
    cpps = sorted(f for f in rf if f.endswith('.cpp'))
    todo = {}

    def want(variant, src, deps):
        todo[(variant, src)] = deps
        return (variant, src)
    plans = []
    for variant, main in jobs:
        objs = [want(variant, c, rf) for c in cpps]
        if main is None:
            t = os.path.join(REPO, 'time.cpp')
            objs.append(want(variant, t, rf + [t]))
        else:
            objs.append(want(variant, HARNESS + '/sut.cpp', rf + [HARNESS + '/sut.cpp', HARNESS + '/sut.hpp']))
            m = os.path.join(HARNESS, main)
            objs.append(want(variant, m, hf + [m]))
            if variant != 'fuzz':
                objs.append(want(variant, HARNESS + '/core.cpp', hf + [HARNESS + '/core.cpp']))
        plans.append((variant, main, objs))
    # longest compilations first
    order = sorted(todo, key=lambda k: (not k[1].endswith('sut.cpp'), k))
    with ThreadPoolExecutor(NCPU) as ex:
        done = dict(zip(order, ex.map(lambda k: compile_obj(k[0], k[1], todo[k]), order)))

    def link(plan):
        variant, main, objs = plan
        cc, flags = VARIANTS[variant]
        files = [done[o] for o in objs]
        if variant == 'fuzz':
            flags = [f.replace('fuzzer-no-link', 'fuzzer') for f in flags]
        key = hashlib.sha256((' '.join(flags) + '|'.join(files)).encode()).hexdigest()[:24]
        out = os.path.join(BUILD, variant, (os.path.splitext(os.path.basename(main or 'time'))[0]) + '-' + key)
        if not os.path.exists(out):
            tmp = out + '.%d' % os.getpid()
            rc, log = run_cmd([cc] + flags + files + ['-pthread', '-o', tmp])
            if rc != 0:
                raise HarnessError('linking %s failed:\n%s' % (out, log[-4000:]))
            os.replace(tmp, out)
        return out
    with ThreadPoolExecutor(NCPU) as ex:
        return list(ex.map(link, plans))


def prune_build(limit=3 << 30):
    """keeps the object cache of development runs small"""
    fs = []
    for d, _, names in os.walk(BUILD):
        for n in names:
            p = os.path.join(d, n)
            try:
                st = os.stat(p)
                fs.append((st.st_mtime, st.st_size, p))
            except OSError:
                pass
    total = sum(f[1] for f in fs)
    for _, size, p in sorted(fs):
        if total < limit:
            break
        try:
            os.unlink(p)
            total -= size
        except OSError:
            pass


# ------------------------------------------------------------------ running
class Run:
    """one workload: `workers` processes of one binary over all case numbers"""

    def __init__(self, name, variant, main, args=(), env=None, workers=NCPU, scale=1.0, tscale=1.0, digest=False, wrap=(),
                 case_cpu=30, wall=600, twall=3000, confirm=None):
        self.name, self.variant, self.main, self.args, self.env = name, variant, main, list(args), env or {}
        self.workers, self.scale, self.tscale, self.digest, self.wrap = workers, scale, tscale, digest, list(wrap)
        self.case_cpu, self.wall, self.twall = case_cpu, wall, twall
        self.confirm = confirm  # the variant in which a crash has to repeat


def cpu_seconds(pid):
    try:
        with open('/proc/%d/stat' % pid) as f:
            s = f.read()
        p = s[s.rindex(')') + 2:].split()
        return (int(p[11]) + int(p[12])) / os.sysconf('SC_CLK_TCK')
    except (OSError, ValueError):
        return None


def limits(variant):
    def f():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if variant in ('plain', 'zero', 'natural', 'light'):
            lim = (4 if variant in ('natural', 'light') else 2) << 30  # eight of them have to fit
            resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
        os.setpgid(0, 0)
    return f


class Proc:
    def __init__(self, run, binary, tmp, tag, seed, thorough, extra, env):
        self.out = os.path.join(tmp, tag + '.jsonl')
        self.prog = os.path.join(tmp, tag + '.prog')
        self.err = os.path.join(tmp, tag + '.err')
        with open(self.prog, 'wb') as f:
            f.write(b'\0' * 4096)
        scale = run.tscale if thorough else run.scale
        self.cmd = run.wrap + [binary, '--seed', str(seed), '--scale', repr(scale), '--out', self.out, '--progress', self.prog]
        self.cmd += (['--thorough'] if thorough else []) + run.args + extra
        if run.digest:
            self.cmd += ['--digest', self.out + '.dig']
        e = dict(os.environ)
        for k in list(e):
            if k.startswith(('ASAN_', 'UBSAN_', 'TSAN_', 'MALLOC_')):
                del e[k]
        e.update({'TZ': 'UTC', 'LC_ALL': 'C'})
        e.update(SAN_ENV.get(run.variant, {}))
        e.update(env)
        e.update(run.env)
        with open(self.err, 'wb') as f:
            self.p = subprocess.Popen(self.cmd, stdout=f, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, env=e, preexec_fn=limits(run.variant), cwd=tmp)
        self.mark = (0, 0.0)
        self.hung = False
        self.slowest = 0.0  # CPU seconds seen in one case

    def progress(self):
        with open(self.prog, 'rb') as f:
            return struct.unpack('QQ', f.read(16))

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()

    def poll(self, case_cpu):
        rc = self.p.poll()
        if rc is not None:
            return rc
        cur = self.progress()
        cpu = cpu_seconds(self.p.pid)
        if cpu is not None:
            if cur != self.mark[0]:
                self.mark = (cur, cpu)
            elif cur[0]:
                self.slowest = max(self.slowest, cpu - self.mark[1])
            if self.slowest > case_cpu:
                self.hung = True
                self.kill()
                return -99
        return None

    def lines(self):
        o = []
        try:
            with open(self.out) as f:
                for l in f:
                    try:
                        o.append(json.loads(l))
                    except ValueError:
                        pass
        except OSError:
            pass
        return o

    def errtext(self):
        with open(self.err, 'rb') as f:
            return f.read()[-12000:].decode('utf-8', 'replace')


def wait_all(procs, case_cpu, deadline):
    cut = False
    left = list(procs)
    while left:
        left = [p for p in left if p.poll(case_cpu) is None]
        if not cut and any(p.hung for p in procs):
            cut, deadline = True, min(deadline, time.time() + 60)  # most likely decided already
        if left and time.time() > deadline:
            for p in left:
                p.kill()
            return 'workers did not finish in the time allowed (inconclusive): ' + ' '.join(left[0].cmd) + ' at case %d' % (left[0].progress()[0] - 1)
        if left:
            time.sleep(0.05)


def crash_key(text):
    """a stable name for a sanitizer report or abort: kind and innermost frame inside the library"""
    m = re.search(r'ERROR: AddressSanitizer:? ([\w-]+)', text)
    kind = m.group(1) if m else None
    if not kind:
        m = re.search(r'runtime error: ([^\n]*)', text)
        if m:
            kind = re.sub(r'[-+]?\d[\d.e+]*', 'N', m.group(1))[:80]
    if not kind:
        m = re.search(r"terminate called after throwing an instance of '([^']*)'", text)
        kind = 'uncaught ' + m.group(1) if m else None
    m = re.search(r'==\d+== ((?:Conditional jump|Use of uninit|Invalid|Syscall param|Argument|Jump|Source and dest)[^\n]*)', text)
    if not kind and m:
        kind = 'memcheck: ' + m.group(1)
    if not kind and 'Assertion' in text:
        kind = 'assertion'
    m = re.search(r'#\d+ 0x[0-9a-f]+ in ([^\n]*?) (?:/repo|%s)/(src/[^\s:]+|time\.cpp)' % re.escape(REPO), text)
    where = (' in ' + m.group(2)) if m else ''
    return (kind or 'abnormal end') + where


class Verdict:
    def __init__(self, pid):
        self.pid = pid
        self.violations = []  # dict(key, detail, replay)
        self.counts = {}
        self.samples = []
        self.evaluations = 0
        self.sigs = set()
        self.notes = []
        self.late = None
        self.slowest = 0.0

    def add(self, key, detail, **replay):
        self.violations.append(dict(key=key, detail=detail, replay=replay))


def execute_run(run, binary, v, seed, thorough, tmp, env):
    """all workers of one run; fills v. returns {case: digest} if the run records digests"""
    procs = []
    for w in range(run.workers):
        procs.append(Proc(run, binary, tmp, '%s-%d' % (run.name, w), seed, thorough,
                          ['--worker', str(w), '--workers', str(run.workers)], env))
    deadline = time.time() + (run.twall if thorough else run.wall)
    late = wait_all(procs, run.case_cpu, deadline)
    v.slowest = max([v.slowest] + [p.slowest for p in procs])
    digests = {}
    confirmed = False
    for w, p in enumerate(procs):
        rc = p.p.returncode
        lines = p.lines()
        summary = [l for l in lines if l.get('type') == 'summary']
        case = p.progress()[0] - 1
        base = dict(run=run.name, variant=run.variant, seed=seed, thorough=thorough, command=' '.join(p.cmd[:1] + p.cmd[1:]))
        for l in lines:
            if l.get('type') == 'violation':
                v.add(l['key'], l['detail'], case=l['case'], **base)
        if late:
            continue  # what was seen to fail until then counts, nothing else can be said
        if rc in (0, 1) and summary:
            s = summary[-1]
            v.evaluations += s['evaluations']
            for k, n in s['counts'].items():
                k = k if run.name == 'main' else run.name + ': ' + k
                v.counts[k] = v.counts.get(k, 0) + n
            for x in s['samples'][:3]:
                if len(v.samples) < 12:
                    v.samples.append(x)
            a = array.array('Q')
            with open(p.out + '.sig', 'rb') as f:
                a.frombytes(f.read())
            v.sigs.update(a)
            if run.digest:
                a = array.array('Q')
                with open(p.out + '.dig', 'rb') as f:
                    a.frombytes(f.read())
                for i in range(0, len(a), 2):
                    digests[a[i]] = a[i + 1]
            continue
        if rc == 2:
            raise HarnessError('worker failed: ' + p.errtext()[-2000:])
        if confirmed:
            continue
        # it crashed, hung or was ended: run the one case again, alone, and if that is quiet the same history up to it
        again = build_many([(run.confirm, run.main)])[0] if run.confirm else binary
        for how, extra in (('alone', ['--case', str(case)]), ('after the same history', ['--worker', str(w), '--workers', str(run.workers), '--upto', str(case)])):
            q = Proc(run, again, tmp, '%s-%d-again' % (run.name, w), seed, thorough, extra, env)
            # less is enough here: what takes half the limit again is nowhere near the time that cases take
            qlate = wait_all([q], run.case_cpu * 0.5 if p.hung else run.case_cpu * 1.5, time.time() + (1200 if thorough else 200))
            if qlate:
                v.late = qlate
                continue
            ql = q.lines()
            if q.hung:
                v.add('hang', 'case %d does not finish (%s, more than %d s of CPU time): %s' % (case, how, run.case_cpu, describe(run, binary, seed, case, thorough, tmp, env)), case=case, **base)
                confirmed = True
                break
            if q.p.returncode not in (0, 1) or not [l for l in ql if l.get('type') == 'summary']:
                if q.p.returncode == 2:
                    raise HarnessError('worker failed: ' + q.errtext()[-2000:])
                text = q.errtext()
                v.add('crash: ' + crash_key(text), 'case %d ended abnormally (%s, status %d): %s\n%s' % (
                    case, how, q.p.returncode, describe(run, binary, seed, case, thorough, tmp, env), text[:6000]), case=case, **base)
                confirmed = True
                break
        else:
            text = p.errtext()
            if run.confirm:
                v.notes.append('case %d ended early in the optimised build only, which is no evidence: %s' % (case, text[:1500]))
            elif 'Sanitizer' in text or 'runtime error' in text or 'Assertion' in text:
                v.add('crash: ' + crash_key(text), 'case %d ended abnormally once: %s' % (case, text[:6000]), case=case, **base)
            else:
                raise HarnessError('worker ended with status %s at case %d, which did not repeat:\n%s' % (rc, case, text[-2000:]))
    v.late = v.late or late
    return digests


def describe(run, binary, seed, case, thorough, tmp, env):
    """what the failing case is, from the harness itself (it prints its input before executing it)"""
    try:
        q = Proc(run, binary, tmp, run.name + '-describe', seed, thorough, ['--case', str(case), '--describe'], env)
        wait_all([q], run.case_cpu, time.time() + 120)
        for l in q.lines():
            if l.get('type') == 'describe':
                return l['detail']
    except HarnessError:
        pass
    return '(no description)'


# ------------------------------------------------------------------ properties
sys.path.insert(0, HARNESS)
from specs import SPECS  # noqa: E402


def load_known():
    known = {}
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for l in f:
                m = re.match(r'known: property=(\S+) key=(.*?) :: (.*)$', l.rstrip('\n'))
                if m:
                    known[(m.group(1), m.group(2))] = m.group(3)
    return known


def decide(pid, thorough, seed):
    t0 = time.time()
    spec = SPECS[pid]
    os.makedirs(EVID, exist_ok=True)
    v = Verdict(pid)
    tmp = tempfile.mkdtemp(prefix='chk-%s-' % pid, dir=os.environ.get('TMPDIR', '/tmp'))
    try:
        runs = spec['runs'](Run, thorough)
        known = load_known()
        jobs = []
        for r in runs:
            if (r.variant, r.main) not in jobs:
                jobs.append((r.variant, r.main))
        for j in spec.get('programs', []):
            if j not in jobs:
                jobs.append(j)
        bins = dict(zip(jobs, build_many(jobs)))
        env = {}
        for j in spec.get('programs', []):
            env['VERIF_PROG_' + j[0].upper()] = bins[j]
        env['VERIF_TMP'] = tmp
        t1 = time.time()
        digs, run_s = {}, {}
        for r in runs:
            tr = time.time()
            digs[r.name] = execute_run(r, bins[(r.variant, r.main)], v, seed, thorough, tmp, env)
            run_s[r.name] = round(time.time() - tr, 1)
            if any((pid, x['key']) not in known for x in v.violations):
                break  # decided; what is left could only take longer
        for a, b, key, what in spec.get('compare', []):
            da, db = digs.get(a, {}), digs.get(b, {})
            bad = [c for c in sorted(set(da) | set(db)) if da.get(c) != db.get(c)]
            v.counts['cases compared: %s against %s' % (a, b)] = len(set(da) & set(db))
            if not da or not db:
                if not v.violations:
                    raise HarnessError('nothing to compare between %s and %s' % (a, b))
                continue
            if bad and not v.violations:
                ra = [r for r in runs if r.name == a][0]
                d = describe(ra, bins[(ra.variant, ra.main)], seed, bad[0], thorough, tmp, env)
                v.add(key, '%s: %d cases differ, first case %d: %s' % (what, len(bad), bad[0], d), case=bad[0], run=a, other=b, seed=seed, thorough=thorough)
        for f in spec.get('extra', []) if not v.violations else []:
            f(sys.modules[__name__], v, bins, seed, thorough, tmp, env)
        t2 = time.time()
        fresh, seen_known = [], {}
        for x in v.violations:
            k = known.get((pid, x['key']))
            if k is not None:
                seen_known[x['key']] = k
            else:
                fresh.append(x)
        if not fresh and v.late:
            raise HarnessError(v.late)
        need = spec.get('require', {})
        short = ['%s: %d' % (k, v.counts.get(k, 0)) for k in need if v.counts.get(k, 0) < need[k]]
        if not fresh and (v.evaluations == 0 or not v.sigs or short):
            raise HarnessError('too little was observed: %d evaluations, %d distinct; %s' % (v.evaluations, len(v.sigs), short))
        ev = dict(property=pid, tier='thorough' if thorough else 'quick', seed=seed, level='exploration',
                  coverage=dict(evaluations=v.evaluations, distinct_nontrivial=len(v.sigs), rule=spec['rule'], samples=v.samples[:12],
                                observed=dict(sorted(v.counts.items())), notes=v.notes, slowest_case_cpu_s=round(v.slowest, 1), build_s=round(t1 - t0, 1), run_s=run_s),
                  assumptions=spec.get('assumptions', []), wall_s=round(time.time() - t0, 1), violations=len(fresh))
        with open(os.path.join(EVID, pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for key, k in sorted(seen_known.items()):
            print('KNOWN-FINDING: property=%s %s' % (pid, k))
        if fresh:
            rd = os.path.join(EVID, 'replay')
            os.makedirs(rd, exist_ok=True)
            done = set()
            for x in fresh:
                if x['key'] in done or len(done) >= 5:
                    continue
                done.add(x['key'])
                path = os.path.join(rd, '%s-%d.json' % (pid, len(done)))
                x['replay']['how'] = 'VERIF_SEED=%d python3 check.py %s%s; a single case: run the named binary with --seed %d --case N' % (seed, pid, ' --thorough' if thorough else '', seed)
                with open(path, 'w') as f:
                    json.dump(x, f, indent=1)
                print('%s [%s] %s' % (pid, x['key'], x['detail'][:1500]))
                print('VIOLATION property=%s replay=%s' % (pid, path))
            return 1
        print('%s held: %d evaluations, %d distinct, %.1f s' % (pid, v.evaluations, len(v.sigs), time.time() - t0))
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
        prune_build()


def main():
    pid = sys.argv[1]
    thorough = '--thorough' in sys.argv[2:] or os.environ.get('VERIF_TIER') == 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    try:
        sys.exit(decide(pid, thorough, seed))
    except HarnessError as e:
        print('ERROR: %s: %s' % (pid, e), file=sys.stderr)
        sys.exit(2)


if __name__ == '__main__':
    main()
