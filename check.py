#!/usr/bin/env python3
"""Runtime-monitoring driver: builds the instrumented harnesses from /repo's
working tree, runs seeded workloads under AddressSanitizer/UBSan with the
property monitors attached, and reports what they observed.

    check.py <PROPERTY> [--tier quick|thorough] [--seed N] [--count N] [--case N]
    check.py --build-all            (setup_cmd)

exit 0: held on everything explored; exit 1: VIOLATION line printed;
exit 2: the check itself could not run.
"""
import sys, os, json, hashlib, subprocess, time, re, shutil, signal, threading, concurrent.futures as cf

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
NPROC = max(2, min(8, os.cpu_count() or 8))
sys.path.insert(0, VERIF)
from config import BINS, PROPS, COMMON_ASSUMPTIONS   # noqa: E402


class CheckError(Exception):
    pass


# --------------------------------------------------------------- building

def sh(cmd, timeout=900):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)


SLOTS = threading.BoundedSemaphore(NPROC)     # compilers running at the same time
GUARD = threading.Lock()
KEYS = {}


def compile_obj(src, flags, deadline=900):
    with SLOTS:
        return compile_obj_(src, flags, deadline)


def compile_obj_(src, flags, deadline):
    cache = os.path.join(BUILD, 'cache')
    os.makedirs(cache, exist_ok=True)
    pre = sh(['g++'] + flags + ['-E', '-P', src], deadline)
    if pre.returncode != 0:
        raise CheckError('preprocessing %s failed:\n%s' % (src, pre.stderr.decode(errors='replace')[-3000:]))
    key = hashlib.sha256(pre.stdout + '\0'.join(flags).encode() + os.path.basename(src).encode()).hexdigest()[:32]
    obj = os.path.join(cache, key + '.o')
    with GUARD:
        lock = KEYS.setdefault(key, threading.Lock())
    with lock:
        if not os.path.exists(obj):
            tmp = obj + '.%d.%d.tmp' % (os.getpid(), threading.get_ident())
            c = sh(['g++'] + flags + ['-c', src, '-o', tmp], deadline)
            if c.returncode != 0:
                raise CheckError('compiling %s failed:\n%s' % (src, c.stderr.decode(errors='replace')[-4000:]))
            os.replace(tmp, obj)
    return obj


def build(binname):
    b = BINS[binname]
    if b.get('python'):
        if b.get('library'):
            b['library_dir'] = convert_library(b['library'])
        return build(b['module'])
    jobs = []
    for s in b['sources']:
        path = os.path.join(VERIF, 'harness', s[1:]) if s.startswith('@') else os.path.join(REPO, s)
        if not os.path.exists(path):
            raise CheckError('source file %s is missing' % path)
        flags = list(b['flags']) + ['-I' + os.path.join(REPO, i) for i in b['includes']] + ['-I' + os.path.join(VERIF, 'harness')] + b.get('sysflags', [])
        jobs.append((path, flags))
    with cf.ThreadPoolExecutor(NPROC) as ex:
        objs = list(ex.map(lambda j: compile_obj(*j), jobs))
    key = hashlib.sha256('\0'.join(objs + b['flags'] + b['libs']).encode()).hexdigest()[:24]
    exe = os.path.join(BUILD, 'bin', binname + '-' + key)
    if b.get('shared'):
        exe = os.path.join(exe, b['shared'])
    os.makedirs(os.path.dirname(exe), exist_ok=True)
    if not os.path.exists(exe):
        tmp = exe + '.%d.%d.tmp' % (os.getpid(), threading.get_ident())
        l = sh(['g++'] + b['flags'] + b.get('ldflags', []) + objs + ['-o', tmp] + b['libs'])
        if l.returncode != 0:
            if os.path.exists(tmp):
                os.unlink(tmp)
            raise CheckError('linking %s failed:\n%s' % (binname, l.stderr.decode(errors='replace')[-4000:]))
        os.replace(tmp, exe)
    return exe


def convert_library(dirs):
    """a Python 3 copy of the repository's Python 2 library, as its build makes one"""
    files = []
    for d in dirs:
        top = os.path.join(REPO, 'python', d)
        files += [(d, f) for f in sorted(os.listdir(top)) if f.endswith('.py')]
    raw = [open(os.path.join(REPO, 'python', d, f), 'rb').read() for d, f in files]
    h = hashlib.sha256()
    for (d, f), b in zip(files, raw):
        h.update(('%s/%s %d\0' % (d, f, len(b))).encode() + b)
    dst = os.path.join(BUILD, 'bin', 'pylib-' + h.hexdigest()[:24])
    if os.path.isdir(dst):
        return dst
    import warnings
    warnings.simplefilter('ignore')
    from lib2to3.refactor import RefactoringTool, get_fixers_from_package
    tool = RefactoringTool(get_fixers_from_package('lib2to3.fixes'))
    tmp = dst + '.%d.tmp' % os.getpid()
    for (d, f), b in zip(files, raw):
        try:
            text = b.decode('utf-8')
        except UnicodeDecodeError:
            text = b.decode('latin-1')
        text = text.replace('\r\n', '\n')
        if text and not text.endswith('\n'):
            text += '\n'
        try:
            out = str(tool.refactor_string(text, f))
            compile(out, f, 'exec')
        except Exception as e:
            raise CheckError('python/%s/%s does not parse: %s' % (d, f, e))
        os.makedirs(os.path.join(tmp, d), exist_ok=True)
        with open(os.path.join(tmp, d, f), 'w', encoding='utf-8') as o:
            o.write(out)
    try:
        os.rename(tmp, dst)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return dst


# ---------------------------------------------------------------- running

FRAME = re.compile(r'#\d+ 0x[0-9a-f]+ in (.+?) (\S+?):(\d+)')


def crash_signature(stderr):
    kind = 'crash'
    m = re.search(r'ERROR: (?:AddressSanitizer|LeakSanitizer): ([\w-]+)', stderr)
    if m:
        kind = m.group(1)
        if 'LeakSanitizer' in stderr and 'AddressSanitizer:' not in stderr.split('SUMMARY')[0]:
            kind = 'leak'
    else:
        m = re.search(r'runtime error: (.{0,60})', stderr)
        v = re.search(r'==\d+== (Invalid \w+|Conditional jump|Use of uninit\w+|Syscall param|Source and dest\w+ overlap|Mismatched free|Argument|[\d,]+ (?:\([^)]*\) )?bytes in [\d,]+ blocks are \w+ lost)', stderr)
        if v:
            kind = 'memcheck:' + re.sub(r'[^a-z]+', '-', re.sub(r'.*blocks are', '', v.group(1)).lower()).strip('-')
            f = re.search(r'\((\w+\.[ch]xx):\d+\)', stderr)
            return kind + '@' + (f.group(1) if f else '?')
        if m:
            kind = 'undefined-behaviour:' + re.sub(r'[^a-z ]', '', m.group(1).lower())[:40].strip().replace(' ', '-')
    where = '?'
    m = re.search(r'(/repo/\S+?):(\d+):\d+: runtime error', stderr)
    if m:
        where = os.path.basename(m.group(1))
    for fm in FRAME.finditer(stderr):
        if REPO + '/src' in fm.group(2) or '/repo/src' in fm.group(2):
            fn = re.sub(r'\(.*', '', fm.group(1))
            where = fn[-60:]
            break
    return kind + '@' + where


HANG = (88, -signal.SIGPROF)   # CPU time limit of the case reached


class Runner:
    def __init__(self, prop, exe, tier, seed, spec):
        self.prop, self.exe, self.tier, self.seed, self.spec = prop, exe, tier, seed, spec
        self.lock = threading.Lock()
        self.violations, self.errors = [], []
        self.evaluations = self.checks = 0
        self.counters, self.hashes, self.samples = {}, set(), []
        self.cases_done = 0
        self.stop = self.hung = False
        self.dir = os.path.join(BUILD, 'run', '%s-%d' % (prop, os.getpid()))
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)

    def env(self):
        e = dict(os.environ)
        leaks = 1 if self.spec.get('leaks') else 0
        e['ASAN_OPTIONS'] = 'exitcode=99:detect_leaks=%d:abort_on_error=0:detect_stack_use_after_return=1:strict_init_order=1:allocator_may_return_null=0:print_stacktrace=1' % leaks
        e['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1:exitcode=98'
        e['LSAN_OPTIONS'] = 'exitcode=97:report_objects=0:print_suppressions=0:suppressions=' + os.path.join(VERIF, 'harness', 'lsan.supp')
        e['VERIF_SEED'] = str(self.seed)
        e['VERIF_REPO'] = REPO
        if self.spec.get('valgrind'):
            for k in ('ASAN_OPTIONS', 'UBSAN_OPTIONS', 'LSAN_OPTIONS'):
                e.pop(k)
        if BINS[self.spec['bin']].get('python'):
            rt = [subprocess.run(['g++', '-print-file-name=' + l], stdout=subprocess.PIPE, text=True).stdout.strip() for l in ('libasan.so', 'libubsan.so')]
            e.update(LD_PRELOAD=':'.join(rt), PYTHONPATH=self.module_dir, PYTHONMALLOC='malloc', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
            if BINS[self.spec['bin']].get('library_dir'):
                e['VERIF_PYLIB'] = BINS[self.spec['bin']]['library_dir']
        e.update(self.spec.get('env', {}))
        return e

    def command(self, start, count, cpu, tag):
        if self.spec.get('valgrind'):
            cpu = 600
        out = os.path.join(self.dir, tag + '.out')
        st = os.path.join(self.dir, tag + '.status')
        return (self.exe + ['--prop', self.spec.get('harness_prop', self.prop), '--tier', self.tier, '--start', str(start), '--count', str(count),
                            '--seed', str(self.seed), '--status', st, '--out', out, '--cpu', str(cpu)], out, st)

    def run_once(self, start, count, cpu, tag, wall):
        cmd, out, st = self.command(start, count, cpu, tag)
        for f in (out, st):
            if os.path.exists(f):
                os.unlink(f)
        errf = os.path.join(self.dir, tag + '.err')
        with open(errf, 'wb') as ef:
            p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=ef, env=self.env(), cwd=self.dir)
            limit, rc = time.time() + wall, None
            while rc is None:
                try:
                    rc = p.wait(timeout=0.5)
                except subprocess.TimeoutExpired:
                    if self.stop or time.time() > limit:
                        p.kill()
                        p.wait()
                        rc = 'stopped' if self.stop else 'timeout'
        with open(errf, 'rb') as ef:
            err = ef.read()[-60000:].decode(errors='replace')
        lines = []
        if os.path.exists(out):
            for l in open(out, errors='replace'):
                try:
                    lines.append(json.loads(l))
                except ValueError:
                    pass
        status = open(st, errors='replace').read().split() if os.path.exists(st) else []
        return rc, err, lines, status

    def absorb(self, lines, start=None):
        with self.lock:
            for l in lines:
                if l.get('stats'):
                    self.evaluations += l['states']
                    self.checks += l['evaluations']
                    for k, v in l['counters'].items():
                        self.counters[k] = self.counters.get(k, 0) + v
                    for s in l['samples']:
                        if len(self.samples) < 12:
                            self.samples.append(s)
                elif 'hashes' in l:
                    self.hashes.update(l['hashes'])
                elif l.get('violation'):
                    if self.spec.get('memory_only'):
                        continue     # judged by the other properties
                    if start is not None:
                        l['from'] = start
                    self.violations.append(l)

    def chunk(self, start, count, idx):
        cpu = self.spec.get('cpu', 20)
        end = start + count
        tries = 0
        while start < end and not self.stop:
            rc, err, lines, status = self.run_once(start, end - start, cpu, 'c%d_%d' % (idx, tries), self.spec.get('wall', 600))
            tries += 1
            self.absorb(lines, start)
            done = any(l.get('stats') for l in lines)
            if rc == 'stopped':
                break
            if rc in (0, 1) and done:
                with self.lock:
                    self.cases_done += end - start
                break
            at = int(status[0]) if status else start
            what = status[1] if len(status) > 1 else ''
            if rc == 'timeout':
                with self.lock:
                    self.errors.append('case %d: wall-clock limit reached (inconclusive)' % at)
                break
            if rc in HANG or what == 'HANG':
                # re-run once with a much longer limit before believing it
                rc2, err2, l2, s2 = self.run_once(at, 1, cpu * 6, 'h%d_%d' % (idx, tries), self.spec.get('wall', 600))
                if rc2 == 'stopped':
                    break
                if rc2 in HANG and self.spec.get('memory_only'):
                    break
                elif rc2 in HANG:
                    with self.lock:
                        self.hung = True
                        self.violations.append({'case': at, 'sig': 'hang', 'msg': 'case does not terminate within %d s of CPU time' % (cpu * 6), 'trace': ''})
                elif rc2 not in (0, 1):
                    with self.lock:
                        self.violations.append({'case': at, 'sig': crash_signature(err2), 'msg': err2[-3000:], 'trace': ''})
                else:
                    self.absorb(l2)
                start = at + 1
            elif done and what == 'done':
                # all cases finished, sanitizer complained at exit (leak)
                with self.lock:
                    self.cases_done += end - start
                    self.violations.append({'case': start, 'count': end - start, 'sig': crash_signature(err), 'msg': err[-3000:], 'trace': ''})
                break
            elif rc == 2:
                with self.lock:
                    self.errors.append('harness error: ' + err[-500:])
                break
            else:
                with self.lock:
                    self.violations.append({'case': at, 'from': start, 'sig': crash_signature(err), 'msg': err[-3500:], 'trace': ''})
                start = at + 1
            self.enough()
            if tries > 6:
                break
        self.enough()

    def enough(self):
        # (a confirmed endless loop costs too much time to look for more)
        with self.lock:
            if self.hung or len([v for v in self.violations if not is_known(self.prop, v)]) >= 3:
                self.stop = True

    def run(self, first, total, chunks):
        n = max(1, min(total, chunks))
        bounds = [first + total * i // n for i in range(n + 1)]
        with cf.ThreadPoolExecutor(NPROC) as ex:
            list(ex.map(lambda i: None if self.stop else self.chunk(bounds[i], bounds[i + 1] - bounds[i], i), range(n)))


# -------------------------------------------------------- known findings

def load_known():
    known = []
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'known: property=(\S+) sig=(\S+) (.*)', line.strip())
            if m:
                known.append((m.group(1), m.group(2), m.group(3)))
    return known


KNOWN = load_known()


def is_known(prop, v):
    for p, sig, what in KNOWN:
        if p == prop and v.get('sig') == sig:
            return (p, sig, what)
    return None


# ------------------------------------------------------------------- main

def main():
    args = sys.argv[1:]
    if args and args[0] == '--build-all':
        bad = []

        def one(b):
            try:
                t = time.time()
                build(b)
                print('built %s in %.0f s' % (b, time.time() - t), flush=True)
            except CheckError as e:
                print('ERROR', e)
                bad.append(b)
        with cf.ThreadPoolExecutor(len(BINS)) as ex:
            list(ex.map(one, BINS))
        return 2 if bad else 0
    prop = args[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    count = case = None
    i = 1
    while i < len(args):
        if args[i] == '--tier':
            tier = args[i + 1]
        elif args[i] == '--seed':
            seed = int(args[i + 1])
        elif args[i] == '--count':
            count = int(args[i + 1])
        elif args[i] == '--case':
            case = int(args[i + 1])
        i += 2
    spec = PROPS[prop]
    t0 = time.time()
    parts = spec.get('parts') or [dict(bin=spec['bin'], harness_prop=spec.get('harness_prop', prop), quick=spec['quick'], thorough=spec['thorough'])]
    tot = None
    ran = []
    try:
        bins = list(dict.fromkeys(p['bin'] for p in parts))
        with cf.ThreadPoolExecutor(len(bins)) as ex:
            exes = dict(zip(bins, ex.map(build, bins)))
        for part in parts:
            s = dict(spec); s.update(part)
            exe = exes[part['bin']]
            b = BINS[part['bin']]
            if s.get('valgrind') and not shutil.which('valgrind'):
                raise CheckError('valgrind is not installed')
            cmd = ['/usr/bin/python3', os.path.join(VERIF, 'harness', b['python'])] if b.get('python') else [exe]
            if s.get('valgrind'):
                cmd = ['valgrind', '-q', '--error-exitcode=96', '--exit-on-first-error=yes', '--leak-check=full', '--errors-for-leak-kinds=definite,indirect', '--num-callers=20'] + cmd
            r = Runner(prop, cmd, tier, seed, s)
            r.module_dir = os.path.dirname(exe)
            n = count if count is not None else part[tier]
            if case is not None:
                r.run(case, 1, 1)
            else:
                r.run(0, n, part.get('chunks', spec.get('chunks', 24)))
            ran.append((part, r))
            if r.stop:
                break
    except CheckError as e:
        print('ERROR: %s' % e)
        return 2
    except subprocess.TimeoutExpired as e:
        print('ERROR: build timed out: %s' % e)
        return 2

    violations, known_hit, errors = [], {}, []
    evaluations = checks = 0
    counters, hashes, samples = {}, set(), []
    for part, r in ran:
        evaluations += r.evaluations
        checks += r.checks
        for k, v in r.counters.items():
            counters[k] = counters.get(k, 0) + v
        hashes |= r.hashes
        samples += r.samples
        errors += r.errors
        for v in r.violations:
            v['harness_prop'], v['runner'] = part['harness_prop'], r
            v['cmd'] = ' '.join(r.exe)
            k = is_known(prop, v)
            if k:
                known_hit[k[1]] = k
            else:
                violations.append(v)
    # a violation only counts when the failing case fails again, on its own or
    # (state kept across cases) as the last of the cases run before it
    replay = None
    confirmed = []
    violations.sort(key=lambda v: v['sig'] == 'hang')
    for v in violations[:5]:
        r = v['runner']
        r.stop = False
        if v['sig'] == 'hang':      # (has been re-run already)
            v['first'], v['count'] = v['case'], 1
            confirmed.append(v)
            break
        attempts = [(v['case'], v.get('count', 1))]
        if v.get('from', v['case']) < v['case']:
            attempts.append((v['from'], v['case'] + 1 - v['from']))
        for first, n in attempts:
            rc, err, lines, status = r.run_once(first, n, spec.get('cpu', 20) * 6, 'confirm', spec.get('wall', 600))
            vs = [l for l in lines if l.get('violation') and not is_known(prop, l) and not r.spec.get('memory_only')]
            if vs or rc not in (0, 1, 2, 'timeout'):
                v['first'], v['count'] = first, n
                confirmed.append(v)
                break
        if confirmed:
            break
    if violations and not confirmed:
        errors.append('a reported violation did not reproduce: %s' % violations[0]['sig'])
    if confirmed:
        v = confirmed[0]
        os.makedirs(os.path.join(VERIF, 'replay'), exist_ok=True)
        replay = os.path.join(VERIF, 'replay', '%s-seed%d-case%d.json' % (prop, seed, v['case']))
        with open(replay, 'w') as f:
            json.dump({'property': prop, 'seed': seed, 'tier': tier, 'case': v['case'], 'signature': v['sig'], 'message': v['msg'], 'history': v.get('trace', ''),
                       'reproduce': 'python3 %s/check.py %s --tier %s --seed %d --case %d' % (VERIF, prop, tier, seed, v['case']),
                       'direct': '%s --prop %s --tier %s --seed %d --start %d --count %d' % (v['cmd'], v['harness_prop'], tier, seed, v['first'], v['count']),
                       'others': [{'case': o['case'], 'sig': o['sig']} for o in violations[1:20]]}, f, indent=1)
    wall = time.time() - t0
    # liveness of the workload: the monitors must have seen what they are meant to see
    dead = [k for k in spec.get('must_see', []) if counters.get(k, 0) == 0]
    if dead and case is None and count is None and not violations:
        errors.append('monitors observed no events of kind: ' + ', '.join(dead))
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': evaluations,
            'distinct_nontrivial': len(hashes),
            'rule': spec['rule'],
            'samples': samples[:12] or ['(see counters)'],
            'cases': counters.get('cases', 0),
            'monitor_checks': checks,
            'observed': counters,
        },
        'assumptions': spec.get('assumptions', []) + (COMMON_ASSUMPTIONS if not spec.get('valgrind') else COMMON_ASSUMPTIONS[:1] + ['harness and library are compiled with g++ -O1 and run under Valgrind memcheck, or with AddressSanitizer and UBSan']),
        'wall_s': round(wall, 2),
        'violations': len(violations),
        'violation_details': [{'sig': v['sig'], 'case': v['case'], 'msg': v['msg'][:500]} for v in violations[:20]],
        'known_findings': [k[2] for k in known_hit.values()],
        'errors': errors[:10],
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    if case is None:
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
            json.dump(evidence, f, indent=1)
    for part, r in ran:
        shutil.rmtree(r.dir, ignore_errors=True)
    for k in known_hit.values():
        print('KNOWN-FINDING: property=%s %s' % (prop, k[2]))
    print('%s %s seed=%d: %d cases, %d monitored executions (%d distinct), %d monitor checks, %.1f s' % (
        prop, tier, seed, counters.get('cases', 0), evaluations, len(hashes), checks, wall))
    if confirmed:
        print('%s: %s' % (confirmed[0]['sig'], confirmed[0]['msg'][:1500]))
        print('VIOLATION property=%s replay=%s' % (prop, replay))
        return 1
    if errors:
        for e in errors[:5]:
            print('ERROR: %s' % e)
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
