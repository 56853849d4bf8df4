"""Python counterpart of common.hxx: seeded cases, monitors, evidence counters."""
import sys, os, json, signal, random, hashlib, traceback, io


class Violation(Exception):
    def __init__(self, sig, msg):
        Exception.__init__(self, sig, msg)
        self.sig, self.msg = sig, msg


class Stats:
    def __init__(self):
        self.counters, self.distinct, self.samples = {}, set(), []
        self.evaluations = self.states = 0

    def count(self, k, n=1):
        self.counters[k] = self.counters.get(k, 0) + n

    def state(self, *what):
        self.states += 1
        self.distinct.add(hashlib.md5(repr(what).encode()).hexdigest()[:16])


stats = Stats()
trace = []


def note(s):
    trace.append(str(s))
    if len(trace) > 400:
        del trace[:200]


def check(cond, sig, msg):
    stats.evaluations += 1
    if not cond:
        raise Violation(sig, msg() if callable(msg) else str(msg))


def violate(sig, msg):
    raise Violation(sig, str(msg))


class Rng(random.Random):
    def chance(self, p):
        return self.random() < p

    def uni(self, a, b):
        return a + (b - a) * self.random()

    def range(self, a, b):
        return self.randint(a, b)

    def below(self, n):
        return self.randrange(n)

    def pick(self, l):
        return l[self.randrange(len(l))]


def main(props):
    o = dict(prop='', tier='quick', start='0', count='1', seed='1', status='', out='', cpu='20')
    a = sys.argv[1:]
    verbose = False
    while a:
        k = a.pop(0)
        if k == '-v':
            verbose = True
        else:
            o[k[2:]] = a.pop(0)
    if o['prop'] not in props:
        sys.stderr.write('unknown property %s\n' % o['prop'])
        sys.exit(2)
    start, count, cpu = int(o['start']), int(o['count']), int(o['cpu'])
    sfd = os.open(o['status'], os.O_CREAT | os.O_TRUNC | os.O_WRONLY, 0o644) if o['status'] else -1

    def status(i, what):
        if sfd >= 0:
            os.pwrite(sfd, ('%-20d %-40s\n' % (i, what)).encode(), 0)
    cur = [start]

    # SIGPROF must work while C++ code is running: default action terminates;
    # the status file then still names the case, so it is marked in advance
    signal.signal(signal.SIGPROF, signal.SIG_DFL)
    out = open(o['out'], 'w') if o['out'] else sys.stdout
    if not verbose:
        # the library reports progress on stderr and stdout; keep it out of the
        # way, but keep the sanitizers' channel (they write to descriptor 2)
        devnull = os.open(os.devnull, os.O_WRONLY)
        if out is not sys.stdout:
            os.dup2(devnull, 1)
    nviol = 0
    for i in range(start, start + count):
        cur[0] = i
        status(i, 'run')
        del trace[:]
        signal.setitimer(signal.ITIMER_PROF, cpu)
        sig = msg = None
        try:
            seed = hashlib.md5(('%s/%s/%d' % (o['prop'], o['seed'], i)).encode()).hexdigest()
            props[o['prop']](Rng(seed), i)
        except Violation as v:
            sig, msg = v.sig, v.msg
        except Exception as e:
            sig, msg = 'unexpected-exception', ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-1500:]
        signal.setitimer(signal.ITIMER_PROF, 0)
        stats.count('cases')
        if len(stats.samples) < 2:
            t = 'case %d: ' % i
            for l in trace:
                if len(t) > 500:
                    t += '...'
                    break
                t += l + '; '
            stats.samples.append(t)
        if sig:
            out.write(json.dumps({'violation': True, 'case': i, 'sig': sig, 'msg': msg, 'trace': '\n'.join(trace[-60:])}) + '\n')
            out.flush()
            nviol += 1
            if nviol >= 40:
                break
    status(start + count, 'done')
    out.write(json.dumps({'stats': True, 'evaluations': stats.evaluations, 'states': stats.states, 'distinct': len(stats.distinct),
                          'counters': stats.counters, 'samples': stats.samples}) + '\n')
    out.write(json.dumps({'hashes': sorted(stats.distinct)[:200000]}) + '\n')
    out.flush()
    os._exit(1 if nviol else 0)
