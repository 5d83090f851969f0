"""Build and run of the controlled-schedule explorer (driver/thr.c)."""
from common import *


def build(s):
    flags = ['-std=gnu99', '-O1', '-g1', '-w', '-fwrapv', '-fno-strict-aliasing', '-fPIC', '-pthread', '-D_GNU_SOURCE']
    objs = s.compile_all(s.core_sources() + s.class_sources(), flags + ['-fsanitize=thread'], 'thr')
    objs += s.compile_all([os.path.join(VERIF, 'mc/driver/thr.c')], flags + ['-I' + os.path.join(VERIF, 'mc/driver')], 'thrd')
    wraps = ['-Wl,--wrap=' + f for f in ('malloc', 'calloc', 'free', 'realloc', 'strdup')]
    return s.link(objs, s.path('bin', 'thr'), ['-rdynamic', '-Wl,-z,muldefs', '-pthread', '-lm', '-ldl'] + wraps)


class Scn:
    """One scenario: class-level code, set-up, thread bodies, the final check and the allowed outcomes."""
    def __init__(self, name, setup, threads, check, ok, P=None):
        self.name, self.setup, self.threads, self.check, self.ok = name, setup, threads, check, ok


def source(cls, head, scns):
    o = ['class %s {' % cls, '  use MCThr;', '  use MCLog;', head]
    for n, s in enumerate(scns):
        o.append('  static method setup%d : object () {\n%s\n  }' % (n, s.setup))
        for k, t in enumerate(s.threads):
            o.append('  static method a%d_%d : void ($o : object) {\n%s\n  }' % (n, k, t))
        o.append('  static method check%d : void ($o : object) {\n%s\n  }' % (n, s.check))
    return '\n'.join(o) + '\n}\n'


def explore(ck, bin_, cls, head, scns, extra=(), P=3, focus=False):
    """Explores every scenario in parallel. Each outcome trace must satisfy scn.ok(trace)."""
    d = ck.scratch.path('cls', 'x')[:-2]
    src = source(cls, head, scns)
    with open(os.path.join(d, cls + '.spvm'), 'w') as f:
        f.write(src)
    for name, text in extra:
        p = os.path.join(d, name.replace('::', '/') + '.spvm')
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, 'w').write(text)
    dirs = [d, os.path.join(VERIF, 'mc/driver/lib'), os.path.join(ck.scratch.src, 'lib/SPVM')]

    cap = 20000 if TIER == 'quick' else 1500000
    maxp = P + (0 if TIER == 'quick' else 2)
    env = dict(SAN_ENV, **({'THR_FOCUS': '1'} if focus else {}))

    def run(n, p):
        try:
            r = subprocess.run([bin_, str(n), str(p), str(cap), cls] + dirs, capture_output=True, text=True, timeout=6000, stdin=subprocess.DEVNULL, env=env)
            return r.returncode, r.stdout, r.stderr
        except subprocess.TimeoutExpired as e:
            return -99, (e.stdout or b'').decode('latin-1'), 'timeout'

    def one(n):
        """Raises the preemption bound as far as every schedule within it fits the cap."""
        best = None
        for p in range(1, maxp + 1):
            rc, out, err = run(n, p)
            d = [l for l in out.split('\n') if l.startswith('DONE')]
            if rc or not d:
                return n, p, rc, out, err
            v = dict(x.split('=') for x in d[0].split()[1:])
            if v['capped'] == '1' and best:
                return best
            best = (n, p, rc, out, err)
            k = int(v['schedules'])
            if 'BAD ' in out or k * (int(v['points']) // max(k, 1)) // (p + 1) > cap * 2:
                break
        return best
    summ = []
    with ThreadPoolExecutor(NCPU) as ex:
        for n, p, rc, out, err in ex.map(one, range(len(scns))):
            s = scns[n]
            lines = out.split('\n')
            done = [l for l in lines if l.startswith('DONE')]
            if rc != 0 or not done:
                ck.fail('%s/not explored' % s.name, 'scenario %s could not be explored (rc %s)\n%s\n%s\n%s' % (s.name, rc, out[-2000:], err[-2000:], src))
                continue
            v = dict(x.split('=') for x in done[0].split()[1:])
            ck.count(states=int(v['points']), transitions=int(v['accesses']), traces=int(v['schedules']))
            if v['capped'] == '1':
                ck.cov['exhaustive'] = False
            summ.append('%s: %s schedules with up to %d preemptions, %s conflicting locations%s' % (s.name, v['schedules'], p, v['hot'], ', capped' if v['capped'] == '1' else ''))
            last = None
            for i, l in enumerate(lines):
                if l.startswith('OUT '):
                    t = l[4:]
                    ck.outcomes.add((n, t))
                    why = s.ok(t)
                    if why is not True:
                        ck.fail('%s/%s' % (s.name, t[:60]), 'scenario %s: outcome %s: %s\n%s\n(scenario %d of class %s)\n\n%s' % (s.name, t, why, lines[i + 1], n, cls, src))
                elif l.startswith('BAD '):
                    ck.fail('%s/%s' % (s.name, re_addr(l[4:])), 'scenario %s: %s\n%s\n(scenario %d of class %s)\n\n%s' % (s.name, l[4:], lines[i + 1], n, cls, src))
    for x in summ:
        ck.sample(x)
    return summ


def re_addr(s):
    import re
    s = re.sub(r'\(code .*?\)', '', s).strip()
    return 'freed memory is used' if re.search('freed|unallocated|not allocated|SIGSEGV|aborts', s) else s[:80]
