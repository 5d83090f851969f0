"""What every check shares: a scratch copy of /repo's tree, builds of the core from it, running, reporting."""
import os, sys, json, subprocess, shutil, tempfile, time, atexit, glob, signal, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
NCPU = os.cpu_count() or 4
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
SAN_ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0:allocator_may_return_null=1',
               UBSAN_OPTIONS='halt_on_error=1:print_stacktrace=1')
for v in ('PERL5LIB', 'PERL5OPT', 'SPVM_BUILD_DIR', 'SPVM_CC_FORCE', 'SPVM_CC_QUIET'):
    SAN_ENV.pop(v, None)
SAN_ENV['LC_ALL'] = 'C.UTF-8'


class BuildFailed(Exception):
    pass


class Scratch:
    """A scratch directory outside /repo and /verif, removed at exit, holding a copy of /repo's sources."""
    def __init__(self, tag):
        base = os.environ.get('VERIF_TMP', '/tmp')
        self.dir = tempfile.mkdtemp(prefix='verif_%s_' % tag, dir=base)
        atexit.register(self.close)
        for s in (signal.SIGTERM, signal.SIGINT):
            signal.signal(s, lambda *a: sys.exit(2))
        self.src = os.path.join(self.dir, 'repo')
        os.mkdir(self.src)
        shutil.copytree(os.path.join(REPO, 'lib'), os.path.join(self.src, 'lib'),
                        ignore=lambda d, n: [x for x in n if x.endswith('.o') or x == '.spvm_build'])
        self.builder = os.path.join(self.src, 'lib/SPVM/Builder')
        self.inc = os.path.join(self.builder, 'include')

    def close(self):
        if os.path.isdir(self.dir) and not os.environ.get('VERIF_KEEP'):
            shutil.rmtree(self.dir, ignore_errors=True)

    def path(self, *a):
        p = os.path.join(self.dir, *a)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        return p

    def core_sources(self):
        return sorted(glob.glob(os.path.join(self.builder, 'src', '*.c')))

    def class_sources(self):
        out = []
        for d, _, fs in os.walk(os.path.join(self.src, 'lib/SPVM')):
            if '/Builder' in d or '/Resource' in d:
                continue
            out += [os.path.join(d, f) for f in fs if f.endswith('.c')]
        return sorted(out)

    def compile_all(self, sources, flags, tag, cc='gcc'):
        """Compiles each source to an object (in parallel)."""
        objdir = self.path('obj_' + tag, 'x')[:-2]
        jobs = []
        for s in sources:
            rel = os.path.relpath(s, self.src) if s.startswith(self.src) else 'V_' + os.path.basename(s)
            o = os.path.join(objdir, rel.replace('/', '_') + '.o')
            jobs.append((s, o))

        def one(j):
            s, o = j
            comp = cc
            if os.path.exists(o):
                return (j, subprocess.CompletedProcess([], 0))
            r = subprocess.run(comp.split() + flags + ['-I' + self.inc, '-c', s, '-o', o], capture_output=True, text=True)
            return (j, r)
        jobs.sort(key=lambda j: -os.path.getsize(j[0]))
        with ThreadPoolExecutor(NCPU) as ex:
            for j, r in ex.map(one, jobs):
                if r.returncode:
                    raise BuildFailed('cannot compile %s:\n%s' % (j[0], r.stderr[-3000:]))
        return [o for _, o in jobs]

    def link(self, objs, out, flags, cc='gcc'):
        r = subprocess.run(cc.split() + objs + ['-o', out] + flags, capture_output=True, text=True)
        if r.returncode:
            raise BuildFailed('cannot link %s:\n%s' % (out, r.stderr[-3000:]))
        return out

    ASAN = ['-std=gnu99', '-O1', '-g1', '-w', '-fwrapv', '-fno-strict-aliasing', '-fno-omit-frame-pointer', '-fsanitize=address', '-fPIC', '-pthread']
    PLAIN = ['-std=gnu99', '-O1', '-g1', '-w', '-fwrapv', '-fno-strict-aliasing', '-fPIC', '-pthread']

    def mcrun(self, asan=True):
        """The program runner: core + native classes + driver."""
        flags = self.ASAN if asan else self.PLAIN
        tag = 'asan' if asan else 'plain'
        objs = self.compile_all(self.core_sources() + self.class_sources() + [os.path.join(VERIF, 'mc/driver/mcrun.c')], flags, tag)
        return self.link(objs, self.path('bin', 'mcrun_' + tag), ['-rdynamic', '-Wl,-z,muldefs', '-pthread', '-lm', '-ldl'] + (['-fsanitize=address'] if asan else []))


def unesc(s):
    out = bytearray()
    i = 0
    b = s.encode('latin-1')
    while i < len(b):
        if b[i:i + 1] == b'%':
            out.append(int(b[i + 1:i + 3], 16)); i += 3
        else:
            out.append(b[i]); i += 1
    return bytes(out)


def esc(b):
    if isinstance(b, str):
        b = b.encode('utf-8')
    return ''.join(chr(c) if 0x20 < c < 0x7f and c not in b'\\%;' else '%%%02x' % c for c in b)


class Result:
    __slots__ = ('err', 'msg', 'mem', 'trace', 'crash')
    def __init__(self, err, msg, mem, trace, crash=None):
        self.err, self.msg, self.mem, self.trace, self.crash = err, msg, mem, trace, crash
    def key(self):
        return (self.err, self.msg, self.mem, self.trace, self.crash)
    def __repr__(self):
        return 'CRASH(%s)' % self.crash if self.crash else 'err=%s msg=%s mem=%s trace=%s' % (self.err, self.msg, self.mem, self.trace)


class Batch:
    """Outcome of one class of t<N> methods."""
    def __init__(self):
        self.res = {}
        self.end = None
        self.compile_error = None
        self.precompiled = 0
        self.stderr = ''


def run_class(bin_, dirs, cls, precompile=None, cc='gcc -O0', start=0, timeout=600, only=None, lim=60, env=None, seq=None):
    b = Batch()
    crashes = 0
    while True:
        cmd = [bin_] + [x for d in dirs for x in ('-I', d)] + ['-s', str(start), '-a', str(lim)]
        if precompile:
            cmd += ['-p', precompile, '-c', cc, '-P', only or '*']
        if seq:
            cmd += ['-f', seq]
        cmd.append(cls)
        try:
            r = subprocess.run(cmd, capture_output=True, timeout=timeout, env=env or SAN_ENV, stdin=subprocess.DEVNULL)
            out, errs, rc = r.stdout.decode('latin-1'), r.stderr.decode('latin-1'), r.returncode
        except subprocess.TimeoutExpired as e:
            out, errs, rc = (e.stdout or b'').decode('latin-1'), (e.stderr or b'').decode('latin-1'), -99
        b.stderr += errs[-20000:]
        began = None
        for line in out.split('\n'):
            w = line.split(' ')
            if w[0] == 'B':
                began = w[1]
            elif w[0] == 'R' and len(w) == 6:
                b.res[int(w[1][1:])] = Result(int(w[2]), w[3], int(w[4]), w[5]); began = None
            elif w[0] == 'CRASH':
                began = 't' + w[1]
            elif w[0] == 'TIMEOUT' and seq:
                began = 't' + w[2]
            elif w[0] == 'END':
                b.end = (int(w[1]), w[2])
            elif w[0] == 'COMPILE-ERROR':
                b.compile_error = (b.compile_error or '') + line[14:] + '\n'
            elif w[0] == 'PRECOMPILED':
                b.precompiled = int(w[1])
            elif w[0].startswith('PRECOMPILE-') or w[0] == 'INIT-ERROR':
                b.compile_error = (b.compile_error or '') + line + '\n' + errs[-2000:]
        if rc == 0 or b.compile_error:
            if rc != 0 and rc not in (4, 5) :
                b.compile_error += '\nrc=%d %s' % (rc, errs[-1500:])
            return b
        why = 'timeout' if (rc in (97, -99)) else 'rc=%d %s' % (rc, summarize_san(errs))
        if began is None:
            b.end = (None, 'crash outside a method: ' + why)
            if not b.res or crashes:
                b.compile_error = (b.compile_error or '') + 'crash outside a method: ' + why
            return b
        n = int(began[1:])
        b.res[n] = Result(None, '', 0, '', why)
        crashes += 1
        start = n + 1
        if crashes > 20:
            return b


def summarize_san(errs):
    lines = errs.split('\n')
    for i, l in enumerate(lines):
        if 'ERROR: AddressSanitizer' in l or 'runtime error:' in l:
            frames = [x.strip() for x in lines[i:i + 14] if x.strip().startswith('#')][:6]
            return (l.strip() + ' | ' + ' | '.join(frames))[:900]
    return errs[-300:].replace('\n', ' | ')


class Check:
    """Reporting. fail() records a violation; finish() writes the evidence and exits."""
    def __init__(self, pid, level='model_checking'):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.viol = []
        self.known_hit = []
        self.known = []
        kf = os.path.join(VERIF, 'known-findings.jsonl')
        if os.path.exists(kf):
            for line in open(kf):
                line = line.strip()
                if line and not line.startswith('#'):
                    k = json.loads(line)
                    if k.get('property') == pid and k.get('status') == 'known':
                        self.known.append(k)
        self.cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': []}
        self.assumptions = []
        self.dir = os.path.join(VERIF, 'evidence', 'replay', pid)
        shutil.rmtree(self.dir, ignore_errors=True)
        self.scratch = None
        self.outcomes = set()

    def make_scratch(self):
        self.scratch = Scratch(self.pid)
        return self.scratch

    def count(self, states=0, transitions=0, traces=0):
        self.cov['states'] += states
        self.cov['transitions'] += transitions
        self.cov['traces_validated_against_impl'] += traces

    def sample(self, s):
        if len(self.cov['samples']) < 12:
            self.cov['samples'].append(s if isinstance(s, str) else json.dumps(s))

    def fail(self, ident, text):
        """ident: short stable identity of the failing input/site; text: the replayable description."""
        for k in self.known:
            if k['ident'] == ident:
                if ident not in self.known_hit:
                    self.known_hit.append(ident)
                return True
        self.viol.append((ident, text))

    def finish(self, **cov):
        self.cov.update(cov)
        self.cov['distinct_outcomes'] = len(self.outcomes) or self.cov.get('distinct_outcomes', 0)
        self.cov.setdefault('exhaustive', True)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        ev = {'property': self.pid, 'tier': TIER, 'seed': SEED, 'level': self.level, 'coverage': self.cov,
              'wall_s': round(time.time() - self.t0, 2), 'assumptions': self.assumptions, 'violations': len(self.viol)}
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for k in self.known:
            if k['ident'] in self.known_hit:
                print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
        print('%s: %s tier, %d states, %d transitions, %d traces on the implementation, %d distinct outcomes, %.1fs' %
              (self.pid, TIER, self.cov['states'], self.cov['transitions'], self.cov['traces_validated_against_impl'],
               self.cov['distinct_outcomes'], time.time() - self.t0))
        if self.viol:
            os.makedirs(self.dir, exist_ok=True)
            for n, (ident, text) in enumerate(self.viol[:10]):
                p = os.path.join(self.dir, '%d.txt' % n)
                with open(p, 'w') as f:
                    f.write('property %s\nident %s\n\n%s\n' % (self.pid, ident, text))
                print('--- %s\n%s' % (ident, text[:400]))
                print('VIOLATION property=%s replay=%s' % (self.pid, os.path.relpath(p, VERIF)))
            print('%d violations in all' % len(self.viol))
            sys.stdout.flush()
            sys.exit(1)
        sys.stdout.flush()
        sys.exit(0)
