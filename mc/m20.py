"""Calls from Perl: conversions of values both ways, parameters, elements, exceptions, lifetimes, through SPVM.xs."""
import re, urllib.parse
from common import *

PARTS = {'scalar': 1, 'array': 2, 'object': 2, 'signature': 4, 'call': 1, 'history': 8}


def build(sc, opt='-g -O1 -fsanitize=address -fno-omit-frame-pointer'):
    "SPVM.so with AddressSanitizer from the tree's sources; returns the environment of the driver"
    for x in ('SPVM.xs', 'Makefile.PL', 'MANIFEST', 'ppport.h'):
        shutil.copy(os.path.join(REPO, x), sc.src)
    shutil.copytree(os.path.join(REPO, 'script'), os.path.join(sc.src, 'script'))
    for d in ('t/test_files', 't/02_vm', 't/utils'):
        if os.path.isdir(os.path.join(REPO, d)): shutil.copytree(os.path.join(REPO, d), os.path.join(sc.src, d), ignore=lambda d, n: [x for x in n if x == '.spvm_build'])
    for d, _, fs in os.walk(sc.src):
        for f in fs:
            if f.endswith(('.o', '.so', '.a')): os.remove(os.path.join(d, f))
    env = {k: v for k, v in SAN_ENV.items() if not k.startswith(('MAKE', 'PERL', 'SPVM'))}
    for cmd in (['perl', 'Makefile.PL'], ['make', '-j%d' % NCPU, 'pm_to_blib'], ['make', '-j%d' % NCPU, 'OPTIMIZE=' + opt, 'blib/arch/auto/SPVM/SPVM.so']):
        r = subprocess.run(cmd, cwd=sc.src, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode: raise BuildFailed('%s\n%s' % (' '.join(cmd), r.stdout.decode('utf8', 'replace')[-3000:]))
    env['PERL5LIB'] = '%s/blib/lib:%s/blib/arch' % (sc.src, sc.src)
    env['SPVM_BUILD_DIR'] = sc.path('build', 'x')[:-2]
    return env


def main():
    ck = Check('M20'); sc = ck.make_scratch()
    env = build(sc)
    drv = os.path.join(VERIF, 'mc/driver/ex.pl')
    cls = sc.path('classes', 'x')[:-2]
    subprocess.run(['perl', drv, cls, 'gen'], env=env, check=True)
    lib = subprocess.run(['gcc', '-print-file-name=libasan.so'], stdout=subprocess.PIPE).stdout.decode().strip()
    renv = dict(env, LD_PRELOAD=lib, EX_DEPTH='5' if TIER == 'quick' else '6')
    jobs = [(g, i, n) for g, n in sorted(PARTS.items(), key=lambda x: -x[1]) for i in range(n)]
    distinct = {}

    def one(j):
        g, i, n = j
        try:
            p = subprocess.run(['perl', drv, cls, g, str(i), str(n)], env=renv, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=420 if TIER == 'quick' else 850, stdin=subprocess.DEVNULL)
            return j, p.returncode, p.stdout.decode('utf8', 'replace'), p.stderr.decode('utf8', 'replace')
        except subprocess.TimeoutExpired as e:
            return j, 'timeout', (e.stdout or b'').decode('utf8', 'replace'), (e.stderr or b'').decode('utf8', 'replace')
    with ThreadPoolExecutor(NCPU) as ex: res = list(ex.map(one, jobs))
    for (g, i, n), rc, out, err in res:
        end = False
        for l in out.split('\n'):
            f = l.split('\t')
            if f[0] == 'F' and len(f) == 3: ck.fail('%s: %s' % (g, urllib.parse.unquote_to_bytes(f[1]).decode('utf8', 'replace')), urllib.parse.unquote_to_bytes(f[2]).decode('utf8', 'replace'))
            elif f[0] == 'N': end = True; ck.count(int(f[1]), int(f[1]), int(f[1])); distinct[g] = max(distinct.get(g, 0), int(f[2]))
            elif f[0] == 'S': ck.sample(urllib.parse.unquote(f[1]))
        if rc != 0 or not end: ck.fail('%s part %d of %d ends with %s' % (g, i, n, rc), 'cases before it: %s\n%s\nstandard error: %s' % (urllib.parse.unquote(out[-300:]), summarize_san(err), err[:1500]))
    ck.assumptions += ['A value whose conversion the documentation leaves open (undef or a reference as a field of a multi-numeric value, a plain string for an object parameter) is not judged.']
    ck.finish(exhaustive=True, distinct_outcomes=sum(distinct.values()), bound='every value of a fixed set through every numeric type in every position; every object value for every parameter, element and setter type; every signature to length 3 of 15 parameter types; every history of %s operations of 16 on objects shared by Perl and SPVM' % renv['EX_DEPTH'])
