"""M21: the build cache: after every history of edits, deletions, failed and interrupted builds, the code that runs is the code of the current sources."""
import itertools, threading
from common import *
from m20 import build

T0 = 1500000000

# what a project consists of: the value of every place that can be edited
START = dict(c=1, h=1, sub=1, a=1, cfg=1, common=1, b=0, bv=1, extra=0, rc=1, rh=1, rcfg=1, rbase=1, sp=1, np=1, k=1, en=1, fld=0, qm=1, bad=0, badq=0, base=1)


def files(s):
    "name -> content"
    f = {}
    L = 'lib/SPVM/'
    f[L + 'NC.spvm'] = 'class NC {\n  native static method c : string ();\n%s  static method sp : int () { return %d; }\n}\n' % ('  native static method extra : int ();\n' if s['extra'] else '', s['sp'])
    f[L + 'NC.config'] = '''use strict; use warnings; use SPVM::Builder::Config;
my $config = SPVM::Builder::Config->load_mode_config(__FILE__, 'common', []);
$config->add_ccflag('-DCFG=%d');
$config->add_source_file('a.c'%s);
$config->use_resource('NR', mode => 'm');
$config;
''' % (s['cfg'], ", 'd/b.c'" if s['b'] else '')
    f[L + 'NC.common.config'] = '''use strict; use warnings; use SPVM::Builder::Config;
my $config = SPVM::Builder::Config->new_gnu99(file => __FILE__);
$config->add_ccflag('-DCOMMON=%d');
$config;
''' % s['common']
    f[L + 'NC.c'] = '''#include "spvm_native.h"
#include <stdio.h>
#include "nc.h"
#include "r.h"
#ifndef GLOB
#define GLOB 0
#define GARG 0
#endif
#ifndef DBG
#define DBG 0
#endif
#ifdef __OPTIMIZE__
#define OPT 1
#else
#define OPT 0
#endif
int nc_a(void); int nr_r(void); __attribute__((weak)) int nc_b(void);
int32_t SPVM__NC__c(SPVM_ENV* env, SPVM_VALUE* stack) {
  char s[300]; snprintf(s, 300, "c%d h%%d sub%%d cfg%%d common%%d a%%d b%%d rh%%d r%%d glob%%d dbg%%d arg%%d opt%%d", NC_H, NC_SUB, CFG, COMMON, nc_a(), nc_b ? nc_b() : 0, NR_H, nr_r(), GLOB, DBG, GARG, OPT);
  stack[0].oval = env->new_string(env, stack, s, strlen(s)); return 0;
}
''' % s['c'] + ('int32_t SPVM__NC__extra(SPVM_ENV* env, SPVM_VALUE* stack) { stack[0].ival = %d; return 0; }\n' % (s['extra'] * 5 + s['c']) if s['extra'] else '') + ('this is not C\n' if s['bad'] else '')
    f[L + 'NC.native/include/nc.h'] = '#define NC_H %d\n#include "sub/nd.h"\n' % s['h']
    f[L + 'NC.native/include/sub/nd.h'] = '#define NC_SUB %d\n' % s['sub']
    f[L + 'NC.native/src/a.c'] = '#include "nc.h"\nint nc_a(void) { return %d * 1000000 + NC_SUB * 1000 + CFG; }\n' % s['a']
    f[L + 'NC.native/src/d/b.c'] = '#include "nc.h"\nint nc_b(void) { return %d * 1000 + NC_H; }\n' % s['bv']
    f[L + 'NR.spvm'] = 'class NR;\n'
    f[L + 'NR.config'] = '''use strict; use warnings; use SPVM::Builder::Config;
my $config = SPVM::Builder::Config->new_gnu99(file => __FILE__);
$config->ext(undef); $config->add_source_file('r.c'); $config->add_ccflag('-DRBASE=%d');
$config;
''' % s['rbase']
    f[L + 'NR.m.config'] = '''use strict; use warnings; use SPVM::Builder::Config;
my $config = SPVM::Builder::Config->load_base_config(__FILE__, []);
$config->add_ccflag('-DRCFG=%d');
$config;
''' % s['rcfg']
    f[L + 'NR.native/include/r.h'] = '#define NR_H %d\n' % s['rh']
    f[L + 'NR.native/src/r.c'] = '#include "r.h"\nint nr_r(void) { return %d * 100000000 + NR_H * 1000000 + RCFG * 1000 + RBASE; }\n' % s['rc']
    if s.get('exe'):
        f['app.spvm'] = 'class {\n  use NC;\n  use NP;\n  static method main : void () {\n    my $c = NC->c; my $sp = NC->sp; my $x = "-"; %smy $p = NP->p;\n    say "$c|$sp|$x|$p|%d";\n  }\n}\n' % ('my $n = NC->extra; $x = "$n"; ' if s['extra'] else '', s['app'])
        f['other.spvm'] = 'class {\n  use NP;\n  static method main : void () {\n    my $p = NP->p;\n    say $p;\n  }\n}\n'
        f['app.config'] = '''use strict; use warnings; use SPVM::Builder::Config::Exe;
my $config = SPVM::Builder::Config::Exe->new_gnu99(file => __FILE__);
my $arg = $ARGV[0]; $arg = 0 unless defined $arg;
$config->use_resource('NR', mode => 'm');
$config->add_global_after_create_compile_info_cb(sub { my ($config) = @_; $config->add_ccflag('-DGLOB=%d', "-DGARG=$arg"); });
$config;
''' % s['glob']
        f['app.dbg.config'] = '''use strict; use warnings; use SPVM::Builder::Config::Exe;
my $config = SPVM::Builder::Config::Exe->load_base_config(__FILE__, \\@ARGV);
$config->add_global_after_create_compile_info_cb(sub { my ($config) = @_; $config->add_ccflag('-DDBG=%d'); });
$config;
''' % s['dbg']
    f[L + 'NP.spvm'] = '''class NP extends NB {
  use NQ;
  static method new : NP () { my $o = new NP; $o->{own} = %d; return $o; }
  has own : int;
  precompile static method p : string () {
    my $q = NQ->new; my $x = $q->{x}; my $y = $q->{y}; my $z = $q->{z}; my $k = NQ->K; my $e = NQ->E; my $m = NQ->m; my $n = %d; my $w = 0; my $s = 0;
    switch ($n + $e - %d) { case NQ->E: { $w = 7; break; } default: { $w = 1; } }
    my $o = NP->new; my $own = $o->{own}; my $c = NQ->C; $s = NQ->d;
    my $r = $o isa NB;
    my $g = $o->{base_f}; my $u = "\xe3\x81\x84"; my $bm = $o->base_m;
    return "n$n x$x y$y z$z k$k e$e m$m w$w own$own c$c s$s r$r g$g bm$bm$u%s";
  }
}
''' % (s['np'], s['np'], s['np'], '" . 1 2' if s['badq'] else '')
    f[L + 'NB.spvm'] = 'class NB : public {\n%s  has base_f : public int;\n  method base_m : int () { $self->{base_f} = %d; return $self->{base_f} + 1; }\n}\n' % (''.join('  has base_%d : long;\n' % i for i in range(s['base'])), s['base'])
    f[L + 'NQ.spvm'] = '''class NQ : public {
  enum { E = %d }
%s  has x : public byte;
%s  has y : public int;
  has z : public long;
  static method new : NQ () { my $o = new NQ; $o->{x} = (byte)1; $o->{y} = 2; $o->{z} = 3; return $o; }
  static method K : int () { return %d; }
  static method C : string () { return "k%d\xe3\x81\x82"; }
  static method m : int () { my $v = %d; return $v; }
  static method d : int ($v : int = %d) { return $v; }
}
''' % (s['en'], '  has f0 : long;\n' if s['fld'] & 2 else '', '  has f1 : long;\n  has f2 : int;\n' if s['fld'] & 1 else '', s['k'], s['k'], s['qm'], s['qm'])
    return f


def want(s):
    "what the program prints; None: it must not run"
    if s['bad'] or s['badq']: return None
    nc = 'c%d h%d sub%d cfg%d common%d a%d b%d rh%d r%d glob%d dbg%d arg%d opt%d' % (s['c'], s['h'], s['sub'], s['cfg'], s['common'], s['a'] * 1000000 + s['sub'] * 1000 + s['cfg'], s['bv'] * 1000 + s['h'] if s['b'] else 0, s['rh'], s['rc'] * 100000000 + s['rh'] * 1000000 + s['rcfg'] * 1000 + s['rbase'], s.get('glob', 0), s['dbg'] if s.get('mode') else 0, s.get('garg', 0), s.get('opt', 1))
    w = 7
    np = 'n%d x1 y2 z3 k%d e%d m%d w%d own%d ck%d\u3042 s%d r1 g0 bm%d\u3044' % (s['np'], s['k'], s['en'], s['qm'], w, s['np'], s['k'], s['qm'], s['base'] + 1)
    return '%s|%s|%s|%s' % (nc, s['sp'], s['extra'] * 5 + s['c'] if s['extra'] else '-', np) + ('|%d' % s['app'] if s.get('exe') else '')


PROG = '''use strict; use warnings; use SPVM 'NC'; use SPVM 'NP'; $| = 1; binmode STDOUT, ':utf8';
print join('|', SPVM::NC->c, SPVM::NC->sp, (SPVM::NC->can('extra') ? SPVM::NC->extra : '-'), SPVM::NP->p), "\\n";
'''

EXE = dict(START, exe=1, app=1, glob=1, dbg=1, mode=0, garg=1, opt=0)

EDITS = {k: (lambda s, k=k: dict(s, **{k: s[k] + 1})) for k in ('c', 'h', 'sub', 'a', 'cfg', 'common', 'rc', 'rh', 'rcfg', 'rbase', 'sp', 'np', 'k', 'en', 'qm', 'base', 'bv')}
EDITS['fld'] = lambda s: dict(s, fld=(s['fld'] + 1) % 4)
EDITS['b'] = lambda s: dict(s, b=1 - s['b'])
EDITS['extra'] = lambda s: dict(s, extra=1 - s['extra'])
for _k in ('app', 'glob', 'dbg', 'garg'): EDITS[_k] = lambda s, k=_k: dict(s, **{k: s[k] + 1})
for _k in ('mode', 'opt'): EDITS[_k] = lambda s, k=_k: dict(s, **{k: 1 - s[k]})
DYN_EDITS = [e for e in EDITS if e not in ('app', 'glob', 'dbg', 'garg', 'mode', 'opt')]
EDITS['bad'] = lambda s: dict(s, bad=1 - s['bad'], c=s['c'] + 1)
EDITS['badq'] = lambda s: dict(s, badq=1 - s['badq'], np=s['np'] + 1)
DYN_EDITS += ['bad', 'badq']


class Project:
    def __init__(self, root, env, log):
        self.root, self.env, self.log = root, env, log

    def write(self, old, new, t, touch=False):
        fo = files(old) if old else {}
        for n, c in files(new).items():
            if touch or fo.get(n) != c:
                p = os.path.join(self.root, n); os.makedirs(os.path.dirname(p), exist_ok=True)
                open(p, 'wb').write(c.encode('latin1')); os.utime(p, (t, t))

    def settle(self, t):
        "the files the run wrote get the logical time of the run"
        for d, _, fs in list(os.walk(os.path.join(self.root, 'build'))) + [(self.root, None, [x for x in ('app', 'other') if os.path.exists(os.path.join(self.root, x))])]:
            for f in fs:
                p = os.path.join(d, f)
                if os.path.getmtime(p) > T0 + 100000000: os.utime(p, (t, t))

    def run(self, s, t, crash=None, script='app'):
        env = dict(self.env, SPVM_BUILD_DIR=os.path.join(self.root, 'build'), SPVM_CC_QUIET='0', SHIM_ROOT=self.root)
        if crash:
            cnt = os.path.join(self.root, 'count')
            if os.path.exists(cnt): os.remove(cnt)
            env.update(SHIM='%s %s' % crash, SHIM_COUNT=cnt)
        if s.get('exe'): cmd = ['perl', os.path.join(self.env['SPVMCC']), '-B', 'build', '-I', 'lib/SPVM', '-o', './' + script, '--config-argv', str(s['garg']), '--optimize', '-O1' if s['opt'] else '-O0'] + (['-m', 'dbg'] if s['mode'] else []) + (['--no-config'] if script != 'app' else []) + [script + '.spvm']
        else: cmd = ['perl', '-I', os.path.join(self.root, 'lib'), '-e', PROG]
        try: p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, cwd=self.root, timeout=120)
        except subprocess.TimeoutExpired: return None, '', 'no end within 120 s'
        self.settle(t)
        out, rc = p.stdout, p.returncode
        if s.get('exe') and rc == 0:
            q = subprocess.run([os.path.join(self.root, script)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, timeout=60)
            out, rc = q.stdout, q.returncode or (300 if q.stderr else 0)
            if rc: return rc, out.decode('utf8', 'replace'), 'the executable file: ' + q.stderr.decode('utf8', 'replace')
        return rc, out.decode('utf8', 'replace'), p.stderr.decode('utf8', 'replace')

    def copy(self, to):
        subprocess.run(['cp', '-a', self.root, to], check=True)
        return Project(to, self.env, self.log)


def generated(root):
    "the files below the build directory that can be deleted"
    out = []
    b = os.path.join(root, 'build')
    for d, _, fs in os.walk(b):
        out += [os.path.relpath(os.path.join(d, f), b) for f in fs]
    return sorted(out)


SHIM = '''#!/bin/sh
# counts the calls of the compiler and fails, or stops the build, at the given one; keeps the objects of the core
mode=
if [ -n "$SHIM" ]; then
  at=${SHIM##* }
  case $at in
    /*) case " $* " in *"$at "*) mode=${SHIM%% *};; esac;;
    *) echo x >> "$SHIM_COUNT"; n=$(wc -l < "$SHIM_COUNT"); [ "$n" = "$at" ] && mode=${SHIM%% *};;
  esac
fi
case $mode in
  fail) exit 1;;
  before) kill -9 $PPID; exit 1;;
esac
out=
case "$*" in
  *"-c -o "*SPVM/Builder/src/*.c)
    out=$3
    case "$1" in -c) ;; *) out=;; esac;;
esac
if [ -n "$out" ]; then
  key=$(printf '%s' "$*" | sed "s#$SHIM_ROOT##g" | md5sum); key=${key%% *}
  if [ ! -f "$SHIM_CACHE/$key" ]; then @REAL@ "$@" || exit 1; cp "$out" "$SHIM_CACHE/$key.$$"; mv "$SHIM_CACHE/$key.$$" "$SHIM_CACHE/$key"
  else cp "$SHIM_CACHE/$key" "$out"; fi
else @REAL@ "$@" || exit 1; fi
[ "$mode" = after ] && kill -9 $PPID
exit 0
'''


def main():
    quick = TIER == 'quick'
    ck = Check('M21'); sc = ck.make_scratch()
    env = build(sc, '-g -O1')
    h = None
    for d, _, fs in os.walk(os.path.join(sc.src, 'blib')):
        for f in fs:
            os.chmod(os.path.join(d, f), 0o644); os.utime(os.path.join(d, f), (T0 - 1000, T0 - 1000))
    import shutil as sh
    shim = sc.path('shim', 'x')[:-2]; os.makedirs(shim, exist_ok=True)
    for c in ('cc', 'gcc', 'x86_64-linux-gnu-gcc'):
        real = sh.which(c)
        if real:
            open(os.path.join(shim, c), 'w').write(SHIM.replace('@REAL@', real)); os.chmod(os.path.join(shim, c), 0o755)
    env = dict(env, PATH=shim + ':' + env.get('PATH', os.environ['PATH'])); env.pop('SPVM_BUILD_DIR', None)
    env['SPVMCC'] = os.path.join(sc.src, 'script/spvmcc'); env['SHIM_CACHE'] = sc.path('cache', 'x')[:-2]; os.makedirs(env['SHIM_CACHE'], exist_ok=True)
    work = sc.path('work', 'x')[:-2]; os.makedirs(work, exist_ok=True)
    seq = itertools.count()
    distinct = set(); stats = dict(runs=0, compiled=0); lock = threading.Lock()

    def judge(hist, s, r, idle):
        rc, out, err = r
        name = ' '.join(hist)
        w = want(s)
        with lock:
            stats['runs'] += 1; stats['compiled'] += err.count('[Compile'); distinct.add((w, err.count('[Compile'), err.count('[Generate')))
        cmds = '\n'.join(l for l in err.split('\n') if l.startswith('['))
        if rc is None or (rc is not None and rc < 0): ck.fail('crash', 'history: %s\nthe run ended with %s\n%s' % (name, rc, err[-1500:]))
        elif w is None:
            if rc == 0: ck.fail('ran:' + hist[-1], 'history: %s\nthe sources do not compile, but the program ran and printed\n%s\n%s' % (name, out, cmds))
        elif rc: ck.fail('failed:' + hist[-1], 'history: %s\nthe program does not run any more\n%s' % (name, err[-2500:]))
        elif out != w + '\n': ck.fail('stale:' + hist[-1], 'history: %s\nprinted  %s\nexpected %s\n%s' % (name, out.strip(), w, cmds))
        elif idle and '[' in cmds: ck.fail('rebuilt:' + hist[-1], 'history: %s\nnothing changed since the previous run, but the run compiled or linked\n%s' % (name, cmds))

    def step(pr, s, hist, op):
        "one operation and one run on a copy of the project; returns (project, state, history, whether it is settled)"
        t = T0 + 100 * (len(hist) + 1)
        q = pr.copy(os.path.join(work, 'h%d' % next(seq)))
        kind, arg = op
        s2, idle, crash = s, False, None
        if kind == 'edit': s2 = EDITS[arg](s); q.write(s, s2, t)
        elif kind == 'touch': q.write(s, s, t, True)
        elif kind == 'del':
            p = os.path.join(q.root, 'build', arg) if arg != 'exe' else os.path.join(q.root, 'app')
            if os.path.isdir(p): sh.rmtree(p)
            elif os.path.exists(p): os.remove(p)
        elif kind == 'torn':
            p = os.path.join(q.root, 'build', arg)
            if os.path.exists(p):
                c = open(p, 'rb').read(); open(p, 'wb').write(c[:len(c) // 2]); os.utime(p, (t, t))
        elif kind == 'crash': s2 = EDITS[arg[0]](s); q.write(s, s2, t); crash = arg[1:]
        elif kind == 'none': idle = True
        hist2 = hist + ['%s:%s' % (kind, arg if isinstance(arg, str) else '/'.join(map(str, arg)))]
        if kind == 'other':
            s3 = dict(s, garg=s['garg']); r = q.run(s3, t + 40, None, 'other')
            w = want(s)
            if w is not None and (r[0] or r[1] != w.split('|')[3] + '\n'): ck.fail('other program', 'history: %s\nthe second program of the same build directory printed %s (%s)\n%s' % (' '.join(hist2), r[1], r[0], r[2][-1500:]))
        r = q.run(s2, t + 50, crash)
        if crash:
            with lock: stats['runs'] += 1
            # a build that was stopped or failed must not have run old code
            if r[0] == 0 and want(s2) is not None and r[1] != want(s2) + '\n': ck.fail('crashed build:' + hist2[-1], 'history: %s\nprinted %s\nexpected %s' % (' '.join(hist2), r[1], want(s2)))
        else: judge(hist2, s2, r, idle and hist and not hist[-1].startswith('crash') and want(s) is not None)
        return q, s2, hist2

    import concurrent.futures as cf
    ex = cf.ThreadPoolExecutor(NCPU + 4)

    def explore(name, start, edits, crashes, keep, after_crash):
        root = os.path.join(work, name); os.makedirs(root)
        first = Project(root, env, None)
        first.write(None, start, T0)
        r = first.run(start, T0 + 50)
        judge([name], start, r, False)
        gen = [g for g in generated(root) if keep(g)]
        ck.sample('generated files: ' + ' '.join(gen))
        if not any(g.endswith('.o') for g in gen): raise BuildFailed('nothing was built: %s\n%s' % (r[1], r[2][-3000:]))
        ops = [('none', '-')] + [('edit', e) for e in edits] + [('touch', '-')] + [('del', g) for g in gen] + [('del', 'work'), ('del', 'work/src')] + [('torn', g) for g in gen if g.endswith('.c')]
        if start.get('exe'): ops += [('other', '-'), ('del', 'exe')]
        lvl1 = list(ex.map(lambda op: step(first, start, [name], op), ops + crashes))
        if quick: return [(n, o) for n, f in zip(lvl1, ops) for o in ops if not (start.get('exe') and f[0] in ('del', 'torn', 'touch') and o[0] in ('del', 'torn', 'touch'))] + [(n, o) for n in lvl1[len(ops):] for o in after_crash], len(ops) + len(crashes)
        return [(n, o) for n in lvl1 for o in ops + (crashes if not n[2][-1].startswith('crash') else [])], len(ops) + len(crashes)

    jobs, nops = explore('dynamic', START, DYN_EDITS, [('crash', (e, m, str(n))) for e in ('c', 'h', 'cfg', 'rh', 'k', 'en') for n in (1, 2, 3, 4) for m in ('fail', 'before', 'after')], lambda g: True, [('none', '-'), ('edit', 'a')])
    xed = ['c', 'h', 'common', 'b', 'extra', 'rh', 'rcfg', 'en', 'app', 'glob', 'dbg', 'mode', 'garg', 'opt', 'bad'] if quick else list(EDITS)
    xjobs, xops = explore('exe', EXE, xed, [('crash', (e, m, at)) for e in ('c', 'glob', 'mode', 'garg', 'opt', 'extra', 'en', 'rcfg') for at in ('/NC.o', '/NP.precompile.o', '/r.o', '/app', '/spvm_api.o') for m in (('fail', 'after') if quick else ('fail', 'before', 'after'))],
                          lambda g: 'spvm_' not in g and 'utf8' not in g or g.endswith('spvm_api.o'), [('none', '-')])

    def two(j):
        n, o = j
        q, s, hh = step(n[0], n[1], n[2], o)
        if not quick and not s.get('exe'):
            for o3 in [('none', '-'), ('edit', 'h'), ('edit', 'k'), ('edit', 'b'), ('edit', 'fld'), ('edit', 'common'), ('edit', 'bad')]:
                r = step(q, s, hh, o3); sh.rmtree(r[0].root)
        sh.rmtree(q.root)
    list(ex.map(two, jobs + xjobs))
    ck.count(states=stats['runs'] + 0, transitions=stats['runs'], traces=stats['runs'])
    ck.sample('%d runs, %d compilations' % (stats['runs'], stats['compiled']))
    ck.assumptions += ['The modification time of an edited file is later, in whole seconds, than that of everything built before: the cache compares modification times.', 'A compiler that is stopped while it writes its output is not modelled; a build is stopped before and after every call of the compiler.']
    ck.finish(exhaustive=True, bound='histories of %d operations out of %d, after the first build' % (2 if quick else 3, nops + xops), distinct_outcomes=len(distinct))
