"""M07: the interpreter and the precompiled C code do the same: every operator on every pair of operand types, in every context, in two environments."""
import re
from common import *
import m22

VARS = m22.VARS
ENVS = [
    {'i': '7', 'l': '3L', 'b': '(byte)5', 'h': '(short)2', 'g': '1.5f', 'd': '2.5', 's': '"abc"', 'u': '(mutable string)copy "12"', 'o': '&mk(4)', 'q': '&mkb()', 'v': '&mk(6)', 'x': '(object)"12"', 'n': 'Int->new(6)',
     'ai': '[1, 2, 3]', 'ab': 'new byte[2]', 'as': '["x", "y"]', 'ao': '[&mk(8), undef]', 'ax': '[(object)Int->new(1), "s", undef]', 'aa': '[[1], [2, 3]]', 'am': 'new T_2i[2]', 'p': None, 'r': '\\$ri', 'rp': '\\$rq'},
    {'i': '-7', 'l': '0L', 'b': '(byte)0', 'h': '(short)0', 'g': '-0.0f', 'd': '0.0', 's': '""', 'u': 'undef', 'o': 'undef', 'q': 'undef', 'v': 'undef', 'x': '[(object)undef]', 'n': 'undef',
     'ai': 'new int[0]', 'ab': 'undef', 'as': '[(string)undef]', 'ao': 'undef', 'ax': 'undef', 'aa': '[(int[])undef]', 'am': 'undef', 'p': None, 'r': '\\$ri', 'rp': '\\$rq'},
]
HEADER = '''
has f : int; has k : TA; our $C : int; our $D : string;
%PRE%static method go : int ($n : int, $o : int = 1) { return 1; }
%PRE%method im : int () { return 2; }
static method mk : TA ($n : int) { my $t = TA->new; $t->{a} = $n; $t->{t} = TA->new; $t->{t}->{a} = $n + 1; return $t; }
static method mkb : TB () { my $t = TB->new; $t->{a} = 11; $t->{b} = Int->new(12); return $t; }
static method ob : void ($x : object, $deep : int = 2) {
  unless ($x) { MCLog->s("u"); return; }
  my $t = type_name $x;
  MCLog->s($t);
  if ($x isa string) { MCLog->s((string)$x); MCLog->i(is_read_only (string)$x); }
  elsif ($x isa Int) { MCLog->i(((Int)$x)->value); }
  elsif ($deep <= 0) { }
  elsif ($x isa TB) { my $z = (TB)$x; MCLog->i($z->{a}); &ob($z->{t}, $deep - 1); &ob($z->{b}, $deep - 1); }
  elsif ($x isa TA) { my $z = (TA)$x; MCLog->i($z->{a}); &ob($z->{t}, $deep - 1); MCLog->i($z->{t} && (isweak $z->{t}));}
  elsif ($x isa int[]) { for my $e (@(int[])$x) { MCLog->i($e); } }
  elsif ($x isa byte[]) { for my $e (@(byte[])$x) { MCLog->i($e); } }
  elsif ($x isa T_2i[]) { my $z = (T_2i[])$x; for (my $i = 0; $i < @$z; $i++) { MCLog->i($z->[$i]{x}); MCLog->i($z->[$i]{y}); } }
  elsif ($x isa object[]) { for my $e (@(object[])$x) { &ob($e, $deep - 1); } }
}
static method obs : void ($ex : string, $self : MCT, %ARGS%, $ri : int, $rq : T_2i) {
  if ($ex) { MCLog->s($ex); }
  MCLog->i($self->{f}); &ob($self->{k}); MCLog->i($C); MCLog->s($D); MCLog->i($TA::G);
  %SHOW%
  MCLog->i($ri); MCLog->i($rq->{x}); MCLog->i($rq->{y});
}
'''
SH = {'int': 'MCLog->i($%s);', 'short': 'MCLog->i($%s);', 'byte': 'MCLog->i($%s);', 'long': 'MCLog->l($%s);', 'float': 'MCLog->f($%s);', 'double': 'MCLog->d($%s);', 'T_2i': 'MCLog->i($%s->{x}); MCLog->i($%s->{y});'}
OBSV = [v for v in VARS if v not in ('r', 'rp')]
SHOW = ' '.join(SH.get(VARS[v], '&ob($%s);').replace('%s', v) for v in OBSV)
HEADER = HEADER.replace('%ARGS%', ', '.join('$%s : %s' % (v, VARS[v]) for v in OBSV)).replace('%SHOW%', SHOW)
OBS = '&obs($@, $self, %s, $ri, $rq); $@ = undef;' % ', '.join('$' + v for v in OBSV)


def init(v, e): return ('$p->{x} = 3; $p->{y} = -4;' if e == 0 else '$p->{x} = 0; $p->{y} = 0;') if v == 'p' else '$%s = %s;' % (v, ENVS[e][v])
STATE = '$self->{f} = 9; $self->{k} = undef; $C = 10; $D = "D"; $TA::G = 13; $ri = 21; $rq->{x} = 22; $rq->{y} = 23;'
def setup(e): return 'my $self = new MCT; my $ri : int; my $rq : T_2i; ' + ' '.join('my $%s : %s;' % kv for kv in VARS.items()) + ' ' + ' '.join(init(v, e) for v in VARS) + ' ' + STATE
def reset(t, e):
    vs = [v for v in re.findall(r'\$(\w+)', t) if v in VARS]
    if any(v in ('o', 'q', 'v', 'ao') for v in vs): vs += ['o', 'q', 'v', 'ao']
    return ' '.join(init(v, e) for v in dict.fromkeys(vs)) + (' ' + STATE if re.search(r'\$(self|C|D|TA|\$|r|rp|z)\b|im|go', t) else '')


BAD = re.compile(r'\b(dump|print|say|warn|return|DESTROY)\b')
def candidates(quick):
    m22.stmt = lambda t, inst=False: t
    ts = m22.typed() + m22.pairs(quick) + m22.chains(quick)
    skip = ('while (', 'for (my $k', '{ eval', 'my $z : string = ', '$x = (') if quick else ()
    return [t for t in dict.fromkeys(ts) if not BAD.search(t) and not re.search(r'\$self\s*=[^=]', t) and not t.startswith(skip)]


def filter_bin(sc):
    objs = sc.compile_all(sc.core_sources() + sc.class_sources(), ['-O1', '-w'], 'plain')
    drv = sc.compile_all([os.path.join(VERIF, 'mc/driver/anon.c')], ['-O1', '-w', '-I' + os.path.join(VERIF, 'mc/driver')], 'drvp')
    return sc.link(objs + drv, sc.path('bin', 'anonp'), ['-rdynamic', '-Wl,-z,muldefs', '-pthread', '-lm', '-ldl'])


def accepted(sc, bin_, texts):
    d = sc.path('inc', 'x')[:-2]; os.makedirs(d, exist_ok=True)
    for n, t in m22.FILES.items(): open(os.path.join(d, n), 'w').write(t + '\n')
    n = len(texts) // 1500 + 1
    def one(k):
        part = texts[k::n]; ok = []
        p = sc.path('acc_%d' % k); start = 0
        while start < len(part):
            with open(p, 'wb') as o:
                for t in part[start:]: o.write((m22.PRE + 'method t : void (%s) { eval { %s } } }' % (m22.ARGS, t)).encode('latin-1').replace(b'\n', b'\x01') + b'\n')
            r = subprocess.run([bin_, p, d, sc.src + '/lib/SPVM'], capture_output=True, text=True, errors='replace', env=SAN_ENV)
            last = 0
            for l in r.stdout.split('\n'):
                if l.startswith('B '): last = int(l[2:])
                if l.startswith('R ') and l.split(' ')[2] == '0': ok.append(part[start + int(l.split(' ')[1])])
            if r.stdout.rstrip().endswith('END'): break
            start += last + 1   # a crash of the compiler is the business of M22
        return ok
    with ThreadPoolExecutor(NCPU) as ex: return [t for ok in ex.map(one, range(n)) for t in ok]


PER = 10
def run_all(ck, sc, bin_, texts, cc, chunk=60):
    jobs = [(e, c) for e in range(len(ENVS)) for c in range(0, len(texts), chunk * PER)]
    def one(job):
        e, c = job
        part = texts[c:c + chunk * PER]; ms = [part[i:i + PER] for i in range(0, len(part), PER)]
        res = []
        for mode in ('interpreted', 'precompile'):
            pre = 'precompile ' if mode == 'precompile' else ''
            src = ['class MCT {\nuse MCLog; use Fn; %s\n%s\n' % (m22.USES, HEADER.replace('%PRE%', pre))]
            for i, m in enumerate(ms):
                src.append('%sstatic method t%d : void () {\nMCT->b%d; MCT->b%d;\n}\n%sstatic method b%d : void () {\n%s\n%s\n$C = 0; $D = undef; $TA::G = 0; }\n' % (pre, i, i, i, pre, i, setup(e), '\n'.join('MCLog->s("#%d"); eval { %s }\n%s %s' % (k, t, OBS, reset(t, e)) for k, t in enumerate(m))))
            src.append('}\n')
            d = sc.path('p_%s_%d_%d' % (mode, e, c), 'x')[:-2]; os.makedirs(d, exist_ok=True)
            open(os.path.join(d, 'MCT.spvm'), 'w', encoding='latin-1').write(''.join(src))
            for n, t in m22.FILES.items(): open(os.path.join(d, n), 'w').write(t + '\n')
            r = run_class(bin_, [d, VERIF + '/mc/driver/lib', sc.src + '/lib/SPVM'], 'MCT', precompile=d if pre else None, cc='%s -w -fwrapv -fno-strict-aliasing -I%s' % (cc, sc.inc), only='MCT', lim=60, timeout=800)
            for x in r.res.values(): x.trace = x.trace.replace('/p_precompile_', '/p_interpreted_')
            res.append(r)
        return job, ms, res
    bad = 0
    with ThreadPoolExecutor(NCPU) as ex:
        for (e, c), ms, (a, b) in ex.map(one, jobs):
            if a.compile_error or b.compile_error:
                bad += 1
                if bad < 3: ck.fail('build:%d:%d' % (e, c), 'not built or does not start: %s' % (a.compile_error or b.compile_error)[:3000])
                continue
            for i, m in enumerate(ms):
                x, y = a.res.get(i), b.res.get(i)
                if x is None or y is None or x.crash or y.crash:
                    bad += 1
                    if bad < 9: ck.fail('crash:%d:%s' % (e, ' / '.join(m)[:300]), 'not run to the end: interpreted %s, precompiled %s' % ((x and x.crash) or (x is None and (a.end, a.stderr[-600:])), (y and y.crash) or (y is None and (b.end, b.stderr[-600:]))))
                    continue
                ck.outcomes.add(hash(x.trace)); ck.count(states=2 * len(m), traces=4)
                if (x.err, x.msg, x.trace, x.mem) == (y.err, y.msg, y.trace, y.mem) and x.err == 0: continue
                xs, ys = re.split(r'(?=s#\d+;)', x.trace), re.split(r'(?=s#\d+;)', y.trace)
                k = next((k for k in range(1, min(len(xs), len(ys))) if xs[k] != ys[k]), None)
                t = m[(k - 1) % len(m)] if k else ' / '.join(m)
                bad += 1
                if bad < 9: ck.fail('%d:%s' % (e, t[:300]), 'environment %d, statement %s\ninterpreted %s, precompiled %s\n%s' % (e, t, (x.err, unesc(x.msg)[:300], x.mem), (y.err, unesc(y.msg)[:300], y.mem), ('interpreted %s\nprecompiled %s' % (xs[k][:1500], ys[k][:1500])) if k else ''))
    return bad


def main():
    quick = TIER == 'quick'
    ck = Check('M07')
    sc = ck.make_scratch()
    t0 = time.time()
    A = os.environ.get('M07A')
    if A and os.path.exists(A): ts = json.load(open(A))
    else: ts = accepted(sc, filter_bin(sc), candidates(quick))
    if A: json.dump(ts, open(A, 'w'))
    if len(ts) < 2000: raise RuntimeError('only %d statements compile' % len(ts))
    t1 = time.time(); print(t1 - t0)
    bin_ = sc.mcrun()
    if os.environ.get("M07N"): ts = ts[::int(os.environ["M07N"])]
    run_all(ck, sc, bin_, ts, 'clang -O0')
    if not quick: run_all(ck, sc, bin_, ts, 'gcc -O2', 20)
    print('%d statements; filter %d s, runs %d s' % (len(ts), t1 - t0, time.time() - t1))
    ck.sample('%d statements; filter %d s, runs %d s' % (len(ts), t1 - t0, time.time() - t1))
    ck.finish(exhaustive=True, bound='%d accepted statements (operators on all operand types in all contexts), 2 environments, each run twice per mode' % len(ts))
