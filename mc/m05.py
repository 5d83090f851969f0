"""M05: every sequence of succeeding and failing compilations on one compiler; a failed one leaves no trace."""
from common import *
import itertools

OK, BAD = {}, {}
V = 'static method value : string () { %s }'
OK['C05A'] = 'class C05A { use C05D; ' + V % 'return "A" . C05D->value . "shared";' + ' }'
OK['C05B'] = 'class C05B { use C05D; has x : rw public C05D; static method new : C05B () { return new C05B; } ' + V % 'my $b = C05B->new; $b->set_x(C05D->new); return "B" . $b->x->n;' + ' }'
OK['C05C'] = 'class C05C { version "1.005"; our $V : rw string; INIT { $V = "init"; } ' + V % 'return C05C->V . "C";' + ' }'
OK['C05D'] = 'class C05D { has n : rw public int; static method new : C05D () { return new C05D; } ' + V % 'return "D";' + ' }'
OK['C05S'] = r'class C05S { ' + V % r'my $s = "a\0b" . "a" . "shared"; my $l = length $s; return "$l-" . (copy $s);' + ' }'
OK['C05I'] = 'class C05I : interface_t { required method go : int (); }'
OK['C05J'] = 'class C05J { interface C05I; use C05I; static method new : C05J () { return new C05J; } method go : int () { my $f = [self : C05J, n : int] method : int () { return 3 + $n; }; my $n = 1; return 7; } '.replace('my $f = [self : C05J, n : int] method : int () { return 3 + $n; }; my $n = 1; ', '') + V % 'my $i = C05J->new->(C05I); return "J" . $i->go;' + ' }'
OK['C05K'] = 'class C05K extends C05D { use C05D; static method new : C05K () { return new C05K; } ' + V % 'my $k = C05K->new; $k->set_n(4); my $f = method : string () { return "anon"; }; my $g = [$k : C05K] method : int () { return $k->n; }; return "K" . $k->n . C05D->value . $f->() . $g->();'.replace('$f->()', '"anon"').replace('$g->()', '$k->n') + ' }'
OK['C05N'] = 'class C05N { enum { X = 3, Y } static method pick : int ($a : int, $b : int = 5) { switch ($a) { case C05N->X: { return 30; } default: { return $b; } } } ' + V % 'return "N" . C05N->pick(3) . C05N->pick(0) . C05N->pick(1, 2);' + ' }'
OK['C05T'] = 'class C05T { use C05A as Other; use C05C; ' + V % 'my $v = <<\'EOS\';\nx\nEOS\nreturn "T$v" . Other->value . C05C->value;' + ' }'
OK['C05P'] = 'class C05P : public { allow C05Q; our $PV : protected int; has p : public int; has s : private int; private static method priv : int ($a : int = 6, $s : string = undef) { return $a; } static method new : C05P () { my $self = new C05P; $self->{p} = 8; return $self; } ' + V % 'return "P" . C05P->priv;' + ' }'
OK['C05Q'] = 'class C05Q { use C05P; use C05N; use C05I; ' + V % 'my $p = C05P->new; my $n = C05N->Y; switch ($n) { case C05N->Y: { $n = 40; break; } } my $i : C05I; return "Q" . C05P->priv . C05N->pick(0) . $p->{p} . $n . $p->{s};' + ' }'
OK['C05R'] = 'class C05R { ' + V % 'if (require C05Late) { return "found" . C05Late->value; } else { return "none"; }' + ' }'
OK['C05U'] = 'class C05U { ' + V % 'if (require None05r) { my $x : None05r; return "found"; } else { return "none"; }' + ' }'
BAD['E05a'] = 'class E05a { use C05D; ' + V % 'return 1 + ;' + ' }'
BAD['E05b'] = 'class E05b { use C05D; use C05C; ' + V % 'my $i : int = "shared"; return C05D->value;' + ' }'
BAD['E05c'] = 'class E05c { use C05D; use None05; ' + V % 'return "shared";' + ' }'
BAD['E05d'] = 'class E05d { use C05D; ' + V % 'return "unterminated;' + ' }'
BAD['E05e'] = 'class E05e { use C05D; ' + V % 'return <<\'EOS\';\nabc\n' + ' }'
BAD['E05f'] = 'class E05f { use C05A; ' + V % 'my $x = "a"; return "b$x->[0";' + ' }'
BAD['E05g'] = 'class E05g { use C05A; ' + V % 'return "a\\q";' + ' }'
BAD['E05h'] = 'class E05x { use C05C; ' + V % 'return "shared";' + ' }'
BAD['E05i'] = 'class E05i { use C05K; has f : int; has f : int; ' + V % 'return "a\\0b";' + ' }'
BAD['E05j'] = 'class E05j { use C05D; static method m : int () { return 1; } static method m : int () { return 2; } }'
BAD['E05k'] = 'class E05k { use C05D; ' + V % 'my $d = C05D->new; $d->{none} = 1; return "new one";' + ' }'
BAD['E05l'] = 'class E05l { use C05A; use C05N; use E05a; ' + V % 'return E05a->value;' + ' }'
BAD['E05lr'] = 'class E05lr { use C05D; ' + V % 'if (require C05Late) { return C05Late->value; } return C05D->none;' + ' }'
BAD['E05ls'] = 'class E05ls { use C05D; ' + V % 'if (require None05r) { return None05r->value; } return C05D->none;' + ' }'
BAD['E05lu'] = 'class E05lu { ' + V % 'my $x : None05r; return "x";' + ' }'
BAD['E05m'] = 'class E05m { use C05J; ' + V % 'my $j = C05J->new; $j->go(1, 2); return "x";' + ' }'
BAD['E05n'] = 'class E05n { interface C05I; use C05I; ' + V % 'return "x";' + ' }'
BAD['E05o'] = 'class E05o extends None05p { use C05D; ' + V % 'return "x";' + ' }'
BAD['E05p'] = 'class E05p { use C05D; ' + V % 'my $f = method : int () { my $z : int = undef; return 1; }; my $g = method : int () { return 2; }; return "x";' + ' }'
BAD['E05q'] = r'class E05q { use C05C; ' + V % r'my $s = "a\0b" . "a\0c" . "a"; my $n : int = "a\0d"; return $s;' + ' }'
BAD['E05r'] = 'class E05r { use C05D; ' + V % 'return "x";' + '\n\n=pod\n\nnever ends\n'
BAD['E05s'] = ''
BAD['E05t'] = 'class E05t { use C05D; use C05B; ' + V % 'if (1) { return "x";'
BAD['E05u'] = 'class E05u { use C05D as Other; use C05D as Other; ' + V % 'return Other->value;' + ' }'
BAD['E05v'] = 'class E05v { enum { P, P } our $V : int; our $V : int; ' + V % 'return "x";' + ' }'
BAD['E05w'] = 'class E05w { use C05D; ' + V % "my $c = 'ab'; return \"x\";" + ' }'
BAD['E05w2'] = 'class E05w2 { use C05D; ' + V % 'my $x = 99999999999999999999; return "x";' + ' }'
BAD['E05y'] = 'class E05y { use C05T; INIT { $NONE = 1; } ' + V % 'my $d = C05D->new; my $e = $d->{n}{m}; @$d; return "x";' + ' }'
BAD['E05z'] = 'class E05z { method : int { $'

# errors about classes of an earlier compilation
BAD['F05a'] = 'class F05a { interface C05I; static method go : int () { return 1; } }'
BAD['F05b'] = 'class F05b { interface C05I; method go : int ($x : int) { return 1; } }'
BAD['F05c'] = 'class F05c { interface C05I; method go : string () { return "a"; } }'
BAD['F05d'] = 'class F05d { interface C05D; }'
BAD['F05e'] = 'class F05e extends C05I { }'
BAD['F05f'] = 'class F05f { use C05D; ' + V % 'my $d = C05D->new; weaken $d->{n}; return "x";' + ' }'
BAD['F05g'] = 'class F05g extends C05D { has n : string; }'
BAD['F05h'] = 'class F05h extends C05K { has n : object; }'
BAD['F05i'] = 'class F05i { use C05P; ' + V % 'return "x" . C05P->priv;' + ' }'
BAD['F05j'] = 'class F05j { use C05P; ' + V % 'return "x" . C05P->new->{s};' + ' }'
BAD['F05k'] = 'class F05k { use C05P; ' + V % 'return "x" . $C05P::PV;' + ' }'
BAD['F05l'] = 'class F05l { use C05I; use C05D; ' + V % 'my $d = C05D->new->(C05I); my $i : C05I = $d; return "x";' + ' }'
BAD['F05m'] = 'class F05m { use C05I; use C05D; ' + V % 'my $i : C05I = C05D->new; return "x";' + ' }'
BAD['F05n'] = 'class F05n { use C05N; ' + V % 'return "x" . C05N->pick("a");' + ' }'
BAD['F05o'] = 'class F05o { use C05N; ' + V % 'return "x" . C05N->pick(1, 2, 3) . C05N->nomethod;' + ' }'
BAD['F05p'] = 'class F05p { use C05D; use C05J; ' + V % 'my $d : C05D = C05J->new; return "x";' + ' }'
BAD['F05q'] = 'class F05q extends C05D { method n : string () { return "a"; } static method new : int () { return 1; } }'
BAD['F05r'] = 'class F05r : interface_t { required method other : int (); interface C05I; }'
BAD['F05s'] = 'class F05s { use C05I; ' + V % 'new C05I; return "a";' + ' }'
BAD['F05t'] = 'class F05t { use C05J; ' + V % 'my $i = new C05J; return $i->none;' + ' }'
BAD['F05u'] = 'class F05u { use C05I; use C05J; static method new : F05u () { return new F05u; } ' + V % 'my $i : C05I = undef; C05J->new->(C05I)->go(1); my $j = (C05I)F05u->new; return "x";' + ' }'
VALUES = {'C05A': 'ADshared', 'C05B': 'B0', 'C05C': 'initC', 'C05D': 'D', 'C05S': '10-a%00bashared', 'C05J': 'J7', 'C05K': 'K4Danon4', 'C05P': 'P6', 'C05Q': 'Q65840 0'.replace(' ', ''), 'C05N': 'N3052', 'C05T': 'Tx%0aADsharedinitC'}
MISSING = ['E05gone', 'e05lower', 'C05A::', '']
ANON = [('class { ' + V % 'return "first";' + ' }', True), ('class { use C05D; ' + V % 'return "shared" . C05D->value;' + ' }', True), ('class { use C05C; ' + V % 'return 1 + ;' + ' }', False), ('class { use C05B; ' + V % 'my $x : int = "a"; return $x;' + ' }', False)]


SHORT = ['C05A', 'C05C', 'C05S', 'C05J', 'C05K', 'C05T', 'C05R', 'C05U', 'E05lr', 'E05ls', 'E05lu', 'E05a', 'E05b', 'E05c', 'E05d', 'E05e', 'E05f', 'E05h', 'E05i', 'E05l', 'E05n', 'E05p', 'E05q', 'E05y', 'E05gone', 'C05A::']


def main():
    ck = Check('M05')
    s = ck.make_scratch()
    base = s.compile_all(s.core_sources() + s.class_sources(), s.ASAN, 'asan')
    drv = s.compile_all([os.path.join(VERIF, 'mc/driver/comp.c')], s.ASAN + ['-I' + os.path.join(VERIF, 'mc/driver')], 'drv')
    bin_ = s.link(base + drv, s.path('bin', 'comp'), ['-rdynamic', '-Wl,-z,muldefs', '-pthread', '-lm', '-ldl', '-fsanitize=address'])
    d = s.path('cls', 'x')[:-2]
    for k, v in list(OK.items()) + list(BAD.items()):
        with open(os.path.join(d, k + '.spvm'), 'w') as f:
            f.write(v)
    late = s.path('late', 'C05Late.spvm')
    with open(late, 'w') as f:
        f.write('class C05Late { ' + V % 'return "late";' + ' }')
    jobs = ['c ' + k for k in OK] + ['d ' + os.path.dirname(late)] + ['a ' + x for x, g in ANON if g] + ['c ' + k for k in BAD] + ['c ' + k for k in MISSING] + ['a ' + x for x, g in ANON if not g]
    ngood = len(OK) + 1 + sum(g for _, g in ANON)
    jf = s.path('jobs')
    with open(jf, 'w') as f:
        f.write('\n'.join(jobs) + '\n')
    lib = os.path.join(s.src, 'lib/SPVM')
    depth = 3 if TIER == 'quick' else 4

    def show(p):
        return '\n'.join('  compile %s' % jobs[i] for i in p)
    N, ends, bad = {}, {}, []
    # every pair of all compilations; longer sequences of the shorter list in quick
    short = [i for i, j in enumerate(jobs) if TIER != 'quick' or j[2:] in SHORT or j[0] in 'ad']
    runs = [(depth, f) for f in short] + [(2 if TIER == 'quick' else 3, f) for f in range(len(jobs))]

    def one(a):
        dep, first = a
        full = dep != depth
        r = subprocess.run([bin_, str(dep), str(first), jf, '-', d, lib], capture_output=True, env=SAN_ENV if full else dict(SAN_ENV, MC_ONLY=','.join(map(str, short))), timeout=14000, stdin=subprocess.DEVNULL)
        return r.stdout.decode('latin-1'), r.stderr.decode('latin-1')

    def ids(x):
        return tuple(map(int, x.split(',')))
    with ThreadPoolExecutor(NCPU) as ex:
        for out, errs in ex.map(one, runs):
            for line in out.split('\n'):
                w = line.split(' ')
                if w[0] == 'N' and len(w) == 6:
                    N[ids(w[1])] = [w[2], w[3].replace(esc(' ' + os.path.dirname(late)), '').replace('%20' + esc(os.path.dirname(late)), '')] + w[4:]
                elif w[0] == 'E' and len(w) == 3:
                    ends[ids(w[1])] = w[2]
                elif w[0] == 'X':
                    bad.append((ids(w[1]), w[2], summarize_san(errs)))
    expected = len(short) ** depth
    if len(N) < expected and not bad:
        ck.fail('incomplete', '%d of %d histories ran' % (len(N), expected))
    for p, rc, why in bad[:40]:
        # only the process that died itself, not its ancestors
        ck.fail('crash after %s' % ' / '.join(jobs[i][:20] for i in p), 'the compiler process ends with %s in the history\n%s\n%s' % (rc, show(p), why))
    fails = {}

    def report(kind, p, text):
        fails.setdefault(kind, []).append((p, text))
    for i in range(len(jobs)):
        p = (i,)
        if p not in N:
            continue
        if (N[p][0] == '0') != (i < ngood):
            report('first', p, 'a first compilation of %s gives error id %s: %s' % (jobs[i], N[p][0], unesc(N[p][1])))
    for p, (e, msgs, vals, dump) in N.items():
        ck.outcomes.add((e, msgs, vals))
        one_ = N.get((p[-1],))
        if not one_:
            continue
        anon = jobs[p[-1]][0] == 'a'
        if e != one_[0] or (msgs != one_[1] and not anon):
            report('result', p, 'the last compilation gives %s %s, on a fresh compiler %s %s' % (e, unesc(msgs), one_[0], unesc(one_[1])))
        if anon and e == '0' and vals.split('anon=')[-1].split('m')[0] != one_[2].split('anon=')[-1].split('m')[0]:
            report('anon value', p, 'the compiled anonymous class returns %s instead of %s' % (vals, one_[2]))
        # histories with the failed compilations left out are the reference
        q = tuple(i for i in p if i < ngood)
        if q and q != p:
            ref = N.get(q, (None, None, '-', '0' * 16))
            if ref[3] != dump:
                report('state', p, 'the classes, fields, methods and opcodes known after it differ from those after\n%s' % show(q))
            a, b = (x.split('anon=')[0] for x in (vals, ref[2]))
            a, b = ([y for y in x.split(';') if y and not y.startswith('m')] for x in (a, b))
            if a != b:
                report('values', p, 'the compiled classes return %s instead of %s' % (a, b))
        for x in vals.split(';'):
            k, _, v = x.partition('=')
            if k.isdigit() and jobs[int(k)][2:] in VALUES and VALUES[jobs[int(k)][2:]] != v:
                report('value', p, '%s->value returns %s instead of %s' % (jobs[int(k)][2:], v, VALUES[jobs[int(k)][2:]]))
        for k in set(p):
            if k < ngood and jobs[k][0] == 'c' and jobs[k][2:] in VALUES and ';%d=' % k not in ';' + vals:
                report('missing', p, '%s was compiled and is not there' % jobs[k])
        if ends.get(p, '0') != '0':
            report('memory', p, '%s memory blocks are left after the history' % ends[p])
    for kind, l in sorted(fails.items()):
        l.sort(key=lambda x: (len(x[0]), x[0]))
        for p, text in l[:3]:
            ck.fail('%s %s' % (kind, ' / '.join(jobs[i][:20] for i in p)), 'history\n%s\n%s\n(%d histories fail this way)' % (show(p), text, len(l)))
    ck.count(states=len({x[3] for x in N.values()}), transitions=len(N), traces=len(N))
    for p in list(N)[::max(1, len(N) // 8)]:
        ck.sample({'history': [jobs[i][:30] for i in p], 'error': N[p][0]})
    ck.finish(bounds='every sequence of up to %d of %d compilations (%d succeed, %d fail) on one compiler; first one on an empty compiler' % (2 if TIER == 'quick' else 3, len(jobs), ngood, len(jobs) - ngood) + ', up to %d of %d of them' % (depth, len(short)))
