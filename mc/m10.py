"""Type rules: every pair of types in every assigning position, every cast, and every value of every type through every cast, isa query and array store."""
from common import *
from progs import Item, run_items

NUM = ['byte', 'short', 'int', 'long', 'float', 'double']
NOBJ = ['Byte', 'Short', 'Int', 'Long', 'Float', 'Double']
MUL = ['Complex_2d', 'Complex_2f']
# class -> parent
CLS = {'TA': None, 'TB': 'TA', 'TC': 'TB', 'TD': None, 'TE': 'TD', 'TF': None}
IFC = ['TI', 'TJ', 'TK']
# structural satisfaction: TI requires go, TJ requires go and stop, TK requires nobody()
SAT = {('TI', c) for c in ('TB', 'TC', 'TD', 'TE', 'TJ')} | {('TJ', c) for c in ('TC', 'TE')} | {(i, i) for i in IFC}
FILES = {
    'TI.spvm': 'class TI : interface_t { required method go : int (); }',
    'TJ.spvm': 'class TJ : interface_t { required method go : int (); required method stop : string ($x : int); }',
    'TK.spvm': 'class TK : interface_t { required method nobody : void (); }',
    'TA.spvm': 'class TA { has a : public int; static method new : TA () { return new TA; } }',
    'TB.spvm': 'class TB extends TA { has b : public long; static method new : TB () { return new TB; } method go : int () { return 1; } }',
    'TC.spvm': 'class TC extends TB { has c : public double; static method new : TC () { return new TC; } method stop : string ($x : int) { return "s"; } }',
    'TD.spvm': 'class TD { interface TI; has d : public string; static method new : TD () { return new TD; } method go : int () { return 2; } }',
    'TE.spvm': 'class TE extends TD { interface TJ; static method new : TE () { return new TE; } method go : int () { return 3; } method stop : string ($x : int) { return "t"; } }',
    'TF.spvm': 'class TF { has a : public int; has go : int; static method new : TF () { return new TF; } method stop : string ($x : int) { return "u"; } method other : int () { return 9; } }',
}
USES = 'use MCLog; use Byte; use Short; use Int; use Long; use Float; use Double; use Complex_2d; use Complex_2f; ' + ' '.join('use %s;' % c for c in list(CLS) + IFC)

TYPES = NUM + NOBJ + MUL + ['int*', 'double*', 'Complex_2d*', 'string', 'mutable string'] + list(CLS) + IFC + ['object'] + \
    [n + '[]' for n in NUM] + [m + '[]' for m in MUL] + ['string[]', 'Int[]', 'Long[]'] + [c + '[]' for c in CLS] + [i + '[]' for i in IFC] + ['object[]'] + \
    ['int[][]', 'byte[][]', 'Complex_2d[][]', 'string[][]', 'Int[][]', 'TA[][]', 'TB[][]', 'TC[][]', 'TD[][]', 'TF[][]', 'TI[][]', 'TJ[][]', 'TK[][]', 'int[][][]', 'TA[][][]', 'TB[][][]', 'TI[][][]']


def split(t):
    b = t.replace('mutable ', '').rstrip('*'); d = 0
    while b.endswith('[]'): b = b[:-2]; d += 1
    return b, d, t.endswith('*')


def sub(c, p):
    "c is p or inherits from it"
    while c:
        if c == p: return True
        c = CLS.get(c)
    return False


def isclass(b): return b in CLS or b in NOBJ
def isobj(t):
    b, d, r = split(t)
    return not r and (d > 0 or b not in NUM + MUL)
def objarr(t):
    "an array of objects"
    b, d, r = split(t)
    return d > 1 or d == 1 and b not in NUM + MUL


def fits(t, f):
    """a value of type f is usable as a t without conversion"""
    if f == 'undef': return isobj(t)
    bt, dt, rt = split(t); bf, df, rf = split(f)
    if rt or rf: return t == f
    if t == 'object': return isobj(f)
    if t == 'object[]': return objarr(f)
    if dt != df: return False
    if bt == bf: return True
    if bt in CLS and bf in CLS: return sub(bf, bt)
    if bt in IFC and (bf in CLS or bf in IFC): return (bt, bf) in SAT
    return False


def assign(t, f):
    if t == 'mutable string': return None if f in NUM else f in ('mutable string', 'undef')
    if t == 'string' and f in NUM: return True
    if t in NUM:
        if f in NUM: return NUM.index(f) <= NUM.index(t)
        return f == 'object' or f in NOBJ and NOBJ.index(f) == NUM.index(t)
    if t in NOBJ and f in NUM: return NOBJ.index(t) == NUM.index(f)
    if t == 'object' and f in NUM: return True
    return fits(t, f)


def cast(t, f):
    """True, False, or None where the documentation and the implementation differ without harm"""
    if t in NUM and f in NUM: return True
    if t in NUM and f in ('string', 'mutable string'): return None
    if t == 'mutable string': return f in ('string', 'mutable string', 'undef', 'object', 'byte[]') or (f in NUM) or None
    if t == 'string' and f == 'byte[]': return True
    if t == 'byte[]' and f in ('string', 'mutable string'): return True
    if assign(t, f): return True
    if t in NUM + MUL or t.endswith('*') or f.endswith('*'): return False
    if f == 'object': return isobj(t)
    bt, dt, rt = split(t); bf, df, rf = split(f)
    if f == 'object[]': return objarr(t)
    if f in NUM + MUL or t == 'object' or t == 'object[]': return False
    if dt != df: return False
    if bt in CLS and bf in CLS: return sub(bt, bf)
    if bt in CLS and bf in IFC: return (True if (bf, bt) in SAT else None) if dt < 2 else None
    if bt in IFC and bf in IFC: return None
    return False


def sigs():
    """interfaces and the methods of a class: which classes satisfy which interface; -> (files, cases)"""
    files, cases = {}, []
    RT = ['void', 'int', 'long', 'double', 'string', 'mutable string', 'TA', 'TB', 'TC', 'object', 'TI', 'TJ', 'int[]', 'TA[]', 'TB[]', 'object[]', 'TA[][]', 'TB[][]', 'TI[]']
    def put(name, sig):
        files[name + '.spvm'] = 'class %s : interface_t { %s %s }' % (name, ' '.join('use %s;' % c for c in list(CLS) + ['TI', 'TJ']), sig)
    def exact(t, f):
        if 'void' in (t, f): return t == f
        bt, bf = split(t)[0], split(f)[0]
        if t == 'mutable string': return f == t
        if bt in IFC and split(t)[1] == 0: return t == f
        return fits(t, rtype(f))
    def klass(iface, body, want, ident):
        cases.append((ident, 'use %s; %s method z : void () { my $i : %s = $self; }' % (iface, body, iface), want))
    body = lambda t: '' if t == 'void' else 'return 0;' if t in NUM else 'return undef;'
    for i, t in enumerate(RT):
        put('SR%d' % i, 'required method m : %s ();' % t)
        for f in RT: klass('SR%d' % i, 'method m : %s () { %s }' % (f, body(f)), exact(t, f), 'interface return %s <- %s' % (t, f))
    AT = [t for t in RT if t != 'void'] + ['int*']
    for i, t in enumerate(AT):
        put('SA%d' % i, 'required method m : void ($x : %s);' % t); put('SB%d' % i, 'required method m : void ($k : int, $x : %s);' % t)
        for f in AT:
            klass('SA%d' % i, 'method m : void ($x : %s) { }' % f, exact(t, f), 'interface argument %s <- %s' % (t, f))
            klass('SB%d' % i, 'method m : void ($k : int, $x : %s) { }' % f, exact(t, f), 'interface second argument %s <- %s' % (t, f))
    for n in range(4):
        put('SN%d' % n, 'required method m : void (%s);' % ', '.join('$a%d : int' % k for k in range(n)))
        put('SM%d' % n, 'method m : void (%s);' % ', '.join('$a%d : int' % k for k in range(n)))
        for r in range(4):
            for o in range(3):
                for st in ('', 'static '):
                    for ifc in ('SN', 'SM'):
                        klass('%s%d' % (ifc, n), '%smethod m : void (%s) { }' % (st, ', '.join(['$a%d : int' % k for k in range(r)] + ['$o%d : int = 0' % k for k in range(o)])), n >= r and not st, 'interface %s%d arguments <- %s%d+%d' % (ifc, n, st, r, o))
        klass('SN%d' % n, 'method q : void () { }', False, 'interface required %d <- none' % n)
        klass('SM%d' % n, 'method q : void () { }', True, 'interface optional %d <- none' % n)
    return files, cases


def stat(ck, sc, quick):
    lang = sc.path('anonsrc', 'x')[:-2]; os.makedirs(lang, exist_ok=True)
    sf, sigcases = sigs()
    for n, t in sf.items(): open(os.path.join(lang, n), 'w').write(t + '\n')
    for n, t in FILES.items(): open(os.path.join(lang, n), 'w').write(t + '\n')
    bin_ = anon_bin(sc)
    cases = []
    for f in TYPES + ['undef']:
        for t in TYPES:
            src = '$f' if f != 'undef' else 'undef'
            par = '$f : %s' % f if f != 'undef' else ''
            init = ''
            ctx = [('var', 'static method m : void (%s) { my $t : %s = %s; }' % (par, t, src), assign(t, f)),
                   ('cast', 'static method m : void (%s) { my $t = (%s)%s; }' % (par, t, src), cast(t, f))]
            if not t.endswith('*') :
                ctx.append(('return', 'static method m : %s (%s) { return %s; }' % (t, par, src), assign(t, f)))
                ctx.append(('arg', 'static method n : void ($x : %s) { } static method m : void (%s) { &n(%s); }' % (t, par, src), assign(t, f)))
                b, d, r = split(t)
                if not (b in MUL and d == 0) and not t.startswith('mutable'):
                    ctx.append(('field', 'has x : %s; method m : void (%s) { $self->{x} = %s; }' % (t, par, src), assign(t, f)))
                    ctx.append(('classvar', 'our $X : %s; static method m : void (%s) { $X = %s; }' % (t, par, src), assign(t, f)))
                if d < 3 and t != 'object[]' and not t.startswith('mutable') and not (t == 'object'):
                    ctx.append(('element', 'static method m : void ($a : %s[]%s) { $a->[0] = %s; }' % (t, ', ' + par if par else '', src), assign(t, f)))
            else:
                ctx.append(('arg', 'static method n : void ($x : %s) { } static method m : void (%s) { &n(%s); }' % (t, par, src), assign(t, f)))
            if t in ('int', 'string', 'object', 'TA', 'TI', 'int[]'):
                ctx.append(('default', 'static method n : void ($o : int, $x : %s = 0) { } static method m : void (%s) { &n(1, %s); }' % (t, par, src), assign(t, f)) if t == 'int' else
                           ('default', 'static method n : void ($o : int, $x : %s = undef) { } static method m : void (%s) { &n(1, %s); }' % (t, par, src), assign(t, f)))
            for c, body, want in ctx:
                if want is not None: cases.append(('%s %s <- %s' % (c, t, f), body, want))
    cases += sigcases
    n = NCPU * 2
    def one(k):
        part = cases[k::n]
        p = sc.path('anon_%d' % k)
        with open(p, 'w') as o:
            for _, body, _ in part: o.write('class { %s %s }\n' % (USES, body))
        r = subprocess.run([bin_, p, lang, VERIF + '/mc/driver/lib', sc.src + '/lib/SPVM'], capture_output=True, text=True, errors='replace', env=dict(os.environ, **SAN_ENV))
        got = {}
        for l in r.stdout.split('\n'):
            if l.startswith('R '):
                a = l.split(' '); got[int(a[1])] = (int(a[2]), a[3])
        return part, got, r
    nbad = 0
    with ThreadPoolExecutor(NCPU) as ex:
        for part, got, r in ex.map(one, range(n)):
            for i, (ident, body, want) in enumerate(part):
                if i not in got:
                    nbad += 1
                    if nbad < 8: ck.fail('static:' + ident, 'compiling the class ends the process: %s\n%s' % (body, summarize_san(r.stderr) if r.stderr else r.returncode))
                    break
                e, msg = got[i]
                ck.outcomes.add((ident.split(' ')[0], e != 0))
                if (e == 0) != want:
                    nbad += 1
                    if nbad < 400: ck.fail('static:' + ident, '%s: %s\n%s %s' % (ident, 'compiled, although the types do not satisfy the requirement' if e == 0 else 'does not compile, although the types satisfy the requirement', body, unesc(msg)))
            ck.count(traces=len(got), states=len(got))
            ck.sample('%s -> %s' % (part[-1][0], got.get(len(part) - 1)))
    return len(cases)


def anon_bin(sc):
    """the driver that compiles anonymous classes"""
    objs = sc.compile_all(sc.core_sources() + sc.class_sources(), sc.ASAN, 'asan')
    drv = sc.compile_all([os.path.join(VERIF, 'mc/driver/anon.c')], sc.ASAN + ['-I' + os.path.join(VERIF, 'mc/driver')], 'drv')
    return sc.link(objs + drv, sc.path('bin', 'anon'), ['-rdynamic', '-Wl,-z,muldefs', '-pthread', '-lm', '-ldl', '-fsanitize=address'])


# runtime type -> expression
VAL = [(b, '%s->new(%s)' % (b, {'Float': '5f', 'Double': '5.0', 'Long': '5L'}.get(b, '5'))) for b in NOBJ] + [('string', '"lit"'), ('mutable string', '(mutable string)copy "cpy"')] + [(c, c + '->new') for c in CLS]
for t in [n + '[]' for n in NUM] + [m + '[]' for m in MUL] + ['string[]', 'Int[]', 'Long[]'] + [c + '[]' for c in CLS] + [i + '[]' for i in IFC] + ['object[]'] + \
        ['int[][]', 'byte[][]', 'Complex_2d[][]', 'string[][]', 'Int[][]', 'TA[][]', 'TB[][]', 'TC[][]', 'TD[][]', 'TE[][]', 'TF[][]', 'TI[][]', 'TJ[][]', 'TK[][]', 'int[][][]', 'TA[][][]', 'TB[][][]', 'TI[][][]']:
    VAL.append((t, 'new %s[2]' % t[:-2]))
OBJT = [t for t in TYPES if isobj(t)]


def rtype(t): return 'string' if t == 'mutable string' else t
def fitv(t, v):
    if v == 'undef': return True
    if t == 'mutable string': return v == 'mutable string'
    return fits(t, rtype(v))


def casts():
    out = []
    for f in OBJT:
        for t in OBJT + NUM:
            if not cast(t, f) or f in ('string', 'mutable string') and t == 'byte[]' or f == 'byte[]' and rtype(t) == 'string': continue
            b, want = ['my $r = "";'], ''
            for v, e in VAL + [('undef', 'undef')]:
                if not fitv(f, v): continue
                if t in NUM:
                    ok = v != 'undef' and v in NOBJ and NOBJ.index(v) == NUM.index(t)
                    b.append('eval { my $f : %s = %s; my $t = (%s)$f; if ($t == 5) { $r .= "1"; } else { $r .= "x"; } }' % (f, e, t))
                else:
                    ok = fitv(t, v)
                    b.append('eval { my $f : %s = %s; my $t = (%s)$f; if ((object)$t == (object)$f) { $r .= "1"; } else { $r .= "x"; } }' % (f, e, t))
                b.append('if (eval_error_id) { $r .= "-"; } $r .= " ";')
                want += ('1' if ok else '-') + ' '
            b.append('MCLog->s($r);')
            if want: out.append(Item('\n'.join(b), 's' + esc(want) + ';', 'cast (%s)%s' % (t, f)))
    return out


def isas():
    out = []
    for v, e in VAL + [('undef', 'undef')]:
        for f in OBJT:
            if f not in ('object', 'object[]') and f != rtype(v) or not fitv(f, v): continue
            b, want = ['my $r = ""; my $f : %s = %s;' % (f, e)], ''
            for t in OBJT:
                if t in ('mutable string', 'object'): continue
                for op in ('isa', 'is_type', 'is_compile_type'):
                    if op == 'isa': ok = v != 'undef' and fitv(t, v)
                    elif op == 'is_type': ok = v != 'undef' and rtype(v) == t
                    else: ok = f == t
                    b.append('if ($f %s %s) { $r .= "1"; } else { $r .= "0"; }' % (op, t))
                    want += '01'[ok]
            b.append('MCLog->s($r); MCLog->s(type_name $f); MCLog->s(compile_type_name $f);')
            out.append(Item('\n'.join(b), 's%s;%s;s%s;' % (want, 'U' if v == 'undef' else 's' + esc(rtype(v)), esc(f)), 'isa %s as %s' % (v, f)))
    return out


def stores():
    out = []
    arrs = [v for v, e in VAL if v.endswith('[]') and objarr(v)]
    for r in arrs:
        for s in [t for t in OBJT if objarr(t) and fits(t, r)]:
            el = 'object' if s == 'object[]' else s[:-2]
            b, want = ['my $r = ""; my $a : %s = new %s[2];' % (s, r[:-2])], ''
            for v, e in VAL + [('undef', 'undef')]:
                if not fitv(el, v): continue
                ok = fitv(r[:-2], v)
                # twice: once through the type cache, and at both positions
                b.append('{ my $v : %s = %s; eval { $a->[1] = undef; $a->[1] = $v; } my $e = eval_error_id; if ($a->[1] == $v) { $r .= "s"; } elsif ($a->[1] == undef) { $r .= "u"; } else { $r .= "?"; } if ($e) { $r .= "-"; } else { $r .= "+"; } }' % (el, e))
                want += ('s+' if ok else 'u-')
            b.append('MCLog->s($r);')
            out.append(Item('\n'.join(b), 's' + esc(want) + ';', 'store into %s as %s' % (r, s)))
    return out


def main():
    quick = TIER == 'quick'
    ck = Check('M10')
    sc = ck.make_scratch()
    n = stat(ck, sc, quick)
    bin_ = sc.mcrun(asan=True)
    items = casts() + isas() + stores()
    ck.count(states=len(items))
    kw = dict(files=FILES, uses=USES)
    run_items(ck, bin_, items, modes=('interpreted',), chunk=90, **kw)
    run_items(ck, bin_, items[::-1], modes=('interpreted',), chunk=90, cls='MCR', only='MCR', **kw)
    pre = [i for i in items if 'object' in i.ident or i.ident.startswith('store')]
    run_items(ck, bin_, pre if quick else items, modes=('precompile',), chunk=30, **kw)
    ck.finish(bound='all pairs of %d types in 7 positions; all pairs of method signatures with up to 3 arguments; all casts, isa queries and array stores of values of %d runtime types' % (len(TYPES) + 1, len(VAL) + 1), static=n, methods=len(items))


if __name__ == '__main__':
    main()
