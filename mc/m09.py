"""M09: every chain of conversions gives the documented value, in every place a conversion happens."""
import re, itertools
from fractions import Fraction
from common import *
from num import *
from progs import *
from m10 import assign, cast, NUM, NOBJ

BOX = dict(zip(NOBJ, NUM)); UNBOX = dict(zip(NUM, NOBJ))
TY = NUM + ['string', 'mutable string'] + NOBJ + ['object', 'byte[]']
LLMIN, LLMAX = -2**63, 2**63 - 1
IV = [0, 1, -1, 7, 100, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536, 2**24 + 1, -2**24 - 3, 10**6, 10**7, 2**31 - 1, -2**31, 2**31, -2**31 - 1, 2**32, 2**32 + 5, 2**53 + 1, 2**62 + 2**38 + 1, LLMAX, LLMIN, LLMIN + 1]
FV = [0.0, -0.0, 1.0, -1.5, 0.1, 0.5, 1.5, 127.5, 128.0, -128.9, -129.0, 255.5, 32767.99, 32768.0, 65536.5, 16777217.0, 2147483647.0, 2147483648.0, -2147483648.5, -2147483649.0, 4e9, 1e15 + 0.3, 9.007199254740993e15, 1e18, 9.2e18, -9.223372036854775808e18, 1e20, 1e38, 3.5e38, 1e-40, 1e-50, 1e300, 123456.7, 1234567.0,
      999999.5, 0.0001, 0.00001, 1e-5, 5e-324, 1e5, 1e6, 100000.25, math.inf, -math.inf]
SV = [None, '', '0', '12', ' 42', '\t\n\v\f\r 43', '+7', '-8', '+-8', '--8', '12abc', 'abc', '1e3', '0x1F', '010', '-0', '127', '128', '-129', '-128', '255', '32767', '32768', '-32769', '65535', '2147483647', '2147483648', '-2147483648', '-2147483649', '4294967297', '9223372036854775807', '9223372036854775808',
      '-9223372036854775808', '-9223372036854775809', '99999999999999999999999', '1.5', '-.5e1', '.', '.e1', '1.e2', 'inf', '-Infinity', '1e400', '-1e400', '1e-400', '1e39', '3.4028235677973366e38', '16777217', '0x1.8p1', '0x', '0xp', '1_000', '1,5', '1\x002', '\x001', '\xef\xbc\x91', '\xff', '5 6', 'e5', '1e', '1e+', '0.1', '9007199254740993', '0.000001', '1' + '0' * 40, '0' * 50 + '3']
BV = [None, b'', b'5', b'abc', b'\x00', b'-12x', b'\xff\x80\x7f', b'1\x002', b'300']


def spc(s): return s.lstrip(' \t\n\v\f\r')
def strtoll(s):
    m = re.match(r'[+-]?[0-9]+', spc(s))
    return max(LLMIN, min(LLMAX, int(m.group()))) if m else 0
def near32(t):
    "the float nearest to a decimal text (rounded once), ties to even"
    x = abs(Fraction(t)); neg = t.lstrip().startswith('-')
    if x == 0: r = 0.0
    else:
        e = -149
        while x / Fraction(2) ** e >= 2 ** 24: e += 1
        q = x / Fraction(2) ** e
        n = q.numerator // q.denominator; rest = q - n
        if rest > Fraction(1, 2) or rest == Fraction(1, 2) and n % 2: n += 1
        r = math.inf if n * Fraction(2) ** e >= Fraction(2) ** 128 else float(n * Fraction(2) ** e)
    return -r if neg else r


def strtod(s, single):
    s = spc(s)
    m = re.match(r'([+-]?)0[xX]([0-9a-fA-F]*)(?:\.([0-9a-fA-F]*))?(?:[pP]([+-]?[0-9]+))?', s)
    if m and (m.group(2) or m.group(3)):
        v = int((m.group(2) or '') + (m.group(3) or '') or '0', 16) * 2.0 ** (-4 * len(m.group(3) or '') + int(m.group(4) or 0))
        return -v if m.group(1) == '-' else v
    m = re.match(r'([+-]?)(infinity|inf)', s, re.I)
    if m: return -math.inf if m.group(1) == '-' else math.inf
    m = re.match(r'[+-]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?', s)
    if not m: return 0.0
    return near32(m.group()) if single else float(m.group())


def step(t, v):
    "v = (type, value) converted to t; Undefined when C leaves it open; Thrown when it throws"
    f, x = v
    if t == f: return v
    if f in NUM and t in NUM:
        r = conv(x, f, t)
        if r is None: raise Undefined()
        return t, r
    if f in NUM:
        if t in ('string', 'mutable string'):
            if f in FLTS and math.isnan(x): raise Undefined()
            return 'string', ('%d' % x if f in INTS else '%g' % x)
        return UNBOX[f], x                                 # own numeric class or any object
    # references: the type is that of the object
    if f == 'string' or (x is None and t in NUM and f == 'string'):
        if t in ('string', 'mutable string', 'object'): return v
        if t == 'byte[]': return 'byte[]', None if x is None else x.encode('latin-1')
        if t in NUM:
            if x is None: return t, 0 if t in INTS else 0.0
            c = x.split('\0')[0]
            if t in FLTS: return t, strtod(c, t == 'float')
            n = strtoll(c); b = 1 << (BITS[t] - 1)
            return t, max(-b, min(b - 1, n))
        raise Thrown()
    raise KeyError((t, v))


def convert(t, static, v):
    """v: value held in an expression of static type `static`; returns (value) after the cast or assignment to t"""
    f, x = v
    if static in NUM: return step(t, v)
    if static in ('string', 'mutable string'):
        if t == 'mutable string' and x is not None and v[0] == 'literal': raise Thrown()
        return step(t, ('string', x))
    if static == 'byte[]':
        if t in ('string', 'mutable string'): return 'string', None if x is None else x.decode('latin-1')
        return v
    # a numeric object or any object
    if t in NUM:
        if x is None: raise Thrown()
        if f != UNBOX[t]: raise Thrown()
        return t, x
    if t == 'object': return v
    if x is None: return f, None
    want = 'string' if t == 'mutable string' else t
    if f != want: raise Thrown()
    return v


def show(t):
    if t in NUM: return 'MCLog->%s($r);' % LOG[t]
    return '&show($r);'
def shown(t, v):
    f, x = v
    if t in NUM: return fmt(t, x)
    if x is None: return 'U;'
    if f == 'string': return 's%s;' % esc(x.encode('latin-1'))
    if f == 'byte[]': return 'so' + ','.join(str(c - 256 if c > 127 else c) for c in x) + ';'
    return 's%s;%s' % (f, fmt(BOX[f], x))


HEAD = '''
has hf : int;
%PRE%static method show : void ($o : object) {
  if (!$o) { MCLog->s(undef); return; }
  if ($o isa string) { MCLog->s((string)$o); return; }
  if ($o isa byte[]) { my $t = "o"; my $b = (byte[])$o; for (my $i = 0; $i < @$b; $i++) { if ($i) { $t .= ","; } $t .= (int)$b->[$i]; } &raw($t); return; }
  MCLog->s(type_name $o);
  if ($o isa Byte) { MCLog->i((byte)$o); } if ($o isa Short) { MCLog->i((short)$o); } if ($o isa Int) { MCLog->i((int)$o); }
  if ($o isa Long) { MCLog->l((long)$o); } if ($o isa Float) { MCLog->f((float)$o); } if ($o isa Double) { MCLog->d((double)$o); }
}
%PRE%static method raw : void ($t : string) { MCLog->s($t); }
'''


def strlit(s): return '"' + ''.join(c if c.isascii() and c.isalnum() or c in ' +-.,_' else '\\x%02x' % ord(c) for c in s) + '"'
def values(t):
    "literal expressions of the static type t, with the value each holds"
    if t in INTS:
        b = 1 << (BITS[t] - 1)
        return [(lit(t, v) if v != LLMIN else '(-9223372036854775807L - 1)', (t, v)) for v in IV if -b <= v < b]
    if t in FLTS:
        r = f32 if t == 'float' else float
        out = []
        for v in dict.fromkeys(struct.pack('d', r(v)) for v in FV):
            v = struct.unpack('d', v)[0]
            if t == 'float' and math.isinf(v) and False: continue
            out.append((lit(t, v) if str(v) != '-0.0' else '(-0.0%s)' % ('f' if t == 'float' else ''), (t, v)))
        return out
    if t == 'string': return [(strlit(s) if s is not None else '(string)undef', ('string', s)) for s in SV]
    if t == 'mutable string': return [('(mutable string)copy %s' % strlit(s) if s is not None else '(mutable string)undef', ('string', s)) for s in SV]
    if t in BOX: return [('(%s)undef' % t, (t, None))] + [('%s->new(%s)' % (t, e), (t, v[1])) for e, v in values(BOX[t])]
    if t == 'byte[]': return [('(byte[])undef' if b is None else '(byte[])%s' % strlit(b.decode('latin-1')), ('byte[]', b)) for b in BV]
    if t == 'object':
        out = [('(object)undef', ('object', None))]
        for b in NOBJ: out += [('(object)%s->new(%s)' % (b, e), (b, v[1])) for e, v in values(BOX[b])[:4]]
        return out + [('(object)%s' % strlit('12'), ('literal', '12')), ('(object)copy "13"', ('string', '13')), ('(object)(byte[])"14"', ('byte[]', b'14'))]


def castable(t, f):
    c = cast(t, f)
    if f in NUM and t == 'mutable string': return None
    if f in ('string', 'mutable string') and t in NUM: return True
    return c


def chains(n):
    "every chain of n casts through the types, from every type"
    def go(path, k):
        if k == 0: yield path; return
        for t in TY:
            if castable(t, path[-1]): yield from go(path + [t], k - 1)
    for t in TY: yield from go([t], n)


def runchain(path, v):
    for k in range(1, len(path)):
        f, x = v
        if f == 'literal':                                  # a string literal stays read-only
            if path[k] == 'mutable string': raise Thrown()
            if path[k] in ('string', 'object'): continue
            v = ('string', x)
        v = convert(path[k], path[k - 1], v)
        if path[k] == 'object' and v[1] is None: v = ('object', None)
    return v


def ro(path):
    "a string produced by a conversion is only made mutable if it is certain to be writable: literals are read-only"
    return False


def chain_items(n, quick):
    out = []
    for path in chains(n):
        vals, want = [], []
        for e, v in values(path[0]):
            if v[1] is not None and path[0] == 'string': v = ('literal', v[1])
            try: w = shown(path[-1], norm(runchain(path, v)))
            except Undefined: continue
            except Thrown: w = 'sE;'
            vals.append(e); want.append(w)
        if quick and n == 3: vals, want = vals[::3], want[::3]
        if not vals: continue
        for form in ('nested', 'variables'):
            if form == 'variables' and (n < 2 or quick and n == 3): continue
            T = path[0]
            if form == 'nested': st = 'my $r = %s$v;' % ''.join('(%s)' % t for t in reversed(path[1:]))
            else: st = ' '.join('my $%s = (%s)$%s;' % ('r' if k == n else 'v%d' % k, t, 'v' if k == 1 else 'v%d' % (k - 1)) for k, t in enumerate(path) if k)
            if T.startswith('mutable'):
                body = '\n'.join('{ my $v = %s; eval { %s %s } if ($@) { MCLog->s("E"); } }' % (e, st, show(path[-1])) for e in vals)
            else:
                body = 'my $vs = new %s[%d]; %s\nfor my $v (@$vs) { eval { %s %s } if ($@) { MCLog->s("E"); } }' % (T, len(vals), ' '.join('$vs->[%d] = %s;' % (k, e) for k, e in enumerate(vals) if 'undef' not in e), st, show(path[-1]))
            out.append(Item(body, ''.join(want), '%s (%s)' % (' to '.join(path), form)))
    return out


def norm(v): return ('string', v[1]) if v[0] == 'literal' else v


PLACES = {  # statement with V (source expression) that leaves the converted value in $r
    'variable': 'my $r : T = V;', 'assignment': 'my $r : T; $r = V;', 'argument': 'my $r = MCT->arg_%N%(V);', 'second argument': 'my $r = MCT->arg2_%N%(1, V);', 'return': 'my $r = MCT->ret_%N%($v);', 'element': 'my $a = new T[2]; $a->[1] = V; my $r = $a->[1];',
    'element of a deeper array': 'my $a = new T[][2]; $a->[0] = new T[3]; $a->[0]->[2] = V; my $r = $a->[0]->[2];', 'field': 'my $o = new M09F; $o->{TF} = V; my $r = $o->{TF};', 'class variable': '$M09F::TC = V; my $r = $M09F::TC;', 'value of the assignment': 'my $q : T; my $r = ($q = V);',
    'instance argument': 'my $o = new MCT; my $r = $o->iarg_%N%(V);', 'interface argument': 'my $o : M09I = new M09F; my $r = $o->id_TF(V);', 'chain': 'my $q : T; my $r : T = $q = V;', 'element init': 'my $a : T[] = [(T)V, V]; my $r = $a->[1];', 'logical and': 'my $r : T; if (1 && ($r = V)) { }', 'anonymous method': 'my $m = method : T ($x : T) { return $x; }; my $r = $m->(V);',
    'inherited argument': 'my $o = new M09G; my $r = $o->id_TF(V);',
}
ABBR = {'byte': 'b', 'short': 'h', 'int': 'i', 'long': 'l', 'float': 'f', 'double': 'd', 'string': 's', 'mutable string': 'u', 'object': 'o', 'byte[]': 'y', **{b: 'x' + b[0] for b in NOBJ}}
FILES = {
    'M09I.spvm': 'class M09I : interface_t { ' + ' '.join('required method id_f%s : %s ($x : %s);' % (a, t, t) for t, a in ABBR.items()) + ' }',
    'M09F.spvm': 'class M09F : public { interface M09I; ' + ' '.join('has f%s : public %s; our $C%s : public %s; %%PRE%%method id_f%s : %s ($x : %s) { return $x; }' % (a, t, a.upper() if len(a) == 1 else a, t, a, t, t) for t, a in ABBR.items()) + ' }',
    'M09G.spvm': 'class M09G extends M09F : public { }',
}


def place_items(quick):
    out = []
    for t in TY:
        for f in TY:
            if not assign(t, f) or f in NUM and t == 'mutable string': continue
            if t == f and f not in ('string',): continue
            for pl, text in PLACES.items():
                if pl == 'element init' and t == 'mutable string': continue
                if t == 'mutable string' and ('element' in pl): continue
                if pl == 'element of a deeper array' and t == 'object': continue
                vals, want = [], []
                for e, v in values(f):
                    if v[1] is not None and f == 'string': v = ('literal', v[1])
                    try: w = shown(t, norm(runchain([f, t], v)))
                    except Undefined: continue
                    except Thrown: w = 'sE;'
                    vals.append(e); want.append(w)
                st = text
                if pl == 'logical and': st = 'my $r : T; $r = V; if (1 && ($r = V)) { }'
                st = st.replace('TF', 'f' + ABBR[t]).replace('TC', 'C' + (ABBR[t].upper() if len(ABBR[t]) == 1 else ABBR[t]))
                st = re.sub(r'\bT\b', t, st); st = re.sub(r'\bV\b', '$v', st)
                decl = ''
                if pl in ('argument', 'return', 'second argument', 'instance argument'):
                    decl = {'argument': '%%PRE%%static method arg_%%N%% : %s ($x : %s) { return $x; }\n' % (t, t), 'second argument': '%%PRE%%static method arg2_%%N%% : %s ($n : int, $x : %s) { return $x; }\n' % (t, t),
                            'return': '%%PRE%%static method ret_%%N%% : %s ($x : %s) { return $x; }\n' % (t, f), 'instance argument': '%%PRE%%method iarg_%%N%% : %s ($x : %s) { return $x; }\n' % (t, t)}[pl]
                for c in range(0, len(vals), 60):
                    vs, ws = vals[c:c + 60], want[c:c + 60]
                    if quick: vs, ws = vs[::2], ws[::2]
                    if f.startswith('mutable'): body = '\n'.join('{ my $v = %s; eval { %s %s } if ($@) { MCLog->s("E"); } }' % (e, st, show(t)) for e in vs)
                    else: body = 'my $vs = new %s[%d]; %s\nfor my $v (@$vs) { eval { %s %s } if ($@) { MCLog->s("E"); } }' % (f, len(vs), ' '.join('$vs->[%d] = %s;' % (k, e) for k, e in enumerate(vs) if 'undef' not in e), st, show(t))
                    if pl == 'class variable' and t not in NUM: body += ' $M09F::C%s = undef;' % (ABBR[t].upper() if len(ABBR[t]) == 1 else ABBR[t])
                    out.append(Item(body, ''.join(ws), '%s to %s as %s' % (f, t, pl), decl=decl))
    # constants in the range of a narrower type convert implicitly
    for t, f in (('byte', 'int'), ('short', 'int'), ('int', 'int'), ('long', 'int'), ('byte', 'long'), ('short', 'long'), ('int', 'long'), ('float', 'int'), ('double', 'int'), ('double', 'float')):
        b = 1 << (BITS.get(t, 25) - 1)
        for v in IV:
            if not -b <= v < b or f == 'int' and not -2**31 <= v < 2**31: continue
            if f == 'float': e, w = lit('float', float(v)), float(v)
            else: e, w = lit(f, v) if v != LLMIN else None, conv(v, f, t)
            if e is None: continue
            if v == -2**31 and f == 'int': continue
            for pl, text in PLACES.items():
                if pl in ('return', 'instance argument', 'argument', 'second argument', 'element init'): continue
                st = text.replace('TF', 'f' + ABBR[t]).replace('TC', 'C' + ABBR[t].upper())
                st = re.sub(r'\bT\b', t, st); st = re.sub(r'\bV\b', lambda m: e, st)
                out.append(Item('%s %s' % (st, show(t)), fmt(t, w), 'constant %s to %s as %s' % (e, t, pl)))
    # a conversion makes a new object: the source and the result do not share storage
    for body, want, what in (
        ('my $s = (mutable string)copy "abc"; my $b = (byte[])$s; $s->[0] = \'x\'; &show($b); $b->[1] = \'y\'; &show($s); my $t = (string)$b; $b->[2] = \'z\'; &show($t); &show($b);', 'so97,98,99;sxbc;sayc;so97,121,122;', 'string and byte[] do not share characters'),
        ('my $b = (byte[])"ab"; my $s = (mutable string)$b; $s->[0] = \'q\'; &show($b); &show($s); my $u = (object)$b; my $c = (byte[])$u; $c->[1] = 1; &show($b);', 'so97,98;sqb;so97,1;', 'a cast back from object is the same array'),
        ('my $i = 5; my $o : Int = $i; $i = 6; MCLog->i((int)$o); my $p : object = $o; MCLog->i($p == (object)$o);', '5;1;', 'boxing copies the value'),
        ('my $o : object = 5; my $q : object = 5; MCLog->i($o == $q);', '0;', 'boxing makes a new object'),
        ('my $s = "lit"; my $o = (object)$s; my $t = (string)$o; MCLog->i($s == $t); eval { my $m = (mutable string)$o; MCLog->s("no"); } if ($@) { MCLog->s("E"); }', '1;sE;', 'a read-only string does not become mutable'),
        ('my $s = new_string_len 2; my $o = (object)$s; my $m = (mutable string)$o; $m->[0] = \'k\'; MCLog->i($m->[0]); make_read_only $s; eval { my $n = (mutable string)$o; MCLog->s("no"); } if ($@) { MCLog->s("E"); }', '107;sE;', 'make_read_only is seen through any reference'),
        ('my $n = 12; my $s = (mutable string)(string)$n; $s->[0] = \'9\'; &show($s); my $t = (string)$n; &show($t);', 's92;s12;', 'numeric to string makes a writable new string'),
    ):
        out.append(Item(body, want, what))
    # byte[] and string of many lengths keep every byte
    for n in list(range(0, 20)) + [31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 1000, 4096, 65537]:
        out.append(Item('my $b = new byte[%d]; for (my $i = 0; $i < @$b; $i++) { $b->[$i] = (byte)($i * 37 + 11); } my $s = (string)$b; MCLog->i(length $s); my $c = (byte[])$s; MCLog->i(@$c); my $bad = 0; for (my $i = 0; $i < @$b; $i++) { if ($b->[$i] != $c->[$i] || $s->[$i] != $b->[$i]) { $bad++; } } MCLog->i($bad);' % n, '%d;%d;0;' % (n, n), 'byte[] of %d to string and back' % n))
    return out


def main():
    quick = TIER == 'quick'
    ck = Check('M09')
    sc = ck.make_scratch()
    bin_ = sc.mcrun()
    one, two, three = chain_items(1, quick), chain_items(2, quick), chain_items(3, quick)
    pl = place_items(quick)
    kw = dict(header=HEAD, files=FILES, uses='use MCLog; use M09F; use M09G; use M09I; ' + ' '.join('use %s;' % b for b in NOBJ))
    for its in (one, two, pl):
        run_items(ck, bin_, its, modes=('interpreted', 'precompile'), chunk=100, **kw)
        ck.count(states=2 * sum(i.want.count(';') for i in its))
    run_items(ck, bin_, three, modes=('interpreted',) if quick else ('interpreted', 'precompile'), chunk=100, **kw)
    ck.count(states=sum(i.want.count(';') for i in three))
    ck.finish(bound='chains of 1 (%d), 2 (%d) and 3 (%d) casts over %d types; %d programs converting in %d kinds of place' % (len(one), len(two), len(three), len(TY), len(pl), len(PLACES)))
