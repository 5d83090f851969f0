"""M11: every element, character, field, length, creation and call operation on every state of its operand either works on exactly its place or throws and changes nothing."""
import itertools
from common import *
from num import LOG, lit, fmt
from progs import *

MIN, MAX = -2**31, 2**31 - 1
HEAD = '''
has b : byte; has h : short; has i : int; has l : long; has f : float; has d : double; has s : string; has o : MCT; has x : object; has a : int[]; has p : byte; has q : byte; has m : T11[];
%PRE%static method new : MCT ($i : int = 0) { my $self = new MCT; $self->{i} = $i; return $self; }
%PRE%static method full : MCT () { my $t = new MCT; $t->{b} = (byte)11; $t->{h} = (short)12; $t->{i} = 13; $t->{l} = 14L; $t->{f} = 15f; $t->{d} = 16.0; $t->{s} = "s17"; $t->{o} = MCT->new(18); $t->{x} = MCT->new(19); $t->{a} = [20]; $t->{p} = (byte)21; $t->{q} = (byte)22; $t->{m} = new T11[1]; return $t; }
%PRE%static method show : void ($t : MCT) { MCLog->i($t->{b}); MCLog->i($t->{h}); MCLog->i($t->{i}); MCLog->l($t->{l}); MCLog->f($t->{f}); MCLog->d($t->{d}); MCLog->s($t->{s}); if ($t->{o}) { MCLog->i($t->{o}{i}); } else { MCLog->i(-1); } if ($t->{x}) { MCLog->i(100); } else { MCLog->i(-1); } if ($t->{a}) { MCLog->i(@{$t->{a}}); } else { MCLog->i(-1); } MCLog->i($t->{p}); MCLog->i($t->{q}); if ($t->{m}) { MCLog->i(@{$t->{m}}); } else { MCLog->i(-1); } }
%PRE%method im : int ($n : int = 0) { return 100 + $n; }
%PRE%method self : MCT () { return $self; }
%PRE%static method ix : int ($n : int) { MCLog->i($n); return $n; }
%PRE%static method undef_ints : int[] () { return undef; }
'''
FILES = {'T11_3b.spvm': 'class T11_3b : mulnum_t { has x : byte; has y : byte; has z : byte; }', 'T11_2d.spvm': 'class T11_2d : mulnum_t { has x : double; has y : double; }',
         'T11_2s.spvm': 'class T11_2s : mulnum_t { has x : short; has y : short; }', 'T11_2i.spvm': 'class T11_2i : mulnum_t { has x : int; has y : int; }', 'T11_2l.spvm': 'class T11_2l : mulnum_t { has x : long; has y : long; }', 'T11_2f.spvm': 'class T11_2f : mulnum_t { has x : float; has y : float; }',
         }
HEAD = HEAD.replace('T11[', 'T11_3b[')
MUL = {'T11_3b': ('byte', 'xyz'), 'T11_2s': ('short', 'xy'), 'T11_2i': ('int', 'xy'), 'T11_2l': ('long', 'xy'), 'T11_2f': ('float', 'xy'), 'T11_2d': ('double', 'xy')}
USES = 'use MCLog; use Int; ' + ' '.join('use %s;' % m for m in MUL)
IDX = lambda n: sorted({MIN, -n - 1, -n, -2, -1, 0, 1, n - 1, n, n + 1, n + 2, 255, 256, 65536, MAX - 1, MAX})
WRAPT = {'byte': 8, 'short': 16, 'int': 32, 'long': 64}


def log(t, e): return 'MCLog->%s(%s);' % (LOG.get(t, 'o'), e)


def typed_index(k, kind):
    "an index expression of a given kind"
    if k == 'K': return {'const': 'KK', 'var': '$k', 'short': '(short)KK', 'byte': '(byte)KK', 'call': '&ix($k)', 'arith': '$k + 0'}[kind]
    if kind == 'const': return '%d' % k if k != MIN else '(int)-2147483648L'
    if kind == 'var': return '$k'
    if kind == 'short': return '(short)%d' % k
    if kind == 'byte': return '(byte)%d' % k
    if kind == 'call': return '&ix($k)'
    if kind == 'arith': return '$k + 0'
    if kind == 'elem': return '$ks->[0]'


def element_items():
    out = []
    # how the elements of each type are initialised, logged and what can be done with one
    # op: (text of the statement with A[I], effect(vals, i) -> (logged, raised))
    prims = {t: [(7 + 10 * k) for k in range(3)] for t in ('byte', 'short', 'int', 'long', 'float', 'double')}
    for t in prims:
        L = LOG[t]
        c = lambda v: '(%s)%s' % (t, v) if t in ('byte', 'short') else lit(t, float(v) if t in ('float', 'double') else v)
        F = lambda v: fmt(t, float(v) if t in ('float', 'double') else v)
        ops = [
            ('get', 'my $r = $a->[I]; ' + log(t, '$r'), lambda v, i: F(v[i])),
            ('get in expression', log('double', '(double)($a->[I] + 1)'), lambda v, i: fmt('double', float(v[i] + 1))),
            ('get as condition', 'if ($a->[I]) { MCLog->s("T"); }', lambda v, i: 'sT;'),
            ('get compare', 'if ($a->[I] == $a->[I]) { MCLog->s("T"); }', lambda v, i: 'sT;'),
            ('get as argument', 'MCT->arg_%s($a->[I]);' % t, lambda v, i: F(v[i])),
            ('get return', log(t, 'MCT->ret_%s($a, I)' % t), lambda v, i: F(v[i])),
            ('get to string', 'MCLog->s("" . (int)$a->[I]);', lambda v, i: 's%d;' % v[i]),
            ('set', '$a->[I] = %s;' % c(99), lambda v, i: v.__setitem__(i, 99) or ''),
            ('set value', 'my $r = ($a->[I] = %s); ' % c(98) + log(t, '$r'), lambda v, i: v.__setitem__(i, 98) or F(98)),
            ('set from element', '$a->[I] = $o->[1];', lambda v, i: v.__setitem__(i, 17) or ''),
            ('set element 1 from', '$o->[1] = $a->[I];' + log(t, '$o->[1]'), lambda v, i: F(v[i])),
            ('post inc', '$a->[I]++;', lambda v, i: v.__setitem__(i, v[i] + 1) or ''),
            ('pre inc', 'my $r = ++$a->[I]; ' + log('double', '(double)$r'), lambda v, i: v.__setitem__(i, v[i] + 1) or fmt('double', float(v[i]))),
            ('post dec', 'my $r = $a->[I]--; ' + log('double', '(double)$r'), lambda v, i: v.__setitem__(i, v[i] - 1) or fmt('double', float(v[i] + 1))),
            ('add assign', '$a->[I] += %s;' % c(5), lambda v, i: v.__setitem__(i, v[i] + 5) or ''),
            ('div assign', '$a->[I] /= %s;' % c(1), lambda v, i: ''),
        ]
        if t in WRAPT: ops += [('shift assign', '$a->[I] <<= 1;', lambda v, i: v.__setitem__(i, v[i] << 1) or ''), ('or assign', '$a->[I] |= %s;' % c(64), lambda v, i: v.__setitem__(i, v[i] | 64) or '')]
        init = lambda n: 'my $a = new %s[%d]; %s' % (t, n, ' '.join('$a->[%d] = %s;' % (k, c(prims[t][k])) for k in range(n)))
        show = 'if ($a) { for (my $j = 0; $j < @$a; $j++) { %s } }' % log(t, '$a->[$j]')
        other = 'my $o = new %s[3]; $o->[1] = %s;' % (t, c(17))
        out += build('%s[]' % t, t + '[]', init, show, other, ops, prims[t], F)
    # object elements
    def objs(name, et, mk, logv, extra, mut=None):
        vals = [7, 17, 27]
        F = lambda v: 's-;' if v is None else 's%d;' % v
        ops = [
            ('get', 'my $r = $a->[I]; MCT->%s($r);' % logv, lambda v, i: F(v[i])),
            ('get as argument', 'MCT->%s($a->[I]);' % logv, lambda v, i: F(v[i])),
            ('get as condition', 'if ($a->[I]) { MCLog->s("T"); }', lambda v, i: 'sT;' if v[i] is not None else ''),
            ('compare', 'if ($a->[I] == undef) { MCLog->s("T"); }', lambda v, i: 'sT;' if v[i] is None else ''),
            ('set', '$a->[I] = %s;' % mk(99), lambda v, i: v.__setitem__(i, 99) or ''),
            ('set value', 'MCT->%s($a->[I] = %s);' % (logv, mk(98)), lambda v, i: v.__setitem__(i, 98) or F(98)),
            ('set undef', '$a->[I] = undef;', lambda v, i: v.__setitem__(i, None) or ''),
            ('set from element', '$a->[I] = $o->[1];', lambda v, i: v.__setitem__(i, 17) or ''),
            ('set self', '$a->[I] = $a->[I];', lambda v, i: ''),
            ('set element 1 from', '$o->[1] = $a->[I]; MCT->%s($o->[1]);' % logv, lambda v, i: F(v[i])),
            ('set from undef variable', '$a->[I] = $u;', lambda v, i: v.__setitem__(i, None) or ''),
        ] + extra
        for und in (None, 1):
            vs = [None if k == und else vals[k] for k in range(3)]
            init = lambda n: 'my $a = new %s[%d]; %s' % (et, n, ' '.join('$a->[%d] = %s;' % (k, mk(vs[k])) for k in range(n) if vs[k] is not None)) if not et.endswith('[]') else 'my $a = new %s[%d]; %s' % (et, n, ' '.join('$a->[%d] = %s;' % (k, mk(vs[k])) for k in range(n) if vs[k] is not None))
            show = 'if ($a) { for (my $j = 0; $j < @$a; $j++) { MCT->%s($a->[$j]); } }' % logv
            other = 'my $o = new %s[3]; $o->[1] = %s; my $u = (%s)undef;' % (et, mk(17), et)
            out.extend(build(name + (' with undef' if und else ''), et + '[]', init, show, other, ops if not und else [o for o in ops if o[0] != 'get isa'], vs, F))
    T = Thrown
    def deref(v, i, f):
        if v[i] is None: raise Thrown()
        return f(v[i])
    objs('MCT[]', 'MCT', lambda v: 'MCT->new(%d)' % v, 'show_o', [
        ('field', 'MCLog->i($a->[I]->{i});', lambda v, i: deref(v, i, lambda x: '%d;' % x)),
        ('set field', '$a->[I]->{i} = 55;', lambda v, i: deref(v, i, lambda x: v.__setitem__(i, 55) or '')),
        ('inc field', '$a->[I]->{i}++;', lambda v, i: deref(v, i, lambda x: v.__setitem__(i, x + 1) or '')),
        ('method', 'MCLog->i($a->[I]->im(1));', lambda v, i: deref(v, i, lambda x: '101;')),
        ('nested undef', 'MCLog->i($a->[I]->{o}->{i});', lambda v, i: (_ for _ in ()).throw(Thrown())),
        ('nested array undef', 'MCLog->i($a->[I]->{a}->[0]);', lambda v, i: (_ for _ in ()).throw(Thrown())),
    ])
    objs('string[]', 'string', lambda v: '"%d"' % v, 'show_s', [
        ('concat assign', '$a->[I] .= "0";', lambda v, i: deref(v, i, lambda x: v.__setitem__(i, x * 10) or '')),
        ('concat', 'MCLog->s("a" . $a->[I]);', lambda v, i: deref(v, i, lambda x: 'sa%d;' % x)),
        ('length', 'MCLog->i(length $a->[I]);', lambda v, i: '%d;' % (0 if v[i] is None else len(str(v[i])))),
        ('char', 'MCLog->i($a->[I]->[0]);', lambda v, i: deref(v, i, lambda x: '%d;' % ord(str(x)[0]))),
        ('eq', 'if ($a->[I] eq "7") { MCLog->s("T"); }', lambda v, i: 'sT;' if v[i] == 7 else ''),
    ])
    objs('object[]', 'object', lambda v: 'Int->new(%d)' % v, 'show_x', [
        ('box', '$a->[I] = 31;', lambda v, i: v.__setitem__(i, 31) or ''),
        ('unbox', 'MCLog->i((int)$a->[I]);', lambda v, i: deref(v, i, lambda x: '%d;' % x)),
        ('cast', 'MCLog->i($a->[I]->(Int)->value);'.replace('$a->[I]->(Int)->value', '((Int)$a->[I])->value'), lambda v, i: deref(v, i, lambda x: '%d;' % x)),
    ])
    objs('Int[]', 'Int', lambda v: 'Int->new(%d)' % v, 'show_x', [('unbox', 'MCLog->i((int)$a->[I]);', lambda v, i: deref(v, i, lambda x: '%d;' % x))])
    objs('int[][]', 'int[]', lambda v: '[%d, 1]' % v, 'show_a', [
        ('inner get', 'MCLog->i($a->[I]->[0]);', lambda v, i: deref(v, i, lambda x: '%d;' % x)),
        ('inner set', '$a->[I]->[0] = 61;', lambda v, i: deref(v, i, lambda x: v.__setitem__(i, 61) or '')),
        ('inner out of range', 'MCLog->i($a->[I]->[2]);', lambda v, i: (_ for _ in ()).throw(Thrown())),
        ('inner length', 'MCLog->i(scalar @{$a->[I]});', lambda v, i: deref(v, i, lambda x: '2;')),
        ('inner inc', '$a->[I]->[0]++;', lambda v, i: deref(v, i, lambda x: v.__setitem__(i, x + 1) or '')),
        ('inner foreach', 'for my $e (@{$a->[I]}) { MCLog->i($e); }', lambda v, i: deref(v, i, lambda x: '%d;1;' % x)),
    ])
    # multi-numeric elements: the value of an element is a tuple of its fields
    for m, (ft, fields) in MUL.items():
        n = len(fields)
        c = lambda v: '(%s)%s' % (ft, v) if ft in ('byte', 'short') else lit(ft, float(v) if ft in ('float', 'double') else v)
        G = lambda v: fmt(ft, float(v) if ft in ('float', 'double') else v)
        F = lambda v: ''.join(G(x) for x in v)
        vals = [tuple(7 + 10 * k + j for j in range(n)) for k in range(3)]
        put = lambda v, i, j, x: v.__setitem__(i, v[i][:j] + (x,) + v[i][j + 1:]) or ''
        ops = [
            ('get', 'my $r = $a->[I]; ' + ' '.join(log(ft, '$r->{%s}' % f) for f in fields), lambda v, i: F(v[i])),
            ('set', '$a->[I] = $p;', lambda v, i: v.__setitem__(i, tuple(90 + j for j in range(n))) or ''),
            ('set from element', '$a->[I] = $o->[1];', lambda v, i: v.__setitem__(i, tuple(0 for j in range(n))) or ''),
            ('get as argument', 'MCT->arg_%s($a->[I]);' % m, lambda v, i: F(v[i])),
        ]
        for j, f in enumerate(fields):
            ops += [
                ('get {%s}' % f, log(ft, '$a->[I]->{%s}' % f), lambda v, i, j=j: G(v[i][j])),
                ('set {%s}' % f, '$a->[I]->{%s} = %s;' % (f, c(70)), lambda v, i, j=j: put(v, i, j, 70)),
                ('inc {%s}' % f, '$a->[I]->{%s}++;' % f, lambda v, i, j=j: put(v, i, j, v[i][j] + 1)),
                ('add assign {%s}' % f, '$a->[I]->{%s} += %s;' % (f, c(3)), lambda v, i, j=j: put(v, i, j, v[i][j] + 3)),
            ]
        init = lambda k: 'my $a = new %s[%d]; %s' % (m, k, ' '.join('$a->[%d]->{%s} = %s;' % (e, f, c(vals[e][j])) for e in range(k) for j, f in enumerate(fields)))
        show = 'if ($a) { for (my $j = 0; $j < @$a; $j++) { %s } }' % ' '.join(log(ft, '$a->[$j]->{%s}' % f) for f in fields)
        other = 'my $o = new %s[3]; my $p : %s; %s' % (m, m, ' '.join('$p->{%s} = %s;' % (f, c(90 + j)) for j, f in enumerate(fields)))
        out += build('%s[]' % m, m + '[]', init, show, other, ops, vals, F)
    # characters
    S = 'Abc'
    F = lambda v: chr(v)
    for kind in ('mutable', 'read-only', 'literal'):
        ops = [('get', 'my $r = $a->[I]; MCLog->i($r);', lambda v, i: '%d;' % v[i]), ('get as condition', 'if ($a->[I] == \'b\') { MCLog->s("T"); }', lambda v, i: 'sT;' if v[i] == 98 else '')]
        if kind == 'mutable':
            ops += [('set', '$a->[I] = (byte)90;', lambda v, i: v.__setitem__(i, 90) or ''), ('inc', '$a->[I]++;', lambda v, i: v.__setitem__(i, v[i] + 1) or ''), ('add assign', '$a->[I] += (byte)2;', lambda v, i: v.__setitem__(i, v[i] + 2) or ''), ('set value', "MCLog->i($a->[I] = 'q');", lambda v, i: v.__setitem__(i, ord('q')) or '113;')]
        # (a mutable variable that referred to the string before make_read_only can still write: the documentation only forbids the cast)
        init = lambda n: {'mutable': 'my $a = (mutable string)new_string_len %d; %s' % (n, ' '.join('$a->[%d] = %d;' % (k, ord(S[k])) for k in range(n))),
                          'read-only': 'my $a = (mutable string)new_string_len %d; %s make_read_only $a;' % (n, ' '.join('$a->[%d] = %d;' % (k, ord(S[k])) for k in range(n))),
                          'literal': 'my $a = "%s";' % S[:n]}[kind]
        out += build('string %s' % kind, 'mutable string' if kind != 'literal' else 'string', init, 'if ($a) { MCLog->s((string)$a); MCLog->i(length $a); }', '', ops, [ord(c) for c in S], None, tail=lambda v: 's%s;%d;' % (''.join(map(chr, v)), len(v)))
    return out


class Thrown(Exception): pass


def build(name, at, init, show, other, ops, vals, F, tail=None):
    out = []
    for n in (None, 0, 1, 2, 3):
        for opname, text, eff in ops:
            for kind in ('var', 'const', 'short', 'byte', 'call', 'arith'):
                if kind not in ('var', 'const') and (n != 2 or TIER == 'quick' and at not in ('int[]', 'MCT[]', 'T11_2l[]', 'string', 'mutable string')): continue
                if TIER == 'quick' and (n == 1 or n == 3 and kind == 'const'): continue
                body, want = [], []
                loop = kind in ('var', 'call', 'arith')
                ks = IDX(n or 0) if loop else [-1, 0, (n or 1) - 1, n or 0, 100]
                ids = text.count('I]') + text.count(', I)') if kind == 'call' else 0
                if ids > 1: continue
                st = '%s %s eval { %s MCLog->s("ok"); } if ($@) { MCLog->s("E"); } %s' % ('my $a = (%s)undef;' % at if n is None else init(n), other, text.replace('I]', typed_index('K', kind) + ']').replace(', I)', ', ' + typed_index('K', kind) + ')'), show)
                if loop: body = ['my $ks = [%s]; for my $k (@$ks) { %s }' % (', '.join(typed_index(k, 'const') for k in ks), st)]
                for k in ks:
                    if not loop: body.append('{ ' + st.replace('KK', typed_index(k, 'const')) + ' }')
                    v = list(vals[:n]) if n is not None else None
                    w = '%d;' % k if ids else ''
                    try:
                        if n is None or not 0 <= k < n: raise Thrown()
                        w += eff(v, k) + 'sok;'
                    except Thrown:
                        w += 'sE;'
                    if n is not None: w += tail(v) if tail else ''.join(F(x) for x in v)
                    want.append(w)
                if body: out.append(Item('\n'.join(body), ''.join(want), '%s of length %s: %s, index %s' % (name, n, opname, kind)))
    return out


HELP = ''.join('%%PRE%%static method arg_%s : void ($v : %s) { %s }\n%%PRE%%static method ret_%s : %s ($a : %s[], $k : int) { return $a->[$k]; }\n' % (t, t, log(t, '$v'), t, t, t) for t in ('byte', 'short', 'int', 'long', 'float', 'double'))
HELP += ''.join('%%PRE%%static method arg_%s : void ($v : %s) { %s }\n' % (m, m, ' '.join(log(ft, '$v->{%s}' % f) for f in fs)) for m, (ft, fs) in MUL.items())
HELP += '''
%PRE%static method show_o : void ($v : MCT) { if ($v) { MCLog->s("" . $v->{i}); } else { MCLog->s("-"); } }
%PRE%static method show_s : void ($v : string) { if ($v) { MCLog->s($v); } else { MCLog->s("-"); } }
%PRE%static method show_x : void ($v : object) { if ($v) { MCLog->s("" . (int)$v); } else { MCLog->s("-"); } }
%PRE%static method show_a : void ($v : int[]) { if ($v) { MCLog->s("" . $v->[0]); } else { MCLog->s("-"); } }
'''


FIELDS = [('b', 'byte', 11), ('h', 'short', 12), ('i', 'int', 13), ('l', 'long', 14), ('f', 'float', 15), ('d', 'double', 16), ('s', 'string', 's17'), ('o', 'MCT', 18), ('x', 'object', 19), ('a', 'int[]', 1), ('p', 'byte', 21), ('q', 'byte', 22), ('m', 'T11_3b[]', 1)]


def show_fields(v):
    w = ''
    for f, t, _ in FIELDS:
        x = v[f]
        if t == 'string': w += 'U;' if x is None else 's%s;' % x
        elif t in LOG and t != 'object': w += fmt(t, float(x) if t in ('float', 'double') else x)
        else: w += '%d;' % (-1 if x is None else 119 if False else (100 if t == 'object' else x))
    return w


def field_items():
    out = []
    base = {f: x for f, _, x in FIELDS}
    for f, t, x in FIELDS:
        num = t in ('byte', 'short', 'int', 'long', 'float', 'double')
        c = lambda v: '(%s)%s' % (t, v) if t in ('byte', 'short') else lit(t, float(v) if t in ('float', 'double') else v)
        ops = []
        if num:
            F = lambda v: fmt(t, float(v) if t in ('float', 'double') else v)
            ops = [('get', log(t, 'O->{%s}' % f), {}, F(x)), ('set', 'O->{%s} = %s;' % (f, c(77)), {f: 77}, ''), ('inc', 'O->{%s}++;' % f, {f: x + 1}, ''), ('dec', '--O->{%s};' % f, {f: x - 1}, ''), ('add assign', 'O->{%s} += %s;' % (f, c(3)), {f: x + 3}, ''), ('set value', log(t, '(O->{%s} = %s)' % (f, c(33))), {f: 33}, F(33)),
                   ('condition', 'if (O->{%s}) { MCLog->s("T"); }' % f, {}, 'sT;'), ('weaken like a copy', 'my $r = O->{%s}; ' % f + log(t, '$r'), {}, F(x))]
        else:
            mk = {'string': '"n"', 'MCT': 'MCT->new(5)', 'object': 'MCT->new(5)', 'int[]': '[1, 2, 3]', 'T11_3b[]': 'new T11_3b[3]'}[t]
            nv = {'string': 'n', 'MCT': 5, 'object': 5, 'int[]': 3, 'T11_3b[]': 3}[t]
            ops = [('get', 'my $r = O->{%s}; if ($r) { MCLog->s("T"); }' % f, {}, 'sT;'), ('set', 'O->{%s} = %s;' % (f, mk), {f: nv}, ''), ('set undef', 'O->{%s} = undef;' % f, {f: None}, ''), ('condition', 'if (O->{%s}) { MCLog->s("T"); }' % f, {}, 'sT;'),
                   ('compare', 'if (O->{%s} == undef) { MCLog->s("T"); }' % f, {}, ''), ('set self', 'O->{%s} = O->{%s};' % (f, f), {}, '')]
            if t == 'string': ops += [('concat assign', 'O->{s} .= "z";', {'s': 's17z'}, ''), ('length', 'MCLog->i(length O->{s});', {}, '3;'), ('char', 'MCLog->i(O->{s}->[1]);', {}, '49;')]
            if t == 'MCT': ops += [('chain get', 'MCLog->i(O->{o}->{i});', {}, '18;'), ('chain set', 'O->{o}->{i} = 44;', {'o': 44}, ''), ('chain undef', 'O->{o}->{o}->{i} = 44;', {}, None), ('method', 'MCLog->i(O->{o}->im(3));', {}, '103;'), ('isweak', 'MCLog->i(isweak O->{o});', {}, '0;'), ('unweaken', 'unweaken O->{o};', {}, ''), ('weaken kept', 'my $k = O->{o}; weaken O->{o}; MCLog->i(isweak O->{o}); unweaken O->{o};', {}, '1;'), ('weaken', 'weaken O->{o};', {'o': None}, '')]
            if t == 'int[]': ops += [('element', 'MCLog->i(O->{a}->[0]);', {}, '20;'), ('element out of range', 'MCLog->i(O->{a}->[1]);', {}, None), ('element set out of range', 'O->{a}->[-1] = 5;', {}, None), ('length', 'MCLog->i(scalar @{O->{a}});', {}, '1;')]
            if t == 'T11_3b[]': ops += [('element field', 'MCLog->i(O->{m}->[0]->{z});', {}, '0;'), ('element field out of range', 'O->{m}->[1]->{z} = 1;', {}, None)]
        for o, text, ch, w in ops:
            for inv, setup, expr in (('variable', 'my $o = $t;', '$o'), ('field', 'my $h = MCT->new; $h->{o} = $t;', '$h->{o}'), ('element', 'my $e = new MCT[2]; $e->[1] = $t;', '$e->[1]'), ('method', 'my $o = $t;', '$o->self'), ('nested field', 'my $h = MCT->new; $h->{o} = MCT->new; $h->{o}->{o} = $t;', '$h->{o}->{o}'), ('object cast', 'my $v = (object)$t;', '((MCT)$v)'), ('class variable', '$CV = $t;', '$CV')):
                if o in ('weaken', 'unweaken', 'isweak', 'weaken kept') and inv != 'variable': continue
                for und in (0, 1):
                    su = setup.replace('$t', '(MCT)undef') if und else setup
                    if und and inv == 'field': su = 'my $h = MCT->new;'
                    if und and inv == 'nested field': su = 'my $h = MCT->new;'
                    body = 'my $t = &full(); %s eval { %s MCLog->s("ok"); } if ($@) { MCLog->s("E"); } &show($t); $CV = undef;' % (su, text.replace('O->', expr + '->'))
                    v = dict(base)
                    if und or w is None: want = 'sE;'
                    else:
                        v.update(ch); want = w + 'sok;'
                    out.append(Item(body, want + show_fields(v), 'field %s (%s): %s, invocant %s%s' % (f, t, o, inv, ' undef' if und else '')))
    # calls on undef
    for inv, setup in (('MCT', 'my $o = (MCT)undef;'), ('Stringable', 'my $o = (Stringable)undef;')):
        m = 'im(1)' if inv == 'MCT' else 'to_string'
        out.append(Item('%s eval { $o->%s; MCLog->s("ok"); } if ($@) { MCLog->s("E"); }' % (setup, m), 'sE;', 'call on undef %s' % inv))
    return out


TYPES = ['byte', 'short', 'int', 'long', 'float', 'double', 'string', 'MCT', 'object', 'Int', 'Stringable'] + list(MUL)


def creation_items():
    out = []
    for t in TYPES:
        for dim in ('', '[]', '[][]'):
            if dim and t == 'object': continue
            for n in (MIN, -65536, -2, -1, 0, 1, 2, 5, 100, 127, 128, 255, 1000, 70000):
                for kind in ('const', 'var', 'byte', 'short'):
                    if kind == 'short' and not -32768 <= n < 32768: continue
                    if kind == 'byte' and not -128 <= n < 128: continue
                    if dim == '[][]' and kind != 'var': continue
                    if TIER == 'quick' and (kind in ('byte', 'short') and t not in ('int', 'MCT') or n in (-65536, 5, 100, 255, 1000)): continue
                    el = '$a->[$j]'
                    if dim or t not in LOG and t not in MUL or t in ('string', 'object'): z = 'if ($a->[$j]) { $bad++; }'
                    elif t in MUL: z = ' '.join('if ($a->[$j]->{%s} != 0) { $bad++; }' % f for f in MUL[t][1])
                    else: z = 'if ($a->[$j] != 0) { $bad++; }'
                    body = 'my $k = %s; eval { my $a = new %s%s[%s]; MCLog->s(type_name $a); MCLog->i(@$a); my $bad = 0; for (my $j = 0; $j < @$a; $j++) { %s } MCLog->i($bad); } if ($@) { MCLog->s("E"); }' % (typed_index(n, 'const'), t, dim, typed_index(n, kind), z)
                    out.append(Item(body, 'sE;' if n < 0 else 's%s%s[];%d;0;' % (t, dim, n), 'new %s%s[%d] %s' % (t, dim, n, kind)))
    for n in (MIN, -65536, -2, -1, 0, 1, 2, 5, 127, 1000, 70000):
        for kind in ('const', 'var', 'byte', 'short'):
            if kind == 'short' and not -32768 <= n < 32768: continue
            if kind == 'byte' and not -128 <= n < 128: continue
            out.append(Item('my $k = %s; eval { my $a = new_string_len %s; MCLog->i(length $a); my $bad = 0; for (my $j = 0; $j < length $a; $j++) { if ($a->[$j] != 0) { $bad++; } } MCLog->i($bad); MCLog->i(is_read_only $a); } if ($@) { MCLog->s("E"); }' % (typed_index(n, 'const'), typed_index(n, kind)), 'sE;' if n < 0 else '%d;0;0;' % n, 'new_string_len %d %s' % (n, kind)))
    for t in TYPES:
        for dim in ('', '[]'):
            if t == 'object' and dim: continue
            for form in ('MCLog->i(@$a);', 'MCLog->i(scalar @$a);', 'for my $e (@$a) { MCLog->s("e"); } MCLog->s("end");', 'my $n = @$a; MCLog->i($n);', 'if (@$a > 0) { MCLog->s("T"); }', 'for (my $i = 0; $i < @$a; $i++) { MCLog->s("e"); } MCLog->s("end");'):
                for n in (None, 0, 1, 3):
                    w = 'sE;' if n is None else {'MCLog->i(@$a);': '%d;' % n, 'MCLog->i(scalar @$a);': '%d;' % n, 'my $n = @$a; MCLog->i($n);': '%d;' % n, 'if (@$a > 0) { MCLog->s("T"); }': 'sT;' if n else ''}.get(form, 'se;' * n + 'send;')
                    if 'for my' in form and t in MUL and not dim: continue
                    out.append(Item('my $a = %s; eval { %s } if ($@) { MCLog->s("E"); }' % ('(%s%s[])undef' % (t, dim) if n is None else 'new %s%s[%d]' % (t, dim, n), form), w, '%s%s[] of %s: %s' % (t, dim, n, form)))
    # literals of arrays
    for n in range(0, 6):
        for vals, t, L in ((['%d' % (k + 5) for k in range(n)], 'int', 'i'), (['"s%d"' % k for k in range(n)], 'string', 's'), (['%dL' % k for k in range(n)], 'long', 'l'), (['MCT->new(%d)' % k for k in range(n)], 'MCT', 'o'), (['[%d]' % k for k in range(n)], 'int[]', 'a')):
            show = {'i': 'MCLog->i($e);', 's': 'MCLog->s($e);', 'l': 'MCLog->l($e);', 'o': 'MCLog->i($e->{i});', 'a': 'MCLog->i($e->[0]);'}[L]
            ex = {'i': lambda k: '%d;' % (k + 5), 's': lambda k: 'ss%d;' % k, 'l': lambda k: fmt('long', k), 'o': lambda k: '%d;' % k, 'a': lambda k: '%d;' % k}[L]
            ty = t if n else 'object'
            out.append(Item('my $a = [%s]; MCLog->s(type_name $a); MCLog->i(@$a); for my $e (@$a) { %s }' % (', '.join(vals), show if n else ''), 's%s[];%d;' % (ty, n) + ''.join(ex(k) for k in range(n)), 'array of %d %s' % (n, t)))
        out.append(Item('my $a = {%s}; MCLog->s(type_name $a); MCLog->i(@$a); for my $e (@$a) { if ($e isa string) { MCLog->s((string)$e); } else { MCLog->i((int)$e); } }' % ', '.join('k%d => %d' % (k, k) for k in range(n)), 'sobject[];%d;' % (2 * n) + ''.join('sk%d;%d;' % (k, k) for k in range(n)), 'key values %d' % n))
    # casts and other operators on undef
    for b, L in (('Byte', 'i'), ('Short', 'i'), ('Int', 'i'), ('Long', 'l'), ('Float', 'f'), ('Double', 'd')):
        for st in (b, 'object'):
            out.append(Item('my $o = (%s)undef; eval { MCLog->%s((%s)$o); } if ($@) { MCLog->s("E"); }' % (st, L, b.lower()), 'sE;', 'unbox undef %s from %s' % (b, st)))
    for text, w in (('my $r = $s . "a";', 'E'), ('my $r = "a" . $s;', 'E'), ('$s .= "a";', 'E'), ('my $r = $s . $s;', 'E'), ('my $t = "a"; $t .= $s;', 'E'), ('my $r = copy $s; MCLog->i($r == undef);', '1'), ('make_read_only $s;', ''), ('MCLog->i(is_read_only $s);', '0'), ('MCLog->i(length $s);', '0'),
                    ('my $r = (int)$s; MCLog->i($r);', '0'), ('my $r = (byte[])$s; MCLog->i($r == undef);', '1'), ('my $r = "a$s";', 'E'), ('MCLog->i($s eq "");', '0'), ('MCLog->i("" eq $s);', '0'), ('MCLog->i($s lt "a");', '1'), ('MCLog->i("a" gt $s);', '1'), ('MCLog->i($s cmp "a");', '-1'), ('MCLog->i("a" cmp $s);', '1'), ('MCLog->i($s cmp $s);', '0'), ('MCLog->i($s ne $s);', '0'), 
                    ('my $r = dump $s; MCLog->s($r);', 'undef')):
        out.append(Item('my $s = (string)undef; eval { %s MCLog->s("ok"); } if ($@) { MCLog->s("E"); }' % text, 'sE;' if w == 'E' else ('sundef;' if w == 'undef' else '%s;' % w if w else '') + 'sok;', 'undef string: ' + text))
    return out


def main():
    quick = TIER == 'quick'
    ck = Check('M11')
    sc = ck.make_scratch()
    bin_ = sc.mcrun()
    els = element_items(); fl = field_items(); cr = creation_items()
    head = HEAD + 'our $CV : MCT;\n' + HELP
    kw = dict(header=head, files=FILES, uses=USES + ' use Stringable;', cc_opt='-O0 -fsanitize=address')
    for name, its in (('element', els), ('field', fl), ('creation', cr)):
        run_items(ck, bin_, its, modes=('interpreted', 'precompile'), chunk=150, **kw)
        ck.count(states=2 * sum(i.body.count('eval') or 1 for i in its))
    ck.finish(bound='%d element programs, %d field programs, %d creation and length programs' % (len(els), len(fl), len(cr)))
