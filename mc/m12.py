"""M12: strings: every sequence of string operations over shared, mutable and read-only strings, and every operator on every pair of short strings."""
import itertools
from common import *
from machine import check
from progs import *


class S:
    __slots__ = ('b', 'ro', 'lit')
    def __init__(s, b, ro=0): s.b, s.ro = bytearray(b), ro


class Model:
    "places: a b (string), m (mutable string), f (field), e (array element), c (class variable)"
    def __init__(s):
        s.v = dict(a=None, b=None, m=None, f=None, e=None, c=None)
        s.lits = {}
        s.v['e'] = s.lit(b'e')

    def lit(s, t):
        if t not in s.lits: s.lits[t] = S(t, 1)
        return s.lits[t]

    def copy(s):
        g = Model.__new__(Model); mp = {}
        def cp(x):
            if x is None: return None
            if id(x) not in mp: mp[id(x)] = S(x.b, x.ro)
            return mp[id(x)]
        g.v = {k: cp(x) for k, x in s.v.items()}; g.lits = {k: cp(x) for k, x in s.lits.items()}
        return g

    def canon(s):
        ids = {}
        out = []
        for k, x in s.v.items():
            if x is None: out.append(None)
            else: out.append((ids.setdefault(id(x), len(ids)), bytes(x.b), x.ro, any(x is l for l in s.lits.values())))
        return tuple(out)

    def size(s): return max([len(x.b) for x in s.v.values() if x] + [0])

    def show(s):
        out = ''
        for k in 'abmfec':
            x = s.v[k]
            out += 'U;' if x is None else 's%s;%d;%d;' % (esc(bytes(x.b)), len(x.b), x.ro)
        v = s.v
        def cmp(x, y):
            x, y = v[x], v[y]
            if x is None or y is None: return (x is not None) - (y is not None)
            return (x.b > y.b) - (x.b < y.b)
        return out + '%d;%d;' % (cmp('a', 'b'), int(cmp('a', 'm') == 0))

    def cat(s, *xs):
        if any(x is None for x in xs): return None
        return S(b''.join(x if isinstance(x, bytes) else bytes(x.b) for x in xs))

    def put(s, k, x):
        if x is None: return 'sE;'
        s.v[k] = x
        return ''

    def op(s, c):
        v = s.v
        o = OPS[c][1]
        return o(s, v)


def setv(k, f):
    def g(s, v): v[k] = f(s, v); return ''
    return g
def cat(k, *parts):
    "parts: names of places or bytes"
    return lambda s, v: s.put(k, s.cat(*[p if isinstance(p, bytes) else v[p] for p in parts]))
def tomut(k, src):
    def g(s, v):
        x = v[src]
        if x is not None and x.ro: return 'sE;'
        v[k] = x
        return ''
    return g
def setc(k, pos, f):
    def g(s, v):
        x = v[k]
        if x is None or not len(x.b): return 'sE;'
        p = 0 if pos == 0 else len(x.b) - 1
        x.b[p] = f(x.b[p]) & 255
        return ''
    return g
def ro(k):
    def g(s, v):
        if v[k] is not None: v[k].ro = 1
        return ''
    return g
def cp(x): return None if x is None else S(x.b)


OPS = {
    'a': ('$a = "x1";', setv('a', lambda s, v: s.lit(b'x1'))),
    'b': ('$a = undef;', setv('a', lambda s, v: None)),
    'c': ('$b = $a;', setv('b', lambda s, v: v['a'])),
    'd': ('$a = $b;', setv('a', lambda s, v: v['b'])),
    'e': ('$a .= $b;', cat('a', 'a', 'b')),
    'f': ('$a .= $a;', cat('a', 'a', 'a')),
    'g': ('$a = $b . $a;', cat('a', 'b', 'a')),
    'h': ('$m = (mutable string)$a;', tomut('m', 'a')),
    'i': ('$a = $m;', setv('a', lambda s, v: v['m'])),
    'j': ("$m->[0] = 'Z';", setc('m', 0, lambda c: 90)),
    'k': ('$m->[length $m - 1]++;', setc('m', -1, lambda c: c + 1)),
    'l': ('$m = (mutable string)copy $a;', setv('m', lambda s, v: cp(v['a']))),
    'm': ('make_read_only $m;', ro('m')),
    'n': ('$o->{s} = $a;', setv('f', lambda s, v: v['a'])),
    'o': ('$o->{s} .= $b;', cat('f', 'f', 'b')),
    'p': ('$a = $o->{s};', setv('a', lambda s, v: v['f'])),
    'q': ('$r->[1] .= $a;', cat('e', 'e', 'a')),
    'r': ('$b = $r->[1];', setv('b', lambda s, v: v['e'])),
    's': ('$CV .= $a;', cat('c', 'c', 'a')),
    't': ('$CV = $m;', setv('c', lambda s, v: v['m'])),
    'u': ('$a = "<$a>";', cat('a', b'<', 'a', b'>')),
    'v': ('$a = new_string_len 2;', setv('a', lambda s, v: S(b'\0\0'))),
    'w': ('$b = (string)(byte[])$a;', setv('b', lambda s, v: cp(v['a']))),
    'x': ('$b = "" . $m;', cat('b', b'', 'm')),
    'y': ('$b = "";', setv('b', lambda s, v: s.lit(b''))),
    'z': ('$m = undef;', setv('m', lambda s, v: None)),
    'A': ('$a .= "\\x00\\xff";', cat('a', 'a', b'\0\xff')),
    'B': ('$a .= 7;', cat('a', 'a', b'7')),
    'C': ('$b = (string)12;', setv('b', lambda s, v: S(b'12'))),
    'D': ('make_read_only $b;', ro('b')),
    'E': ('$r->[1] = $o->{s};', setv('e', lambda s, v: v['f'])),
    'F': ('$b = $a . $m . $b;', cat('b', 'a', 'm', 'b')),
    'G': ('$a = &id($m);', setv('a', lambda s, v: v['m'])),
    'H': ('my $t = $a . $b; $t .= $t; $b = $t;', lambda s, v: s.put('b', s.cat('', '') if 0 else s.cat(*([v['a'], v['b']] * 2)))),
    'I': ('$b = $b . (byte[])"k";', cat('b', 'b', b'k')),
    'J': ('$b = copy $m;', setv('b', lambda s, v: cp(v['m']))),
}
SHOW = ''.join('my $x_%s = %s; if ($x_%s) { MCLog->s($x_%s); MCLog->i(length $x_%s); MCLog->i(is_read_only $x_%s); } else { MCLog->s(undef); }\n' % (n, e, n, n, n, n)
               for n, e in (('a', '$a'), ('b', '$b'), ('m', '(string)$m'), ('f', '$o->{s}'), ('e', '$r->[1]'), ('c', '$CV'))) + 'MCLog->i($a cmp $b); MCLog->i($a eq $m);'
SETUP = 'my $a : string; my $b : string; my $m : mutable string; my $o = new MCT; my $r = ["d", "e"]; $CV = undef;'
MEMBERS = 'has s : string; our $CV : string; %PRE% static method id : string ($x : string) { return $x; }'

STR = [bytes(s) for n in (0, 1, 2) for s in itertools.product(b'\0ab\x7f\x80\xff', repeat=n)] + [b'abc', b'abd', b'aba', b'\0\0\0', b'a' * 16, b'a' * 17, b'a' * 15 + b'b', b'a' * 255, b'a' * 256, b'a' * 300 + b'\xff', b'a' * 300 + b'b', b'10', b'9', None]


def L(s): return '(string)undef' if s is None else '"%s"' % ''.join('\\x%02x' % c for c in s) if len(s) < 200 else '&rep(%d) . "%s"' % (len(s) - 1, chr(s[-1]) if s[-1] < 128 else '\\x%02x' % s[-1])


def pair_items():
    out = []
    n = len(STR)
    decl = 'my $vs = new string[%d]; %s' % (n, ' '.join('$vs->[%d] = %s;' % (k, L(s)) for k, s in enumerate(STR) if s is not None))
    def c(x, y):
        if x is None or y is None: return (x is not None) - (y is not None)
        return (x > y) - (x < y)
    for op, f in (('eq', lambda k: k == 0), ('ne', lambda k: k != 0), ('lt', lambda k: k < 0), ('le', lambda k: k <= 0), ('gt', lambda k: k > 0), ('ge', lambda k: k >= 0), ('cmp', lambda k: k)):
        for form in ('value', 'condition', 'unless', 'negated', 'element'):
            if op == 'cmp' and form in ('condition', 'unless', 'negated'): g = lambda k: int((k != 0) == (form == 'condition'))
            else: g = f if form in ('value', 'condition', 'element') else (lambda k: not f(k))
            ex = {'value': 'my $z = $x %s $y; $t .= $z;', 'condition': 'if ($x %s $y) { $t .= 1; } else { $t .= 0; }', 'unless': 'unless ($x %s $y) { $t .= 1; } else { $t .= 0; }', 'negated': 'if (!($x %s $y)) { $t .= 1; } else { $t .= 0; }', 'element': '$t .= ($vs->[$i] %s $vs->[$j]);'}[form] % op
            body = decl + ' for (my $i = 0; $i < @$vs; $i++) { my $x = $vs->[$i]; my $t = ""; for (my $j = 0; $j < @$vs; $j++) { my $y = $vs->[$j]; %s } MCLog->s($t); }' % ex
            want = ''.join('s%s;' % ''.join('%d' % g(c(x, y)) for y in STR) for x in STR)
            out.append(Item(body, want, 'comparison %s as %s' % (op, form)))
    for what, ex, f in (('concat', 'my $z = $x . $y;', lambda x, y: x + y), ('concat assign', 'my $z = $x; $z .= $y;', lambda x, y: x + y), ('concat three', 'my $z = $x . $y . $x;', lambda x, y: x + y + x), ('interpolate', 'my $z = "$x-$y";', lambda x, y: x + b'-' + y), ('interpolate braces', 'my $z = "${x}1${y}";', lambda x, y: x + b'1' + y),
                        ('concat bytes right', 'my $z = $x . (byte[])$y;', lambda x, y: x + y), ('concat bytes left', 'my $z = (byte[])$x . $y;', lambda x, y: x + y), ('concat field', 'my $o = new MCT; $o->{s} = $x; $o->{s} .= $y; my $z = $o->{s};', lambda x, y: x + y), ('concat element', 'my $r = [$x]; $r->[0] .= $y; my $z = $r->[0];', lambda x, y: x + y),
                        ('concat class variable', '$CV = $x; $CV .= $y; my $z = $CV; $CV = undef;', lambda x, y: x + y), ('concat mutable', 'my $z = (mutable string)copy $x . $y;'.replace('copy $x . $y', '($x . $y)') + " if (length $z) { $z->[0] = $z->[0]; }", lambda x, y: x + y)):
        body = decl + ' for my $x (@$vs) { for my $y (@$vs) { eval { %s MCLog->i(length $z); MCLog->i(&sum($z)); MCLog->i($z->[length $z]); } if ($@) { MCLog->s($@ =~ "x"); } } }' % ex
        body = decl + ' for my $x (@$vs) { for my $y (@$vs) { eval { %s MCLog->i(length $z); MCLog->i(&sum($z)); MCLog->i(is_read_only $z); } if ($@) { MCLog->s("E"); } } }' % ex
        want = ''
        for x in STR:
            for y in STR:
                if x is None or y is None: want += 'sE;'
                else:
                    z = f(x, y); h = 0
                    for ch in z: h = (h * 31 + ch + 1) & 0x7fffff
                    want += '%d;%d;0;' % (len(z), h)
        if what == 'concat class variable': body = body.replace('if ($@) {', 'if ($@) { $CV = undef;')
        out.append(Item(body, want, what))
    for s in STR:
        for what, ex, w in (('length', 'MCLog->i(length $x);', '%d;' % (len(s) if s is not None else 0)), ('copy', 'my $z = copy $x; MCLog->s($z); MCLog->i($z == $x);', ('U;1;' if s is None else 's%s;0;' % esc(s))), ('foreach character', 'for (my $i = 0; $i < length $x; $i++) { MCLog->i($x->[$i]); }', ''.join('%d;' % (c - 256 if c > 127 else c) for c in s or b'')),
                            ('condition', 'if ($x) { MCLog->s("T"); }', '' if s is None else 'sT;'), ('type name', 'if ($x) { MCLog->s(type_name $x); }', '' if s is None else 'sstring;'), ('read only', 'MCLog->i(is_read_only $x);', None), ('isa', 'MCLog->i((object)$x isa string);', None)):
            if w is not None: out.append(Item('my $x = %s; %s' % (L(s), ex), w, '%s of %s' % (what, esc(s) if s is not None else 'undef')))
    # numbers on either side
    for t, e, w in (('byte', '(byte)-5', b'-5'), ('short', '(short)300', b'300'), ('int', '-7', b'-7'), ('long', '9223372036854775807L', b'9223372036854775807'), ('float', '0.1f', b'0.1'), ('double', '1e100', b'1e+100'), ('double', '1.5', b'1.5')):
        for ex, z in (('$s . $n', b'q' + w), ('$n . $s', w + b'q'), ('$n . $n', w + w), ('"" . $n . $s', w + b'q'), ('"$s" . -$n' if 0 else '$s . ($n + 0)', b'q' + w), ('$s . $n . $n', b'q' + w + w)):
            out.append(Item('my $s = "q"; my $n = %s; MCLog->s(%s);' % (e, ex), 's%s;' % esc(z), '%s with %s %s' % (ex, t, e)))
        out.append(Item('my $s = "q"; my $n = %s; $s .= $n; MCLog->s($s); $s .= $n; MCLog->s($s);' % e, 's%s;s%s;' % (esc(b'q' + w), esc(b'q' + w + w)), '.= %s %s' % (t, e)))
    return out


HEAD = '''
has s : string; our $CV : string;
%PRE%static method rep : string ($n : int) { my $s = (mutable string)new_string_len $n; for (my $i = 0; $i < $n; $i++) { $s->[$i] = 'a'; } return $s; }
%PRE%static method sum : int ($s : string) { my $h = 0; for (my $i = 0; $i < length $s; $i++) { $h = ($h * 31 + ((int)$s->[$i] & 255) + 1) & 0x7fffff; } return $h; }
'''


def main():
    quick = TIER == 'quick'
    ck = Check('M12')
    sc = ck.make_scratch()
    bin_ = sc.mcrun()
    cap = check(ck, bin_, 'strings', Model, OPS_SRC, '', SETUP, SHOW, '$CV = undef;', MEMBERS, depth=2 if quick else 3, max_states=1500 if quick else 25000, max_depth=5 if quick else 8, bound=lambda m: m.size() > 8)
    its = pair_items()
    run_items(ck, bin_, its, chunk=60, header=HEAD, uses='use MCLog;')
    ck.count(states=2 * sum(i.want.count(';') for i in its))
    ck.finish(exhaustive=True, bound='%d operations on 6 places, all sequences of length 2 (3 in thorough), then breadth first by state; operators on all pairs of %d strings' % (len(OPS), len(STR)))


OPS_SRC = {k: v[0] for k, v in OPS.items()}
