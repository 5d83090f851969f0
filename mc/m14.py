"""M14: the list classes: every sequence of list operations against a plain sequence, for every element type."""
from common import *
from machine import check
from progs import *
import itertools

# class, element type, literals of values 0..9, expression that shows an element
TYPES = {
    'ByteList': ('byte', lambda v: '(byte)%d' % {9: -128, 8: 127}.get(v, v), 'MCLog->i(%s);', lambda v: '%d;' % {9: -128, 8: 127}.get(v, v)),
    'ShortList': ('short', lambda v: '(short)%d' % {9: -32768, 8: 32767}.get(v, v), 'MCLog->i(%s);', lambda v: '%d;' % {9: -32768, 8: 32767}.get(v, v)),
    'IntList': ('int', lambda v: '%d' % {9: -2**31, 8: 2**31 - 1}.get(v, v), 'MCLog->i(%s);', lambda v: '%d;' % {9: -2**31, 8: 2**31 - 1}.get(v, v)),
    'LongList': ('long', lambda v: '%dL' % {9: -2**63 + 1, 8: 2**40}.get(v, v), 'MCLog->l(%s);', lambda v: '%d;' % {9: -2**63 + 1, 8: 2**40}.get(v, v)),
    'FloatList': ('float', lambda v: '%d.5f' % v if v else '0.0f', 'MCLog->i((int)(%s * 2));', lambda v: '%d;' % (2 * v + 1 if v else 0)),
    'DoubleList': ('double', lambda v: '%d.25' % v if v else '0.0', 'MCLog->i((int)(%s * 4));', lambda v: '%d;' % (4 * v + 1 if v else 0)),
    'StringList': ('string', lambda v: '$p->[%d]' % v, 'MCLog->i(&which($p, %s));', lambda v: '%d;' % v),
    'List': ('object', lambda v: '$p->[%d]' % v, 'MCLog->i(&which($p, %s));', lambda v: '%d;' % v),
}
OBJ = ('StringList', 'List')


class Model:
    kind = 'IntList'
    def __init__(s): s.x, s.cap, s.off = [], 4, 0
    def copy(s):
        g = s.__class__.__new__(s.__class__); g.x, g.cap, g.off = list(s.x), s.cap, s.off
        return g
    def canon(s): return tuple(s.x), s.cap, s.off
    def show(s):
        f = TYPES[s.kind][3]
        return '%d;' % len(s.x) + ''.join(f(v) for v in s.x) + 's/;' + ''.join(f(v) for v in s.x) + '1;1;'
    def grow(s, n):
        if n > s.cap: s.cap = 2 * n
    def op(s, c):
        try: return OPS[c][1](s, s.x) or ''
        except IndexError: return 'sE;'


def need(c):
    if not c: raise IndexError
def lift(f):
    "an operation that throws changes nothing"
    def g(s, x):
        y, cap, off = list(x), s.cap, s.off
        r = f(s, x)
        return r
    return g
def push(v):
    def f(s, x): s.grow(len(x) + 1); x.append(v)
    return f
def unshift(v):
    def f(s, x):
        s.grow(len(x) + 1); x.insert(0, v); s.off -= 1
        if s.off < 0: s.off = s.cap - 1
    return f
def pop(s, x): need(x); return TYPES[s.kind][3](x.pop())
def shift(s, x):
    need(x); r = TYPES[s.kind][3](x.pop(0)); s.off += 1
    if s.off >= s.cap: s.off -= s.cap
    return r
def insert(i, v):
    def f(s, x):
        k = i(x); need(0 <= k <= len(x)); s.grow(len(x) + 1); x.insert(k, v)
    return f
def remove(i):
    def f(s, x):
        k = i(x); need(0 <= k < len(x)); return TYPES[s.kind][3](x.pop(k))
    return f
def set_(i, v):
    def f(s, x): k = i(x); need(0 <= k < len(x)); x[k] = v
    return f
def get(i):
    def f(s, x): k = i(x); need(0 <= k < len(x)); return TYPES[s.kind][3](x[k])
    return f
def replace(i, n, vs):
    def f(s, x):
        k, m = i(x), n(x); need(k >= 0 and m >= 0 and k + m <= len(x))
        s.grow(len(x) - m + len(vs)); x[k:k + m] = vs
    return f
def resize(n):
    def f(s, x):
        m = n(x); need(m >= 0); s.grow(m) if m > len(x) else 0
        x[:] = (x + [0] * max(0, m - len(x)))[:m]
    return f
def reserve(n):
    def f(s, x):
        k = n(s.cap)
        need(k >= 0)
        s.cap = max(s.cap, k); return '1;'
    return f
def init(vs, cap):
    def f(s, x): x[:] = vs; s.cap = max(len(vs), 4 if cap < 0 else cap); s.off = 0; return '1;'
    return f
def new_len(n, cap):
    def f(s, x): need(n >= 0); x[:] = [0] * n; s.cap = max(n, 4 if cap < 0 else cap); s.off = 0; return '1;'
    return f


ZERO, ONE, LAST, LEN, NEG, PAST = (lambda x: 0), (lambda x: 1), (lambda x: len(x) - 1), (lambda x: len(x)), (lambda x: -1), (lambda x: len(x) + 1)
MX = 2147483647
# statements: %(T)s element type, %(C)s class, @N the value N, #{e} shows e, PROTO leading argument of new_len
OPS = {
    'a': ('$l->push(@1);', push(1)),
    'b': ('$l->unshift(@2);', unshift(2)),
    'c': ('my $v = $l->pop; #{$v}', pop),
    'd': ('my $v = $l->shift; #{$v}', shift),
    'e': ('$l->insert(0, @3);', insert(ZERO, 3)),
    'f': ('$l->insert(1, @9);', insert(ONE, 9)),
    'g': ('$l->insert($l->length, @0);', insert(LEN, 0)),
    'h': ('$l->insert(-1, @3);', insert(NEG, 3)),
    'i': ('$l->insert($l->length + 1, @3);', insert(PAST, 3)),
    'j': ('my $v = $l->remove(0); #{$v}', remove(ZERO)),
    'k': ('my $v = $l->remove(1); #{$v}', remove(ONE)),
    'l': ('my $v = $l->remove($l->length - 1); #{$v}', remove(LAST)),
    'm': ('my $v = $l->remove($l->length);', remove(LEN)),
    'n': ('$l->set(0, @4);', set_(ZERO, 4)),
    'o': ('$l->set($l->length - 1, @8);', set_(LAST, 8)),
    'p': ('$l->set($l->length, @4);', set_(LEN, 4)),
    'q': ('$l->set(-1, @4);', set_(NEG, 4)),
    'r': ('my $v = $l->get(-1);', get(NEG)),
    's': ('my $v = $l->get($l->length);', get(LEN)),
    't': ('$l->replace(0, 0, [@5, @6]);', replace(ZERO, ZERO, [5, 6])),
    'u': ('$l->replace(1, 1, [@7]);', replace(ONE, ONE, [7])),
    'v': ('$l->replace(0, $l->length, undef);', replace(ZERO, LEN, [])),
    'w': ('$l->replace(1, 2, [@8, @0, @9, @1]);', replace(ONE, lambda x: 2, [8, 0, 9, 1])),
    'x': ('$l->replace(1, 2, new %(T)s[0]);', replace(ONE, lambda x: 2, [])),
    'y': ('$l->replace(1, 2147483647, undef);', replace(ONE, lambda x: MX, [])),
    'z': ('$l->replace(-1, 1, [@5]);', replace(NEG, ONE, [5])),
    'A': ('$l->replace(0, -1, [@5]);', replace(ZERO, NEG, [5])),
    'B': ('$l->replace($l->length + 1, 0, undef);', replace(PAST, ZERO, [])),
    'C': ('$l->replace($l->length, 0, [@2, @3]);', replace(LEN, ZERO, [2, 3])),
    'D': ('$l->resize($l->length + 1);', resize(PAST)),
    'E': ('$l->resize($l->length - 1);', resize(LAST)),
    'F': ('$l->resize(0);', resize(ZERO)),
    'G': ('$l->resize($l->length + 3);', resize(lambda x: len(x) + 3)),
    'H': ('my $c = $l->capacity; $l->reserve($c + 1); MCLog->i($l->capacity == $c + 1);', reserve(lambda c: c + 1)),
    'I': ('my $c = $l->capacity; $l->reserve($c); MCLog->i($l->capacity == $c);', reserve(lambda c: c)),
    'J': ('$l->reserve(-1);', reserve(lambda c: -1)),
    'K': ('$l = %(C)s->new([@1, @2, @3]); MCLog->i($l->capacity == 4);', init([1, 2, 3], -1)),
    'L': ('$l = %(C)s->new([@1, @0], 1); MCLog->i($l->capacity == 2);', init([1, 0], 1)),
    'M': ('$l = %(C)s->new(undef, 0); MCLog->i($l->capacity == 0);', init([], 0)),
    'N': ('$l = %(C)s->new_len(%(P)s2); MCLog->i($l->capacity == 4);', new_len(2, -1)),
    'O': ('$l = %(C)s->new_len(%(P)s3, 1); MCLog->i($l->capacity == 3);', new_len(3, 1)),
    'P': ('my $m = %(C)s->new_len(%(P)s-1);', new_len(-1, -1)),
    'Q': ('my $a = $l->to_array; if (@$a) { $a->[0] = @9; $a->[@$a - 1] = @9; } $a = [@1, @2]; my $m = %(C)s->new($a); $a->[0] = @7; #{$m->get(0)}', lambda s, x: TYPES[s.kind][3](1)),
    'R': ('my $a = [@1, @2]; $l->replace(0, 0, $a); $a->[0] = @9;', replace(ZERO, ZERO, [1, 2])),
    'S': ('my $m = %(C)s->new($l->to_array); $m->push(@9); if ($m->length > 1) { $m->set(0, @9); }', lambda s, x: ''),
}


def subst(t, c):
    import re
    T, lit, show, _ = TYPES[c]
    t = re.sub(r'@(\d)', lambda m: lit(int(m.group(1))) if c not in OBJ else '$p->[%s]' % m.group(1), t)
    if c not in OBJ and c != 'IntList':
        t = re.sub(r'\[((?:[^\[\],$]+)(?:, [^\[\],$]+)*)\]', lambda m: '[%s]' % m.group(1), t)
    t = re.sub(r'#\{(.*?)\}(?=;|$| |)', lambda m: show % m.group(1), t) if '#{' in t else t
    t = t.replace('%(T)s', T).replace('%(C)s', c).replace('%(P)s', {'List': 'new object[0], '}.get(c, ''))
    return t


def run_class_(ck, bin_, c, quick):
    T, lit, show, _ = TYPES[c]
    M = type('Model_' + c, (Model,), {'kind': c})
    ops = {}
    for k, (t, f) in OPS.items():
        if k == 'J' and c in OBJ: continue                                # not documented for List
        if k in 'NOP' and c == 'StringList': t = t.replace('%(P)s', '')
        if k == 'f' and c in OBJ: pass
        ops[k] = subst(t, c)
    setup = ''
    if c == 'StringList': setup = 'my $p = new string[10]; for (my $i = 1; $i < 10; $i++) { $p->[$i] = copy "same"; }'
    if c == 'List': setup = 'my $p = new object[10]; for (my $i = 1; $i < 10; $i++) { $p->[$i] = Int->new(7); }'
    setup += ' my $l = %s->new;' % c
    arr = '$arr' if c in OBJ else '$arr'
    sh = 'MCLog->i($l->length); for (my $i = 0; $i < $l->length; $i++) { %s } MCLog->s("/"); my $arr = $l->to_array; for (my $i = 0; $i < @$arr; $i++) { %s } MCLog->i($l->capacity >= $l->length);' % (show % '$l->get($i)', show % '$arr->[$i]')
    # no element is left behind the end: grow within the capacity, look, and shrink again
    if c in OBJ: sh += ' my $n = $l->length; $l->resize($l->capacity); my $clear = 1; for (my $i = $n; $i < $l->length; $i++) { if ($l->get($i)) { $clear = 0; } } $l->resize($n); MCLog->i($clear);'
    else: sh += ' my $u = $l->get_array_unsafe; my $clear = 1; for (my $i = $l->length; $i < $l->capacity; $i++) { if ($u->[$i] != 0) { $clear = 0; } } MCLog->i($clear);'
    members = '' if c not in OBJ else '%%PRE%% static method which : int ($p : %s[], $o : object) { for (my $i = 0; $i < @$p; $i++) { if ($p->[$i] == $o) { return $i; } } return -1; }' % T
    full = c in ('IntList', 'List', 'StringList')
    return check(ck, bin_, c, M, ops, 'use %s; use Int;' % c, setup, sh, '', members, depth=(2 if quick else 3) if full or not quick else 2, max_states=(900 if full else 120) if quick else (8000 if full else 2500), max_depth=9, bound=lambda m: len(m.x) > (6 if quick else 8), modes=('interpreted',) if quick and not full else ('interpreted', 'precompile'))


def immutable_items():
    out = []
    for c in list(TYPES)[:7]:
        T, lit, show, f = TYPES[c]
        if c == 'StringList':
            lit = lambda v: '"v%d"' % v if v else '(string)undef'; show = 'MCLog->s(%s);'; f = lambda v: 'sv%d;' % v if v else 'U;'
        K = 'Immutable::' + c
        for xs in [list(p) for n in range(4) for p in itertools.product((0, 1, 9), repeat=n)]:
            n = len(xs)
            shl = 'MCLog->i($l->length); for (my $i = 0; $i < $l->length; $i++) { %s }' % (show % '$l->get($i)')
            want = '%d;' % n + ''.join(f(v) for v in xs)
            mk = 'my $a = new %s[%d]; %s my $l = %s->new($a);' % (T, n, ' '.join('$a->[%d] = %s;' % (k, lit(v)) for k, v in enumerate(xs)), K)
            spoil = 'for (my $i = 0; $i < @$a; $i++) { $a->[$i] = %s; }' % lit(5)
            spoilb = spoil.replace('$a', '$b')
            body = mk + shl + spoil + shl + 'my $b = $l->to_array; MCLog->s(type_name $b); for (my $i = 0; $i < @$b; $i++) { %s }' % (show % '$b->[$i]') + spoilb + shl + 'for (my $k = -1; $k < 5; $k++) { eval { my $v = $l->get($k); %s } if ($@) { MCLog->s("E"); } }' % (show % '$v')
            w = want * 2 + 's%s[];' % T + ''.join(f(v) for v in xs) + want + 'sE;' + ''.join(f(xs[k]) if k < n else 'sE;' for k in range(5))
            out.append(Item(body, w, '%s of %r' % (K, xs)))
            if c == 'StringList' and n and xs[0]:
                out.append(Item('my $m = (mutable string)copy %s; my $l = %s->new([(string)$m]); $m->[0] = \'Z\'; MCLog->s($l->get(0)); MCLog->i(is_read_only $l->get(0)); eval { ((mutable string)$l->get(0))->[0] = \'Q\'; MCLog->s("written"); } MCLog->s($l->get(0)); MCLog->i(is_read_only $l->to_array->[0]);' % (lit(xs[0]), K), f(xs[0]) + '1;' + f(xs[0]) + '1;', '%s strings stay unchanged %r' % (K, xs)))
        for n in (-2147483647, -1, 0, 1, 3):
            out.append(Item('eval { my $l = %s->new_len(%d); MCLog->i($l->length); for (my $i = 0; $i < $l->length; $i++) { %s } } if ($@) { MCLog->s("E"); }' % (K, n, show % '$l->get($i)'), 'sE;' if n < 0 else '%d;' % n + f(0) * n, '%s new_len %d' % (K, n)))
        out.append(Item('my $l = %s->new; MCLog->i($l->length); $l = %s->new(undef); MCLog->i($l->length); MCLog->i(@{$l->to_array});' % (K, K), '0;0;0;', K + ' without elements'))
    return out


def main():
    quick = TIER == 'quick'
    ck = Check('M14')
    sc = ck.make_scratch()
    bin_ = sc.mcrun()
    cap = False
    for c in TYPES: cap = run_class_(ck, bin_, c, quick) or cap
    its = immutable_items()
    run_items(ck, bin_, its, chunk=60, uses='use MCLog; %s' % ' '.join('use Immutable::%s;' % c for c in list(TYPES)[:7]))
    ck.count(states=2 * len(its))
    ck.finish(exhaustive=True, bound='every sequence of 2 list operations (3 in thorough), then breadth first by list content, capacity and offset; every immutable list of up to 3 elements')
