"""M16: StringBuffer: every sequence of buffer operations against a plain byte sequence."""
import itertools
from common import *
from machine import check
from progs import *

MX = 2147483647


class Model:
    def __init__(s): s.x, s.cap = b'', 4
    def copy(s):
        g = Model.__new__(Model); g.x, g.cap = s.x, s.cap
        return g
    def canon(s): return s.x, s.cap
    def show(s): return '%d;s%s;%d;1;1;' % (len(s.x), esc(s.x), len(s.x))
    def op(s, c):
        try: return OPS[c][1](s) or ''
        except IndexError: return 'sE;'
    def grow(s, n):
        if n > s.cap: s.cap = 2 * n


def need(c):
    if not c: raise IndexError
def push(b, off=0, n=-1):
    def f(s):
        need(b is not None and off >= 0)
        m = len(b) - off if n == -1 else n
        need(m >= 0 and off + m <= len(b))
        s.grow(len(s.x) + m); s.x += b[off:off + m]
    return f
def replace(off, n, r):
    def f(s):
        o, m = off(s.x), n(s.x)
        need(o >= 0 and m >= 0 and o + m <= len(s.x))
        s.grow(len(s.x) - m + len(r)); s.x = s.x[:o] + r + s.x[o + m:]
    return f
def set_length(n):
    def f(s):
        m = n(s.x); need(m >= 0); s.grow(m)
        s.x = (s.x + b'\0' * max(0, m - len(s.x)))[:m]
    return f
def set_(b):
    def f(s): s.grow(len(b)); s.x = b
    return f
def init(b, cap):
    def f(s): s.x = b; s.cap = max(len(b), 4 if cap < 0 else cap); return '%d;' % s.cap
    return f
def reserve(d):
    def f(s):
        n = s.cap + d if d >= -1 else d
        if d == -1: n = 0
        need(n >= 0); s.cap = max(s.cap, n); return '1;'
    return f
def K(n): return lambda x: n
LEN = lambda x: len(x)
def cmp(b):
    def f(s):
        r = (s.x > b) - (s.x < b)
        return '%d;%d;%d;' % (r, -r, int(r == 0))
    return f


OPS = {
    'a': ('$b->push("ab");', push(b'ab')),
    'b': ('$b->push("\\x00\\xff");', push(b'\0\xff')),
    'c': ('$b->push("");', push(b'')),
    'd': ('$b->push("cdefgh", 2);', push(b'cdefgh', 2)),
    'e': ('$b->push("cdefgh", 1, 3);', push(b'cdefgh', 1, 3)),
    'f': ('$b->push("cde", 3);', push(b'cde', 3)),
    'g': ('$b->push("cde", 4);', push(b'cde', 4)),
    'h': ('$b->push("cde", -1);', push(b'cde', -1)),
    'i': ('$b->push("cde", 1, 3);', push(b'cde', 1, 3)),
    'j': ('$b->push("cde", 1, 2147483647);', push(b'cde', 1, MX)),
    'k': ('$b->push(undef);', push(None)),
    'l': ('$b->push("cde", 1, 0);', push(b'cde', 1, 0)),
    'm': ("$b->push_char('q');", push(b'q')),
    'n': ('$b->push_char(0);', push(b'\0')),
    'o': ('$b->push_char(255);', push(b'\xff')),
    'p': ('$b->replace(0, 0, "xy");', replace(K(0), K(0), b'xy')),
    'q': ('$b->replace(1, 1, "Z");', replace(K(1), K(1), b'Z')),
    'r': ('$b->replace(0, 2, "");', replace(K(0), K(2), b'')),
    's': ('$b->replace(0, $b->length, undef);', replace(K(0), LEN, b'')),
    't': ('$b->replace($b->length, 0, "end");', replace(LEN, K(0), b'end')),
    'u': ('$b->replace(1, 2, "longer");', replace(K(1), K(2), b'longer')),
    'v': ('$b->replace(1, 2147483647, "x");', replace(K(1), K(MX), b'x')),
    'w': ('$b->replace(-1, 1, "x");', replace(K(-1), K(1), b'x')),
    'x': ('$b->replace(0, -1, "x");', replace(K(0), K(-1), b'x')),
    'y': ('$b->replace($b->length + 1, 0, "x");', replace(lambda x: len(x) + 1, K(0), b'x')),
    'z': ('$b->replace(1, 3, "k");', replace(K(1), K(3), b'k')),
    'A': ('$b->set_length(0);', set_length(K(0))),
    'B': ('$b->set_length($b->length + 1);', set_length(lambda x: len(x) + 1)),
    'C': ('$b->set_length($b->length - 1);', set_length(lambda x: len(x) - 1)),
    'D': ('$b->set_length($b->length + 4);', set_length(lambda x: len(x) + 4)),
    'E': ('$b->set("new");', set_(b'new')),
    'F': ('$b->set("");', set_(b'')),
    'G': ('my $c = $b->capacity; $b->reserve($c + 1); MCLog->i($b->capacity == $c + 1);', reserve(1)),
    'H': ('my $c = $b->capacity; $b->reserve(0); MCLog->i($b->capacity == $c);', reserve(-1)),
    'I': ('$b->reserve(-2);', reserve(-2)),
    'J': ('$b = StringBuffer->new("abc"); MCLog->i($b->capacity);', init(b'abc', -1)),
    'K': ('$b = StringBuffer->new("abcdef", 2); MCLog->i($b->capacity);', init(b'abcdef', 2)),
    'L': ('$b = StringBuffer->new(undef, 0); MCLog->i($b->capacity);', init(b'', 0)),
    'M': ('$b = StringBuffer->new_len(3, 7); MCLog->i($b->capacity);', init(b'\0\0\0', 7)),
    'N': ('my $x = StringBuffer->new_len(-1);', lambda s: 'sE;'),
    'O': ('my $c = $b->clone; $c->push("x"); $c->set_length(0); $c->push("----------");', lambda s: ''),
    'P': ('my $t = (mutable string)$b->to_string; if (length $t) { $t->[0] = \'!\'; }', lambda s: ''),
    'Q': ('my $m = (mutable string)copy "m1"; $b->push($m); $m->[0] = \'!\';', push(b'm1')),
    'R': ('my $c = StringBuffer->new("abc"); MCLog->i($b->cmp($b, $c)); MCLog->i($b->cmp($c, $b)); MCLog->i($b->eq($b, $c));', cmp(b'abc')),
    'S': ('my $c = StringBuffer->new("ab\\x00\\xff"); MCLog->i($b->cmp($b, $c)); MCLog->i($b->cmp($c, $b)); MCLog->i($b->eq($b, $c));', cmp(b'ab\0\xff')),
    'T': ('my $c = (StringBuffer)undef; MCLog->i($b->cmp($b, $c)); MCLog->i($b->cmp($c, $b)); MCLog->i($b->eq($b, $c)); MCLog->i($b->cmp($c, $c)); MCLog->i($b->eq($c, $c)); MCLog->i($b->eq($c, $b));', lambda s: '1;-1;0;0;1;0;'),
    'U': ('my $c = $b->clone; MCLog->i($b->cmp($b, $c)); MCLog->i($b->eq($c, $b)); $b = $c;', lambda s: (setattr(s, 'cap', max(4, len(s.x))), '0;1;')[1]),
}
SHOW = '''MCLog->i($b->length); my $ts = $b->to_string; MCLog->s($ts); MCLog->i(length $ts); MCLog->i($b->capacity >= $b->length);
my $u = $b->get_string_unsafe; my $ok = 1; for (my $j = $b->length; $j < $b->capacity; $j++) { if ($u->[$j] != 0) { $ok = 0; } } MCLog->i($ok && length $u == $b->capacity);'''


def cmp_items():
    S = [bytes(t) for n in range(4) for t in itertools.product(b'\0a\xff', repeat=n)]
    def L(b): return '"%s"' % ''.join('\\x%02x' % c for c in b)
    out = []
    for x in S:
        body = 'my $x = StringBuffer->new(%s, 9);' % L(x); w = ''
        for y in S:
            body += ' { my $y = StringBuffer->new(%s, 3); MCLog->i(10 * $x->cmp($x, $y) + $x->eq($x, $y)); }' % L(y)
            r = (x > y) - (x < y)
            w += '%d;' % (10 * r + (r == 0))
        out.append(Item(body, w, 'comparison of the buffer %s' % esc(x)))
    for x in S:
        for off in range(-1, 5):
            for n in [-2, -1, 0, 1, 2, 3, 4, MX]:
                for base in (b'', b'12', b'1234'):
                    m = len(x) - off if n == -1 else n
                    ok = off >= 0 and m >= 0 and off + m <= len(x)
                    w = base + x[off:off + m] if ok else base
                    if len(x) == 3 and x[0] != 0: continue
                    out.append(Item('my $b = StringBuffer->new(%s, 0); eval { $b->push(%s, %d, %d); } if ($@) { MCLog->s("E"); } MCLog->s($b->to_string); MCLog->i($b->length);' % (L(base), L(x), off, n), ('' if ok else 'sE;') + 's%s;%d;' % (esc(w), len(w)), 'push %s from %d length %d to %s' % (esc(x), off, n, esc(base))))
    return out


def main():
    quick = TIER == 'quick'
    ck = Check('M16')
    sc = ck.make_scratch()
    bin_ = sc.mcrun()
    check(ck, bin_, 'buffer', Model, {k: v[0] for k, v in OPS.items()}, 'use StringBuffer;', 'my $b = StringBuffer->new;', SHOW, '', '', depth=2 if quick else 3, max_states=700 if quick else 12000, max_depth=9, bound=lambda m: len(m.x) > (10 if quick else 14))
    its = cmp_items()
    run_items(ck, bin_, its, chunk=60, uses='use MCLog; use StringBuffer;')
    ck.count(states=2 * len(its))
    ck.finish(exhaustive=True, bound='%d operations, every sequence of 2 (3 in thorough), then breadth first by content and capacity; comparison of all pairs and push of all ranges of short strings' % len(OPS))
