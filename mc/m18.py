"""M18: Fn: every string, UTF-8, memory and array function over short strings of a telling alphabet with every offset and length."""
import itertools, struct
from common import *
from progs import *

MX, MN = 2147483647, -2147483648
I = lambda n: str(n) if n != MN else '(-2147483647 - 1)'
def q(b):
    "an SPVM literal"
    if b is None: return '(string)undef'
    if isinstance(b, str): b = b.encode('utf-8')
    return '"%s"' % ''.join(chr(c) if chr(c).isalnum() and c < 128 or c in b' .,:-_+' else '\\x%02x' % c for c in b)
def T(b): return 'U;' if b is None else 's%s;' % esc(b)
def strings(alpha, n): return [bytes(p) for k in range(n + 1) for p in itertools.product(alpha, repeat=k)]
def wrap(v, b=32): return (v + (1 << b - 1)) % (1 << b) - (1 << b - 1)


class Out:
    "collects calls with the trace wanted, several to a program"
    def __init__(self): self.items, self.b, self.w, self.n, self.what = [], [], [], 0, ''
    def flush(self):
        if self.b: self.items.append(Item(''.join(self.b), ''.join(self.w), self.what))
        self.b, self.w, self.n = [], [], 0
    def add(self, stmts, want, what):
        "want None: an exception; want ANY: not judged"
        if what != self.what or self.n >= 40: self.flush()
        self.what = what; self.n += 1
        self.b.append(' eval { %s } if ($@) { MCLog->s("E"); }\n' % stmts); self.w.append('sE;' if want is None else want)
    def loop(self, pre, stmts, want, what):
        self.flush(); self.items.append(Item(pre + ' ' + stmts, want, what))


def tables(o):
    "functions of one string, over all the short strings"
    alpha = b'aZ5 \n\r\0\xe3'
    S = strings(alpha, 3) + [b'\t\n\x0b\x0c\r x \t\n\x0b\x0c\r', b'abc\r\n', b'[`{@az09AZ', b'a' * 300, b'\r\n\r\n', b'\x7f\x80\xff\x1f']
    sp = b'\t\n\x0b\x0c\r '
    def chomp(s): return s[:-2] if s.endswith(b'\r\n') else s[:-1] if s.endswith(b'\n') else s
    up = lambda s: bytes(c - 32 if 97 <= c <= 122 else c for c in s)
    lo = lambda s: bytes(c + 32 if 65 <= c <= 90 else c for c in s)
    one = [('chompr', chomp), ('lc', lo), ('uc', up), ('lcfirst', lambda s: lo(s[:1]) + s[1:]), ('ucfirst', lambda s: up(s[:1]) + s[1:]), ('trim', lambda s: s.strip(sp)), ('copy_string', lambda s: s), ('reverse', lambda s: s[::-1])]
    for m, f in one:
        for c in range(0, len(S), 150):
            part = S[c:c + 150]
            cast = '(string)' if m == 'reverse' else ''
            o.loop('my $vs = [%s];' % ', '.join(map(q, part)), 'for my $v (@$vs) { my $k = copy $v; eval { my $r = %sFn->%s($v); MCLog->s($r); MCLog->i(length $r); MCLog->i($r == $v); } if ($@) { MCLog->s("E"); } MCLog->i($k eq $v); }' % (cast, m), ''.join(T(f(s)) + '%d;0;1;' % len(f(s)) for s in part), m)
        if m not in ('copy_string', 'reverse'): o.add('MCLog->s(Fn->%s(undef));' % m, None, 'undef')
    inpl = [('chomp', '', chomp), ('shorten_null_char', '', lambda s: s.split(b'\0')[0]), ('reverse_inplace', '', lambda s: s[::-1])] + \
        [('shorten', ', %d' % n, (lambda n: lambda s: None if n < 0 else s[:n])(n)) for n in (-1, 0, 1, 2, 3, 4)] + [('shorten', ', %d' % MX, lambda s: s)] + \
        [('replace_chars', ', %d, %d' % (a, b), (lambda a, b: lambda s: s.replace(bytes([a]), bytes([b & 255])))(a, b)) for a, b in ((97, 98), (0, 97), (97, 0), (10, 0xe3), (97, 97), (98, 97))]
    for m, args, f in inpl:
        for c in range(0, len(S), 150):
            part = S[c:c + 150]; w = ''
            for s in part:
                r = f(s)
                w += ('sE;' if r is None else '') + T(r if r is not None else s) + "%d;1;" % len(r if r is not None else s)
            o.loop('my $vs = [%s];' % ', '.join(map(q, part)), 'for my $v (@$vs) { my $k = (mutable string)copy $v; my $r = (mutable string)copy $v; eval { Fn->%s($r%s); } if ($@) { MCLog->s("E"); } MCLog->s($r); MCLog->i(length $r); MCLog->i($k eq $v); }' % (m, args), w, m + args)
        o.add('Fn->%s((mutable string)undef%s);' % (m, args), None, 'undef')
    o.add('Fn->reverse_inplace("abc");', None, 'read-only')
    for n in (-1, 0, 1, 2, 3):
        for s in (b'', b'a', b'ab\0'): o.add('MCLog->s(Fn->repeat(%s, %d));' % (q(s), n), None if n < 0 else T(s * n), 'repeat')
    o.add('MCLog->s(Fn->repeat(undef, 1));', None, 'undef')
    # join
    E = [b'', b'a', b'\0\xe3', None]
    for sep in (b'', b',', b'ab'):
        for k in range(4):
            for xs in itertools.product(E, repeat=k):
                arr = 'new string[0]' if not xs else '[%s]' % ', '.join(map(q, xs))
                o.add('MCLog->s(Fn->join(%s, %s));' % (q(sep), arr), T(sep.join(x or b'' for x in xs)), 'join')
    o.add('MCLog->s(Fn->join(undef, ["a"]));', None, 'undef'); o.add('MCLog->s(Fn->join(",", undef));', None, 'undef')


def ranges(o, quick):
    S = strings(b'ab', 4)
    P = strings(b'ab', 2) + [b'aba', b'aab', b'abab', b'ababa']
    # index, contains, rindex with begin and end
    for rev in (0, 1):
        m = 'rindex' if rev else 'index'
        for s in S:
            L = len(s); w = ''
            bs = [-1] + list(range(L + 1)); es = [MN, -1] + list(range(L + 2)) + [MX]
            for p in P:
                for b in bs:
                    for e in es:
                        judged = b <= L and not (0 <= e < b) and e != L
                        if not judged: w += 's-;'; continue
                        if b < 0 or e >= L: w += 'sE;'; continue
                        top = L - 1 if e < 0 else e
                        if len(p) == 0:
                            w += '%d;' % (b if not rev else L if e < 0 else e); continue
                        r = [i for i in range(b, top + 1) if i + len(p) - 1 <= top and s[i:i + len(p)] == p]
                        w += '%d;' % (-1 if not r else r[-1] if rev else r[0])
            args = '$s, $p, $e, $b' if rev else '$s, $p, $b, $e'
            o.loop('my $s = %s; my $ps = [%s]; my $bs = [%s]; my $es = [%s];' % (q(s), ', '.join(map(q, P)), ', '.join(map(str, bs)), ', '.join(map(I, es))),
                   'for my $p (@$ps) { for my $b (@$bs) { for my $e (@$es) { if (($e >= 0 && $e < $b) || $e == length $s) { MCLog->s("-"); next; } eval { MCLog->i(Fn->%s(%s)); } if ($@) { MCLog->s("E"); } } } }' % (m, args), w, '%s in %s' % (m, s.decode()))
    w = ''.join('%d;%d;%d;' % (p in s, s.find(p), s.rfind(p)) for s in S for p in P)
    o.loop('my $ss = [%s]; my $ps = [%s];' % (', '.join(map(q, S)), ', '.join(map(q, P))), 'for my $s (@$ss) { for my $p (@$ps) { MCLog->i(Fn->contains($s, $p)); MCLog->i(Fn->index($s, $p)); MCLog->i(Fn->rindex($s, $p)); } }', w, 'search')
    for m in ('index', 'rindex', 'contains'):
        o.add('MCLog->i(Fn->%s(undef, "a"));' % m, None, 'undef'); o.add('MCLog->i(Fn->%s("a", undef));' % m, None, 'undef')
    # equals_string_range
    Q = strings(b'ab', 2) + [b'aba', b'abb', b'a\0b', b'a\0a']
    for s in Q:
        w = ''; os_ = [-1, 0, 1, 2, 3, 4, MX]; ls = [0, 1, 2, 3, 4, MX]
        for t in Q:
            for a in os_:
                for b in os_:
                    for n in ls:
                        if n == 0 and a >= 0 and b >= 0: w += '1;' if a <= len(s) and b <= len(t) else 's-;'
                        elif a < 0 or b < 0: w += 'sE;'
                        else: w += '%d;' % (a + n <= len(s) and b + n <= len(t) and s[a:a + n] == t[b:b + n])
        o.loop('my $s = %s; my $ts = [%s]; my $os = [%s]; my $ls = [%s];' % (q(s), ', '.join(map(q, Q)), ', '.join(map(str, os_)), ', '.join(map(str, ls))),
               'for my $t (@$ts) { for my $a (@$os) { for my $b (@$os) { for my $n (@$ls) { if ($n == 0 && $a >= 0 && $b >= 0 && ($a > length $s || $b > length $t)) { MCLog->s("-"); next; } eval { MCLog->i(Fn->equals_string_range($s, $a, $t, $b, $n)); } if ($@) { MCLog->s("E"); } } } } }', w, 'equals_string_range')
    o.add('MCLog->i(Fn->equals_string_range(undef, 0, "a", 0, 0));', None, 'undef'); o.add('MCLog->i(Fn->equals_string_range("a", 0, undef, 0, 0));', None, 'undef')
    # substr and memset_char, init_string, change_endian
    os_ = [-1, 0, 1, 2, 3, 4, 5, MX]; ls = [MN, -1, 0, 1, 2, 3, 4, 5, MX]
    for s in (b'', b'a', b'ab', b'a\0c', b'abcd'):
        L = len(s)
        pre = 'my $s = %s; my $os = [%s]; my $ls = [%s];' % (q(s), ', '.join(map(str, os_)), ', '.join(map(I, ls)))
        for rep in (None, b'', b'X', b'12345'):
            w = ''
            for a in os_:
                for n in ls:
                    k = L - a if n < 0 else n
                    if n < 0 and a > L: w += 's-;'
                    elif a < 0 or a + k > L: w += 'sE;'
                    else: w += T(s[a:a + k] if rep is None else s[:a] + rep + s[a + k:])
            o.loop(pre, 'for my $a (@$os) { for my $n (@$ls) { if ($n < 0 && $a > length $s) { MCLog->s("-"); next; } eval { MCLog->s(Fn->substr($s, $a, $n%s)); } if ($@) { MCLog->s("E"); } } }' % ('' if rep is None else ', ' + q(rep)), w, 'substr of %d' % L)
        for m in ('memset_char($r, 120, $a, $n)', 'init_string($r, 120, $a, $n)'):
            w = ''
            for a in os_:
                for n in ls:
                    k = L - a if n < 0 else n; r = s
                    if n < 0 and a > L or k == 0 and (a < 0 or a > L) or a < 0 and m[0] == 'i': w += 's-;'; continue
                    if a < 0 or a + k > L: w += 'sE;'
                    else: r = s[:a] + b'x' * k + s[a + k:]
                    w += T(r)
            o.loop(pre, 'for my $a (@$os) { for my $n (@$ls) { if (($n < 0 && $a > length $s) || ($n == 0 && ($a < 0 || $a > length $s)) %s) { MCLog->s("-"); next; } my $r = (mutable string)copy $s; eval { Fn->%s; } if ($@) { MCLog->s("E"); } MCLog->s($r); } }' % ('|| $a < 0' if m[0] == 'i' else '|| ($n < 0 && length $s - $a == 0 && 0)', m), w, m)
        for m in ('change_endian', 'big_endian_to_system_endian', 'system_endian_to_big_endian', 'little_endian_to_system_endian', 'system_endian_to_little_endian'):
            w = ''
            for a in os_:
                for n in ls:
                    r = s; big = 'big' in m or m == 'change_endian'
                    if big:
                        if n <= 0 or a < 0 or a + n > L: w += 'sE;'
                        else: r = s[:a] + s[a:a + n][::-1] + s[a + n:]
                    elif n <= 0 or a < 0 or a + n > L: w += 's-;'; continue
                    w += T(r)
            skip = '' if big else 'if ($n <= 0 || $a < 0 || $n > length $s - $a) { MCLog->s("-"); next; }'
            o.loop(pre, 'for my $a (@$os) { for my $n (@$ls) { %s my $r = (mutable string)copy $s; eval { Fn->%s($r, $n, $a); } if ($@) { MCLog->s("E"); } MCLog->s($r); } }' % (skip, m), w, m)
    for e in ('MCLog->s(Fn->substr(undef, 0));', 'Fn->memset_char(undef, 1);', 'Fn->init_string(undef, 1);', 'Fn->change_endian(undef, 1);'): o.add(e, None, 'undef')
    o.add('MCLog->i(Fn->system_is_little_endian);', '1;', 'system_is_little_endian')
    # split
    for s in strings(b'a,', 5):
        w = ''
        for sep in (b',', b',,', b'a', b',a', b'aa,,aa', b'b'):
            for lim in (-5, -1, 1, 2, 3, 4, 9):
                xs = s.split(sep, lim - 1 if lim > 0 else -1)
                w += '%d;' % len(xs) + ''.join(map(T, xs))
        o.loop('my $s = %s; my $ps = [%s]; my $ls = [-5, -1, 1, 2, 3, 4, 9];' % (q(s), ', '.join(map(q, (b',', b',,', b'a', b',a', b'aa,,aa', b'b')))),
               'for my $p (@$ps) { for my $l (@$ls) { my $r = Fn->split($p, $s, $l); MCLog->i(@$r); for my $x (@$r) { MCLog->s($x); } } }', w, 'split')
    o.add('Fn->split(undef, "a", -1);', None, 'undef'); o.add('Fn->split(",", undef, -1);', None, 'undef')


def utf8(o, quick):
    def ok(b):
        try: return b.decode('utf-8')
        except UnicodeDecodeError: return None
    # chr and back, every scalar value
    step = 4096
    for lo in range(0, 0x110000, step):
        if quick and 0x20000 <= lo < 0x10f000: continue
        cps = [c for c in range(lo, lo + step) if not 0xd800 <= c <= 0xdfff]
        bad = step - len(cps)
        txt = ''.join(map(chr, cps)).encode()
        h = 0
        for ch in txt: h = (h * 31 + ch + 1) & 0x7fffff
        o.loop('my $b = StringBuffer->new; my $bad = 0; my $back = 0;', 'for (my $c = %d; $c < %d; $c++) { my $u = Fn->chr($c); unless ($u) { $bad++; next; } $b->push($u); my $o = 0; if (Fn->ord($u) != $c || Fn->get_code_point($u, \\$o) != $c || $o != length $u || Fn->utf8_length($u) != 1) { $back++; } } my $s = $b->to_string; MCLog->i($bad); MCLog->i($back); MCLog->i(length $s); MCLog->i(&sum($s)); MCLog->i(Fn->utf8_length($s));' % (lo, lo + step),
               '%d;0;%d;%d;%d;' % (bad, len(txt), h, len(cps)), 'characters from %x' % lo)
    for c in (-1, MN, MX, 0x110000, 0x110001, 0x7fffffff, 0x200000, 0xd800, 0xdbff, 0xdc00, 0xdfff): o.add('MCLog->s(Fn->chr(%s));' % I(c), 'U;', 'chr out of range')
    # every short byte string
    edges = [0x00, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xf8, 0xfc, 0xfe, 0xff]
    cont = [0x00, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xff]
    S = [b''] + [bytes([c]) for c in range(256)] + [bytes(p) for p in itertools.product(edges, edges)] + [bytes((a, b, c)) for a in (0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xc2, 0xf0, 0x41) for b in cont for c in cont] + \
        [bytes((a, b, c, d)) for a in (0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xe3) for b in (0x7f, 0x80, 0x8f, 0x90, 0xbf, 0xc0) for c in (0x41, 0x80, 0xbf, 0xff) for d in (0x41, 0x80, 0xbf, 0xff)] + \
        [('あ' * i + 'a' * j + '𠮷' * k + 'é').encode() for i in range(2) for j in range(2) for k in range(2)]
    for c in range(0, len(S), 200):
        part = S[c:c + 200]; w = ''
        for s in part:
            t = ok(s)
            if t is None: w += 'sE;1;sE;1;sE;1;'
            else: w += '%d;' % len(t) + '%d;' % len(t) + ''.join('%d;' % ord(x) for x in t) + '%d;' % len(t) + ''.join(T(x) for x in t)
        o.loop('my $vs = [%s]; my $id = Fn->get_basic_type_id("Error::Unicode::InvalidUTF8");' % ', '.join(map(q, part)), 'for my $v (@$vs) { eval { MCLog->i(Fn->utf8_length($v)); } if ($@) { MCLog->s("E"); MCLog->i(eval_error_id == $id); } '
               'eval { my $r = Fn->to_code_points($v); MCLog->i(@$r); for my $x (@$r) { MCLog->i($x); } } if ($@) { MCLog->s("E"); MCLog->i(eval_error_id == $id); } '
               'eval { my $r = Fn->to_utf8_chars($v); MCLog->i(@$r); for my $x (@$r) { MCLog->s($x); } } if ($@) { MCLog->s("E"); MCLog->i(eval_error_id == $id); } }', w, 'decoding')
        # one character at a time from every offset
        w = ''
        for s in part:
            for off in range(-1, len(s) + 2):
                if off < 0 or off >= len(s): w += 'sE;%d;sE;%d;' % (off, off); continue
                for n in range(1, 5):
                    t = ok(s[off:off + n])
                    if off + n <= len(s) and t is not None and len(t) == 1: w += '%d;%d;%d;%d;' % (ord(t), off, ord(t), off + n); break
                else: w += 'sE;sE;'
        o.loop('my $vs = [%s];' % ', '.join(map(q, part)), 'for my $v (@$vs) { for (my $i = -1; $i < length $v + 2; $i++) { my $o = $i; eval { MCLog->i(Fn->look_code_point($v, \\$o)); MCLog->i($o); } if ($@) { MCLog->s("E"); if ($i < 0 || $i >= length $v) { MCLog->i($o); } } $o = $i; eval { MCLog->i(Fn->get_code_point($v, \\$o)); MCLog->i($o); } if ($@) { MCLog->s("E"); if ($i < 0 || $i >= length $v) { MCLog->i($o); } } } }', w, 'get_code_point')
    for m in ('utf8_length', 'to_code_points', 'to_utf8_chars', 'ord'): o.add('Fn->%s(undef);' % m, None, 'undef')
    o.add('MCLog->i(Fn->ord(""));', None, 'undef')
    # utf8_substr
    U = [''.join(p) for k in range(4) for p in itertools.product('aé𠮷', repeat=k)]
    os_ = [-1, 0, 1, 2, 3, 4, MX]; ls = [MN, -1, 0, 1, 2, 3, 4, MX]
    w = ''
    for s in U:
        for a in os_:
            for n in ls:
                if a > len(s) and n < 0: w += 's-;'
                elif a < 0 or n >= 0 and a + n > len(s): w += 'sE;'
                else: w += T(s[a:] if n < 0 else s[a:a + n])
    o.loop('my $vs = [%s]; my $os = [%s]; my $ls = [%s];' % (', '.join(map(q, U)), ', '.join(map(str, os_)), ', '.join(map(I, ls))), 'for my $v (@$vs) { my $len = Fn->utf8_length($v); for my $a (@$os) { for my $n (@$ls) { if ($a > $len && $n < 0) { MCLog->s("-"); next; } eval { MCLog->s(Fn->utf8_substr($v, $a, $n)); } if ($@) { MCLog->s("E"); } } } }', w, 'utf8_substr')
    o.add('Fn->utf8_substr(undef, 0);', None, 'undef')
    # tr
    R = ['a', 'a-c', 'b-d', 'あ-い', 'あ', 'a-', 'ab', 'a-cd', '', '-', '---', 'c-a', 'abc', 'a-あ', 'x-z', '0-2', 'A']
    def rng(r):
        if len(r) == 1: return ord(r), ord(r)
        if len(r) == 3 and r[1] == '-' and r[0] <= r[2]: return ord(r[0]), ord(r[2])
        return None
    V = ['', 'a', 'abcd', 'aあいbc', '-a-', 'xyz\0c']
    for p in R:
        w = ''
        for r in R:
            for v in V:
                a, b = rng(p), rng(r)
                if a is None or b is None: w += 'sE;'
                elif a[1] - a[0] > b[1] - b[0]: w += 's-;'     # a replacement range shorter than the pattern: not documented
                else: w += T(''.join(chr(b[0] + ord(x) - a[0]) if a[0] <= ord(x) <= a[1] else x for x in v))
        o.loop('my $p = %s; my $rs = [%s]; my $vs = [%s]; my $skip = %s;' % (q(p), ', '.join(map(q, R)), ', '.join(map(q, V)), q(''.join('1' if rng(p) and rng(r) and rng(p)[1] - rng(p)[0] > rng(r)[1] - rng(r)[0] else '0' for r in R))),
               "for (my $i = 0; $i < @$rs; $i++) { for my $v (@$vs) { if ($skip->[$i] == '1') { MCLog->s(\"-\"); next; } eval { MCLog->s(Fn->tr($v, $p, $rs->[$i])); } if ($@) { MCLog->s(\"E\"); } } }", w, 'tr %s' % p)
    for a in ('undef, "a", "b"', '"a", undef, "b"', '"a", "a", undef', '"\\xff", "a", "b"', '"a", "\\xff", "b"', '"a", "a", "\\xff"', '"a", "a-\\xff", "b"'): o.add('Fn->tr(%s);' % a, None, 'undef')


def classes(o):
    cps = list(range(-2, 0x180)) + [0x2000, 0x3000, 0xff21, 0xff41, 0xff10, 0x10ffff, 0x100 + 65, 0x10000 + 97, MX, MN]
    isin = lambda *rs: (lambda c: any(a <= c <= b for a, b in rs))
    U, Lc, D = (65, 90), (97, 122), (48, 57)
    T_ = {'alnum': isin(U, Lc, D), 'alpha': isin(U, Lc), 'blank': isin((9, 9), (32, 32)), 'cntrl': isin((0, 31), (127, 127)), 'digit': isin(D), 'graph': isin((33, 126)), 'hex_digit': isin(D, (65, 70), (97, 102)), 'lower': isin(Lc), 'perl_space': isin((9, 10), (12, 13), (32, 32)), 'perl_word': isin(U, Lc, D, (95, 95)), 'print': isin((32, 126)), 'punct': isin((33, 47), (58, 64), (91, 96), (123, 126)), 'space': isin((9, 13), (32, 32)), 'upper': isin(U), 'xdigit': isin(D, (65, 70), (97, 102))}
    pre = 'my $vs = [%s]; my $n = 0;' % ', '.join(map(I, cps))
    b = [c for c in cps if not 9 <= c <= 32]
    for v in b: o.add('MCLog->i(Fn->is_blank(%s));' % I(v), '0;', 'is_blank of a character outside 9 to 32')
    o.loop('', 'for (my $i = 9; $i < 33; $i++) { MCLog->i(Fn->is_blank($i)); }', ''.join('%d;' % (c in (9, 32)) for c in range(9, 33)), 'is_blank')
    del T_['blank']
    for m, f in T_.items():
        o.loop(pre, 'for my $v (@$vs) { MCLog->i(Fn->is_%s($v)); }' % m, ''.join('%d;' % f(c) for c in cps), 'is_' + m)
    o.loop(pre, 'for my $v (@$vs) { MCLog->i(Fn->to_lower($v)); MCLog->i(Fn->to_upper($v)); }', ''.join('%d;%d;' % (c + 32 if 65 <= c <= 90 else c, c - 32 if 97 <= c <= 122 else c) for c in cps), 'to_lower and to_upper')
    # numbers
    for v in (0, 1, -1, 5, -5, MX, -MX): o.add('MCLog->i(Fn->abs(%d)); MCLog->l(Fn->labs(%dL));' % (v, v * 4294967297), '%d;%d;' % (abs(v), abs(v * 4294967297)), 'abs')
    for b in (-3, -2, -1, 0, 1, 2, 3, 10, 65536, MX, MN):
        for e in (-1, 0, 1, 2, 3, 7, 31, 32, 33):
            bad = e < 0 or b == 0 and e == 0
            o.add('MCLog->i(Fn->powi(%s, %d));' % (I(b), e), None if bad else '%d;' % wrap(b ** e), 'powi')
            o.add('MCLog->l(Fn->powl((long)%s, %dL));' % (I(b), e), None if bad else '%d;' % wrap(b ** e, 64), 'powl')
    hx = ['', '0', 'f', 'F', 'g', 'ff', '0f', 'f0', 'aB', '7fffffff', '80000000', 'ffffffff', 'FFFFFFFE', '12345678', '9abcdef0', '123456789', '0x1', '-1', ' 1', '1 ', 'fffffff', '/', ':', '@', 'G', '`', '\0', 'é']
    for h in hx:
        good = 1 <= len(h) <= 8 and all(c in '0123456789abcdefABCDEF' for c in h)
        o.add('MCLog->i(Fn->hex(%s));' % q(h), '%d;' % wrap(int(h, 16)) if good else None, 'hex')
    o.add('Fn->hex(undef);', None, 'undef')
    # digits in a base
    D_ = {2: '01', 8: '01234567', 10: '0123456789', 16: '0123456789abcdefABCDEF'}
    V = ['', '0', '-0', '+0', '1', '2', '7', '8', '9', 'a', 'F', 'g', '10', '-10', '+11', '--1', '+-1', '1-', ' 1', '\t1', '1 ', '0x10', '0X1f', '-0xf', '0x', 'x', '-', '+', '1\0', '\x001', '1\x002', '12a', '1_0', '1.5', 'é',
         '2147483647', '2147483648', '-2147483648', '-2147483649', '9223372036854775807', '9223372036854775808', '-9223372036854775808', '-9223372036854775809', '99999999999999999999', '7fffffff', '80000000', '-80000000', '-80000001', '7fffffffffffffff', '8000000000000000', '-8000000000000000', '-8000000000000001',
         '17777777777', '20000000000', '-20000000000', '1' * 31, '1' + '0' * 31, '-1' + '0' * 31, '1' * 63, '1' + '0' * 63, '-1' + '0' * 63, '0' * 80 + '1']
    for base in (2, 8, 10, 16):
        for v in V:
            t = v.lstrip(' \t\n\v\f\r'); neg = t[:1] == '-'
            if t[:1] in ('+', '-'): t = t[1:]
            if base == 16 and t[:2] in ('0x', '0X') and len(t) > 2: t = t[2:]
            good = t != '' and all(c in D_[base] for c in t)
            n = (-1 if neg else 1) * int(t, base) if good else 0
            o.add('MCLog->i(Fn->to_int_with_base(%s, %d));' % (q(v), base), '%d;' % n if good and MN <= n <= MX else None, 'to_int_with_base of %r' % v if not good else 'to_int_with_base')
            o.add('MCLog->l(Fn->to_long_with_base(%s, %d));' % (q(v), base), '%d;' % n if good and -2**63 <= n < 2**63 else None, 'to_long_with_base of %r' % v if not good else 'to_long_with_base')
            if base == 10:
                o.add('MCLog->i(Fn->to_int(%s));' % q(v), '%d;' % n if good and MN <= n <= MX else None, 'to_int of %r' % v if not good else 'to_int')
                o.add('MCLog->l(Fn->to_long(%s));' % q(v), '%d;' % n if good and -2**63 <= n < 2**63 else None, 'to_long of %r' % v if not good else 'to_long')
    for b in (-1, 0, 1, 3, 7, 9, 11, 15, 17, 36, 256 + 10): o.add('Fn->to_int_with_base("1", %d);' % b, None, 'bases'); o.add('Fn->to_long_with_base("1", %d);' % b, None, 'bases')
    for m in ('to_int(undef)', 'to_long(undef)', 'to_int_with_base(undef, 10)', 'to_long_with_base(undef, 10)', 'to_float(undef)', 'to_double(undef)'): o.add('Fn->%s;' % m, None, 'undef')
    for v in ['', '0', '1', '-1.5', '+2.5', '.5', '5.', '1e3', '1E-3', '1e', '1.5.5', ' 1', '1 ', '-', '.', 'x', '1\0', '\0', '1\x002', '1_0', '1e38', '3.4028234e38', '1e39', '-1e39', '1e308', '1e309', '-1e309', '1.7976931348623157e308', 'é', '1f', '0.1', '123456789.123456789']:
        t = v.lstrip(' \t\n\v\f\r')
        try:
            if '_' in t or t != t.rstrip() or '\0' in t or not all(ord(c) < 128 for c in t): raise ValueError
            d = float(t); good = True
        except ValueError: good, d = False, 0.0
        dd = good and abs(d) != float('inf')
        try: fl = struct.unpack('<f', struct.pack('<f', d))[0] if dd else None
        except OverflowError: fl = None
        bits = lambda f, k: str(struct.unpack('<q' if k == 'd' else '<i', struct.pack('<' + k, f))[0])
        o.add('my $d = [Fn->to_double(%s)]; my $l = [0L]; Fn->memcpy($l, 0, $d, 0, 8); MCLog->l($l->[0]);' % q(v), bits(d, 'd') + ';' if dd else None, 'to_double of %r' % v if not good else 'to_double')
        o.add('my $d = [Fn->to_float(%s)]; my $l = [0]; Fn->memcpy($l, 0, $d, 0, 4); MCLog->i($l->[0]);' % q(v), bits(fl, 'f') + ';' if fl is not None else None, 'to_float of %r' % v if not good else 'to_float')
    consts = {'BYTE_MAX': 127, 'BYTE_MIN': -128, 'INT8_MAX': 127, 'INT8_MIN': -128, 'SHORT_MAX': 32767, 'SHORT_MIN': -32768, 'INT16_MAX': 32767, 'INT16_MIN': -32768, 'INT_MAX': MX, 'INT_MIN': MN, 'INT32_MAX': MX, 'INT32_MIN': MN, 'RAND_MAX': MX, 'UBYTE_MAX': -1, 'UINT8_MAX': -1, 'UINT16_MAX': -1, 'USHORT_MAX': -1, 'UINT_MAX': -1, 'UINT32_MAX': -1, 'sizeof_native_int': 4, 'sizeof_native_pointer': 8}
    for m, v in consts.items(): o.add('MCLog->i(Fn->%s);' % m, '%d;' % v, 'constants')
    for m, v in {'INT64_MAX': 2**63 - 1, 'INT64_MIN': -2**63, 'LONG_MAX': 2**63 - 1, 'LONG_MIN': -2**63, 'UINT64_MAX': -1, 'ULONG_MAX': -1}.items(): o.add('MCLog->l(Fn->%s);' % m, '%d;' % v, 'constants')
    for m, k, v in (('DBL_MAX', 'd', 1.7976931348623157e308), ('DBL_MIN', 'd', 2.2250738585072014e-308), ('DOUBLE_MAX', 'd', 1.7976931348623157e308), ('DOUBLE_MIN', 'd', 2.2250738585072014e-308), ('FLT_MAX', 'f', 3.4028234663852886e38), ('FLT_MIN', 'f', 1.1754943508222875e-38), ('FLOAT_MAX', 'f', 3.4028234663852886e38), ('FLOAT_MIN', 'f', 1.1754943508222875e-38)):
        o.add('my $d = [Fn->%s]; my $l = [%s]; Fn->memcpy($l, 0, $d, 0, %d); MCLog->%s($l->[0]);' % (m, '0L' if k == 'd' else '0', 8 if k == 'd' else 4, 'l' if k == 'd' else 'i'), bits(v, k) + ';', 'constants')
    # random numbers stay in range from every corner of the seed
    seeds = [0, 1, -1, MX, MN, 12345, 0x55555555] + [1 << k for k in range(31)]
    o.loop('my $vs = [%s];' % ', '.join(map(I, seeds)), 'my $bad = 0; for my $v (@$vs) { my $s = $v; my $t = $v; for (my $i = 0; $i < 300; $i++) { my $c = Fn->crand(\\$s); if ($c < 0 || $c != Fn->crand(\\$t) || $s != $t) { $bad++; } my $d = Fn->rand(\\$s); if (!($d >= 0 && $d < 1)) { $bad++; } $s = $t; $d = Fn->rand(\\$t, 6); if (!($d >= 0 && $d < 6)) { $bad++; } $s = $t; } } MCLog->i($bad);', '0;', 'random numbers')


ELEM = [('byte', 1), ('short', 2), ('int', 4), ('long', 8), ('float', 4), ('double', 8), ('MCP_2s', 4)]
def memory(o):
    # block functions on bytes of strings and arrays
    offs = [MN, -1, 0, 1, 2, 3, 4, 5, MX]; lens = [-1, 0, 1, 2, 3, 4, 5, MX]
    mk = {'string': ('my $%s = (mutable string)copy "%s";', lambda n: 'abcd'[:n].encode()), 'byte': ('my $%s = new byte[%d]; for (my $i = 0; $i < %d; $i++) { $%s->[$i] = (byte)($i + 97); }', None)}
    def make(v, t, n):
        if t == 'string': return 'my $%s = (mutable string)copy "%s";' % (v, 'abcd'[:n])
        return 'my $%s = new %s[%d]; for (my $i = 0; $i < %d; $i++) { %s }' % (v, t[0], n // t[1], n, 'Fn->memcpy($%s, $i, $ab, $i, 1);' % v)
    kinds = [('string', 4), ('string', 2), ('string', 0), (('byte', 1), 4), (('short', 2), 4), (('int', 4), 4), (('float', 4), 4), (('MCP_2s', 4), 4), (('int', 4), 0), (('short', 2), 2)]
    P = b'abcd'
    for (dt, dn) in kinds:
        for (st, sn) in kinds:
            if dt != 'string' and st != 'string' and dt != st: continue
            for m in ('memcpy', 'memmove', 'memcmp'):
                w = ''
                for do in offs:
                    for so in offs:
                        for n in lens:
                            r = bytearray(P[:dn])
                            if n == 0 and not (0 <= do <= dn and 0 <= so <= sn): w += 's-;'; continue
                            if do < 0 or so < 0 or n < 0 or do + n > dn or so + n > sn: w += 'sE;'
                            elif m == 'memcmp':
                                a, b = P[do:do + n], P[so:so + n]; w += '%d;' % ((a > b) - (a < b))
                            else: r[do:do + n] = P[so:so + n]
                            w += T(bytes(r))
                call = 'Fn->%s($d, $a, $s, $b, $n);' % m if m != 'memcmp' else 'my $c = Fn->memcmp($d, $a, $s, $b, $n); MCLog->i($c <=> 0);'
                o.loop('my $ab = "abcd"; my $os = [%s]; my $ls = [%s]; %s' % (', '.join(map(I, offs)), ', '.join(map(str, lens)), make('s', st, sn)),
                       'for my $a (@$os) { for my $b (@$os) { for my $n (@$ls) { if ($n == 0 && ($a < 0 || $b < 0 || $a > %d || $b > %d)) { MCLog->s("-"); next; } %s eval { %s } if ($@) { MCLog->s("E"); } my $t = (mutable string)new_string_len %d; %s MCLog->s($t); } } }' % (dn, sn, make('d', dt, dn), call, dn, 'Fn->memcpy($t, 0, $d, 0, %d);' % dn if dn else ''), w, m)
    for m in ('memcpy', 'memmove', 'memcmp'):
        for a in ('undef, 0, "a", 0, 1', '(mutable string)copy "a", 0, undef, 0, 1', '[1], 0, new string[1], 0, 1', 'new string[1], 0, [1], 0, 1', '[1], 0, Int->new(1), 0, 1', 'Int->new(1), 0, [1], 0, 1', '"a", 0, "b", 0, 1', 'new int[][1], 0, [1], 0, 1')[:]:
            if m == 'memcmp' and a.startswith('"a"'): continue
            o.add('Fn->%s(%s);' % (m, a), None, 'wrong arguments of ' + m)
    # overlapping moves in one string
    w = ''; xs = b'abcde'
    for a in range(6):
        for b in range(6):
            for n in range(6 - max(a, b)):
                r = bytearray(xs); r[a:a + n] = xs[b:b + n]; w += T(bytes(r))
    o.loop('', 'for (my $a = 0; $a < 6; $a++) { for (my $b = 0; $b < 6; $b++) { for (my $n = 0; $n < 6; $n++) { if ($a + $n > 5 || $b + $n > 5) { next; } my $d = (mutable string)copy "abcde"; Fn->memmove($d, $a, $d, $b, $n); MCLog->s($d); } } }', w, 'overlapping memmove')
    # arrays of any type: reverse, slice, length, sizes, names, copy
    mkel = {'byte': '(byte)%s', 'short': '(short)%s', 'int': '%s', 'long': '(long)(%s)', 'float': '(float)(%s)', 'double': '(double)(%s)'}
    for t, size in ELEM + [('string', 8), ('object', 8), ('Int', 8), ('int[]', 8), ('Point', 8)]:
        def mk(n):
            if '[]' in t: d = 'my $a = new int[][%d];' % n
            else: d = 'my $a = new %s[%d];' % (t, n)
            fill = {'string': '$a->[$i] = "" . ($i + 1);', 'object': '$a->[$i] = Int->new($i + 1);', 'Int': '$a->[$i] = Int->new($i + 1);', 'Point': '$a->[$i] = Point->new($i + 1, 0);', 'int[]': '$a->[$i] = [$i + 1];', 'MCP_2s': '$a->[$i]{x} = (short)($i + 1); $a->[$i]{y} = (short)($i + 101);'}.get(t, '$a->[$i] = %s;' % mkel.get(t, '%s') % '($i + 1)' if t in mkel else '')
            return d + ' for (my $i = 0; $i < %d; $i++) { %s }' % (n, fill)
        el = {'string': '(int)$r->[$i]', 'object': '$r->[$i]->(Int)->value', 'Int': '$r->[$i]->value', 'Point': '$r->[$i]->x', 'int[]': '$r->[$i][0]', 'MCP_2s': '$r->[$i]{x} * 1000 + $r->[$i]{y}'}.get(t, '(int)$r->[$i]')
        val = (lambda x: x * 1000 + x + 100) if t == 'MCP_2s' else (lambda x: x)
        show = lambda e: 'my $r = (%s[])%s; MCLog->s(type_name $r); for (my $i = 0; $i < @$r; $i++) { MCLog->i(%s); }' % (t, e, el)
        tn = t + '[]'
        def W(xs): return T(tn) + ''.join('%d;' % val(x) for x in xs)
        for n in range(5):
            xs = list(range(1, n + 1))
            o.add(mk(n) + ' Fn->reverse_inplace($a); ' + show('$a'), W(xs[::-1]), 'reverse_inplace')
            deep = t not in ('object', 'Int', 'int[]')       # those elements are not Cloneable
            if deep: o.add(mk(n) + ' ' + show('Fn->reverse($a)') + ' { ' + show('$a') + ' }' , W(xs[::-1]) + W(xs), 'reverse')
            for sh in (0, 1):
                same = '' if t not in ('Point', 'object', 'Int', 'int[]', 'string') else ' for (my $i = 0; $i < @$r; $i++) { MCLog->i((object)$r->[$i] == (object)$a->[$i]); }'
                if sh or deep: o.add(mk(n) + ' ' + show('Fn->copy($a, %d)' % sh) + ' MCLog->i((object)$r == (object)$a);' + same, W(xs) + '0;' + ('%d;' % sh * n if same else ''), 'copy')
            o.add(mk(n) + ' MCLog->i(Fn->length($a)); MCLog->i(Fn->array_length($a)); MCLog->i(Fn->get_elem_size($a)); MCLog->i(Fn->get_elem_or_char_size($a)); MCLog->s(Fn->get_elem_type_name($a)); MCLog->i(Fn->is_array($a)); MCLog->i(Fn->is_numeric_array($a)); MCLog->i(Fn->is_mulnum_array($a)); MCLog->i(Fn->is_object_array($a)); MCLog->i(Fn->is_any_numeric_array($a)); MCLog->i(Fn->is_string_array($a)); MCLog->i(Fn->is_class($a));',
                  '%d;%d;%d;%d;%s1;%d;%d;%d;%d;%d;0;' % (n, n, size, size, T(t), t in mkel, t == 'MCP_2s', t in ('string', 'object', 'Int', 'int[]', 'Point'), t in mkel or t == 'MCP_2s', t == 'string'), 'properties of an array')
            for a in (-1, 0, 1, 2, 3, 4, MX, MN, -(1 << 29), 1 << 29, 1 << 30, 1 << 28, 1 << 31 - 2, -(1 << 30), -(1 << 28), (1 << 29) + 1):
                for k in (-1, 0, 1, 2, 3, 4):
                    if k == 0 and not 0 <= a <= n: continue
                    good = a >= 0 and k >= 0 and a + k <= n
                    o.add(mk(n) + ' ' + show('Fn->slice($a, %s, %d)' % (I(a), k)), W(xs[a:a + k]) if good else None, 'slice of %s[]' % t)
        if t in mkel:
            for n in range(5):
                for xs in itertools.product((1, 2, 3), repeat=n):
                    d = 'my $a = new %s[%d]; %s' % (t, n, ' '.join('$a->[%d] = %s;' % (i, mkel[t] % x) for i, x in enumerate(xs)))
                    for how in ('asc', 'desc'):
                        o.add(d + ' { ' + show('Fn->sort_%s($a)' % how) + ' } { ' + show('$a') + ' }', W(sorted(xs, reverse=how == 'desc')) + W(xs), 'sort_%s of %s[]' % (how, t))
    for v, good in (('undef', 0), ('Int->new(1)', 0), ('"abc"', 2)):
        for m in ('length', 'array_length', 'get_elem_size', 'get_elem_or_char_size', 'get_elem_type_name', 'reverse_inplace', 'copy', 'slice', 'sort_asc', 'sort_desc'):
            if v == 'undef' and m == 'copy': continue
            if good == 2 and m in ('length', 'get_elem_or_char_size', 'copy'): continue
            o.add('Fn->%s(%s%s);' % (m, v, ', 0, 0' if m == 'slice' else ''), None, '%s of %s' % (m, v))
    o.add('MCLog->i(Fn->length("abc")); MCLog->i(Fn->get_elem_or_char_size("abc")); MCLog->s((string)Fn->copy("abc")); MCLog->i(Fn->copy(undef) == undef);', '3;1;sabc;1;', 'strings')
    for m in ('is_array', 'is_numeric_array', 'is_mulnum_array', 'is_object_array', 'is_any_numeric_array', 'is_string_array', 'is_class', 'is_pointer_class'):
        o.add('MCLog->i(Fn->%s(undef)); MCLog->i(Fn->%s("a")); MCLog->i(Fn->%s(Int->new(1)));' % (m, m, m), '0;0;%d;' % (m == 'is_class'), m)
    for m in ('sort_asc', 'sort_desc'): o.add('Fn->%s(new string[1]);' % m, None, m); o.add('Fn->%s(new MCP_2s[1]);' % m, None, m)
    # callbacks
    for n in range(4):
        for xs in itertools.product((1, 2, 3), repeat=n):
            d = 'my $a = new Int[%d]; %s ' % (n, ' '.join('$a->[%d] = Int->new(%d);' % (i, x) for i, x in enumerate(xs)))
            sh = ' MCLog->s(type_name $r); for (my $i = 0; $i < @$r; $i++) { MCLog->i($r->[$i]->(Int)->value); }'
            wr = lambda ys: 'sInt[];' + ''.join('%d;' % y for y in ys)
            o.add(d + 'my $r = Fn->grep($a, method : int ($e : Int) { return $e->value != 2; });' + sh, wr([x for x in xs if x != 2]), 'grep')
            o.add(d + 'my $r = Fn->map($a, method : object ($e : Int) { return Int->new($e->value * 10); });' + sh, wr([x * 10 for x in xs]), 'map')
            o.add(d + 'my $r = Fn->map_expand($a, method : object[] ($e : Int) { my $x = new Int[$e->value - 1]; for (my $i = 0; $i < @$x; $i++) { $x->[$i] = $e; } return $x; });' + sh, wr([y for x in xs for y in [x] * (x - 1)]), 'map_expand')
            o.add(d + 'my $r = Fn->sort($a, method : int ($x : Int, $y : Int) { return $x->value <=> $y->value; });' + sh, wr(sorted(xs)), 'sort returns %s' % ('a sorted array' if list(xs) == sorted(xs) else 'the elements of an unsorted array sorted'))
    for m, t in (('grep', 'Callback::Grep'), ('map', 'Callback::Map'), ('map_expand', 'Callback::MapExpand')):
        o.add('Fn->%s(undef, (%s)undef);' % (m, t), None, 'undef'); o.add('Fn->%s(new Int[0], undef);' % m, None, 'undef')
    # options
    opts = [[], ['a', 1], ['a', 1, 'b', 2], ['a']]
    lit = lambda xs: '(object[])undef' if xs is None else 'new object[0]' if not xs else '[(object)%s]' % ', '.join('"%s"' % x if isinstance(x, str) else 'Int->new(%d)' % x for x in xs)
    for x in [None] + opts:
        for y in [None] + opts:
            good = len(x or []) % 2 == 0 and len(y or []) % 2 == 0
            o.add('my $r = Fn->merge_options(%s, %s); MCLog->i(@$r); for my $e (@$r) { MCLog->s($e isa string ? "" : ""); }'.replace(' for my $e (@$r) { MCLog->s($e isa string ? "" : ""); }', ' for my $e (@$r) { if ($e is_type string) { MCLog->s((string)$e); } else { MCLog->i($e->(Int)->value); } }') % (lit(x), lit(y)),
                  ('%d;' % (len(x or []) + len(y or [])) + ''.join(T(e) if isinstance(e, str) else '%d;' % e for e in (x or []) + (y or []))) if good else None, 'merge_options')
    for x in [None] + opts[:3]:
        for y in ([], ['a'], ['b'], ['a', 'b'], ['b', 'a', 'c']):
            good = all(k in y for k in (x or [])[::2])
            o.add('Fn->check_option_names(%s, %s); MCLog->s("ok");' % (lit(x), 'new string[0]' if not y else '[%s]' % ', '.join('"%s"' % e for e in y)), 'sok;' if good else None, 'check_option_names')
    o.add('my $x = (object)Int->new(1); my $y = (object)Int->new(2); MCLog->i(Fn->or($x, $y) == $x); MCLog->i(Fn->or(undef, $y) == $y); MCLog->i(Fn->if(1, $x, $y) == $x); MCLog->i(Fn->if(0, $x, $y) == $y); MCLog->i(Fn->or(undef, undef) == undef);', '1;1;1;1;1;', 'or and if')
    o.add('{ my $g = Fn->defer(method : void () { MCLog->s("d"); }); MCLog->s("a"); } MCLog->s("b");', 'sa;sd;sb;', 'defer')
    for d in (-1, 0, 1, 2, 255, 256):
        for f in (0, 1, 2, 3): o.add('MCLog->s(Fn->get_compile_type_name("int", %d, %d));' % (d, f), T(('mutable ' if f & 2 else '') + 'int' + '[]' * d + ('*' if f & 1 else '')) if 0 <= d <= 255 else None, 'get_compile_type_name')
    o.add('Fn->get_compile_type_name(undef, 0, 0);', None, 'undef'); o.add('Fn->get_basic_type_id(undef);', None, 'undef'); o.add('Fn->get_basic_type_id("MCNotFound");', None, 'undef')
    o.add('MCLog->i(Fn->get_basic_type_id("Int") == basic_type_id Int); MCLog->i(Fn->get_basic_type_id("string") == basic_type_id string);', '1;1;', 'get_basic_type_id')


def main():
    quick = TIER == 'quick'
    ck = Check('M18')
    sc = ck.make_scratch()
    bin_ = sc.mcrun()
    o = Out()
    tables(o); ranges(o, quick); utf8(o, quick); classes(o); memory(o); o.flush()
    head = '%PRE%static method sum : int ($s : string) { my $h = 0; for (my $i = 0; $i < length $s; $i++) { $h = ($h * 31 + ((int)$s->[$i] & 255) + 1) & 0x7fffff; } return $h; }\n'
    run_items(ck, bin_, o.items, chunk=25, header=head, uses='use MCLog; use Fn; use StringBuffer; use Int; use Point; use MCP_2s; use Cloner; use Error::Unicode::InvalidUTF8;', files={'MCP_2s.spvm': 'class MCP_2s : mulnum_t { has x : short; has y : short; }\n'})
    n = sum(i.want.count(';') for i in o.items)
    ck.count(states=2 * n)
    ck.sample('%d programs, %d observations' % (len(o.items), n))
    ck.finish(exhaustive=True, bound='all strings of up to 3 of 8 bytes (5 of 2 for splitting, 4 of 2 for searching), every offset and length from -1 to past the end and the extremes, every Unicode character of planes 0, 1 and 16 (all in thorough), boundary UTF-8 sequences of up to 4 bytes')
