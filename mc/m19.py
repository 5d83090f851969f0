"""M19: formatting and packing: every short format string and template, and every specifier with every option and boundary value."""
import itertools, struct, re
from common import *
from progs import *
from m18 import q, T, Out, MX, MN

NUMS = {'d': ('int', [0, 1, -1, 12345, -12345, MX, MN]), 'u': ('int', [0, 1, -1, MX, MN]), 'x': ('int', [0, 1, -1, 255, 4096, MX, MN]), 'X': ('int', [0, 171, -1, MN]),
        'ld': ('long', [0, -7, 2**63 - 1, -2**63]), 'lu': ('long', [0, 7, -1, -2**63]), 'lx': ('long', [0, 171, -1, -2**63]), 'lX': ('long', [0, 171, -1, -2**63])}
FL = [0.0, -0.0, 1.5, -1.5, 0.1, 3.14159265358979, 1e10, -1e15, 1e16, 1e20, 123456789012345678.0, -1e22, 1e100, 1.7976931348623157e308, -1.7976931348623157e308, 5e-324, 2.2250738585072014e-308, 1e-5, 123456.0, 1234567.0, 0.0001, 0.00001]


def lint(t, v): return '(-9223372036854775807L - 1L)' if v == -2**63 else '%dL' % v if t == 'long' else '(-2147483647 - 1)' if v == MN else '%d' % v
def pad(body, sign, flags, width):
    "body without its sign"
    n = width - len((sign + body).encode() if isinstance(body, str) else sign.encode() + body)
    b = body.encode() if isinstance(body, str) else body
    s = sign.encode()
    if n <= 0: return s + b
    if '-' in flags: return s + b + b' ' * n
    if '0' in flags: return s + b'0' * n + b
    return b' ' * n + s + b
def number(spec, v, flags, width, prec):
    if spec in ('d', 'ld'): s = str(v)
    elif spec in ('u', 'lu'): s = str(v & (2**64 - 1 if 'l' in spec else 2**32 - 1))
    elif spec[-1] in 'xX': s = '%x' % (v & (2**64 - 1 if 'l' in spec else 2**32 - 1)); s = s.upper() if spec[-1] == 'X' else s
    else: s = '%.*' % () if 0 else ('%%.%d%s' % (6 if prec is None else prec, spec)) % v
    sign = ''
    if spec in ('d', 'ld', 'f', 'g'):
        if s[0] == '-': sign, s = '-', s[1:]
        elif '+' in flags: sign = '+'
    return pad(s, sign, flags, width)


def formats(o, quick):
    fl = [''.join(p) for k in range(3 if quick else 4) for p in itertools.product('0+-', repeat=k)]
    ws = [0, 1, 4, 5, 12]
    for spec, (t, vs) in NUMS.items():
        fs = [(f, w) for f in fl for w in ws]
        want = ''.join(T(number(spec, v, f, w, None)) for f, w in fs for v in vs)
        o.loop('my $fs = [%s]; my $vs = [%s];' % (', '.join(q('%%%s%s%s' % (f, w or '', spec)) for f, w in fs), ', '.join(lint(t, v) for v in vs)), 'for my $f (@$fs) { for my $v (@$vs) { MCLog->s(Format->sprintf($f, [(object)$v])); } }', want, '%%%s' % spec)
    for spec in 'fg':
        for prec in (None, 0, 1, 3, 10, 20, 400):
            fs = [(f, w) for f in fl for w in ws]
            if prec == 400: fs = fs[:3]
            for t in ('double', 'float'):
                vals = FL if t == 'double' else [struct.unpack('<f', struct.pack('<f', v))[0] for v in FL if abs(v) < 3.4e38 and (v == 0 or abs(v) > 1e-38)] + [3.4028234663852886e38]
                bits = ', '.join('%dL' % struct.unpack('<q', struct.pack('<d', v)) if struct.unpack('<q', struct.pack('<d', v))[0] != -2**63 else '(-9223372036854775807L - 1L)' for v in vals)
                pre = 'my $fs = [%s]; my $bs = [%s]; my $vs = new double[%d]; Fn->memcpy($vs, 0, $bs, 0, %d);' % (', '.join(q('%%%s%s%s%s' % (f, w or '', '' if prec is None else '.%d' % prec, spec)) for f, w in fs), bits, len(vals), 8 * len(vals))
                obj = '$v' if t == 'double' else '(float)$v'
                want = ''.join(T(number(spec, v, f, w, prec)) for f, w in fs for v in vals)
                o.loop(pre, 'for my $f (@$fs) { for my $v (@$vs) { MCLog->s(Format->sprintf($f, [(object)%s])); } }' % obj, want, '%%%s of %s' % (spec, t))
    # infinities and not-a-number
    o.loop('my $v = 1e308; my $i = $v * 10; my $m = -$i; my $n = $i - $i;', ''.join('MCLog->s(Format->sprintf("%%%s", [(object)%s]));' % (f, v) for f in ('f', '5g', '-6f', '.2f', '.0g') for v in ('$i', '$m')), ''.join(T(number(f[-1], v, f[:-1] if '-' in f else '', int(re.sub(r'\..*|[^0-9]', '', f) or 0), None)) for f in ('f', '5g', '-6f', '.2f', '.0g') for v in (float('inf'), float('-inf'))), 'infinity')
    # strings and characters
    ss = [b'', b'a', b'-ab', b'abc', 'あ'.encode(), b'a\0b', b'%d', b'-']
    for prec in (None, 0, 1, 2, 5):
        fs = [(f, w) for f in fl for w in ws]
        want = ''; ok = []
        for f, w in fs:
            for s in ss:
                cut = s if prec is None or prec >= len(s) else s[:prec]
                judged = cut == s or w <= prec
                ok.append('1' if judged else '0')
                if judged: want += T(pad(cut, '', f, w))
        o.loop('my $fs = [%s]; my $vs = [%s]; my $ok = "%s"; my $k = 0;' % (', '.join(q('%%%s%s%ss' % (f, w or '', '' if prec is None else '.%d' % prec)) for f, w in fs), ', '.join(map(q, ss)), ''.join(ok)),
               "for my $f (@$fs) { for my $v (@$vs) { if ($ok->[$k++] == '1') { MCLog->s(Format->sprintf($f, [(object)$v])); } } }", want, '%s')
    cs = [0, 65, 127, 128, 0x7ff, 0x800, 0xd7ff, 0xd800, 0xdfff, 0xe000, 0xffff, 0x10000, 0x10ffff, 0x110000, -1, MX]
    fs = [(f, w) for f in fl for w in ws]
    want = ''.join(T(pad(chr(c).encode() if 0 <= c < 0x110000 and not 0xd800 <= c < 0xe000 else b'?', '', f, w)) for f, w in fs for c in cs)
    o.loop('my $fs = [%s]; my $vs = [%s];' % (', '.join(q('%%%s%sc' % (f, w or '')) for f, w in fs), ', '.join(map(str, cs))), 'for my $f (@$fs) { for my $v (@$vs) { MCLog->s(Format->sprintf($f, [(object)$v])); } }', want, '%c')
    o.loop('', 'for (my $i = 0; $i < 128; $i++) { MCLog->s(Format->sprintf("%c", [(object)(byte)$i])); }', ''.join(T(bytes([i])) for i in range(128)), '%c of a byte')
    o.loop('my $o = (object)Int->new(1); my $p = Fn->to_address($o);', 'MCLog->i(Format->sprintf("%p", [$o]) eq $p); MCLog->i(Format->sprintf("[%p]", [$o]) eq "[$p]");', '1;1;', '%p')
    # types
    good = {'c': ('Byte', 'Int'), 'd': ('Int',), 'f': ('Double', 'Float'), 'g': ('Double', 'Float'), 'x': ('Int',), 'X': ('Int',), 'lX': ('Long',), 'ld': ('Long',), 'lu': ('Long',), 'lx': ('Long',), 's': ('string',), 'u': ('Int',)}
    lits = {'Byte': '(object)(byte)65', 'Short': '(object)(short)65', 'Int': '(object)65', 'Long': '(object)65L', 'Float': '(object)65.0f', 'Double': '(object)65.0', 'string': '(object)"A"', 'array': '(object)[65]', 'Point': '(object)Point->new(1, 2)'}
    for s, ts in good.items():
        for t, l in lits.items(): o.add('my $s = Format->sprintf("%%%s", [%s]); MCLog->s("ok");' % (s, l), 'sok;' if t in ts else None, 'type of %%%s' % s)
    # every short format
    def parse(f):
        "text, or None for an exception, or 'skip'"
        out = ''; i = 0; arg = 0
        while i < len(f):
            if f[i] != '%': out += f[i]; i += 1; continue
            if f[i + 1:i + 2] == '%': out += '%'; i += 2; continue
            m = re.compile(r'%([0+-]*)([0-9]*)(\.[0-9]*)?(l[dXux]|[Xcdfgpsux])?').match(f, i)
            sp = m.group(4)
            if arg >= 2 or not sp or sp == 'ld': return None
            if m.group(3): return 'skip'
            out += number(sp, 7 + arg, m.group(1), int(m.group(2) or 0), None).decode(); arg += 1; i = m.end()
        return out
    fsx = [''.join(p) for k in range(6 if quick else 7) for p in itertools.product('a%d5.l' if k < 6 else '%d5.l', repeat=k)]
    fsx += [''.join(p) for k in range(1, 5) for p in itertools.product('%d0+-', repeat=k)]
    fsx = [f for f in fsx if parse(f) != 'skip']
    for c in range(0, len(fsx), 400):
        part = fsx[c:c + 400]
        o.loop('my $fs = [%s];' % ', '.join(map(q, part)), 'for my $f (@$fs) { eval { MCLog->s(Format->sprintf($f, [(object)7, 8])); } if ($@) { MCLog->s("E"); } }', ''.join('sE;' if parse(f) is None else T(parse(f)) for f in part), 'short formats')


SP = {'c': ('byte', 'b', 1), 'C': ('byte', 'b', 1), 's': ('short', 'h', 2), 'S': ('short', 'h', 2), 'l': ('int', 'i', 4), 'L': ('int', 'i', 4), 'q': ('long', 'q', 8), 'Q': ('long', 'q', 8), 'f': ('float', 'f', 4), 'd': ('double', 'd', 8)}
VAL = {'byte': [1, -2, 127, -128], 'short': [258, -2, 32767, -32768], 'int': [16909060, -2, MX, MN], 'long': [72623859790382856, -2, 2**63 - 1, -2**63], 'float': [1.5, -2.25, 0.0, 1024.0], 'double': [1.5, -2.25, 0.1, 1e300]}
def vlit(t, v): return '(byte)%d' % v if t == 'byte' else '(short)%d' % v if t == 'short' else lint(t, v) if t in ('int', 'long') else '%rf' % v if t == 'float' else repr(v)
def alit(t, vs): return '(object)(new %s[0])' % t if not vs else '(object)[%s]' % ', '.join(vlit(t, v) for v in vs)


SHOW = '''%PRE%static method show : void ($rs : object[]) { MCLog->i(@$rs); for my $r (@$rs) { MCLog->s(type_name $r); if ($r is_type string) { MCLog->s((string)$r); } elsif (Fn->is_array($r)) { my $n = Fn->length($r) * Fn->get_elem_size($r); my $b = new_string_len $n; Fn->memcpy($b, 0, $r, 0, $n); MCLog->s($b); }
 elsif ($r is_type Byte) { MCLog->i((byte)$r); } elsif ($r is_type Short) { MCLog->i((short)$r); } elsif ($r is_type Int) { MCLog->i((int)$r); } elsif ($r is_type Long) { MCLog->l((long)$r); } elsif ($r is_type Float) { my $x = [(float)$r]; my $y = [0]; Fn->memcpy($y, 0, $x, 0, 4); MCLog->i($y->[0]); } elsif ($r is_type Double) { my $x = [(double)$r]; my $y = [0L]; Fn->memcpy($y, 0, $x, 0, 8); MCLog->l($y->[0]); } } }
'''
def unpack_model(template, data):
    "trace of show, or None"
    out = []; pos = 0
    i = 0; parts = []
    while i < len(template):
        m = re.compile(r'([aHhcCsSlLqQfd])([<>]?)(\*|[0-9]*)').match(template, i)
        if not m: return None
        if m.group(3) not in ('', '*') and not 0 < int(m.group(3)) <= MX: return None
        if m.group(1) == 'a' and m.group(3) == '': return None
        parts.append(m.groups()); i = m.end()
    w = '%d;' % len(parts)
    for c, e, n in parts:
        size = 1 if c in 'aHh' else SP[c][2]
        rem = (len(data) - pos) // size
        k = rem if n == '*' else int(n or 1)
        digits = None
        if c in 'Hh': digits = 2 * k if n == '*' else k; k = k if n == '*' else (k + 1) // 2
        if k > rem: return None
        b = data[pos:pos + k * size]; pos += k * size
        if c == 'a': w += 'sstring;' + T(b)
        elif c in 'Hh': w += 'sstring;' + T(''.join(('%02x' % x)[::1 if c == 'H' else -1] for x in b)[:digits])
        else:
            t = SP[c][0]
            if e == '>': b = b''.join(b[j:j + size][::-1] for j in range(0, len(b), size))
            if n == '':
                code = {'f': 'i', 'd': 'q'}.get(SP[c][1], SP[c][1])
                w += 's%s;%d;' % (t.capitalize(), struct.unpack('<' + code, b)[0])
            else: w += 's%s[];' % t + T(b)
    return w


def packing(o, quick):
    for c, (t, code, size) in SP.items():
        vs = VAL[t]
        for e in ('', '<', '>'):
            one = lambda v: struct.pack(('>' if e == '>' else '<') + code, v)
            for v in vs: o.add('MCLog->s(Fn->pack("%s%s", [(object)%s])); &show(Packer->new->unpack("%s%s", Fn->pack("%s%s", [(object)%s])));' % (c, e, vlit(t, v), c, e, c, e, vlit(t, v)), T(one(v)) + unpack_model(c + e, one(v)), 'pack %s%s' % (c, e))
            for n in ('1', '2', '3', '4', '*'):
                for k in range(5):
                    xs = vs[:k]; L = k if n == '*' else int(n)
                    b = b''.join(map(one, xs[:L])) + bytes(size * max(0, L - k))
                    o.add('my $b = Packer->new->pack("%s%s%s", [%s]); MCLog->s($b); &show(Fn->unpack("%s%s%s", $b));' % (c, e, n, alit(t, xs), c, e, n), T(b) + unpack_model(c + e + n, b), 'pack %s%s of an array' % (c, e))
            for n in ('', '1', '2', '3', '*', '02'):
                w = ''
                data = bytes(range(1, 1 + 4 * size))
                for L in range(0, 3 * size + 2): w += unpack_model(c + e + n, data[:L]) or 'sE;'
                o.loop('', 'my $d = (mutable string)new_string_len %d; for (my $i = 0; $i < %d; $i++) { $d->[$i] = (byte)($i + 1); } for (my $i = 0; $i < %d; $i++) { eval { &show(Fn->unpack("%s%s%s", Fn->substr($d, 0, $i))); } if ($@) { MCLog->s("E"); } }' % (4 * size, 4 * size, 3 * size + 2, c, e, n), w, 'unpack %s%s' % (c, e))
        # lengths past every limit
        for n in (1 << 28, (1 << 28) + 1, 1 << 29, (1 << 29) + 1, 1 << 30, (1 << 30) + 1, 1 << 31 - 1, MX, MX - 1, 1 << 31, 1 << 32, 10**20):
            o.add('&show(Fn->unpack("%s%d", "0123456789abcdef"));' % (c, n), None, 'unpack of huge lengths')
    for n in ('2147483647', '2147483646', '4294967296', '1073741824'):
        for c in 'aHh': o.add('&show(Fn->unpack("%s%s", "0123456789abcdef"));' % (c, n), None, 'unpack of huge lengths')
        for c in 'aHh': o.add('&show(Fn->unpack("c%s%s", "0123456789abcdef"));' % (c, n), None, 'unpack of huge lengths')
    # strings
    for n in ('1', '2', '3', '5', '*'):
        for s in (b'', b'a', b'ab', b'abc', b'\0\xff'):
            L = len(s) if n == '*' else int(n)
            b = s[:L] + bytes(L - min(L, len(s)))
            o.add('my $b = Fn->pack("a%s", [(object)%s]); MCLog->s($b); &show(Fn->unpack("a%s", $b));' % (n, q(s), n), T(b) + unpack_model('a' + n, b), 'pack a')
    for c in 'Hh':
        for s in ('', '0', 'f', 'ef', 'efc', 'efcd', '0a0b', '0', '00', '7F80', 'eFcD1', '0000', 'g', 'eg', 'efg', '-1', 'e\0'):
            for n in ('1', '2', '3', '4', '5', '6', '*'):
                L = len(s) if n == '*' else int(n)
                if L < len(s) and (L % 2 or L + 1 < len(s) and 0): continue      # cutting a byte in two: not documented
                if not re.fullmatch('[0-9a-fA-F]*', s): o.add('Fn->pack("%s%s", [(object)%s]);' % (c, n, q(s)), None, 'pack of no hex digits'); continue
                d = (s + '0' * (len(s) % 2))
                b = bytes(int(d[j:j + 2][::1 if c == 'H' else -1], 16) for j in range(0, len(d), 2))[:(L + 1) // 2]
                b += bytes((L + 1) // 2 - len(b))
                o.add('my $b = Fn->pack("%s%s", [(object)%s]); MCLog->s($b); &show(Fn->unpack("%s%s", $b));' % (c, n, q(s), c, n), T(b) + unpack_model(c + n, b), 'pack %s' % c)
    # pairs
    parts = ['c', 's>', 'l2', 'l>2', 'q<', 'a2', 'H3', 'h2', 'd>', 'f*', 'a*', 's>*', 'H*']
    mk = {'c': '(object)(byte)-5', 's': '(object)(short)258', 'l': '(object)[16909060, -2]', 'q': '(object)72623859790382856L', 'a': '(object)"xy"', 'H': '(object)"efc"', 'h': '(object)"ab"', 'd': '(object)1.5', 'f': '(object)[1.5f, -2.25f]'}
    def enc(p):
        c = p[0]; e = '>' if '>' in p else '<'
        if p == 's>*': return struct.pack('>hh', 258, -2)
        return {'c': struct.pack('b', -5), 's': struct.pack(e + 'h', 258), 'l': struct.pack(e + 'ii', 16909060, -2), 'q': struct.pack('<q', 72623859790382856), 'a': b'xy', 'H': b'\xef\xc0', 'h': b'\xba', 'd': struct.pack('>d', 1.5), 'f': struct.pack('<ff', 1.5, -2.25)}[c]
    for k in ((2,) if quick else (2, 3)):
        for ps in itertools.product(parts, repeat=k):
            b = b''.join(map(enc, ps)); t = ''.join(ps)
            objs = ', '.join('(object)[(short)258, (short)-2]' if p == 's>*' else mk[p[0]] for p in ps)
            u = unpack_model(t, b)
            o.add('my $b = Fn->pack("%s", [%s]); MCLog->s($b); eval { &show(Fn->unpack("%s", $b)); } if ($@) { MCLog->s("E"); $@ = undef; }' % (t, objs, t), T(b) + (u or 'sE;'), 'sequences')
            if k == 2: o.add('Fn->pack("%s", [%s]);' % (t, objs.rsplit(', (object)', 1)[0]), None, 'too few objects')
    # every short template
    data = bytes(range(65, 65 + 20))
    ts = [''.join(p) for k in range(5) for p in itertools.product('cla>*02x', repeat=k)] + [''.join(p) for k in range(1, 4) for p in itertools.product('sHhd<>1* ', repeat=k)]
    for c in range(0, len(ts), 300):
        part = ts[c:c + 300]
        o.loop('my $ts = [%s];' % ', '.join(map(q, part)), 'for my $t (@$ts) { eval { &show(Fn->unpack($t, %s)); } if ($@) { MCLog->s("E"); } }' % q(data), ''.join(unpack_model(t, data) or 'sE;' for t in part), 'short templates')
    # types
    objs = {'byte': '(object)(byte)1', 'short': '(object)(short)1', 'int': '(object)1', 'long': '(object)1L', 'float': '(object)1.0f', 'double': '(object)1.0', 'byte[]': '(object)[(byte)1]', 'short[]': '(object)[(short)1]', 'int[]': '(object)[1]', 'long[]': '(object)[1L]', 'float[]': '(object)[1.0f]', 'double[]': '(object)[1.0]', 'string': '(object)"a1"', 'Point': '(object)Point->new(1, 2)', 'undef': '(object)undef'}
    for c in list(SP) + ['a', 'H', 'h']:
        for n in ('', '1', '*'):
            for t, l in objs.items():
                if c in 'aHh':
                    if c == 'a' and n == '' : continue
                    ok = t == 'string'
                    if t == 'undef' or c != 'a' and n in ('', '1') and ok: continue
                else: ok = t == SP[c][0] + ('[]' if n else '')
                o.add('Fn->pack("%s%s", [%s]); MCLog->s("ok");' % (c, n, l), 'sok;' if ok else None, 'type of the object of %s%s' % (c, n))
    for e in ('Fn->pack(undef, [(object)1])', 'Fn->pack("l", undef)', 'Fn->unpack(undef, "a")', 'Fn->unpack("c", undef)'): o.add(e + ';', None, 'undef')


def main():
    quick = TIER == 'quick'
    ck = Check('M19')
    sc = ck.make_scratch()
    bin_ = sc.mcrun()
    o = Out()
    formats(o, quick); packing(o, quick); o.flush()
    run_items(ck, bin_, o.items, chunk=20, header=SHOW, uses='use MCLog; use Fn; use Format; use Packer; use Point; use Int; use Byte; use Short; use Long; use Float; use Double;')
    n = sum(i.want.count(';') for i in o.items)
    ck.count(states=2 * n)
    ck.sample('%d programs, %d observations' % (len(o.items), n))
    ck.finish(exhaustive=True, bound='every format of up to 5 of 6 characters and every template of up to 4 of 8 characters (formats of 6 and triples of specifiers in thorough); 12 format specifiers with every flag sequence of length 2, 5 widths, 7 precisions and boundary values; 13 pack specifiers, 3 byte orders, 6 lengths, and every length of the input')
