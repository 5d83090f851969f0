"""Literals: every number, character, string, interpolation and here document denotes the documented value; separators between tokens, comments, POD and directives have no other effect than on line numbers."""
import itertools, re
from common import *
from progs import Item, run_items
from acc import accept
from num import wrap, f32, fmt

DIG = {10: '0123456789', 16: '0123456789abcdefABCDEF', 8: '01234567', 2: '01'}


def int_value(text):
    """(type, value) of an integer literal in the grammar, 'range' when it does not fit, None when it is no integer literal, 'free' when the documentation leaves it open"""
    t = text
    neg = t.startswith('-')
    if neg: t = t[1:]
    ty = 'int'
    m = re.fullmatch(r'0[xX]([0-9a-fA-F_]*)([lL]?)', t)
    base = 16
    if not m: m = re.fullmatch(r'0[bB]([0-9_]*)([lL]?)', t); base = 2
    if not m: m = re.fullmatch(r'0([0-9_]+)([lL]?)', t); base = 8
    if not m: m = re.fullmatch(r'([0-9][0-9_]*)([lL]?)', t); base = 10
    if not m: return None
    d = m.group(1).replace('_', '')
    if m.group(2): ty = 'long'
    if base == 8 and (not d or '8' in d or '9' in d): return 'free'
    if not d or any(c not in DIG[base] for c in d): return 'bad'
    v = int(d, base)
    bits = 32 if ty == 'int' else 64
    if base == 10:
        if v > (1 << (bits - 1)) - (0 if neg else 1): return 'range'
        return ty, -v if neg else v
    if v >> bits: return 'range'
    v = wrap(ty, v)
    return ty, wrap(ty, -v) if neg else v


def ints(quick):
    out = set()
    def us(d):       # underscores
        yield d
        if len(d) > 1: yield d[0] + '_' + d[1:]; yield '_'.join(d); yield d + '_'; yield d[:-1] + '__' + d[-1]
    dec = [''.join(s) for n in (1, 2, 3) for s in itertools.product('019_' if n < 3 else '19_0', repeat=n)]
    dec = [d for d in dec if d[0] in '0123456789']
    big = [2 ** k + e for k in (7, 8, 15, 16, 31, 32, 63, 64, 65) for e in (-1, 0, 1)] + [99999999999999999999, 10 ** 9, 10 ** 18, 1234567890]
    for v in big:
        for d in us(str(v)): dec.append(d)
    hexs = [''.join(s) for n in range(0, 4) for s in itertools.product('01fF8_' if n < 3 else '1f_9', repeat=n)] + ['g', '1g', 'G1']
    for v in big:
        for d in us('%x' % v): hexs.append(d); hexs.append(d.upper())
        hexs.append('000' + '%x' % v)
    octs = [''.join(s) for n in range(1, 4) for s in itertools.product('017_' if n < 3 else '17_8', repeat=n)]
    for v in big:
        for d in us('%o' % v): octs.append(d)
        octs.append('00%o' % v)
    bins = [''.join(s) for n in range(0, 5) for s in itertools.product('01_' if n < 4 else '1_2', repeat=n)]
    for v in big:
        for d in us(bin(v)[2:]): bins.append(d)
        bins.append('0' + bin(v)[2:])
    for d in dec: out.add(d)
    for p in ('0x', '0X'): out.update(p + d for d in hexs)
    out.update('0' + d for d in octs)
    for p in ('0b', '0B'): out.update(p + d for d in bins)
    out = sorted(out)
    return [s + t + u for t in out for s in ('', '-') for u in ('', 'L', 'l')]


def float_value(text):
    t = text
    neg = t.startswith('-')
    if neg: t = t[1:]
    m = re.fullmatch(r'([0-9][0-9_]*)(\.[0-9_]*[0-9][0-9_]*)?([eE]_*[+-]?_*[0-9][0-9_]*)?([fFdD]?)', t)
    hexa = False
    if not m:
        m = re.fullmatch(r'0[xX](_*[0-9a-fA-F][0-9a-fA-F_]*)(\.[0-9a-fA-F_]*[0-9a-fA-F][0-9a-fA-F_]*)?([pP]_*[+-]?_*[0-9][0-9_]*)([fFdD]?)', t); hexa = True
        if not m: return 'free'
    i, fr, ex, suf = m.groups()
    if not (fr or ex or suf): return 'free'
    if not hexa and len(i.replace('_', '')) > 1 and i[0] == '0': return 'free'
    s = (i + (fr or '') + (ex or '')).replace('_', '')
    ty = 'float' if suf in ('f', 'F') else 'double'
    import fractions
    if hexa:
        mant, e = re.split('[pP]', s); a, _, b = mant.partition('.')
        x = fractions.Fraction(int(a + b, 16), 16 ** len(b)) * fractions.Fraction(2) ** int(e)
    else: x = fractions.Fraction(s)
    big = fractions.Fraction(2) ** (128 if ty == 'float' else 1024); tiny = fractions.Fraction(2) ** (-126 if ty == 'float' else -1022)
    if x and (x >= big * fractions.Fraction(999, 1000) or x < tiny): return 'free'
    v = nearest(x, 24 if ty == 'float' else 53)
    return ty, -v if neg else v


def nearest(x, bits):
    "the closest binary floating point value with that many bits"
    if not x: return 0.0
    n = 0
    while x >= 1 << bits: x /= 2; n += 1
    while x < 1 << (bits - 1): x *= 2; n -= 1
    f = x.numerator // x.denominator; r = x - f
    if r * 2 > 1 or (r * 2 == 1 and f & 1): f += 1
    return float(f) * 2.0 ** n if -1000 < n < 900 else float(f) * 2.0 ** (n // 2) * 2.0 ** (n - n // 2)


def floats(quick):
    I = ['0', '1', '12', '1_0', '9007199254740993', '16777217', '123456789', '0_0'] + ([] if quick else ['00', '01', '33554435', '18014398509481987'])
    F = ['', '.0', '.5', '.1', '.05', '.3', '.123456789012345678', '.1_5', '.99999999', '.000000000000000000001']
    E = ['', 'e0', 'e5', 'E+3', 'e-3', 'e10', 'e-10', 'e1_0', 'e22', 'e23', 'e30', 'e-37', 'e300', 'e-300']
    S = ['', 'f', 'F', 'd', 'D']
    out = [i + f + e + s for i in I for f in F for e in E for s in S if f or e or s]
    HI = ['0x0', '0x1', '0X1f', '0x_1_8', '0xFfFfFfFfFfFfF8', '0x1000001']
    HF = ['', '.8', '.0', '.1f', '.edA', '.000000000000001']
    HE = ['p0', 'P+3', 'p-3', 'p10', 'p-1_0', 'p100', 'p-120', 'p900']
    out += [i + f + e + s for i in HI for f in HF for e in HE for s in S]
    out += [i + f + e + s for i in ('1', '1_') for f in ('', '.5', '._5', '.5_') for e in ('e_2', 'e+_2', 'e_-2', 'e_+2', 'e_-_2_', 'E__-__1') for s in ('', 'f')]
    out += [i + f + e for i in ('0x1', '0x_1_') for f in ('', '.8', '._8_') for e in ('p_2', 'p+_2', 'p_-2', 'P_+_2_')]
    for x in (0.1, 0.2, 0.3, 1 / 3, 2 / 3, 1e15, 1e16, 1e17, 123456.789, 3.141592653589793, 2.718281828459045, 1.7976931348623157e308 / 4, 2.2250738585072014e-308, 5e-300, 4.35, 0.000001, 1e-7, 123456789.12345679, 4503599627370497.5):
        r = repr(x)
        if '.' in r or 'e' in r: out += [r, r + 'd', r + 'f']
    return ['%s%s' % (m, t) for t in out for m in ('', '-')]


OTHER_NUM = ['1e', '1e+', '1E-', '1.5e', '1L2', '1fL', '1Lf', '1.5L', '0x1p', '0x1p+', '0x1.8pf', '0b1f2', '1a', '9z', '1e5x', '1.5x', '1dd', '1ff', '0b', '0B', '0x', '0X', '0bL', '0xL', '0b2', '0b12', '0xg', '1e5L', '1e5e5', '0x1p1p1', '0xp1', '0x.p1']      # never an expression


def numbers(quick):
    """(items, acceptance cases)"""
    cases, items = [], []
    src = 'class { static method t : void () { my $z = %s; } }'
    def take(text, kind, r):
        if r in ('free', None): return
        cases.append(('%s %s' % (kind, text), src % text, isinstance(r, tuple)))
        if isinstance(r, tuple):
            ty, v = r
            lg = {'int': 'i', 'long': 'l', 'float': 'f', 'double': 'd'}[ty]
            tr = 's%s;' % ty + (fmt(ty, v) if ty in ('float', 'double') else '%d;' % v)
            body = 'my $z%%N%% = %s; MCLog->s(compile_type_name $z%%N%%); MCLog->%s($z%%N%%);' % (text, lg)
            items.append((text, body, tr, ty, v, lg))
    for t in dict.fromkeys(ints(quick)): take(t, 'integer', int_value(t))
    for t in dict.fromkeys(floats(quick)): take(t, 'floating point', float_value(t))
    for t in OTHER_NUM: cases.append(('malformed number ' + t, src % t, False))
    # further places a literal is evaluated by the compiler
    out = [Item(b, tr, 'number ' + t) for t, b, tr, _, _, _ in items]
    extra = []
    places = [x for k, x in enumerate(items) if x[3] == 'int' and (not quick or k % 7 == 0)]
    enums = [Item('MCLog->i(MCT->E%d); switch ((int)%d) { case MCT->E%d: { MCLog->i(1); break; } default: { MCLog->i(0); } }' % (k, x[4], k), '%d;1;' % x[4], 'number %s in an enumeration' % x[0], decl='enum { E%d = %s }' % (k, x[0])) for k, x in enumerate(places) if x[4] >= -2 ** 31]
    sw = [Item('my $n = %d; switch ($n) { case %s: { MCLog->i(1); break; } default: { MCLog->i(0); } }' % (x[4], x[0]), '1;', 'number %s in case' % x[0]) for x in places]
    df = []
    for k, x in enumerate(items):
        if quick and k % 5: continue
        df.append(Item('MCT->d%N%; ', fmt_tr(x), 'number %s as default' % x[0], decl='static method d%%N%% : void ($x : %s = %s) { MCLog->%s($x); }' % (x[3], x[0], x[5])))
        df.append(Item('my $a = [%s, %s]; MCLog->%s($a->[1] + 0); MCLog->%s(%s + 0); MCLog->%s(-(%s)); MCLog->i((%s) == (%s));' % (x[0], x[0], x[5], x[5], x[0], x[5], x[0], x[0], x[0]), fmt_tr((0, 0, 0, x[3], x[4] + 0)) * 2 + fmt_tr((0, 0, 0, x[3], neg(x[3], x[4]))) + '1;', 'number %s in expressions' % x[0]))
    return cases, out, enums + sw + df


def adjoining(quick):
    "a number directly followed by an operator, and an operator directly followed by a number"
    L = [('1', 'i', 1), ('0x1e', 'i', 30), ('017', 'i', 15), ('0b11', 'i', 3), ('1_0', 'i', 10), ('7L', 'l', 7), ('1.5', 'd', 1.5), ('12.', None, 0), ('1e1', 'd', 10.0), ('2.5e1', 'd', 25.0), ('25e-1', 'd', 2.5), ('1.5f', 'f', 1.5), ('3d', 'd', 3.0), ('0x1p3', 'd', 8.0), ('0x1.8p0', 'd', 1.5), ('0x1p1f', 'f', 2.0), ('0xe', 'i', 14), ('0xF', 'i', 15), ("'a'", 'i', 97), ('$x', 'i', 5)]
    rank = 'ilfd'; items = []
    for a, ta, va in L:
        for b, tb, vb in L:
            if not (ta and tb): continue
            t = max(ta, tb, key=rank.index); fl = t in 'fd'
            for op, v in (('+', va + vb), ('-', va - vb), ('*', va * vb), ('==', int(va == vb)), ('<', int(va < vb)), ('>', int(va > vb)), ('!=', int(va != vb)), ('<=>', (va > vb) - (va < vb)), ('+-', None), ('--', None), ('-', va - vb)):
                for pre, post in (('', ''), (' ', ''), ('', ' ')):
                    if op in ('--', '+-') or op == '-' and not post: continue
                    k = 'i' if op not in '+-*' else t
                    w = (fmt({'f': 'float', 'd': 'double'}[k], v + 0.0)) if k in 'fd' else '%d;' % v
                    items.append(Item('my $x = 5; MCLog->%s(%s%s%s%s%s);' % (k, a, pre, op, post, b), w, 'adjoining %s%s%s%s%s' % (a, pre, op, post, b)))
        if ta:
            w = fmt({'f': 'float', 'd': 'double'}[ta], va + 0.0) if ta in 'fd' else '%d;' % va
            n = fmt({'f': 'float', 'd': 'double'}[ta], -va + 0.0) if ta in 'fd' else '%d;' % -va
            items += [Item('my $x = 5; my $a = [%s,%s]; MCLog->%s($a->[0]); MCLog->%s($a->[1]);' % (a, a, ta, ta), w * 2, 'adjoining list ' + a), Item('my $x = 5; if (%s>0&&%s<100){MCLog->%s((%s));}' % (a, a, ta, a), w, 'adjoining condition ' + a),
                      Item('my $x = 5; MCLog->%s(-%s); MCLog->%s(- %s); MCLog->%s(-(%s)); MCLog->%s(+%s);' % (ta, a, ta, a, ta, a, ta, a), n * 3 + w, 'adjoining sign ' + a), Item('my $x = 5; MCLog->%s(0- %s); MCLog->%s(0+%s- %s- %s);' % (ta, a, ta, a, a, a), n.replace('d8000000000000000', 'd0000000000000000') * 2, 'adjoining zero ' + a)]
    return items


def neg(ty, v): return wrap(ty, -v) if ty in ('int', 'long') else -v if v else -v
def fmt_tr(x): return fmt(x[3], x[4]) if x[3] in ('float', 'double') else '%d;' % x[4]


# ---- characters
ESC = {'a': 7, 't': 9, 'n': 10, 'f': 12, 'r': 13, '"': 34, "'": 39, '\\': 92}


def escape(s, i, string):
    """the escape that begins at s[i] == backslash: (bytes, next index) or 'bad'"""
    c = s[i + 1:i + 2]
    if not c: return 'bad'
    if c in ESC: return bytes([ESC[c]]), i + 2
    if c == '$' and string: return b'$', i + 2
    if c in '01234567':
        j = i + 1
        while j < len(s) and j < i + 4 and s[j] in '01234567': j += 1
        v = int(s[i + 1:j], 8)
        return (bytes([v]), j) if v < 256 else 'bad'
    if c == 'o':
        m = re.compile(r'\{([0-7]{1,3})\}').match(s, i + 2)
        if not m or int(m.group(1), 8) > 255: return 'bad'
        return bytes([int(m.group(1), 8)]), m.end()
    if c == 'x':
        m = re.compile(r'\{([0-9a-fA-F]{1,2})\}|([0-9a-fA-F]{1,2})').match(s, i + 2)
        if not m: return 'bad'
        return bytes([int(m.group(1) or m.group(2), 16)]), m.end()
    if string and c in '89': return 'free'
    if string and c == 'N' and s[i + 2:i + 3] == '{':
        m = re.compile(r'\{U\+([0-9a-fA-F]+)\}').match(s, i + 2)
        if not m: return 'bad'
        if len(m.group(1)) > 8: return 'free'
        v = int(m.group(1), 16)
        if v > 0x10ffff or 0xd800 <= v <= 0xdfff: return 'bad'
        return chr(v).encode('utf-8'), m.end()
    if string and c in '!#%&()*+,-./:;<=>?@ABDGHKNPRSVWXZ[]^_`bdghkpsvwz{|}~': return ('\\' + c).encode(), i + 2
    return 'bad'


def chars(quick):
    texts = [chr(c) for c in range(32, 127)] + ['\\' + chr(c) for c in range(32, 127)]
    texts += ['\\' + ''.join(s) for n in (2, 3, 4) for s in itertools.product('0137', repeat=n)] + ['\\8', '\\08', '\\18', '\\400', '\\777', '\\378']
    texts += ['\\o{%s}' % ''.join(s) for n in (0, 1, 2, 3, 4) for s in itertools.product('037' if n < 4 else '03', repeat=n)] + ['\\o{8}', '\\o{1', '\\o1', '\\o', '\\o{-1}', '\\o{ 1}', '\\o{400}', '\\o{1}}']
    texts += ['\\x' + ''.join(s) for n in (0, 1, 2, 3) for s in itertools.product('09aFf' if n < 3 else '0F', repeat=n)] + ['\\x{%s}' % ''.join(s) for n in (0, 1, 2, 3) for s in itertools.product('09aFf' if n < 3 else '0F', repeat=n)] + ['\\xg', '\\x{g}', '\\x{1', '\\x{ 1}', '\\x1}', '\\x-1', '\\x0x1']
    texts += ['', 'ab', 'a ', ' a', '\\nn', '\\N{U+41}', '\xe3\x81\x82', '\\', "\\\\\\"]
    cases, items = [], []
    for t in dict.fromkeys(texts):
        if t in ("'",): continue
        if len(t) == 1 and t != '\\': r = ord(t)
        elif t[:1] == '\\':
            e = escape(t, 0, False)
            r = e[0][0] if e != 'bad' and e[1] == len(t) else 'bad'
        else: r = 'bad'
        cases.append(('character ' + t, "class { static method t : void () { my $z = '%s'; } }" % t, r != 'bad'))
        if r != 'bad': items.append(Item("my $z = '%s'; MCLog->s(compile_type_name $z); MCLog->i($z); MCLog->i('%s' + 1); my $s = (mutable string)new_string_len 1; $s->[0] = '%s'; MCLog->s($s);" % (t, t, t), 'sbyte;%d;%d;%s' % (wrap('byte', r), wrap('byte', r) + 1, st(bytes([r]))), 'character ' + t))
    return cases, items


def st(b):
    "what the trace has for a string"
    return 's' + esc(b) + ';'


# ---- strings
VARS = {'$foo': b'<foo>', '$FOO': b'<FOO>', '$MCT::FOO': b'<FOO>', '$f': b'<f>', '$n': b'-7', '$$r': b'5', '$o->{x}': b'<x>', '$o->{o}': None, '$a->[0]': b'<a0>', '$a->[12]': b'<a12>', '$o->{a}->[1]': b'<oa1>', '$o->{a}[1]': b'<oa1>', '$o->{a}[0]': b'<oa0>', '$@': b'<ex>', '$d': b'1.5', '$o->{o}->{x}': b'<y>', '$o->{o}{x}': b'<y>', '$m->[1]->[0]': b'<m10>', '$m->[1][0]': b'<m10>'}
SETUP = 'my $foo = "<foo>"; my $FOOL = 1; $FOO = "<FOO>"; my $f = "<f>"; my $n = -7; my $i = 5; my $r = \\$i; my $d = 1.5; my $o = SO->new; my $a = new string[13]; $a->[0] = "<a0>"; $a->[12] = "<a12>"; my $m = new string[][2]; $m->[1] = ["<m10>"]; $@ = "<ex>"; '
TEAR = ' $FOO = undef; $@ = undef;'
SFILES = {'SO.spvm': 'class SO : public { has x : public string; has a : public string[]; has o : public SO; static method new : SO () { my $o = new SO; $o->{x} = "<x>"; $o->{a} = ["<oa0>", "<oa1>"]; $o->{o} = new SO; $o->{o}->{x} = "<y>"; return $o; } }'}


def string_value(s):
    """the bytes of the text between the quotes, 'bad', or 'free'"""
    out = b''; i = 0
    while i < len(s):
        c = s[i]
        if c == '"': return 'free'
        if c == '\\':
            e = escape(s, i, True)
            if e in ('bad', 'free'): return e
            out += e[0]; i = e[1]; continue
        if c == '$':
            if i + 1 == len(s): out += b'$'; i += 1; continue
            m = re.compile(r'\$\{([A-Za-z_][A-Za-z0-9_]*(?:::[A-Za-z0-9_]+)*)\}|\$\{@\}|\$@|\$\$?[A-Za-z_][A-Za-z0-9_]*(?:::[A-Za-z0-9_]+)*').match(s, i)
            if not m or s.startswith('::', m.end()): return 'free'
            name = m.group(0).replace('{', '').replace('}', ''); i = m.end()
            if '{' not in m.group(0) and not name.startswith('$$') and name != '$@':
                first = True
                while True:
                    m2 = re.compile(r'(->)?(\{[A-Za-z0-9_]+\}|\[[0-9]+\])').match(s, i) if not first else re.compile(r'(->)(\{[A-Za-z0-9_]+\}|\[[0-9]+\])').match(s, i)
                    if not m2: break
                    name += m2.group(0); i = m2.end(); first = False
                if s.startswith('->', i) or s[i:i + 1] in ('[', '{'): return 'free'
            elif s.startswith('->', i) or s[i:i + 1] in ('[', '{'): return 'free'
            if VARS.get(name) is None: return 'free'
            out += VARS[name]; continue
        out += c.encode('latin-1'); i += 1
    return out


PIECES = ['a', '1', 'F', ' ', '{', '}', '[', ']', '-', '>', ':', '::', '\n', "'", '#', '%s', '@', '=', '.', '\xe3\x81\x82', '\\n', '\\\\', '\\"', "\\'", '\\$', '\\0', '\\1', '\\101', '\\o{101}', '\\x4', '\\x41', '\\x{4}', '\\x{fF}', '\\N{U+41}', '\\N{U+3042}', '\\N{U+1F600}', '\\s', '\\{', '\\N', '\\@', '\\377',
          '$', '$foo', '${foo}', '$FOO', '${FOO}', '$MCT::FOO', '${MCT::FOO}', '$f', '$n', '$$r', '$o->{x}', '$a->[0]', '$a->[12]', '$o->{a}->[1]', '$o->{a}[1]', '$@', '${@}', '$d', '$o->{o}->{x}', '$o->{o}{x}', '$m->[1][0]', '->', '->{x}', '[1]', '{x}', '__END__', '\n#line 5\n', '/', '??=', '*/', '//']


def strings(quick):
    texts = [''.join(s) for n in (0, 1, 2) for s in itertools.product(PIECES, repeat=n)]
    small = ['a', '1', '\n', '\\"', '\\x4', '\\1', '\\$', '$', '$foo', '${foo}', '$$r', '$o->{x}', '$a->[0]', '$o->{a}[1]', '$@', '\\\\', '}', '-', ':', '\xe3\x81\x82']
    three = [''.join(s) for s in itertools.product(small if quick else PIECES, repeat=3)]
    three = set(three) - set(texts); texts += sorted(three)
    if not quick: texts += [''.join(s) for s in itertools.product(small, repeat=4)]
    texts += ['\\' + chr(c) for c in range(33, 127)] + ['a\\%sb' % chr(c) for c in range(33, 127)]
    texts += ['\\N{U+%x}' % v for v in (0, 1, 0x7f, 0x80, 0x7ff, 0x800, 0xfff, 0x1000, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x10ffff, 0x110000, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000041, 0x1000000000000000041)] + ['\\N{U+%s}' % t for t in ('', 'g', '4g', '00041', '000000000000000000041', '-41', ' 41', '+41')] + ['\\N{U+41', '\\N{41}', '\\N{u+41}', '\\N{U 41}']
    texts += ['\\' + ''.join(s) for n in (2, 3, 4) for s in itertools.product('037', repeat=n)] + ['\\o{%s}' % ''.join(s) for n in (0, 1, 2, 3, 4) for s in itertools.product('037' if n < 4 else '0', repeat=n)] + ['\\x' + ''.join(s) for n in (0, 1, 2, 3) for s in itertools.product('0aF', repeat=n)] + ['\\x{%s}' % ''.join(s) for n in (0, 1, 2, 3) for s in itertools.product('0aF', repeat=n)]
    cases, items = [], []
    for t in dict.fromkeys(texts):
        v = string_value(t)
        if v == 'free': continue
        if t.endswith('\\') and not t.endswith('\\\\'): continue
        cases.append(('string ' + t, 'class { %s our $FOO : string; use SO; static method t : void () { %s my $z = "%s"; } }' % ('', SETUP, t), v != 'bad') if 'MCT::' not in t else None)
        if v != 'bad':
            # the line after a literal with line breaks is right
            items.append(Item('my $z = "%s"; MCLog->s($z); MCLog->i(length $z);' % t, st(v) + '%d;' % len(v), 'string ' + t))
    return [c for c in cases if c], items, {'string ' + t for t in three}


def quoted(quick):
    P = ['a', '$foo', '\\\'', '\\\\', '\\n', '"', '\n', '\xe3\x81\x82', '$', '\\', '{', '\\x41', ' ', '%s', '??=']
    cases, items = [], []
    for t in [''.join(s) for n in (0, 1, 2, 3) for s in itertools.product(P, repeat=n)]:
        v = b''; i = 0; bad = False
        while i < len(t):
            if t[i] == "'": v = None; break
            if t[i] == '\\':
                if t[i + 1:i + 2] in ("'", '\\') and i + 1 < len(t): v += t[i + 1].encode(); i += 2; continue
                bad = True; break
            v += t[i].encode('latin-1'); i += 1
        if v is None or (bad and t.endswith('\\')): continue
        cases.append(('single-quoted ' + t, "class { static method t : void () { my $z = q'%s'; } }" % t, not bad))
        if not bad: items.append(Item("my $z = q'%s'; MCLog->s($z);" % t, st(v), 'single-quoted ' + t))
    return cases, items


def heredocs(quick):
    cases, items = [], []
    names = ['EOS', 'E', 'e_1', '_', 'a1B2']
    for nm in names:
        L = ['', 'a', nm + 'X', ' ' + nm, nm + ' ', 'x' + nm, nm[:-1], '$foo \\n "q\' \\', '\xe3\x81\x82', '#line 77', '=pod', '__END__', nm + ';', nm.swapcase() if nm.swapcase() != nm else 'q']
        for n in range(0, 3 if nm != 'EOS' else (3 if quick else 4)):
            for ls in itertools.product(L, repeat=n):
                text = ''.join(l + '\n' for l in ls)
                items.append(Item("\n#line 10\nmy $z = <<'%s';\n%s%s\nMCLog->s($z); MCLog->i(__LINE__);" % (nm, text, nm), st(text.encode('latin-1')) + '%d;' % (12 + n), 'here document %s %r' % (nm, ls)))
    for nm, ok in (('EOS', True), ('', False), ('1A', False), ('A__B', False), ('A_B', True), ('A-B', False), ('A B', False), (' A', False), ('A::B', False)):
        cases.append(('here document name ' + nm, "class { static method t : void () { my $z = <<'%s';\nabc\n%s\n} }" % (nm, nm), ok))
    cases.append(('here document without an end', "class { static method t : void () { my $z = <<'A';\nabc\n} }\n", False))
    return cases, items


# ---- separators
PROG = ['class', 'SEPN', ':', 'public', '{', 'use', 'MCLog', ';', 'has', 'f', ':', 'rw', 'int', ';', 'our', '$G', ':', 'string', ';', 'enum', '{', 'A', '=', '5', ',', 'B', '}',
        'static', 'method', 'new', ':', 'SEPN', '(', ')', '{', 'return', 'new', 'SEPN', ';', '}', 'method', 'm', ':', 'int', '(', '$x', ':', 'int', ',', '$y', ':', 'int', '=', '-3', ')', '{', 'return', '$self', '->', '{', 'f', '}', '+', '$x', '*', '$y', ';', '}',
        'static', 'method', 'run', ':', 'void', '(', ')', '{', 'my', '$o', '=', 'SEPN', '->', 'new', ';', '$o', '->', 'set_f', '(', '40', ')', ';', 'for', '(', 'my', '$i', '=', '0', ';', '$i', '<', '3', ';', '$i', '++', ')', '{', 'if', '(', '$i', '==', '1', ')', '{', 'next', ';', '}', 'elsif', '(', '$i', '>=', '2', '&&', '!', '0', ')', '{', 'MCLog', '->', 'i', '(', '$o', '->', 'm', '(', '$i', ')', ')', ';', '}', 'else', '{', 'MCLog', '->', 's', '(', '"a b#c"', '.', "q'd'", ')', ';', '}', '}',
        'my', '$a', '=', '[', '1', ',', '2', ',', '3', ']', ';', '$a', '->', '[', '1', ']', '+=', '4', ';', 'for', 'my', '$e', '(', '@', '$a', ')', '{', 'MCLog', '->', 'i', '(', '$e', ')', ';', '}', 'switch', '(', '$a', '->', '[', '0', ']', ')', '{', 'case', '1', ':', '{', 'MCLog', '->', 'i', '(', "'x'", ')', ';', 'break', ';', '}', 'default', ':', '{', '}', '}',
        'eval', '{', 'die', '"m"', ';', '}', ';', '$G', '=', '$@', ';', 'MCLog', '->', 'i', '(', 'length', '$G', '>', '3', ')', ';', '$G', '=', 'undef', ';', '$@', '=', 'undef', ';', 'MCLog', '->', 'i', '(', '$o', 'isa', 'SEPN', ')', ';', 'MCLog', '->', 'l', '(', '(', 'long', ')', '2.5', ')', ';', 'my', '$h', '=', '{', 'k', '=>', '1', '}', ';', 'MCLog', '->', 's', '(', '$h', '->', '[', '0', ']', '->', '(', 'string', ')', ')', ';', '}', '}']
# the last statement with a cast written the documented way
i_ = PROG.index('$h', PROG.index('=>') + 4)
PROG = PROG[:i_] + ['(', 'string', ')', '$h', '->', '[', '0', ']', ')', ';', '}', '}']
WANT = 'sa%20b#cd;34;1;6;3;120;1;1;2;sk;'
SEPS = ['\t', '\f', '\n', ' \n \t', ' # comment " \' { \n', '#\n', '\n=pod\n\n } " \n\n=cut\n', '\n=a\n=cut\n', '\n#line 7\n', '  ', '\n=head1 x\n__END__\n\n=cut\n']


def separators(quick):
    files, items = {}, []
    def text(gap, sep, none=False):
        out = ''
        for k, t in enumerate(PROG):
            s = ' ' if k else ''
            if k == gap: s = sep
            out += s + t
        return out
    def word(a, b): return re.match(r'\w', b) and re.search(r'\w$', a)
    n = 0
    def put(src, ident):
        nonlocal n
        n += 1
        nm = 'Sep%d' % n
        files[nm + '.spvm'] = src.replace('SEPN', nm)
        items.append(Item('%s->run;' % nm, WANT, ident))
    for gap in range(0, len(PROG) + 1):
        for sep in SEPS:
            if PROG[gap:gap + 1] == ['=>'] and sep.strip() : continue
            src = text(gap, sep) if gap < len(PROG) else text(-1, ' ') + sep
            put(src, 'separator %r before token %d' % (sep, gap))
    # no separator where two tokens cannot run into each other
    for gap in range(1, len(PROG)):
        a, b = PROG[gap - 1], PROG[gap]
        if word(a, b) or (a in ('!', '=', '<', '>', '-', '+', '&', ':', '.') and b[0] in '=<>-+&:.') or (a == 'q') or (b[0] in "'" and word(a, 'a')): continue
        if re.search(r'\d$', a) and b in ('.',): continue
        put(text(gap, ''), 'no separator before token %d' % gap)
    put('#!/usr/bin/env spvm\n' + text(-1, ''), 'shebang line')
    put('#!/usr/bin/env spvm\n#file "x/y.spvm"\n' + text(-1, ''), 'shebang and file directive')
    put('#file "x/y.spvm"\n' + text(-1, ''), 'file directive')
    put('#lib "$FindBin::Bin/lib"\n' + text(-1, ''), 'lib directive')
    put(text(-1, '') + '\n__END__\n } " garbage \n', 'end')
    put(text(-1, '') + '\n__END__\n', 'end')
    put('\n'.join(PROG), 'all line breaks'); put('\t\f '.join(PROG), 'all spaces'); put(text(-1, '').replace('; ', '; # } " \n'), 'comments')
    return files, items


def lines(quick):
    """line numbers after every kind of token and directive"""
    items = []
    P = [('\n', 1), (' ', 0), ('"a\nb";', 1), ("q'\n\n';", 2), ('# x\n', 1), ('\n=pod\n\nx\n\n=cut\n', 6), ("my $h%K% = <<'E';\na\nb\nE\n", 4), ('\t\f', 0), ('"$i\n$i";', 1), ('1;\n', 1), ('"\\n";', 0), ('"a\n$i\n" .\n"\n";', 4), ("'a';\n", 1), ('if (1) {\n}\n', 2), ('\n#line 200\n', ('set', 200)), ('\n#line 1\n', ('set', 1)), ('\n#line   77\n', ('set', 77)), ('#line 5 x', 0)]
    P = P[:-1]
    P = [(('my $v%K% = ' + t) if t[:1] in ('"', "q", "'", '1') else t, d) for t, d in P]
    for n in (1, 2, 3):
        for s in itertools.product(P, repeat=n):
            if n == 3 and quick and hash_(s) % 3: continue
            ln = 10; want = ''; body = '\n#line 10\nmy $i = 1; '
            for k, (t, d) in enumerate(s):
                body += t.replace('%K%', '%d' % k)
                if isinstance(d, tuple): ln = d[1]
                else: ln += d
                body += ' MCLog->i(__LINE__);'; want += '%d;' % ln
                if k == n - 1: body += ' eval { die "x"; }; MCLog->s($@);'; want += 's%d;' % ln
            items.append((body, want, 'lines %r' % ([t for t, _ in s],)))
    return items


def hash_(s): return sum(i * ord(c) for i, c in enumerate(''.join(t for t, _ in s)))


def names(quick):
    """which names are variables, methods, fields and classes"""
    cases = []
    alpha = ['a', 'A', '0', '_', ':', '::']
    def symbol(n): return bool(re.fullmatch(r'[A-Za-z_][A-Za-z0-9_]*(::[A-Za-z0-9_]+)*', n)) and '__' not in n
    ns = [''.join(s) for k in (1, 2, 3, 4) for s in itertools.product(alpha if k < 4 else alpha[:4], repeat=k)]
    for n in dict.fromkeys(ns):
        if ':' in n.replace('::', ''): continue
        loc = symbol(n) and '::' not in n
        cases.append(('local variable name ' + n, 'class { static method t : void () { my $%s = 1; $%s++; my $s = "${%s}"; } }' % (n, n, n), loc))
        cases.append(('local variable name in braces ' + n, 'class { static method t : void () { my ${%s} = 1; ${%s}++; } }' % (n, n), loc))
        if '::' in n: continue
        if n[0] not in '0123456789': cases.append(('method name ' + n, 'class { static method %s : int () { return 1; } static method t : void () { &%s; } method im : void () { } }' % (n, n), loc))
        cases.append(('field name ' + n, 'class { has %s : int; method t : int () { return $self->{%s}; } }' % (n, n), loc))
        cases.append(('class variable name ' + n, 'class { our $%s : int; static method t : int () { return $%s; } }' % (n, n), loc))
        cases.append(('enumeration name ' + n, 'class { enum { %s = 3 } }' % n, loc))
    kw = 'alias allow as basic_type_id break byte can case cmp class compile_type_name copy default die div_uint div_ulong double dump elsif else enum eq eval eval_error_id extends for float false gt ge has if interface int interface_t isa isa_error is_compile_type is_type is_error is_read_only args_width last length long make_read_only my mulnum_t method mod_uint mod_ulong mutable native ne next new new_string_len of our object print private protected public precompile pointer return require required rw ro say static switch string short scalar true type_name undef unless unweaken use version void warn while weaken wo INIT'.split()
    for k in kw:
        cases.append(('keyword as method ' + k, 'class { static method %s : int () { return 1; } }' % k if k != 'INIT' else 'class { }', True))
        cases.append(('keyword as field ' + k, 'class { has %s : int; method t : int () { $self->{%s} = 2; return $self->{%s}; } }' % (k, k, k), True))
        cases.append(('keyword as key ' + k, 'class { static method t : void () { my $z = {%s => 1}; } }' % k, True))
        cases.append(('keyword as variable ' + k, 'class { static method t : void () { my $%s = 1; $%s++; } }' % (k, k), True))
    cases += [('method called by a keyword name ' + k, 'class { use KW; static method t : void () { my $o = KW->new_; my $z = $o->%s; $z = KW->s_%s; } }' % (k, k), True) for k in kw if k != 'INIT']
    kwfile = 'class KW : public { static method new_ : KW () { return new KW; } %s }' % ' '.join('method %s : int () { return 1; } static method s_%s : int () { return 1; }' % (k, k) for k in kw if k != 'INIT')
    items = [Item('my $z = {%s => %d, b_%d => 2}; MCLog->s((string)$z->[0]); MCLog->i((int)$z->[1]); MCLog->s((string)$z->[2]);' % (k, i, i), 's%s;%d;sb_%d;' % (k, i, i), 'key ' + k) for i, k in enumerate(kw)]
    d = [('line directive ' + t, 'class {\n%s\n }' % t, ok) for t, ok in (('#line 1', True), ('#line 2147483647', True), ('#line 0', False), ('#line -1', False), ('#line 2147483648', False), ('#line x', False), ('#line 1x', False), ('#line  12', True))]
    return cases + d, items, {'KW.spvm': kwfile}


def main():
    ck = Check('M29')
    sc = ck.make_scratch()
    quick = TIER == 'quick'
    bin_ = sc.mcrun()
    lang = sc.path('m29src', 'x')[:-2]; os.makedirs(lang, exist_ok=True)
    nc, n1, n2 = numbers(quick)
    cc, ci = chars(quick)
    scs, si, triples = strings(quick)
    qc, qi = quoted(quick)
    hc, hi = heredocs(quick)
    mc, mi, kf = names(quick)
    sf, pi = separators(quick)
    for n, t in list(SFILES.items()) + list(kf.items()): open(os.path.join(lang, n), 'w').write(t)
    cases = nc + cc + scs + qc + hc + mc
    refused = set()
    accept(ck, sc, [lang], cases, refused=refused)
    # a literal the compiler refuses is reported above; the others are run
    def ok(items): return [i for i in items if i.ident not in refused]
    li = [Item(b, w, i, norm=lambda t: re.sub(r'sx%0a[^;]*%20line%20(\d+);', r's\1;', t)) for b, w, i in lines(quick)]
    idn = {i.split(' ', 1)[1] for i in refused if i.startswith(('integer ', 'floating point '))}
    def okn(items): return [i for i in items if i.ident.split(' ')[1] not in {t.split(' ')[-1] for t in idn}]
    H = 'our $FOO : string;'
    SH = SETUP.replace('my $FOOL = 1; ', '')
    strs = [Item(SH + i.body + TEAR, i.want, i.ident, norm=None) for i in ok(si)]
    jobs = [('MCN', okn(n1), {}, '', ''), ('MCX', okn(n2), {}, '', 'MCT'), ('MCC', adjoining(quick) + ok(ci) + ok(qi) + ok(hi) + mi, {}, '', ''), ('MCS', strs, SFILES, H, 'MCT'), ('MCP', pi, sf, '', '')]
    total = 0
    def one(w):
        (cls, items, files, header, own), mode = w
        if mode == 'precompile' and quick: items = [i for k, i in enumerate(items) if not i.ident.startswith('adjoining') and (k % 3 == 0 if cls in ('MCN', 'MCX') else i.ident not in triples)]
        if cls == 'MCP':
            size = 260
            for g in range(0, len(items), size):
                part = items[g:g + size]
                fs = {'Sep%d.spvm' % (k + 1): files['Sep%d.spvm' % (k + 1)] for k in range(g, min(g + size, len(items)))}
                run_items(ck, bin_, part, modes=(mode,), files=fs, chunk=100000, cls='MCP%d' % g, only='MCP%d' % g, uses='use MCLog; ' + ' '.join('use %s;' % f[:-5] for f in fs))
            return
        for g in range(0, len(items), 4000):
            c = cls + '%d' % g
            part = [Item(i.body.replace('MCT', c), i.want, i.ident, decl=i.decl.replace('MCT', c)) if own else i for i in items[g:g + 4000]]
            run_items(ck, bin_, part, modes=(mode,), files=files, chunk=400, cls=c, only=c, header=header, uses='use MCLog; use SO;' if files else 'use MCLog;', per_method_limit=20)
    for j in jobs:
        for m in ('interpreted', 'precompile'):
            if j[0] == 'MCP' and m == 'precompile': continue
            one((j, m)); total += len(j[1])
    run_items(ck, bin_, li, modes=('interpreted',), chunk=400); total += len(li)
    ck.count(states=total)
    ck.finish(exhaustive=True, bound='%d programs with literals run (numbers of every notation, all escapes, all pairs and many triples of %d pieces of string literals, here documents, %d separators in every gap of a program, line numbers), %d sources accepted or refused' % (total, len(PIECES), len(SEPS), len(cases)))
