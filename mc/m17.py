"""M17: array utilities and sorting: every range operation on short arrays with every offset and length, and every sort of short arrays."""
import itertools
from common import *
from progs import *

MX = 2147483647
NT = ['byte', 'short', 'int', 'long', 'float', 'double']
TY = NT + ['string', 'object']
LIT = {'byte': lambda v: '(byte)%d' % v, 'short': lambda v: '(short)%d' % v, 'int': str, 'long': lambda v: '%dL' % v, 'float': lambda v: '%d.5f' % v, 'double': lambda v: '%d.25' % v}
SHOW = {'float': '(int)(%s * 2)', 'double': '(int)(%s * 4)'}


def lit(t, v):
    if t == 'string': return '$P->[%d]' % v
    if t == 'object': return '$Q->[%d]' % v
    return LIT[t](v)
def num_(t, v): return {'float': 2 * v + 1, 'double': 4 * v + 1}.get(t, v) if v is not None else 0
def arr(t, xs):
    "declares $a"
    return 'new %s[0]' % t if not xs else '[%s%s]' % ('(%s)' % t if t == 'object' else '', ', '.join(lit(t, x) for x in xs)) if t not in ('byte', 'short', 'long', 'float', 'double') else '[%s]' % ', '.join(lit(t, x) for x in xs)
def text(t, xs):
    "how &show_T prints an array"
    return 's%s;' % ''.join('%d,' % (num_(t, v) if v is not None else 0) for v in xs)
S = 'string'

HEAD = '''our $P : string[]; our $Q : object[];
%PRE%static method init : void () { $P = new string[9]; $Q = new object[9]; for (my $i = 1; $i < 9; $i++) { $P->[$i] = "s$i"; $Q->[$i] = Int->new($i); } }
static method done : void () { $P = undef; $Q = undef; }
''' + ''.join('''%%PRE%%static method show_%s : void ($a : %s[]) { unless ($a) { MCLog->s(undef); return; } my $r = ""; for (my $i = 0; $i < @$a; $i++) { %s $r .= ","; } MCLog->s($r); }
''' % (t, t, '$r .= %s;' % (SHOW.get(t, '%s') % '$a->[$i]').replace('$a->[$i]', '$a->[$i]') if t not in ('string', 'object') else 'my $k = 0; for (my $j = 1; $j < 9; $j++) { if ($a->[$i] == %s->[$j]) { $k = $j; } } $r .= $k;' % ('$P' if t == 'string' else '$Q')) for t in TY) + '''
static method kind : object[] ($a : object[]) { return $a; }
'''.replace('static method kind : object[] ($a : object[]) { return $a; }', '')


def body(b): return '&init; ' + b + ' &done;'
def zero(v): return 0 if v is None else v


def ranges():
    out = []
    L5 = [-1, 0, 1, 2, 3, 4, MX]
    N5 = [-2147483648, -1, 0, 1, 2, 3, 4, MX]
    ivs = 'my $os = [%s]; my $ns = [%s];' % (', '.join(map(str, L5)), ', '.join(str(n) if n != -2147483648 else '-2147483647 - 1' for n in N5))
    for t in TY:
        show = '&show_' + t
        adr = '_address' if t in ('string', 'object') else ''
        # copies of a range
        for n in range(4):
            xs = list(range(1, n + 1))
            for m in (['copy_' + t] if t not in ('string', 'object') else ['copy_%s_address' % t] + (['copy_object'] if t == 'object' else ['copy_string'])):
                w = ''
                for o in L5:
                    for k in N5:
                        l = n - o if k < 0 else k
                        ok = o >= 0 and l >= 0 and o + l <= n
                        w += 's%s;' % 'E' if not ok else (text(t, xs[o:o + l]) if m != 'copy_string' else 's%s;' % ''.join('s%d,' % x for x in xs[o:o + l]))
                call = 'Array->%s($a, %s$os->[$i], $ns->[$j])' % (m, 'undef, ' if m == 'copy_object' else '')
                shw = show + '(%s)' if m != 'copy_string' else 'my $r = %s; my $x = ""; for my $e (@$r) { $x .= $e; $x .= ","; } MCLog->s($x);'
                if m == 'copy_string': shw = 'my $r = %s; my $x = ""; for my $e (@$r) { $x .= "$e,"; } for (my $q = 0; $q < @$r; $q++) { for (my $p = 0; $p < @$a; $p++) { if ($r->[$q] == $a->[$p]) { $x .= "shared"; } } } MCLog->s($x);'
                out.append(Item(body('my $a = %s; %s for (my $i = 0; $i < @$os; $i++) { for (my $j = 0; $j < @$ns; $j++) { eval { %s; } if ($@) { MCLog->s("E"); } } } %s($a);' % (arr(t, xs), ivs, shw % call if '%s' in shw else shw, show)), w + text(t, xs), '%s of %d elements' % (m, n)))
        # block moves between two arrays
        for op in ('memcpy', 'memmove'):
            for dn, sn in ((3, 3), (3, 2), (2, 3), (0, 0)):
                d, s = [7] * dn, list(range(1, sn + 1))
                for do in L5:
                    w = ''
                    for so in L5:
                        for k in N5:
                            ok = do >= 0 and so >= 0 and k >= 0 and do + k <= dn and so + k <= sn
                            e = list(d)
                            if ok: e[do:do + k] = s[so:so + k]
                            if k == 0 and do >= 0 and so >= 0 and not ok: w += 's-;'; continue    # nothing to copy: not judged
                            w += ('' if ok else 'sE;') + text(t, e)
                    out.append(Item(body('my $s = %s; %s for (my $i = 0; $i < @$os; $i++) { for (my $j = 0; $j < @$ns; $j++) { if ($ns->[$j] == 0 && (%d > %d || $os->[$i] > %d) && %d >= 0 && $os->[$i] >= 0) { MCLog->s("-"); next; } my $d = %s; eval { Array->%s_%s%s($d, %d, $s, $os->[$i], $ns->[$j]); } if ($@) { MCLog->s("E"); } %s($d); } } %s($s);' % (arr(t, s), ivs, do, dn, sn, do, arr(t, d), op, t, adr, do, show, show)), w + text(t, s), '%s_%s to position %d, %d and %d elements' % (op, t, do, dn, sn)))
        # overlapping moves
        w = ''; xs = [1, 2, 3, 4, 5]
        for do in range(5):
            for so in range(5):
                for k in range(6):
                    e = list(xs); ok = do + k <= 5 and so + k <= 5
                    if not ok and k == 0: w += 's-;'; continue
                    if ok: e[do:do + k] = xs[so:so + k]
                    w += ('' if ok else 'sE;') + text(t, e)
        out.append(Item(body('for (my $i = 0; $i < 5; $i++) { for (my $j = 0; $j < 5; $j++) { for (my $k = 0; $k < 6; $k++) { my $d = %s; eval { Array->memmove_%s%s($d, $i, $d, $j, $k); } if ($@) { MCLog->s("E"); } %s($d); } } }' % (arr(t, xs), t, adr, show)), w, 'memmove_%s within one array' % t))
        # filling
        for n in range(4):
            xs = list(range(1, n + 1)); w = ''
            for o in L5:
                for k in N5:
                    l = n - o if k < 0 else k
                    if k < 0 and o > n: w += 's-;'; continue
                    ok = o >= 0 and l >= 0 and o + l <= n
                    e = list(xs)
                    if ok: e[o:o + l] = [8] * l
                    w += ('' if ok else 'sE;') + text(t, e)
            out.append(Item(body('%s for (my $i = 0; $i < @$os; $i++) { for (my $j = 0; $j < @$ns; $j++) { if ($ns->[$j] < 0 && $os->[$i] > %d) { MCLog->s("-"); next; } my $a = %s; eval { Array->memset_%s($a, %s, $os->[$i], $ns->[$j]); } if ($@) { MCLog->s("E"); } %s($a); } }' % (ivs, n, arr(t, xs), t, lit(t, 8), show)), w, 'memset_%s of %d elements' % (t, n)))
        # undef arrays
        T = '(%s[])undef' % t
        A1 = arr(t, [1])
        for call in ['copy_%s%s(%s)' % (t, '', T), 'memcpy_%s%s(%s, 0, %s, 0, 1)' % (t, adr, T, A1), 'memcpy_%s%s(%s, 0, %s, 0, 1)' % (t, adr, A1, T), 'memmove_%s%s(%s, 0, %s, 0, 0)' % (t, adr, T, A1), 'memmove_%s%s(%s, 0, %s, 0, 0)' % (t, adr, A1, T), 'memset_%s(%s, %s)' % (t, T, lit(t, 1)), 'merge_%s(%s, %s)' % (t, T, A1), 'merge_%s(%s, %s)' % (t, A1, T), 'repeat(%s, 1)' % T]:
            out.append(Item(body('eval { Array->%s; } if ($@) { MCLog->s("E"); }' % call), 'sE;', 'Array->%s' % call))
    return out


def wholes():
    out = []
    for t in TY:
        show = '&show_' + t
        xss = [list(p) for n in range(3) for p in itertools.product((0, 1, 2), repeat=n)]
        eqs = [('equals_' + t, '')] if t not in ('object',) else [('equals_object_address', ''), ('equals_object', ', undef')]
        for m, extra in eqs:
            w = '1;0;0;'; b = 'my $u = (%s[])undef; my $d = %s; MCLog->i(Array->%s($u, $u%s)); MCLog->i(Array->%s($u, $d%s)); MCLog->i(Array->%s($d, $u%s));' % (t, arr(t, [1]), m, extra, m, extra, m, extra)
            for x in xss:
                for y in xss:
                    b += ' { my $x = %s; my $y = %s; MCLog->i(Array->%s($x, $y%s)); }' % (arr(t, x), arr(t, y), m, extra); w += '%d;' % (x == y)
            out.append(Item(body(b), w, m))
        if t != 'object':
            b = w = ''
            for x in xss:
                for y in xss: b += ' { my $x = %s; my $y = %s; MCLog->i(Array->equals($x, $y)); }' % (arr(t, x), arr(t, y)); w += '%d;' % (x == y)
            out.append(Item(body(b), w, 'equals of %s arrays' % t))
        b = w = ''
        for x in xss:
            for y in xss: b += ' { my $x = %s; my $y = %s; my $z = Array->merge_%s($x, $y); %s($z); MCLog->s(type_name $z); if (@$z) { $z->[0] = %s; } %s($x); }' % (arr(t, x), arr(t, y), t, show, lit(t, 5), show); w += text(t, x + y) + 's%s[];' % t + text(t, x)
        out.append(Item(body(b), w, 'merge_' + t))
        for n in range(4):
            xs = list(range(1, n + 1)); b = w = ''
            for k in range(-1, 5):
                ok = k >= 0
                b += ' { my $x = %s; eval { my $z = (%s[])Array->repeat($x, %d); %s($z); } if ($@) { MCLog->s("E"); } }' % (arr(t, xs), t, k, show); w += text(t, xs * k) if ok else 'sE;'
                if t == 'string': b += ' { my $x = %s; eval { my $z = Array->repeat_string($x, %d); %s($z); } if ($@) { MCLog->s("E"); } }' % (arr(t, xs), k, show); w += text(t, xs * k) if ok else 'sE;'
            out.append(Item(body(b), w, 'repeat of %d %s elements' % (n, t)))
        for n in range(6):
            xs = list(range(1, n + 1))
            s = ' '.join('{ my $a = %s; my $seed = %d; Array->shuffle($a, \\$seed); my $seen = new int[9]; MCLog->i(@$a); for (my $i = 0; $i < @$a; $i++) { for (my $j = 1; $j < 9; $j++) { if ($a->[$i] == %s) { $seen->[$j]++; } } } my $r = ""; for (my $j = 1; $j < 9; $j++) { $r .= $seen->[$j]; } MCLog->s($r); }' % (arr(t, xs), seed, {'string': '$P->[$j]', 'object': '$Q->[$j]', 'float': '$j + 0.5', 'double': '$j + 0.25'}.get(t, '$j')) for seed in range(6))
            out.append(Item(body(s), ('%d;s%s;' % (n, ''.join('1' if j <= n else '0' for j in range(1, 9)))) * 6, 'shuffle of %d %s elements' % (n, t)))
        if t in NT:
            O = t.capitalize()
            b = w = ''
            for x in xss: b += ' { my $x = %s; my $o = Array->to_object_array_%s($x); MCLog->s(type_name $o); my $y = Array->to_array_%s($o); %s($y); MCLog->i(@$o); }' % (arr(t, x), t, t, show); w += 's%s[];' % O + text(t, x) + '%d;' % len(x)
            out.append(Item(body(b), w, 'to_object_array_%s and to_array_%s' % (t, t)))
            b = w = ''
            for n in range(4):
                xs = list(range(1, n + 1))
                for o in (-1, 0, 1, 2, 3, 4):
                    for k in (-1, 0, 1, 2, 3, 4, MX):
                        l = n - o if k < 0 else k; ok = o >= 0 and l >= 0 and o + l <= n
                        b += ' { my $x = %s; eval { my $y = (%s[])Array->copy_any_numeric($x, %d, %d); %s($y); } if ($@) { MCLog->s("E"); } }' % (arr(t, xs), t, o, k, show); w += text(t, xs[o:o + l]) if ok else 'sE;'
            out.append(Item(body(b), w, 'copy_any_numeric of %s' % t, per=1) if False else Item(body(b), w, 'copy_any_numeric of %s' % t))
        for n in (-2, -1, 0, 1, 3):
            if t in ('string', 'object'): b = 'eval { my $z = Array->new_proto(%s, %d); MCLog->s(type_name $z); %s((%s[])$z); } if ($@) { MCLog->s("E"); }' % (arr(t, [1]), n, show, t)
            else: b = 'eval { my $z = Array->new_proto_any(%s, %d); MCLog->s(type_name $z); %s((%s[])$z); } if ($@) { MCLog->s("E"); }' % (arr(t, [1]), n, show, t)
            z = {'float': 0, 'double': 0}.get(t, 0)
            out.append(Item(body(b), 'sE;' if n < 0 else 's%s[];s%s;' % (t, '0,' * n), 'new array like %s[] of %d' % (t, n)))
    for e, ty in (('Int->new(1)', 'Int[]'), ('"s"', 'string[]'), ('new Int[1]', 'Int[][]'), ('new int[2]', 'int[][]'), ('Byte->new(1)', 'Byte[]')):
        for n in (-1, 0, 2): out.append(Item('eval { my $z = Array->new_array_proto_element(%s, %d); MCLog->s(type_name $z); MCLog->i(@$z); for my $x (@$z) { if ($x) { MCLog->s("?"); } } } if ($@) { MCLog->s("E"); }' % (e, n), 'sE;' if n < 0 else 's%s;%d;' % (ty, n), 'new_array_proto_element %s %d' % (e, n)))
    for t, bits in (('byte', 8), ('short', 16), ('int', 32), ('long', 64)):
        for xs in ([], [0], [-1], [1, -2], [-2 ** (bits - 1) + 1, 2 ** (bits - 1) - 1, 5]):
            L = lambda v: '(%s)%d%s' % (t, v, 'L' if t == 'long' else '')
            a = '[%s]' % ', '.join(L(x) for x in xs) if xs else 'new %s[0]' % t
            out.append(Item('my $d = Array->dump_unsigned_%s(%s); my $c = Fn->index($d, "]"); MCLog->s(Fn->substr($d, 0, $c + 4 + %d));' % (t, a, len(t)), 's%s;' % esc('[\n' + ',\n'.join('  %d' % (x % 2 ** bits) for x in xs) + ('\n' if xs else '') + '] : %s' % t), 'dump_unsigned_%s %r' % (t, xs)))
    return out


def sorts():
    out = []
    for t in NT + ['string']:
        show = '&show_' + t
        for n in range(6):
            vals = (1, 2, 3) if n < 5 else (1, 2)
            xss = list(itertools.product(vals, repeat=n))
            for how in ('asc', 'desc'):
                b = 'my $v = new int[%d];' % max(n, 1)
                w = ''.join(text(t, sorted(xs, reverse=how == 'desc')) for xs in xss)
                mk = 'my $a = new %s[%d]; my $c = $q; for (my $i = %d; $i >= 0; $i--) { $a->[$i] = (%s)(%s); $c /= %d; }' % (t, n, n - 1, t, {'string': '$P->[$c %% %d + 1]' % len(vals), 'float': '$c %% %d + 1.5' % len(vals), 'double': '$c %% %d + 1.25' % len(vals)}.get(t, '$c %% %d + 1' % len(vals)).replace('%%', '%'), len(vals))
                out.append(Item(body('for (my $q = 0; $q < %d; $q++) { %s Sort->sort_%s_%s($a); %s($a); }' % (len(xss), mk, t, how, show)), w, 'sort_%s_%s of %d elements' % (t, how, n)))
        # ranges
        xs = [3, 1, 2, 2, 1]; b = w = ''
        for o in (-1, 0, 1, 2, 4, 5, 6, MX):
            for k in (-1, 0, 1, 2, 3, 5, 6, MX):
                l = 5 - o if k < 0 else k; ok = o >= 0 and l >= 0 and o + l <= 5
                if k < 0 and o > 5: continue
                e = list(xs)
                if ok: e[o:o + l] = sorted(e[o:o + l])
                b += ' { my $a = %s; eval { Sort->sort_%s_asc($a, %d, %d); } if ($@) { MCLog->s("E"); } %s($a); }' % (arr(t, xs), t, o, k, show); w += ('' if ok else 'sE;') + text(t, e)
        out.append(Item(body(b), w, 'sort of a range of %s' % t))
        C = {'byte': 'int', 'short': 'int'}.get(t, t)
        op = 'cmp' if t == 'string' else '<=>'
        b = w = ''
        for xs in itertools.permutations((1, 2, 3, 4)):
            b += ' { my $a = %s; Sort->sort_%s($a, method : int ($x : %s, $y : %s) { return ($y %s $x) * 7; }); %s($a); }' % (arr(t, list(xs)), t, C, C, op, show); w += text(t, sorted(xs, reverse=True))
            b += ' { my $a = %s; Sort->sort_%s($a, method : int ($x : %s, $y : %s) { return 0; }); %s($a); }' % (arr(t, list(xs)), t, C, C, show); w += text(t, xs)
        b += ' { my $a = %s; eval { Sort->sort_%s($a, undef); } if ($@) { MCLog->s("E"); } eval { Sort->sort_%s_asc(undef); } if ($@) { MCLog->s("E"); } eval { Sort->sort_%s($a, method : int ($x : %s, $y : %s) { die "no"; }); } if ($@) { MCLog->s("E"); } MCLog->i(@$a); }' % (arr(t, [2, 1, 3]), t, t, t, C, C); w += 'sE;sE;sE;3;'
        out.append(Item(body(b), w, 'sort_%s with a comparator' % t))
    # extreme values
    for t, vals in (('byte', (-128, -1, 127)), ('short', (-32768, 0, 32767)), ('int', (-2**31 + 1, 0, 2**31 - 1)), ('long', (-2**63 + 1, -1, 2**63 - 1)), ('float', (-1e30, -1e-30, 1e30)), ('double', (-1e300, 1e-300, 1e300))):
        b = w = ''
        L = lambda v: '(%s)%r%s' % (t, v, {'long': 'L', 'float': 'f'}.get(t, ''))
        for xs in itertools.permutations(vals):
            for how in ('asc', 'desc'):
                e = sorted(xs, reverse=how == 'desc')
                b += ' { my $a = [%s]; Sort->sort_%s_%s($a); MCLog->i(%s); }' % (', '.join(map(L, xs)), t, how, ' && '.join('$a->[%d] == %s' % (i, L(v)) for i, v in enumerate(e))); w += '1;'
        out.append(Item(b, w, 'sort_%s of extreme values' % t))
    # objects: stable
    for n in range(6):
        vals = (1, 2, 3) if n < 5 else (1, 2)
        xss = list(itertools.product(vals, repeat=n))
        w = ''
        for xs in xss: w += 's%s;' % ''.join('%d.%d,' % (v, i) for v, i in sorted(((v, i) for i, v in enumerate(xs)), key=lambda p: p[0]))
        for ty, mk in (('Point', 'Point->new($c % K + 1, $i)'), ('object', '(object)Point->new($c % K + 1, $i)')):
            body_ = 'for (my $q = 0; $q < %d; $q++) { my $a = new %s[%d]; my $c = $q; for (my $i = %d; $i >= 0; $i--) { $a->[$i] = %s; $c /= %d; } Sort->sort_object($a, method : int ($x : Point, $y : Point) { return $x->x <=> $y->x; }); my $r = ""; for (my $i = 0; $i < %d; $i++) { my $p = (Point)$a->[$i]; my $px = $p->x; my $py = $p->y; $r .= "$px.$py,"; } MCLog->s($r); }' % (len(xss), ty, n, n - 1, mk.replace('K', str(len(vals))), len(vals), n)
            out.append(Item(body_, w, 'sort_object of %d %s elements' % (n, ty)))
    return out


def options():
    "key value pairs sorted by their keys: equal keys keep their order, a pair stays together, a refused list is left unchanged"
    out = []
    K = ['"b"', '"a"', '"ab"', '""', '"B"', 'undef', '7']
    key = lambda k: k.strip('"').encode()
    for n in range(0, 5):
        for ks in itertools.product(K if n < 3 else K[:4] if n == 3 else K[:3], repeat=n):
            for odd in ((0, 1) if n < 3 else (0,)):
                ok = not odd and not any(k in ('undef', '7') for k in ks)
                ps = [(k, i + 1) for i, k in enumerate(ks)]
                r = sorted(ps, key=lambda p: key(p[0])) if ok else ps
                el = ''.join('$a->[%d] = %s; $a->[%d] = %d;' % (2 * i, k, 2 * i + 1, v) for i, (k, v) in enumerate(ps)) + ('$a->[%d] = "z";' % (2 * n) if odd else '')
                w = ('i0;' if ok else 'i1;').replace('i', '') + ''.join('s%s;' % ('U' if k == 'undef' else k.strip('"') + '=%d' % v) if k != '7' else 's7=%d;' % v for k, v in r).replace('sU;', 's-;')
                out.append(Item('my $a = new object[%d]; %s my $e = 0; eval { Sort->sort_options_asc($a); }; if ($@) { $e = 1; } MCLog->i($e); for (my $i = 0; $i < %d; $i += 2) { if ($a->[$i] == undef) { MCLog->s("-"); } else { my $k = copy (string)""; if ($a->[$i] isa string) { $k = (string)$a->[$i]; } else { $k = "7"; } my $v = (int)$a->[$i + 1]; MCLog->s("$k=$v"); } }' % (2 * n + odd, el, 2 * n), w, 'options %s%s' % (' '.join(ks), ' odd' if odd else '')))
    out.append(Item('eval { Sort->sort_options_asc(undef); MCLog->i(1); }; if ($@) { MCLog->i(0); }', '0;', 'options undef'))
    return out


def main():
    quick = TIER == 'quick'
    ck = Check('M17')
    sc = ck.make_scratch()
    bin_ = sc.mcrun()
    its = ranges() + wholes() + sorts() + options()
    run_items(ck, bin_, its, chunk=20, header=HEAD, uses='use MCLog; use Array; use Sort; use Point; use Int;')
    ck.count(states=2 * sum(i.want.count(';') for i in its))
    ck.sample('%d programs, %d observations' % (len(its), sum(i.want.count(';') for i in its)))
    ck.finish(exhaustive=True, bound='8 element types, arrays of up to 5 elements, every offset and length from -1 to 4 and the extremes')
