"""Storage: fields, inherited fields, class variables, local variables, array elements and multi-numeric values are separate places that start as zero and keep exactly what was stored last."""
import itertools
from common import *
from progs import Item, run_items
from m25 import T, BY, PFILES, setup, width

FT = [BY[x] for x in ('byte', 'short', 'int', 'long', 'float', 'double', 'string', 'Int')]
ZERO = {'string': 'U;', 'Int': '-1;', 'P_2i': '0;0;', 'P_3b': '0;0;0;'}
def zero(t): return ZERO.get(t.name, '0;')


def field_case(n, types, splits, quick):
    """a chain of classes; splits = index of the first field of each further level"""
    cuts = [0] + list(splits) + [len(types)]
    files = {}
    for l in range(len(cuts) - 1):
        nm = 'F%d_%d' % (n, l)
        fs = ''.join('has f%d : rw public %s; ' % (k, types[k].name) for k in range(cuts[l], cuts[l + 1]))
        files[nm + '.spvm'] = 'class %s%s : public { use Int; %s }\n' % (nm, ' extends F%d_%d' % (n, l - 1) if l else '', fs)
    last = len(cuts) - 2
    c = 'F%d_%d' % (n, last)
    # what the variable of each level sees
    seen = [(lv, 'o%d' % lv, cuts[lv + 1]) for lv in range(last + 1)]
    body = 'my $o%d = new %s; my $p = new %s; ' % (last, c, c)
    for lv in range(last): body += 'my $o%d : F%d_%d = $o%d; ' % (lv, n, lv, last)
    state = [None] * len(types)
    want = ''
    def show(near=None):
        nonlocal body, want
        for k, t in enumerate(types):
            # long lists: the neighbours of the changed field; everything at the end
            if near is not None and len(types) > 8 and abs(k - near) > 2 and k % 16 != near % 16: continue
            lv = next(l for l, _, m in seen if k < m)
            body += t.log('$o%d->{f%d}' % (lv if k % 2 else last, k)) + ' '
            want += zero(t) if state[k] is None else t.tr(state[k])
    show()
    order = list(range(len(types)))[::-1] + list(range(len(types)))
    for i, k in enumerate(order):
        t = types[k]; state[k] = (k + 3 * i) % 25
        lv = next(l for l, _, m in seen if k < m)
        if i % 3 == 2 and t.name not in ('byte', 'short'): body += '$o%d->set_f%d(%s); ' % (last, k, t.val(state[k]))
        else: body += '$o%d->{f%d} = %s; ' % (lv if i % 2 else last, k, t.val(state[k]))
        show(k)
    show()
    for k, t in enumerate(types):      # the other object is untouched
        body += t.log('$p->{f%d}' % k); want += zero(t)
    ident = 'fields ' + ' '.join(t.name for t in types[:12]) + ' split at %s' % (splits,)
    return files, Item(body, want, ident)


def fields(quick):
    out = []; n = 0
    for ln in (1, 2, 3):
        for ts in itertools.product(FT, repeat=ln):
            for sp in [()] + [(i,) for i in range(ln + 1)] + ([(1, 2)] if ln == 3 else []):
                if ln == 3 and quick and (len(sp) == 1 and sp[0] in (0, 3)): continue
                n += 1; out.append(field_case(n, ts, sp, quick))
    for ln in ((4, 7, 16, 40) if quick else (4, 5, 6, 7, 8, 9, 16, 31, 40, 64)):
        for rot in range(8):
            ts = [FT[(rot + 3 * i + i * i // 5) % 8] for i in range(ln)]
            for sp in ((), (ln // 2,), (1, ln - 1)):
                n += 1; out.append(field_case(n, ts, sp, quick))
    # the field of a super class defined once more with the same type is the same field
    for t in FT:
        for pos in range(3):
            n += 1
            fs = ['has a%d : public int;' % k for k in range(2)]; fs.insert(pos, 'has f : public %s;' % t.name)
            files = {'F%d_0.spvm' % n: 'class F%d_0 : public { use Int; has z : public int; has f : public %s; has y : public long; }' % (n, t.name),
                     'F%d_1.spvm' % n: 'class F%d_1 extends F%d_0 : public { use Int; %s }' % (n, n, ' '.join(fs))}
            body = 'my $o = new F%d_1; my $p : F%d_0 = $o; $o->{z} = 1; $o->{y} = 2; $o->{a0} = 3; $o->{a1} = 4; $o->{f} = %s; MCLog->i($o->{z}); MCLog->l($p->{y}); MCLog->i($o->{a0}); MCLog->i($o->{a1}); %s %s' % (n, n, t.val(5), t.log('$o->{f}'), t.log('$p->{f}'))
            out.append((files, Item(body, '1;2;3;4;' + t.tr(5) * 2, 'field %s of the super class defined again at %d' % (t.name, pos))))
    return out


def classvars(quick):
    out = []; n = 0
    for ln in (1, 2, 3):
        for ts in itertools.product(FT, repeat=ln):
            if ln == 3 and quick and (FT.index(ts[0]) + FT.index(ts[1]) + FT.index(ts[2])) % 2: continue
            n += 1
            nm = 'V%d' % n
            files = {nm + '.spvm': 'class %s : public { use Int; %s }' % (nm, ' '.join('our $W%d : public %s;' % (k, t.name) for k, t in enumerate(ts)))}
            body = ''; want = ''
            state = [None] * ln
            for k in [None] + list(range(ln))[::-1] + list(range(ln)):
                if k is not None:
                    state[k] = (state[k] or 0) + k + 4; body += '$%s::W%d = %s; ' % (nm, k, ts[k].val(state[k]))
                for j, t in enumerate(ts):
                    body += t.log('$%s::W%d' % (nm, j)) + ' '; want += zero(t) if state[j] is None else t.tr(state[j])
            for j, t in enumerate(ts):
                if t.name in ('string', 'Int'): body += '$%s::W%d = undef; ' % (nm, j)
            out.append((files, Item(body, want, 'class variables ' + ' '.join(t.name for t in ts))))
    return out


def locals_(quick):
    out = []
    def dec(t, k):
        s, _ = setup(t, k); return s
    def deczero(t, k): return 'my $a%d : %s; ' % (k, t.name)
    def ref(t): return t.ref
    def rd(t, k):
        if t.name == 'int*': return 'MCLog->i($a%d);' % k
        if t.name == 'P_2i*': return 'MCLog->i($a%d->{x}); MCLog->i($a%d->{y});' % (k, k)
        return t.log('$a%d' % k)
    some = [BY[x] for x in (('byte', 'long', 'string', 'P_3b', 'double', 'Int') if quick else [t.name for t in T if not t.ref and t.name not in ('int[]', 'object')])]
    free = [t for t in T if not t.ref and t.name not in ('int[]', 'object')]
    for a, b in itertools.product(T, repeat=2):
        # scopes one after the other: the second does not disturb the outer one and starts at zero
        for d in free[(T.index(a) + T.index(b)) % 2::2] if quick else free:
            body = dec(a, 0) + '{ ' + dec(b, 1) + rd(a, 0) + rd(b, 1) + '} { ' + deczero(d, 2) + rd(d, 2) + rd(a, 0) + '} ' + rd(a, 0) + dec(b, 3) + rd(b, 3) + rd(a, 0)
            out.append(Item(body, a.tr(0) + b.tr(1) + zero(d) + a.tr(0) + a.tr(0) + b.tr(3) + a.tr(0), 'locals %s {%s} {%s zero} %s' % (a.name, b.name, d.name, b.name)))
    for a, b, c in itertools.product(some, repeat=3):
        body = dec(a, 0) + 'if (1) { ' + dec(b, 1) + 'for (my $i = 0; $i < 2; $i++) { ' + deczero(c, 2) + rd(c, 2) + rd(a, 0) + rd(b, 1) + setup(c, 2)[0].replace('my $a2 : %s = ' % c.name, '$a2 = ').replace('my $a2 : %s; ' % c.name, '') + rd(c, 2) + '} ' + rd(b, 1) + '} ' + rd(a, 0)
        out.append(Item(body, (zero(c) + a.tr(0) + b.tr(1) + c.tr(2)) * 2 + b.tr(1) + a.tr(0), 'locals %s if %s for %s' % (a.name, b.name, c.name)))
        body = dec(a, 0) + dec(b, 1) + dec(c, 2) + rd(a, 0) + rd(b, 1) + rd(c, 2) + a.change('$a0') + rd(b, 1) + rd(c, 2) + b.change('$a1') + rd(c, 2) + dec(a, 3) + rd(a, 3) + rd(c, 2)
        out.append(Item(body, a.tr(0) + b.tr(1) + c.tr(2) + b.tr(1) + c.tr(2) + c.tr(2) + a.tr(3) + c.tr(2), 'locals %s %s %s changed' % (a.name, b.name, c.name)))
    for n in (50, 300) if quick else (50, 255, 256, 257, 300, 1000, 3000):
        for rot in range(4):
            vs = [free[(rot + i * (rot + 1)) % len(free)] for i in range(n)]
            body = ''.join(dec(t, k % 25).replace('$a%d' % (k % 25), '$a%d' % k) for k, t in enumerate(vs)) + ''.join(t.log('$a%d' % k) for k, t in enumerate(vs))
            out.append(Item(body, ''.join(t.tr(k % 25) for k, t in enumerate(vs)), '%d locals %d' % (n, rot)))
    return out


def arrays(quick):
    out = []
    et = FT + [BY['int[]'], BY['P_2i'], BY['P_3b']]
    for t in et:
        for n in range(1, 6):
            for extra in (0, 1):
                body = 'my $a = new %s[%d]; my $b = new %s[%d]; ' % (t.name if not t.name.endswith('[]') else 'int[]', n, t.name if not t.name.endswith('[]') else 'int[]', n + 1)
                want = ''; st = [None] * n
                def show():
                    nonlocal body, want
                    for j in range(n):
                        if t.name == 'int[]':
                            body += 'if ($a->[%d]) { MCLog->i($a->[%d]->[1]); } else { MCLog->i(-1); }' % (j, j); want += '-1;' if st[j] is None else t.tr(st[j])
                        else: body += t.log('$a->[%d]' % j); want += zero(t) if st[j] is None else t.tr(st[j])
                show()
                for i, j in enumerate(list(range(n))[::-1] + list(range(n))):
                    st[j] = j + 5 * i % 20
                    if t.name.startswith('P_'):
                        if extra: body += '{ %s $a->[%d] = $a%d; %s } ' % (setup(t, st[j])[0], j, st[j], t.change('$a%d' % st[j]))
                        else:
                            vals = t.tr(st[j]).rstrip(';').split(';')
                            for f, v in zip('xyz', vals): body += '$a->[%d]{%s} = %s%s; ' % (j, f, '(byte)' if t.name == 'P_3b' else '', v)
                    else: body += 'my $i%d = %d; $a->[$i%d] = %s; ' % (i, j, i, t.val(st[j])) if extra else '$a->[%d] = %s; ' % (j, t.val(st[j]))
                    show()
                for j in range(n + 1):
                    if t.name == 'int[]': body += 'MCLog->i($b->[%d] ? 1 : 0);' % j if False else 'if ($b->[%d]) { MCLog->i(1); } else { MCLog->i(-1); }' % j; want += '-1;'
                    else: body += t.log('$b->[%d]' % j); want += zero(t)
                out.append(Item(body, want, 'array %s of %d %s' % (t.name, n, extra)))
    # arrays of arrays
    for t in FT:
        for n in (1, 2, 3):
            for m in (0, 1, 3):
                body = 'my $a = new %s[][%d]; ' % (t.name, n); want = ''
                for j in range(n): body += '$a->[%d] = new %s[%d]; ' % (j, t.name, m)
                for j in range(n):
                    for k in range(m): body += '$a->[%d][%d] = %s; ' % (j, k, t.val(j * 4 + k))
                for j in range(n):
                    body += 'MCLog->i(@{$a->[%d]}); ' % j; want += '%d;' % m
                    for k in range(m): body += t.log('$a->[%d][%d]' % (j, k)); want += t.tr(j * 4 + k)
                out.append(Item(body, want, 'array %s[%d][%d]' % (t.name, n, m)))
    return out


NT = [('b', 'byte', 'MCLog->i(%s);', lambda k: ('(byte)%d' % (k % 240 - 120), '%d;' % (k % 240 - 120))), ('s', 'short', 'MCLog->i(%s);', lambda k: ('(short)%d' % (k * 251 % 60000 - 30000), '%d;' % (k * 251 % 60000 - 30000))),
      ('i', 'int', 'MCLog->i(%s);', lambda k: ('%d' % (k * 65537 + 5), '%d;' % (k * 65537 + 5))), ('l', 'long', 'MCLog->l(%s);', lambda k: ('%dL' % (k * 4294967297 + 5), '%d;' % (k * 4294967297 + 5))),
      ('f', 'float', 'MCLog->i((int)(%s * 2));', lambda k: ('%d.5f' % k, '%d;' % (2 * k + 1))), ('d', 'double', 'MCLog->l((long)(%s * 4));', lambda k: ('%d.25' % (k + 3000000000), '%d;' % (4 * k + 12000000001)))]


def mulnums(quick):
    out = []
    for suf, ty, log, val in NT:
        for nf in (1, 2, 3, 4, 5, 8, 16, 100, 254, 255) if not quick else (1, 2, 3, 4, 7, 255):
            nm = 'Z_%d%s' % (nf, suf)
            files = {nm + '.spvm': 'class %s : mulnum_t { %s }' % (nm, ' '.join('has f%d : %s;' % (k, ty) for k in range(nf)))}
            ks = range(nf) if nf < 20 else [0, 1, 2, 99 % nf, 127 % nf, 128 % nf, 253 % nf, nf - 1]
            ks = sorted(set(ks))
            def fill(v, base): return ''.join('%s->{f%d} = %s; ' % (v, k, val(base + k)[0]) for k in ks)
            def show(v): return ''.join(log % ('%s->{f%d}' % (v, k)) + ' ' for k in ks)
            def tr(base): return ''.join(val(base + k)[1] for k in ks)
            z = '0;' * len(ks)
            body = 'my $pre = 77; my $v : %s; my $w : %s; my $post = 78; ' % (nm, nm) + show('$v') + fill('$v', 1) + show('$w') + fill('$w', 300) + show('$v') + show('$w') + '$v = $w; ' + fill('$w', 600) + show('$v') + show('$w') + 'MCLog->i($pre); MCLog->i($post); '
            want = z + z + tr(1) + tr(300) + tr(300) + tr(600) + '77;78;'
            out.append((files, Item(body, want, 'multi-numeric variables ' + nm)))
            body = 'my $a = new %s[3]; my $v : %s; ' % (nm, nm) + show('$a->[1]').replace(']->{', ']{')
            want = z
            for j in (2, 0, 1): body += fill('$v', 100 * j) + '$a->[%d] = $v; ' % j
            for j in range(3): body += show('$a->[%d]' % j).replace(']->{', ']{'); want += tr(100 * j)
            body += ''.join('$a->[1]{f%d} = %s; ' % (k, val(700 + k)[0]) for k in ks) + '$v = $a->[1]; ' + show('$v')
            want += tr(700)
            for j in (0, 2): body += show('$a->[%d]' % j).replace(']->{', ']{'); want += tr(100 * j)
            body += 'my $r = \\$v; ' + ''.join('$r->{f%d} = %s; ' % (k, val(900 + k)[0]) for k in ks) + show('$v') + show('$a->[1]').replace(']->{', ']{') + 'my $u = $$r; ' + fill('$v', 20) + show('$u') + show('$r')
            want += tr(900) + tr(700) + tr(900) + tr(20)
            out.append((files, Item(body, want, 'multi-numeric arrays and references ' + nm)))
    return out


def main():
    ck = Check('M26')
    sc = ck.make_scratch()
    quick = TIER == 'quick'
    bin_ = sc.mcrun()
    groups = []
    def put(name, pairs, size):
        for g in range(0, len(pairs), size):
            part = pairs[g:g + size]
            files = dict(PFILES); [files.update(f) for f, _ in part]
            uses = 'use MCLog; use Int; use P_2i; use P_3b; ' + ' '.join('use %s;' % f[:-5] for f in files)
            groups.append(('MC%s%d' % (name, g // size), [i for _, i in part], files, uses))
    put('F', fields(quick), 150); put('V', classvars(quick), 150); put('M', mulnums(quick), 12)
    put('L', [({}, i) for i in locals_(quick)], 200); put('A', [({}, i) for i in arrays(quick)], 60)
    def one(w):
        (cls, items, files, uses), mode = w
        run_items(ck, bin_, items, modes=(mode,), files=files, chunk=100000, cls=cls, only=cls, uses=uses)
    work = [(g, m) for g in groups for m in ('precompile', 'interpreted')]
    with ThreadPoolExecutor(NCPU) as ex: list(ex.map(one, work))
    total = sum(len(g[1]) for g in groups)
    ck.count(states=2 * total)
    ck.finish(exhaustive=True, bound='%d programs, interpreted and precompiled: all sequences of up to 3 fields of 8 types with every cut into inherited levels, all sequences of up to 3 class variables, all pairs of 14 types of locals in scopes, arrays of 11 element types up to 5 elements, multi-numeric types of 6 element types and 1 to 255 fields' % total)
