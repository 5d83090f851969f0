"""Native API: every accessor on every kind of target, every query on every value, every call form, and every bounded history of scopes, mortals and references."""
import itertools, re
from common import *
from progs import Item, run_items
import m10

NUM = ['byte', 'short', 'int', 'long', 'float', 'double']
HEXF = lambda v: float(v).hex() if v else '0x0p+0'
FILES = dict(m10.FILES)
FLD = [('b', 'byte'), ('s', 'short'), ('i', 'int'), ('l', 'long'), ('f', 'float'), ('d', 'double'), ('o', 'object'), ('t', 'string'), ('a', 'int[]'), ('k', 'NK'), ('y', 'object[]'), ('m', 'Complex_2d[]'), ('I', 'Int')]
FILES['NK.spvm'] = '''class NK : public { use Int; use Complex_2d;
%s
has link : public NK;
%s
our $G : public NK; our $LIVE : public int;
%%PRE%% static method make : NK ($x : int) { my $r = new NK; $r->{i} = $x; ++$LIVE; return $r; }
%%PRE%% static method fail : void () { my $r = NK->make(1); die "boom"; }
%%PRE%% static method sfail : int ($x : int) { die Error::System "sys"; }
%%PRE%% static method stat : int ($x : int = 40) { return $x + 1; }
%%PRE%% method inst : int ($x : int = 50) { return $self->{i} * 1000 + $x; }
%%PRE%% method over : int ($x : int) { return 100 + $x; }
%%PRE%% method ofail : int ($x : int) { die "inst"; }
%%PRE%% method DESTROY : void () { --$LIVE; }
}''' % ('\n'.join('has %s : public %s;' % f for f in FLD), '\n'.join('our $V%s : public %s;' % f for f in FLD))
FILES['NS.spvm'] = '''class NS extends NK : public { has own : public int; our $OWN : public int;
%PRE% static method news : NS () { ++$NK::LIVE; return new NS; }
%PRE% method over : int ($x : int) { return 200 + $x; }
%PRE% method mine : int ($x : int) { return 300 + $x; }
}'''
USES = 'use MCLog; use MCNat; use NK; use NS; use Error::System; ' + m10.USES.replace('use MCLog; ', '')
VALS = {'byte': [-128, 127, 0], 'short': [-32768, 32767], 'int': [-2147483648, 2147483647], 'long': [-2**63, 2**63 - 1], 'float': [0.5, -1.0, 3e38], 'double': [0.1, -1e300]}
LIT = lambda v, t: {'byte': '(byte)%d', 'short': '(short)%d', 'int': '%d', 'long': '%dL'}[t] % v if t in NUM[:4] else repr(v) + ('f' if t == 'float' else '')


def wrap(v, t):
    bits = {'byte': 8, 'short': 16, 'int': 32, 'long': 64}[t]
    v &= (1 << bits) - 1
    return v - (1 << bits) if v >> (bits - 1) else v


def f32(v):
    import struct
    try: return struct.unpack('f', struct.pack('f', v))[0]
    except OverflowError: return float('inf') if v > 0 else float('-inf')


def conv(v, t):
    if t in NUM[:4]: return wrap(int(v), t)
    return f32(float(v)) if t == 'float' else float(v)


def show(v, t):
    if t in NUM[:4]: return '%d' % v
    if v != v or v in (float('inf'), float('-inf')): return ('%f' % v)
    if v == 0: return '0x0p+0'
    h = float(v).hex(); m, e = h.split('p'); m = m.rstrip('0').rstrip('.') if '.' in m else m
    return m + 'p' + e


def lit(v, t):
    if t == 'long' and v == -2**63: return '-9223372036854775808L'
    if t == 'float': return '(float)%s' % repr(float(v))
    return LIT(v, t)

ERR = lambda s: re.sub(r's(E[^;:]*):[^;]*;', r's\1;', s)
def it(body, want, ident, mem=0): return Item(body, want, ident, norm=ERR, mem=mem)


def access():
    """every typed accessor on every target"""
    out = []
    K = ['byte', 'short', 'int', 'long', 'float', 'double', 'object', 'string']
    FT = dict(FLD)
    objv = {'o': ('"str"', '"str"'), 't': ('"txt"', '"txt"'), 'a': ('new int[2]', 'int[]'), 'k': ('NK->make(3)', 'NK'), 'y': ('new object[1]', 'object[]'), 'm': ('new Complex_2d[2]', 'Complex_2d[]'), 'I': ('Int->new(3)', 'Int')}
    for cv in (False, True):
        for n, ft in FLD:
            for owner in ('NK', 'NS'):
                if cv and owner == 'NS': continue
                obj = 'NS->news' if owner == 'NS' else 'NK->make(0)'
                place = '$NK::V' + n if cv else '$k->{%s}' % n
                name = '"$V%s"' % n if 0 else ("'$V%s'" % n)
                if cv: name = '"\\$V%s"' % n
                get = lambda k: 'MCLog->s(MCNat->getc("%s", "NK", %s));' % (k, name) if cv else 'MCLog->s(MCNat->getf("%s", $k, "%s"));' % (k, n)
                def put(k, l='0L', d='0.0', v='undef'): return 'MCLog->s(MCNat->setc("%s", "NK", %s, %s, %s, %s));' % (k, name, l, d, v) if cv else 'MCLog->s(MCNat->setf("%s", $k, "%s", %s, %s, %s));' % (k, n, l, d, v)
                body, want = ['my $k = (NK)%s;' % obj], ''
                if ft in NUM:
                    for v in VALS[ft]:
                        v = f32(v) if ft == 'float' else v
                        body.append('%s = %s;' % (place, lit(v, ft)))
                        for k in K:
                            ok = k in NUM and NUM.index(k) >= NUM.index(ft)
                            body.append(get(k)); want += 's%s;' % esc(show(conv(v, k), k) if ok else 'E')
                    for k in K:
                        ok = k in NUM and NUM.index(k) <= NUM.index(ft)
                        for v in VALS.get(k, [0]):
                            if k == 'float': v = f32(v)
                            body.append('%s = %s;' % (place, lit(conv(7, ft), ft)))
                            body.append(put(k, '-9223372036854775808L' if v == -2**63 else '%dL' % v if isinstance(v, int) else '0L', repr(float(v)) if k in ('float', 'double') else '0.0'))
                            body.append('MCLog->%s(%s);' % ({'byte': 'i', 'short': 'i', 'int': 'i'}.get(ft, ft[0]), place))
                            x = conv(v, ft) if ok else conv(7, ft)
                            import num
                            want += 's%s;%s' % ('ok' if ok else 'E', num.fmt('int' if ft in NUM[:3] else ft, x))
                else:
                    e, txt = objv[n]
                    body.append(get('object')); want += 'sundef;'
                    for k in K: body.append(get(k)); want += 's%s;' % ('E' if k in NUM else 'undef')
                    body.append('%s = %s;' % (place, e))
                    for k in K: body.append(get(k)); want += 's%s;' % ('E' if k in NUM else esc(txt))
                    body.append('my $v = %s;' % e)
                    for k in K:
                        body.append(put(k, v='$v')); want += 's%s;' % ('E' if k in NUM else 'ok')
                        if k in ('object', 'string'):
                            body.append('if ((object)%s == (object)$v) { MCLog->s("same"); } %s MCLog->i(MCLog->rc($v));' % (place, put(k)))
                            body.append('if (!%s) { MCLog->s("gone"); } MCLog->i(MCLog->rc($v));' % place)
                            want += 'ssame;sok;RC2;sgone;RC1;'
                    if n == 't' and not cv:
                        body.append('MCLog->s(MCNat->getf("chars", $k, "t")); $k->{t} = "chars"; MCLog->s(MCNat->getf("chars", $k, "t"));'); want += 'sundef;schars;'
                if cv: body.append('%s = %s;' % (place, '(%s)0' % ft if ft in NUM else 'undef'))
                want = re.sub(r'RC\d;', '', want)
                body = [re.sub(r' ?MCLog->i\(MCLog->rc\(\$v\)\);', '', b) for b in body]
                want = want.replace('schars;', 's%22chars%22;') if 0 else want.replace('schars;', 's"chars";')
                out.append(it('\n'.join(body), want, '%s of %s %s' % ('class variable' if cv else 'field', owner, ft)))
    # what has no such field
    for k in K + ['chars']:
        for what, e in (('undef', 'undef'), ('string', '"x"'), ('array', 'new int[2]'), ('class array', 'new NK[1]'), ('no field', 'NK->make(0)'), ('other class', 'TA->new')):
            if k == 'chars' and what == 'string' and 0: continue
            b = 'my $o : object = %s; MCLog->s(MCNat->getf("%s", $o, "none"));' % (e, k); w = 'sE;'
            if k != 'chars': b += ' MCLog->s(MCNat->setf("%s", $o, "none", 1L, 1.0, undef));' % k; w += 'sE;'
            out.append(it(b, w, 'field %s of %s' % (k, what)))
        if k == 'chars': continue
        b, w = '', ''
        for c, n in (('NK', '\\$NONE'), ('NONE', '\\$G'), ('NK', 'G'), ('NS', '\\$G'), ('NK', '\\$OWN'), ('int', '\\$G')):
            if k in ('object', 'string') or n != '\\$G' or c != 'NS':
                b += 'MCLog->s(MCNat->getc("%s", "%s", "%s")); MCLog->s(MCNat->setc("%s", "%s", "%s", 1L, 1.0, undef));\n' % (k, c, n, k, c, n)
                w += 'sE;sE;'
        out.append(it(b, w, 'class variable %s not found' % k))
    # direct access
    for t in NUM:
        b, w = 'my $k = (NK)NS->news; ', ''
        n = t[0]
        for v in VALS[t]:
            if t == 'float': v = f32(v)
            l, d = ('-9223372036854775808L' if v == -2**63 else '%dL' % v, '0.0') if isinstance(v, int) else ('0L', repr(v))
            b += 'MCLog->s(MCNat->direct("%s", $k, "%s", %s, %s, undef)); MCLog->%s($k->{%s});\n' % (t, n, l, d, {'byte': 'i', 'short': 'i', 'int': 'i'}.get(t, n), n)
            b += 'MCLog->s(MCNat->direct("%s", undef, "\\$V%s", %s, %s, "NK")); MCLog->%s($NK::V%s);\n' % (t, n, l, d, {'byte': 'i', 'short': 'i', 'int': 'i'}.get(t, n), n)
            import num
            w += ('s%s;' % esc(show(v, t)) + num.fmt('int' if t in NUM[:3] else t, v)) * 2
        b += 'MCLog->s(MCNat->direct("%s", $k, "none", 0L, 0.0, undef)); MCLog->s(MCNat->direct("%s", undef, "\\$none", 0L, 0.0, "NK")); MCLog->s(MCNat->direct("%s", undef, "\\$G", 0L, 0.0, "NONE"));' % (t, t, t)
        w += 'snone;' * 3
        # neighbours stay as they were
        b += ' MCLog->s(MCNat->getf("object", $k, "o")); MCLog->s(MCNat->getf("object", $k, "k"));'
        w += 'sundef;sundef;'
        out.append(it(b, w, 'direct ' + t))
    return out


VAL = m10.VAL + [('NK', 'NK->make(0)'), ('NS', 'NS->news'), ('NK[]', 'new NK[2]'), ('undef', 'undef')]
SZ = {'byte': 1, 'short': 2, 'int': 4, 'long': 8, 'float': 4, 'double': 8, 'Complex_2d': 16, 'Complex_2f': 8}
CH = [('NK', None), ('NS', 'NK')]


def kinds():
    out = []
    for v, e in VAL:
        b, d, _ = m10.split(v)
        cls = d == 0 and v not in ('undef', 'string', 'mutable string')
        fl = [v in ('string', 'mutable string'), cls, False, d > 0, m10.objarr(v) if d else False, d == 1 and b in NUM, d == 1 and b in m10.MUL]
        want = ''.join('01'[x] for x in fl)
        if v != 'undef':
            bn = 'string' if fl[0] else b
            want += ' %s %s %d %s %d' % (m10.rtype(v), bn, d, '3' if fl[0] else '2' if d else '*', 0 if not d else 8 if fl[4] else SZ[b])
        out.append(Item('my $o : object = %s; MCLog->s(MCNat->kind($o));' % e, 's%s;' % want.replace(' ', '%20') if 0 else 's%s;' % esc(want), 'kind of ' + v, norm=(lambda s: re.sub(r'%20(\*|\d+)%200;$', '%20*%200;', s)) if cls else None))
    # isa and is_type by name and by type, on every value and every object type
    targets = [t for t in m10.OBJT if t != 'mutable string'] + ['NK', 'NS', 'NK[]', 'NS[]']
    def fits(t, v):
        if v == 'undef': return True
        x = {'NK': None, 'NS': 'NK'}
        bt, dt, _ = m10.split(t); bv, dv, _ = m10.split(v)
        if bt in x or bv in x:
            if t == 'object': return True
            if t == 'object[]': return dv > 0
            return dt == dv and (bt == bv or bv in x and x[bv] == bt)
        return m10.fits(t, m10.rtype(v))
    for v, e in VAL:
        b, w = ['my $o : object = %s; my $r = "";' % e], ''
        for t in targets:
            bt, dt, _ = m10.split(t)
            ok, same = fits(t, v), m10.rtype(v) == t
            b.append('$r .= MCNat->isa($o, "%s", %d) . " ";' % (bt, dt))
            w += '%d%d%d' % (ok, same, ok) + ('%d' % same if v != 'undef' else '') + ' '
        b.append('MCLog->s($r);')
        out.append(Item('\n'.join(b), 's%s;' % esc(w), 'isa of ' + v))
    arrs = [(v, e) for v, e in VAL if v.endswith('[]') and m10.objarr(v)]
    for a, ae in arrs:
        b, w = ['my $a : object = %s; my $r = "";' % ae], ''
        el = 'object' if a == 'object[]' else a[:-2]
        for v, e in VAL:
            b.append('$r .= MCNat->elem_isa($a, %s);' % e); w += '01'[fits(el, v)]
        b.append('MCLog->s($r);')
        out.append(Item('\n'.join(b), 's%s;' % w, 'elem_isa of ' + a))
    b, w = [], ''
    for n in ('int', 'string', 'NK', 'object'):
        for d in (0, 1, 2, 3):
            for f in (0, 1, 2, 3):
                b.append('MCLog->s(MCNat->ctn("%s", %d, %d));' % (n, d, f))
                w += 's%s;' % esc(('mutable ' if f & 2 else '') + n + '[]' * d + ('*' if f & 1 else ''))
    out.append(Item('\n'.join(b), w, 'names of types'))
    return out


def calls():
    """how, class, invocant, method, with or without the optional argument"""
    out = []
    METH = {'NK': {'make': 'c', 'fail': 'c', 'sfail': 'c', 'stat': 'c', 'inst': 'i', 'over': 'i', 'ofail': 'i'}, 'NS': {'news': 'c', 'over': 'i', 'mine': 'i'}, 'TA': {'new': 'c'}}
    PAR = {'NS': 'NK', 'NK': None, 'TA': None}
    INV = [('undef', None), ('NK->make(4)', 'NK'), ('NS->news', 'NS'), ('TA->new', 'TA'), ('"s"', 'string'), ('new NK[1]', 'NK[]'), ('new int[1]', 'int[]')]
    def run(c, m, inv, x):
        if m == 'stat': return '%d' % ((40 if x is None else x) + 1)
        if m == 'inst': return '%d' % ((4000 if inv == 'NK' else 0) + (50 if x is None else x))
        if m == 'over': return '%d' % ((100 if c == 'NK' else 200) + x)
        if m == 'mine': return '%d' % (300 + x)
        if m == 'sfail': return 'E?'
        if m == 'ofail': return 'E'
    for c in ('NK', 'NS', 'TA', 'none', 'int'):
        for m in ('stat', 'sfail', 'inst', 'over', 'ofail', 'mine', 'nope'):
            for x in (None, 7):
                if x is None and m not in ('stat', 'inst'): continue
                a = '0, 0' if x is None else '7, 1'
                b, w = [], ''
                b.append('MCLog->s(MCNat->call("c", "%s", undef, "%s", %s));' % (c, m, a))
                w += 's%s;' % (run(c, m, None, x) if METH.get(c, {}).get(m) == 'c' else 'E')
                for e, t in INV:
                    b.append('MCLog->s(MCNat->call("s", "%s", %s, "%s", %s));' % (c, e, m, a))
                    ok = METH.get(c, {}).get(m) == 'i' and t and (t == c or PAR.get(t) == c)
                    w += 's%s;' % (run(c, m, t, x) if ok else 'E')
                    if c == 'NK':
                        b.append('MCLog->s(MCNat->call("i", "", %s, "%s", %s));' % (e, m, a))
                        k = t
                        while k and m not in METH.get(k, {}): k = PAR.get(k)
                        w += 's%s;' % (run(k, m, t, x) if k and METH[k][m] == 'i' else 'E')
                out.append(it('\n'.join(b), w, 'call %s->%s %s' % (c, m, x)))
    for c in ('NK', 'NS', 'TA', 'none', 'string'):
        b, w = [], ''
        for m in ('stat', 'inst', 'over', 'mine', 'nope', 'i', 'own', '$G', '$OWN'):
            for e, t in INV[:5]:
                k = METH.get(c, {}).get(m)
                j = t
                while j and m not in METH.get(j, {}): j = PAR.get(j)
                inst = j if j and METH[j][m] == 'i' else '-'
                r = ' '.join([c if k else '-', c if k == 'c' else '-', c if k == 'i' else '-', inst, ''])
                r += '%d%d%d' % (m == 'i' and c in ('NK', 'NS') or m == 'own' and c == 'NS', m == 'i' and t in ('NK', 'NS') or m == 'own' and t == 'NS', m == '$G' and c == 'NK' or m == '$OWN' and c == 'NS')
                b.append('MCLog->s(MCNat->find("%s", %s, "%s"));' % (c, e, m.replace('$', '\\$'))); w += 's%s;' % esc(r)
        out.append(Item('\n'.join(b), w, 'find in ' + c))
    return out


def arrays():
    out = []
    T = lambda x: 'MCLog->s(type_name (%s));' % x
    for l in (0, 1, 3):
        for t in NUM:
            b = 'my $a = (%s[])MCNat->make("%s", undef, 0, %d); MCLog->s(type_name $a); MCLog->i(@$a);' % (t, t, l)
            w = 's%s;%d;' % (esc(t + '[]'), l)
            for k in range(l):
                v = VALS[t][k % len(VALS[t])]
                if t == 'float': v = f32(v)
                a = ('-9223372036854775808L' if v == -2**63 else '%dL' % v) if isinstance(v, int) else '0L'
                d = '0.0' if isinstance(v, int) else repr(v)
                b += ' MCLog->s(MCNat->elems($a, %d, %s, %s)); MCLog->%s($a->[%d]);' % (k, a, d, {'byte': 'i', 'short': 'i', 'int': 'i'}.get(t, t[0]), k)
                cur = [show(VALS[t][j % len(VALS[t])] if t != 'float' else f32(VALS[t][j % len(VALS[t])]), t) if j <= k else show(0 if t in NUM[:4] else 0.0, t) for j in range(l)]
                import num
                w += 's%s;' % esc(''.join(c + ',' for c in cur)) + num.fmt('int' if t in NUM[:3] else t, v)
            out.append(it(b, w, 'array of %d %s' % (l, t)))
        for h, c, d, r in [('object', 'NK', 0, 'NK[]'), ('object', 'string', 0, 'string[]'), ('object', 'TI', 0, 'TI[]'), ('object', 'none', 0, None), ('string', '', 0, 'string[]'), ('mulnum', 'Complex_2d', 0, 'Complex_2d[]'), ('mulnum', 'none', 0, None), ('object', 'object', 0, 'object[]')] + \
                [('muldim', c, d, c + '[]' * d) for c in ('int', 'NK', 'string', 'Complex_2d', 'byte') for d in (2, 3)] + [('muldim', 'none', 2, None)]:
            if r: b, w = 'my $o : object = MCNat->make("%s", "%s", %d, %d); MCLog->s(type_name $o); MCLog->s(MCNat->kind($o));' % (h, c, d, l), 's%s;s%s;' % (esc(r), esc('0001' + ('001' if h == 'mulnum' else '100') + ' %s %s %d %d %d' % (r, c or 'string', d or 1, l, 16 if h == 'mulnum' else 8)))
            else: b, w = 'my $o : object = MCNat->make("%s", "%s", %d, %d); MCLog->s((string)$o);' % (h, c, d, l), 'sE;'
            out.append(it(b, w, 'make %s %s %d of %d' % (h, c, d, l)))
    for c in ('NK', 'NS', 'TA', 'none'):
        b = 'my $o : object = MCNat->make("new", "%s", 0, 0); ' % c
        if c == 'none': out.append(it(b + 'MCLog->s((string)$o);', 'sE;', 'new none')); continue
        if c[0] == 'N': b += '++$NK::LIVE; '
        out.append(it(b + 'MCLog->s(type_name $o);', 's%s;' % c, 'new ' + c))
    # objects in arrays
    for t, vals in (('object', ['NK->make(1)', '"s"', 'new int[1]', 'undef']), ('NK', ['NK->make(1)', 'NS->news', 'undef']), ('string', ['"a"', 'copy "b"', 'undef']), ('int[]', ['new int[1]', 'undef'])):
        for i, j in itertools.product(range(len(vals)), repeat=2):
            b = '''my $a = new %s[3]; my $x : object = %s; my $y : object = %s; my $m = MCLog->mem;
if (1) { MCNat->set_elem($a, 1, $x); if ((object)$a->[1] == $x) { MCLog->s("x"); } MCNat->set_elem($a, 1, $y); if ((object)$a->[1] == $y) { MCLog->s("y"); } if (MCNat->get_elem($a, 1) == $y && !$a->[0] && !$a->[2]) { MCLog->s("g"); } MCNat->set_elem($a, 1, undef); }
MCLog->i(MCLog->mem - $m);''' % (t, vals[i], vals[j])
            out.append(it(b, 'sx;sy;sg;0;', 'elements %s %s %s' % (t, vals[i], vals[j])))
    for v, e in VAL:
        if not v.endswith('[]'): continue
        b, w = ['my $a : object = %s;' % e], ''
        for l in (0, 1, 4):
            b.append('my $n%d = MCNat->proto($a, %d, 0); MCLog->s(type_name $n%d); MCLog->s(MCNat->kind($n%d));' % (l, l, l, l))
            bn, d, _ = m10.split(v); o = m10.objarr(v) or v == 'NK[]'
            w += 's%s;s%s;' % (esc(v), esc('0001%d%d%d %s %s %d %d %d' % (o, not o and bn in NUM, not o and bn in m10.MUL, v, bn, d, l, 8 if o else SZ[bn])))
        out.append(Item('\n'.join(b), w, 'prototype ' + v))
    for v, e in VAL:
        bn, d, _ = m10.split(v)
        if v in ('undef', 'mutable string') or d > 2: continue
        b, w = ['my $a : object = %s;' % e], ''
        for l in (0, 2):
            b.append('my $n%d = MCNat->proto($a, %d, 1); MCLog->s(MCNat->kind($n%d));' % (l, l, l))
            w += 's%s;' % esc('0001100 %s[] %s %d %d 8' % (v, bn, d + 1, l))
        out.append(Item('\n'.join(b), w, 'prototype element ' + v))
    return out


def strings():
    out = []
    S = ['', 'a', 'ab', 'a\\x{00}b', 'abc', '\\x{FF}\\x{80}']
    raw = lambda s: s.encode('latin-1').decode('unicode_escape').encode('latin-1') if '\\' not in s else {'a\\x{00}b': b'a\0b', '\\x{FF}\\x{80}': b'\xff\x80'}[s]
    mk = lambda s: 'MCNat->str("%s", %d)' % (s if '\\' not in s else {'a\\x{00}b': 'a\\0b'}.get(s, 'zz'), len(raw(s)))
    S = ['', 'a', 'ab', 'a\0b', 'abc', 'abcdefgh']
    q = lambda s: '"%s"' % s.replace('\0', '\\0')
    for x in S:
        for y in S:
            out.append(Item('my $x = %s; my $y = %s; my $m = MCLog->mem; if (1) { my $r = (string)MCNat->cat($x, $y); MCLog->s($r); MCLog->i(length $r); MCLog->s($x); MCLog->s($y); MCLog->i(MCNat->ro($r)); } MCLog->i(MCLog->mem - $m);' % (q(x), q(y)),
                            's%s;%d;s%s;s%s;1;0;' % (esc((x + y).encode()), len(x + y), esc(x.encode()), esc(y.encode())), 'concat %r %r' % (x, y)))
        for l in range(0, len(x) + 1):
            out.append(Item('my $x = %s; my $r = MCNat->str($x, %d); MCLog->s($r); MCLog->i(length $r); MCLog->s(MCNat->cut($r, 100));' % (q(x), l), 's%s;%d;s%s;' % (esc(x[:l].encode()), l, esc('%d:%s' % (l, (x[:l].encode() + b'\0').hex()))), 'new_string %r %d' % (x, l)))
        n = x.split('\0')[0]
        out.append(Item('my $r = MCNat->str(%s, -1); MCLog->s($r); MCLog->i(length $r);' % q(x), 's%s;%d;' % (esc(n), len(n)), 'new_string_nolen %r' % x))
        for l in [-2147483648, -1, 0, 1, 2, 3, 4, 8, 9, 2147483647]:
            for ro in (0, 1):
                k = l if 0 <= l < len(x) and not ro else len(x)
                body = 'my $s = (mutable string)copy %s; ' % q(x)
                if ro: body += 'make_read_only $s; '
                body += 'MCLog->s(MCNat->cut($s, %d)); MCLog->s($s); MCLog->i(length $s);' % l
                out.append(Item(body, 's%s;s%s;%d;' % (esc('%d:%s' % (k, (x[:k].encode() + b'\0').hex())), esc(x[:k].encode()), k), 'shorten %r %d %d' % (x, l, ro)))
    out.append(Item('MCNat->cut(undef, 0); my $a = [1, 2]; MCNat->cut($a, 1); MCLog->i(@$a); my $b = [(byte)1, (byte)2]; MCNat->cut($b, 1); MCLog->i(@$b); MCLog->i($b->[1]);', '2;2;2;', 'shorten what is no string'))
    out.append(Item('MCLog->i(MCNat->ro("lit")); my $s = (mutable string)copy "ab"; MCLog->i(MCNat->ro($s)); MCLog->i(MCNat->ro($s)); MCLog->i(MCNat->ro(undef)); my $e = 0; eval { my $m = (mutable string)$s; }; if ($@) { MCLog->s("ro"); } $@ = undef;', '3;1;3;0;', 'read only', norm=lambda s: s.replace('sro;', '')))
    for c, vs in (('Bool', ['TRUE', 'FALSE']), ('Byte', [-128, 127]), ('Short', [-32768, 32767]), ('Int', [-2147483648, 2147483647]), ('Long', [-2**63 + 1, 2**63 - 1]), ('Float', [0.5, -3.25]), ('Double', [0.1, -1e300])):
        b, w = '', ''
        for v in vs:
            if c == 'Bool': e, s = v.lower(), '%d' % (v == 'TRUE')
            else: e, s = '%s->new(%s)' % (c, lit(v, c.lower())), show(v, c.lower())
            b += 'MCLog->s(MCNat->value(%s));' % e; w += 's%s;' % esc(s)
        out.append(Item(b, w, 'value of ' + c))
    return out


class Scope:
    """reference counts and scopes"""
    def __init__(s):
        s.objs = {}; s.stack = [[]]; s.cur = None; s.g = None; s.live = 0; s.log = ''; s.n = 0; s.weak = {}
        s.bad = False
    def new(s):
        s.n += 1; s.objs[s.n] = [0, None, False]; s.live += 1
        return s.n
    def inc(s, o):
        if o: s.objs[o][0] += 1
    def dec(s, o):
        if not o: return
        s.objs[o][0] -= 1
        if s.objs[o][0] == 0:
            l, w = s.objs[o][1], s.objs[o][2]
            s.objs[o][1] = None
            # weak references to it become undef
            s.objs[o].append('dead'); s.live -= 1
            for k, x in s.objs.items():
                if x[1] == o and x[2]: x[1] = None; x[2] = False
            if l and not w: s.dec(l)
            if s.cur == o: s.cur = None
            del s.objs[o]
    def mortal(s, o): s.stack[-1].append(o); s.inc(o)
    def leave(s):
        for o in s.stack.pop(): s.dec(o)
    def setg(s, o):
        old = s.g; s.inc(o); s.g = o; s.dec(old)
    def setl(s, o):
        x = s.objs[s.g]
        old, w = x[1], x[2]
        s.inc(o)
        x[1] = o; x[2] = False
        if old and not w: s.dec(old)
    def reach(s, a, b):
        seen = set()
        while a and a not in seen:
            if a == b: return True
            seen.add(a); a = s.objs[a][1] if a in s.objs else None
        return False
    def op(s, c):
        "None if the operation is outside the contract in this state"
        if c == 'e': s.stack.append([])
        elif c == 'l':
            if len(s.stack) < 2: return None
            s.leave()
        elif c == 'L':
            if len(s.stack) < 3: return None
            s.leave(); s.leave()
        elif c == 'n': s.cur = s.new(); s.mortal(s.cur)
        elif c == 'm': s.cur = s.new(); s.mortal(s.cur)
        elif c == 'x': s.log += '!'
        elif c in 'pgG':
            if s.cur is None: return None
            s.mortal(s.cur) if c == 'p' else s.setg(s.cur)
        elif c == 'c': s.setg(None)
        elif c == 't':
            if s.g is None: return None
            s.cur = s.g
        elif c in 'fzwui':
            if s.g is None: return None
            x = s.objs[s.g]
            if c == 'f':
                if s.cur is None or s.reach(s.cur, s.g): return None
                s.setl(s.cur)
            elif c == 'z': s.setl(None)
            elif c == 'w':
                if x[1] and not x[2]:
                    o = x[1]
                    x[2] = True
                    if s.objs[o][0] == 1: x[1] = None; x[2] = False
                    s.dec(o)
            elif c == 'u':
                if x[1] and x[2]: s.inc(x[1]); x[2] = False
            elif c == 'i': s.log += '%d%d' % (x[1] is not None, x[2])
        s.log += '%d,' % s.live
        return True
    def end(s):
        s.setg(None)
        while s.stack: s.leave()
        return s.log + '%d' % s.live


def scopes(quick):
    """every history of at most n operations that keeps the contract"""
    import copy
    OPS = 'elLnpgGctmxfzwui'
    out = []
    def go(st, h, n, ops):
        if h:
            e = copy.deepcopy(st); out.append((h, e.end()))
        if not n: return
        for c in ops:
            x = copy.deepcopy(st)
            if x.op(c): go(x, h + c, n - 1, ops)
    go(Scope(), '', 4 if quick else 5, OPS)
    # links between objects: the interesting states need more steps
    for pre in ('nge', 'ngen', 'ngemf', 'engnf', 'ngemfw', 'ngemfwl', 'ngemgf', 'nenGfl'):
        st = Scope()
        if all(st.op(c) for c in pre): go(st, pre, 3 if quick else 4, OPS)
    return out


def main():
    quick = TIER == 'quick'
    ck = Check('M23')
    sc = ck.make_scratch()
    bin_ = sc.mcrun(asan=True)
    items = access() + kinds() + calls() + arrays() + strings()
    hist = scopes(quick)
    for i in range(0, len(hist), 200):
        p = hist[i:i + 200]
        items.append(Item('\n'.join('MCLog->s(MCNat->scope("%s"));' % h for h, _ in p), ''.join('s%s;' % esc(w) for _, w in p), 'scope histories %d %s..%s' % (i, p[0][0], p[-1][0])))
    ck.count(states=len(items) + len(hist))
    kw = dict(files=FILES, uses=USES, chunk=60)
    run_items(ck, bin_, items, modes=('interpreted',), **kw)
    run_items(ck, bin_, [i for i in items if i.ident[:4] in ('call', 'fiel', 'clas', 'scop', 'elem')], modes=('precompile',), cls='MCP', only='MCP', **kw)
    ck.finish(bound='all accessors x all kinds of target; all queries x %d values; all call forms; all scope histories of up to %d operations' % (len(VAL), 4 if quick else 5), histories=len(hist), methods=len(items))


if __name__ == '__main__':
    main()
