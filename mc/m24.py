"""Dynamic calls: every parameter and return type with every value, every position, every form of Native::MethodCall."""
from common import *
from progs import Item, run_items
import m10, m25

REFS = [t + '*' for t in m10.NUM]
MUL = {'M_2%s' % t[0]: t for t in m10.NUM}
FILES = dict(m10.FILES)
FILES.update(m25.PFILES)
for m, t in MUL.items(): FILES[m + '.spvm'] = 'class %s : mulnum_t { has x : %s; has y : %s; }' % (m, t, t)
FILES['DC.spvm'] = '''class DC { use Error::System;
has v : int;
%PRE% static method new : DC ($v : int = 5) { my $s = new DC; $s->{v} = $v; return $s; }
%PRE% method get : int ($x : int, $y : int = 3) { return $self->{v} * 100 + $x * 10 + $y; }
%PRE% method name : string () { return "DC"; }
%PRE% static method fail : int ($x : int) { if ($x == 1) { die "one"; } if ($x == 2) { die Error::System "two"; } return $x; }
%PRE% static method nothing : void () { }
%PRE% static method deep : int ($n : int) { my $a = new object[1]; $a->[0] = $n - 1; if ($n == 0) { die "bottom"; } return (int)Native::MethodCall->call_class_method("DC", "deep", $a); }
}'''
FILES['DD.spvm'] = '''class DD extends DC {
%PRE% static method new : DD ($v : int = 6) { my $s = new DD; $s->{v} = $v; return $s; }
%PRE% method name : string () { return "DD"; }
%PRE% method own : string ($s : string = undef) { if ($s) { return "own" . $s; } return "own"; }
}'''
FILES['DC.spvm'] = FILES['DC.spvm'].replace('use Error::System;', 'use Error::System; use Native::MethodCall;')
FILES['DD.spvm'] = FILES['DD.spvm'].replace('has v', 'has v')
FILES['DC.spvm'] = FILES['DC.spvm'].replace('has v : int;', 'has v : protected int;')
USES = 'use Native::MethodCall; use Native::MethodCall::Error::ExceptionThrown; use Error::System; use DC; use DD; use P_2i; use P_3b; ' + ''.join('use %s; ' % m for m in MUL) + m10.USES
PT = m10.NUM + m10.NOBJ + m10.MUL + list(MUL) + REFS + [m + '*' for m in MUL] + ['string'] + list(m10.CLS) + m10.IFC + ['object'] + [t for t in m10.TYPES if t.endswith(']')]
NUMLOG = {'byte': 'i', 'short': 'i', 'int': 'i', 'long': 'l', 'float': 'f', 'double': 'd'}


def takes(t, v):
    "whether an argument of the runtime type v (arrays have the length 2) is taken for a parameter of type t"
    if t in m10.NUM: return v == m10.NOBJ[m10.NUM.index(t)]
    b = t.rstrip('*')
    if b in MUL: return v == MUL[b] + '[]'
    if b in m10.MUL: return v == {'d': 'double[]', 'f': 'float[]'}[b[-1]]
    if t in REFS: return False   # the length must be 1
    return m10.fitv(t, v)


def types():
    out = []
    vals = m10.VAL + [('undef', 'undef'), ('one:byte[]', 'new byte[1]'), ('one:int[]', 'new int[1]'), ('one:double[]', 'new double[1]'), ('one:Complex_2d[]', 'new Complex_2d[1]'), ('three:int[]', 'new int[3]')] + [('one:%s[]' % t, 'new %s[1]' % t) for t in ('short', 'long', 'float')]
    for t in PT:
        b, w = ['my $r = ""; my $n = 0;'], ''
        for v, e in vals:
            k, _, bare = v.rpartition(':')
            if k: ok = t in REFS and k == 'one' and bare == t[:-1] + '[]' or t not in REFS and t.rstrip('*') not in list(MUL) + m10.MUL and takes(t, bare)
            else: ok = takes(t, v)
            b.append('eval { my $a = new object[1]; $a->[0] = %s; $n = (int)Native::MethodCall->call_class_method("MCT", "f%%N%%", $a); $r .= $n; }; if (eval_error_id) { $r .= "-"; }' % e)
            w += '7' if ok else '-'
        b.append('MCLog->s($r); $@ = undef;')
        out.append(Item('\n'.join(b), 's%s;' % w, 'parameter ' + t, decl='%%PRE%% static method f%%N%% : int ($p : %s) { return 7; }\n' % t))
    return out


def arrow(t, k):
    """the object that stands for value k of the type, statements before it"""
    n = t.name
    if n in m10.NUM: return '%s->new(%s)' % (m10.NOBJ[m10.NUM.index(n)], t.val(k)), ''
    if n == 'P_2i': return '[%d, %d]' % (k + 70, k + 80), ''
    if n == 'P_3b': return '[(byte)%d, (byte)%d, (byte)%d]' % (k - 70, k - 80, k - 90), ''
    if n == 'int*': return '$q%d' % k, 'my $q%d = [%d];' % (k, k + 90)
    if n == 'P_2i*': return '$q%d' % k, 'my $q%d = [%d, %d];' % (k, k + 20, k + 21)
    return t.val(k), ''


def after(t, k):
    if t.name == 'int*': return 'MCLog->i($q%d->[0]);' % k, '%d;' % (k + 1090)
    if t.name == 'P_2i*': return 'MCLog->i($q%d->[0]); MCLog->i($q%d->[1]);' % (k, k), '-6;-5;'
    return '', ''


def positions(quick):
    import itertools
    out = []
    T = m25.T
    lists = [p for n in (1, 2) for p in itertools.product(range(len(T)), repeat=n)] + [p for p in itertools.product(range(len(T)), repeat=3) if not quick or sum(p) % 3 == 0 and len(set(p)) == 3]
    for p in lists:
        ts = [T[i] for i in p]
        for nopt in (0, 1, 2):
            if nopt and (nopt > len(ts) or any(not t.opt for t in ts[-nopt:]) or quick and len(ts) > 2): continue
            params, logs, want = [], '', ''
            pre, vals, chk, chw = '', [], '', ''
            for k, t in enumerate(ts):
                op = k >= len(ts) - nopt
                dv, dw = t.opt(k) if op else ('', '')
                params.append('$p%d : %s%s' % (k, t.name, ' = ' + dv if op else ''))
                logs += t.log('$p%d' % k) + ' '
                if op: want += dw
                else:
                    e, s = arrow(t, k); pre += s; vals.append(e); want += t.tr(k)
                    a, c = after(t, k); chk += a; chw += c
            chg = ' '.join(t.change('$p%d' % k) for k, t in enumerate(ts))
            body = pre + 'my $a = new object[%d]; ' % len(vals) + ' '.join('$a->[%d] = %s;' % x for x in enumerate(vals)) + ' MCLog->i((int)Native::MethodCall->call_class_method("MCT", "f%N%", $a)); ' + chk
            out.append(Item(body, want + '77;' + chw, 'list (%s) %d' % (', '.join(t.name for t in ts), nopt), decl='%%PRE%% static method f%%N%% : int (%s) { %s %s return 77; }\n' % (', '.join(params), logs, chg)))
    return out


def returns():
    out = []
    import num
    V = {'byte': -100, 'short': -30000, 'int': -2000000000, 'long': -9000000000000000000, 'float': 0.5, 'double': -1e300}
    for t, v in V.items():
        lit = ('(%s)%s' % (t, '%dL' % v if t == 'long' else '%r' % v)) if t != 'double' else '%r' % v
        w = num.fmt('int' if t in m10.NUM[:3] else t, v)
        c = m10.NOBJ[m10.NUM.index(t)]
        out.append(Item('my $o = Native::MethodCall->call_class_method("MCT", "f%%N%%"); MCLog->s(type_name $o); MCLog->%s(((%s)$o)->value);' % (NUMLOG[t], c), 's%s;%s' % (c, w), 'return ' + t, decl='%%PRE%% static method f%%N%% : %s () { return %s; }\n' % (t, lit)))
        m = 'M_2' + t[0]
        out.append(Item('my $o = Native::MethodCall->call_class_method("MCT", "f%%N%%"); MCLog->s(type_name $o); my $a = (%s[])$o; MCLog->i(@$a); MCLog->%s($a->[0]); MCLog->%s($a->[1]);' % (t, NUMLOG[t], NUMLOG[t]), 's%s%s;2;%s%s' % (t, '[]', w, num.fmt('int' if t in m10.NUM[:3] else t, 0 if t in m10.NUM[:4] else 0.0)), 'return ' + m, decl='%%PRE%% static method f%%N%% : %s () { my $m : %s; $m->{x} = %s; return $m; }\n' % (m, m, lit)))
    for v, e in m10.VAL:
        if v == 'mutable string': continue
        for t in {v, 'object'} | ({'object[]'} if m10.objarr(v) else set()):
            out.append(Item('my $o = Native::MethodCall->call_class_method("MCT", "f%N%"); MCLog->s(type_name $o); my $n = MCLog->mem; if (1) { Native::MethodCall->call_class_method("MCT", "f%N%"); } ', 's%s;' % esc(v), 'return %s as %s' % (v, t), decl='%%PRE%% static method f%%N%% : %s () { return %s; }\n' % (t, e)))
    out.append(Item('my $o = Native::MethodCall->call_class_method("DC", "nothing"); if (!$o) { MCLog->s("none"); }', 'snone;', 'return void'))
    out.append(Item('my $o = Native::MethodCall->call_class_method("MCT", "f%N%"); if (!$o) { MCLog->s("none"); }', 'snone;', 'return undef', decl='%PRE% static method f%N% : string () { return undef; }\n'))
    return out


def forms():
    out = []
    A = lambda *v: 'my $a = new object[%d]; %s' % (len(v), ' '.join('$a->[%d] = %s;' % x for x in enumerate(v)))
    N = 'Native::MethodCall->'
    def item(pre, expr, want, ident):
        "want: trace, or None for an exception"
        out.append(Item('%s my $r : object = undef; eval { $r = %s; if ($r) { if ($r isa Int) { MCLog->i((int)$r); } elsif ($r isa string) { MCLog->s((string)$r); } else { MCLog->s(type_name $r); } } else { MCLog->s("none"); } }; if (eval_error_id) { MCLog->s("E"); } $@ = undef;' % (pre, expr), 'sE;' if want is None else want, ident))
    for cls, v in (('DC', 5), ('DD', 6)):
        for m, args, want in (('get', ('1',), v * 100 + 13), ('get', ('1', '2'), v * 100 + 12), ('get', (), None), ('get', ('1', '2', '3'), None), ('get', ('"x"',), None), ('get', ('undef',), None), ('get', ('1L',), None), ('name', (), 's' + cls), ('name', ('1',), None), ('own', (), 'sown' if cls == 'DD' else None), ('own', ('"q"',), 'sownq' if cls == 'DD' else None), ('own', ('undef',), 'sown' if cls == 'DD' else None), ('new', (), None), ('nope', (), None)):
            w = None if want is None else '%s;' % want
            item('my $o = %s->new; ' % cls + A('$o', *args), N + 'call_instance_method("%s", $a)' % m, w, 'instance %s %s%s' % (cls, m, args))
            item('my $o = %s->new; ' % cls + A('$o', *args) + ' my $c = %snew_instance_method($o, "%s");' % (N, m) if w else A(), '$c->call($a)' if w else N + 'new_instance_method(%s->new, "%s")->call($a)' % (cls, m), w, 'instance call object %s %s%s' % (cls, m, args))
            for c in ('DC', 'DD', 'TA', 'none'):
                # a static instance call takes the method of just that class, for an instance of it
                has = {'DC': ('get', 'name'), 'DD': ('name', 'own')}.get(c, ())
                ok = m in has and w is not None and (c == cls or c == 'DC')
                ws = w
                if ok and m == 'name': ws = 's%s;' % c
                item('my $o = %s->new; ' % cls + A('$o', *args), N + 'call_instance_method_static("%s", "%s", $a)' % (c, m), ws if ok else None, 'static %s %s->%s%s' % (cls, c, m, args))
    for o in ('undef', '"s"', 'new DC[1]', '(object)TA->new', 'new int[1]'):
        item(A(o, '1'), N + 'call_instance_method_static("DC", "get", $a)', None, 'static invocant ' + o)
        if '[' not in o: item(A(o, '1'), N + 'call_instance_method("get", $a)', None, 'instance invocant ' + o)
    for c, m, args, want in (('DC', 'new', (), 'sDC;'), ('DC', 'new', ('4',), 'sDC;'), ('DD', 'new', ('4',), 'sDD;'), ('DD', 'fail', ('5',), None), ('DC', 'fail', ('5',), '5;'), ('DC', 'get', ('1',), None), ('none', 'new', (), None), ('DC', 'nope', (), None), ('int', 'new', (), None), ('DC', 'fail', (), None), ('DC', 'fail', ('5', '6'), None)):
        item(A(*args), N + 'call_class_method("%s", "%s", $a)' % (c, m), want, 'class %s->%s%s' % (c, m, args))
        item(A(*args), N + 'new_class_method("%s", "%s")->call($a)' % (c, m), want, 'class call object %s->%s%s' % (c, m, args))
    for e in ('new_class_method(undef, "new")', 'new_class_method("DC", undef)', 'new_instance_method(undef, "get")', 'new_instance_method(DC->new, undef)', 'new_instance_method_static(undef, "get")', 'new_instance_method_static("DC", undef)'):
        item('', N + e, None, e)
    item('my $p = DC->new;', N + 'new_proto($p)', 'sDC;', 'proto'); item('my $p : DC = DD->new;', N + 'new_proto($p)', 'sDD;', 'proto child'); item('', N + 'new_proto(undef)', None, 'proto undef')
    item('my $p : DC = DD->new; ' + A('"z"'), N + 'new_proto($p, $a)', None, 'proto with a wrong argument')
    # one call object called again, with other arguments and after an exception
    out.append(Item('my $c = %snew_class_method("DC", "fail"); for (my $i = 0; $i < 6; $i++) { my $a = new object[1]; $a->[0] = $i; my $e = [-1]; eval { MCLog->i((int)$c->call($a, $e)); }; MCLog->i(eval_error_id == 0); MCLog->i($e->[0] == 0); MCLog->i($e->[0] == (basic_type_id Error)); MCLog->i($e->[0] == (basic_type_id Error::System)); if (eval_error_id) { MCLog->i(eval_error_id == (basic_type_id Native::MethodCall::Error::ExceptionThrown)); MCLog->s($@); } $@ = undef; }' % N,
                    '0;1;1;0;0;0;0;1;0;1;sone;0;0;0;1;1;stwo;3;1;1;0;0;4;1;1;0;0;5;1;1;0;0;', 'repeated calls', norm=lambda s: __import__('re').sub(r's(one|two)[^;]*;', r's\1;', s)))
    for n in (0, 2):
        out.append(Item(A('5') + ' my $e = new int[%d]; eval { %scall_class_method("DC", "fail", $a, $e); MCLog->s("ok"); }; if (eval_error_id) { MCLog->s("E"); } $@ = undef;' % (n, N), 'sE;', 'error id reference of length %d' % n))
    for n in (1, 5, 50):
        out.append(Item(A('%d' % n) + ' eval { %scall_class_method("DC", "deep", $a); MCLog->s("ok"); }; if (eval_error_id) { MCLog->s($@); } $@ = undef;' % N, 'sbottom;', 'nested calls %d' % n, norm=lambda s: __import__('re').sub(r'sbottom[^;]*;', 'sbottom;', s)))
    # the objects of a call live no longer than the call
    out.append(Item('if (1) { my $a = new object[1]; $a->[0] = 3; %scall_class_method("DC", "new", $a); } my $m = MCLog->mem; for (my $i = 0; $i < 5; $i++) { my $a = new object[1]; $a->[0] = $i; my $o = %scall_class_method("DC", "new", $a); my $k = DC->new; my $b = new object[2]; $b->[0] = $k; $b->[1] = 1; %scall_instance_method("get", $b); } MCLog->i(MCLog->mem - $m);' % (N, N, N), '0;', 'memory'))
    return out


def main():
    quick = TIER == 'quick'
    ck = Check('M24')
    sc = ck.make_scratch()
    bin_ = sc.mcrun(asan=True)
    items = types() + returns() + forms() + positions(quick)
    ck.count(states=len(items))
    kw = dict(files=FILES, uses=USES, chunk=64)
    run_items(ck, bin_, items, modes=('interpreted',), **kw)
    run_items(ck, bin_, [i for n, i in enumerate(items) if not quick or i.ident.startswith('return') or n % 12 == 0], modes=('precompile',), **kw)
    ck.finish(bound='%d parameter types x %d values; all pairs and %s triples of 14 types with up to 2 optional; all return types; all call forms' % (len(PT), len(m10.VAL) + 9, 'some' if quick else 'all'), methods=len(items))


if __name__ == '__main__':
    main()
