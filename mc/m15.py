"""M15: Hash: every sequence of hash operations against a plain dictionary, and every typed getter on every kind of value."""
import itertools
from common import *
from machine import check
from progs import *

KEYS = [b'', b'a', b'b', b'ab', b'a\0', b'abcdefgh', b'abcdefghi\xff']


def klit(k): return '"%s"' % ''.join('\\x%02x' % c for c in k)


class Model:
    def __init__(s): s.d = {}; s.size = 1; s.live = [1, 1, 1, 1]
    def copy(s):
        g = Model.__new__(Model); g.d = {k: list(v) for k, v in s.d.items()}; g.size = s.size; g.live = s.live
        return g
    def canon(s): return tuple((k, tuple(v)) for k, v in s.d.items()), s.size
    def show(s):
        ks = sorted(s.d)
        out = '%d;%d;%d;%d;' % (len(ks), int(bool(ks)), len(ks), len(ks))
        out += ''.join('s%s;%d;' % (esc(k), s.d[k][0]) for k in ks) + 's/;' + ''.join('s%s;' % esc(k) for k in reversed(ks)) + 's/;'
        return out + ''.join('%d;' % (100 + 10 * s.d[k][0] + s.d[k][1]) if k in s.d else '0;' for k in KEYS) + '1;1;'
    def op(s, c): return OPS[c][1](s) or ''
    def put(s, k, v):
        if len(s.d) / s.size > 0.75: s.size *= 2
        s.d[k] = [v, 0]
    def drop(s, k): return '%d;' % (s.d.pop(k)[0] if k in s.d else 0)


OPS = {}
_letters = iter('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789')
def add(t, f): OPS[next(_letters)] = (t, f)
for i, k in enumerate(KEYS):
    add('$h->set($k->[%d], $p->[%d]);' % (i, 1 + i % 3), lambda s, k=k, i=i: s.put(k, 1 + i % 3))
for i, k in enumerate(KEYS):
    add('MCLog->i(&which($p, $h->delete($k->[%d])));' % i, lambda s, k=k: s.drop(k))
add('$h->set($k->[1], undef);', lambda s: s.put(KEYS[1], 0))
add('my $m = (mutable string)copy "ab"; $h->set($m, $p->[2]); $m->[0] = \'Z\';', lambda s: s.put(b'ab', 2))
add('my $m = copy "b"; $h->set($m, $p->[1]); my $n = $h->keys; for my $x (@$n) { MCLog->i(is_read_only $x); } $n = undef;', lambda s: (s.put(b'b', 1), '1;' * len(s.d))[1])
add('$h->set(undef, $p->[1]);', lambda s: 'sE;')
add('$h->delete(undef);', lambda s: 'sE;')
add('$h->exists(undef);', lambda s: 'sE;')
add('$h->get(undef);', lambda s: 'sE;')
add('$h->weaken($k->[1]);', lambda s: s.d.__setitem__(b'a', [s.d[b'a'][0], int(s.d[b'a'][0] > 0)]) if b'a' in s.d else None)
add('$h->weaken($k->[3]);', lambda s: s.d.__setitem__(b'ab', [s.d[b'ab'][0], int(s.d[b'ab'][0] > 0)]) if b'ab' in s.d else None)
add('$h->unweaken($k->[1]);', lambda s: s.d.__setitem__(b'a', [s.d[b'a'][0], 0]) if b'a' in s.d else None)
def renew(pairs):
    def f(s):
        s.d = {}; s.size = 1
        for k, v in pairs: s.put(k, v)
    return f
add('$h = Hash->new({"a" => $p->[1], "b" => $p->[2], "a" => $p->[3]});', renew([(b'a', 1), (b'b', 2), (b'a', 3)]))
add('my $x = Hash->new(["a"]);', lambda s: 'sE;')
add('my $x = Hash->new([$p->[1], $p->[2]]);', lambda s: 'sE;')
add('my $x = Hash->new([(object)undef, $p->[2]]);', lambda s: 'sE;')
def copied(s):
    d = list(s.d.items()); s.d = {}; s.size = 1
    # order of insertion of the copy is that of keys: any
    for k, v in d: s.put(k, v[0])
add('$h = $h->copy;', copied)
add('my $c = (Hash)$h->clone; $c->set($k->[0], undef); $c->delete($k->[1]); $c->delete($k->[2]); $c->set("other", undef);', lambda s: '')
add('my $t = $h->to_array; for (my $i = 0; $i < @$t; $i++) { $t->[$i] = undef; } my $n = $h->keys; for (my $i = 0; $i < @$n; $i++) { $n->[$i] = undef; } my $v = $h->values; for (my $i = 0; $i < @$v; $i++) { $v->[$i] = undef; }', lambda s: '')
def dod(k):
    return lambda s: s.drop(k) if k in s.d else '3;'
add('MCLog->i(&which($p, $h->delete_or_default($k->[4], $p->[3])));', dod(KEYS[4]))
add('MCLog->i(&which($p, $h->get_or_default($k->[5], $p->[3])));', lambda s: '%d;' % (s.d[KEYS[5]][0] if KEYS[5] in s.d else 3))

SETUP = 'my $k = [%s]; my $p = new object[4]; $p->[1] = Int->new(1); $p->[2] = copy "two"; $p->[3] = Hash->new; my $h = Hash->new;' % ', '.join(map(klit, KEYS))
SHOW = '''MCLog->i($h->keys_length); MCLog->i($h->has_keys); my $hk = $h->keys; MCLog->i(@$hk); my $hv = $h->values; MCLog->i(@$hv);
my $ar = $h->to_array(1); for (my $j = 0; $j < @$ar; $j += 2) { MCLog->s((string)$ar->[$j]); MCLog->i(&which($p, $ar->[$j + 1])); } MCLog->s("/");
$ar = $h->to_array(-1); for (my $j = 0; $j < @$ar; $j += 2) { MCLog->s((string)$ar->[$j]); } MCLog->s("/");
for (my $j = 0; $j < @$k; $j++) { if ($h->exists($k->[$j])) { MCLog->i(100 + 10 * &which($p, $h->get($k->[$j])) + $h->isweak($k->[$j])); } else { MCLog->i($h->exists($k->[$j])); if ($h->get($k->[$j])) { MCLog->s("?"); } } }
my $same = 1; for (my $j = 0; $j < @$hk; $j++) { unless ($h->exists($hk->[$j]) && $h->get($hk->[$j]) == $hv->[$j]) { $same = 0; } for (my $i = 0; $i < $j; $i++) { if ($hk->[$i] eq $hk->[$j]) { $same = 0; } } } MCLog->i($same);
$ar = $h->to_array; MCLog->i(@$ar == 2 * @$hk);'''
MEMBERS = '%PRE% static method which : int ($p : object[], $o : object) { for (my $i = 0; $i < @$p; $i++) { if ($p->[$i] == $o) { return $i; } } return -1; }'


def getter_items():
    vals = {'Byte': ('Byte->new(-7)', -7), 'Short': ('Short->new(-300)', -300), 'Int': ('Int->new(70000)', 70000), 'Long': ('Long->new(5000000000L)', 5000000000), 'Float': ('Float->new(1.5f)', 1.5), 'Double': ('Double->new(2.25)', 2.25), 'string': ('"str"', 'str'), 'undef': ('undef', None), 'Hash': ("Hash->new", 0), 'byte[]': ('new byte[2]', 0), 'none': ('', 0)}
    ok = {'byte': ('Byte',), 'short': ('Byte', 'Short'), 'int': ('Byte', 'Short', 'Int'), 'long': ('Byte', 'Short', 'Int', 'Long'), 'float': ('Float',), 'double': ('Double',), 'string': ('string', 'undef')}
    dflt = {'byte': ('9', 9), 'short': ('9', 9), 'int': ('9', 9), 'long': ('6000000000L', 6000000000), 'float': ('2.5f', 2.5), 'double': ('3.5', 3.5), 'string': ('"d"', 'd')}
    log = {'byte': 'i', 'short': 'i', 'int': 'i', 'long': 'l', 'float': 'f', 'double': 'd', 'string': 's'}
    import num
    def f(g, v):
        if g == 'string': return 'U;' if v is None else 's%s;' % v
        if g in ('float', 'double'): return num.fmt(g, v)
        return '%d;' % v
    out = []
    for v, (ex, x) in vals.items():
        put = '$h->set("k", %s);' % ex if v != 'none' else ''
        n = int(v != 'none')
        for g in ok:
            for how in ('get', 'get_or_default', 'delete_or_default'):
                call = '$h->%s_%s("k"%s)' % (how, g, '' if how == 'get' else ', ' + dflt[g][0])
                if v == 'none': w = f(g, dflt[g][1]) if how != 'get' else f(g, None) if g == 'string' else 'sE;'
                else: w = f(g, x) if v in ok[g] else 'sE;'
                left = n - (how.startswith('delete') and n and w != 'sE;')
                out.append(Item('my $h = Hash->new; $h->set("other", undef); %s eval { MCLog->%s(%s); } if ($@) { MCLog->s("E"); } MCLog->i($h->exists("k")); MCLog->i($h->keys_length);' % (put, log[g], call), '%s%d;%d;' % (w, left, left + 1), '%s_%s of %s' % (how, g, v)))
    for g, vs in (('byte', [0, 127, -128, 300, -129]), ('short', [0, 32767, -32768, 70000]), ('int', [2**31 - 1, -2**31]), ('long', [2**40, -2**62]), ('float', [0.5]), ('double', [1e300]), ('string', ['x', None])):
        for v in vs:
            w = v if g not in ('byte', 'short') else (v + 128) % 256 - 128 if g == 'byte' else (v + 32768) % 65536 - 32768
            e = num.lit(g if g in ('long', 'float', 'double') else 'int', v) if g != 'string' else ('undef' if v is None else '"x"')
            out.append(Item('my $h = Hash->new; $h->set_%s("k", %s); MCLog->%s($h->get_%s("k")); if ($h->get("k")) { MCLog->s(type_name $h->get("k")); } MCLog->i($h->keys_length);' % (g, e, log[g], g), f(g, w) + ('' if v is None else 's%s;' % (g if g == 'string' else g.capitalize())) + '1;', 'set_%s %s' % (g, v)))
    # weak values disappear with their object, at every size of the table
    for n in range(0, 14):
        for m in range(0, 14):
            out.append(Item('my $h = Hash->new; for (my $i = 0; $i < %d; $i++) { $h->set("k$i", undef); } { my $o : object = Int->new(5); $h->set("w", $o); $h->weaken("w"); for (my $i = 0; $i < %d; $i++) { $h->set("m$i", undef); } MCLog->i($h->isweak("w")); MCLog->i($h->get("w") == $o); $o = undef; } MCLog->i($h->exists("w")); MCLog->i($h->keys_length);' % (n, m), '1;1;1;%d;' % (n + m + 1), 'weak value with %d keys before and %d after' % (n, m)))
    # many keys, deleted in every stride
    for n in (1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 17, 33, 100):
        for st in (1, 2, 3, 5):
            dele = [i for i in range(0, n, st)]
            left = [i for i in range(n) if i % st]
            out.append(Item('my $h = Hash->new; for (my $i = 0; $i < %d; $i++) { $h->set_int("$i", $i * 3); } for (my $i = 0; $i < %d; $i += %d) { MCLog->i((int)$h->delete("$i")); } my $sum = 0; my $n = 0; for (my $i = 0; $i < %d; $i++) { if ($h->exists("$i")) { $sum += $h->get_int("$i"); $n++; } } MCLog->i($sum); MCLog->i($n); MCLog->i($h->keys_length); for (my $i = 0; $i < %d; $i++) { $h->set_int("$i", 1); } MCLog->i($h->keys_length);' % (n, n, st, n, n), ''.join('%d;' % (3 * i) for i in dele) + '%d;%d;%d;%d;' % (3 * sum(left), len(left), len(left), n), '%d keys, every %d. deleted' % (n, st)))
    return out


def main():
    quick = TIER == 'quick'
    ck = Check('M15')
    sc = ck.make_scratch()
    bin_ = sc.mcrun()
    ops = {k: v[0] for k, v in OPS.items()}
    check(ck, bin_, 'hash', Model, ops, 'use Hash; use Int;', SETUP, SHOW, '', MEMBERS, depth=2 if quick else 3, max_states=700 if quick else 20000, max_depth=9)
    its = getter_items()
    run_items(ck, bin_, its, chunk=40, uses='use MCLog; use Hash;')
    ck.count(states=2 * len(its))
    ck.finish(exhaustive=True, bound='%d operations over %d keys, every sequence of 2 (3 in thorough), then breadth first by content and table size' % (len(OPS), len(KEYS)))
