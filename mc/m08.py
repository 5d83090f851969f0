"""M08: numeric operators on every pair of types and boundary values, in every operand position, and operator precedence."""
import itertools
from common import *
from num import *
from progs import *


def arr(name, t, vals):
    return 'my $%s = new %s[%d]; %s\n' % (name, t, len(vals), ' '.join('$%s->[%d] = %s;' % (name, i, lit(t, v)) for i, v in enumerate(vals)))


def pair_item(op, ta, tb, va, vb, rt, f, ident):
    """logs va[i] op vb[j] for all i, j"""
    body = arr('a', ta, va) + arr('b', tb, vb)
    want = []
    skip = []
    for i, x in enumerate(va):
        for j, y in enumerate(vb):
            try:
                want.append(fmt(rt, f(x, y)))
            except Thrown:
                want.append("sE;")
            except Undefined:
                skip.append((i, j))
    cond = ''
    if skip:
        body += 'my $skip = new byte[%d]; %s\n' % (len(va) * len(vb), ' '.join('$skip->[%d] = 1;' % (i * len(vb) + j) for i, j in skip))
        cond = 'if ($skip->[$i * %d + $j] == 0)' % len(vb)
    body += '''MCLog->s(compile_type_name ($a->[0] %s $b->[0]));
for (my $i = 0; $i < @$a; $i++) { for (my $j = 0; $j < @$b; $j++) { %s {
  my $x = $a->[$i]; my $y = $b->[$j];
  eval { my $r = $x %s $y; MCLog->%s($r); }
  if ($@) { MCLog->s("E"); }
} } }''' % (op, cond or 'if (1)', op, LOG[rt])
    return Item(body, 's%s;' % rt + ''.join(want), ident)


HEAD = '''
our $CB : byte; our $CS : short; our $CI : int; our $CL : long; our $CF : float; our $CD : double; our $N : int;
static method head : string ($s : string) { my $len = length $s; my $n = 0; for (; $n < $len; $n++) { if ($s->[$n] == '\\n') { last; } }
  my $r = (string)new_string_len $n; my $m = (mutable string)$r; for (my $i = 0; $i < $n; $i++) { $m->[$i] = $s->[$i]; } return $r; }
%PRE%static method v : int ($x : int) { MCLog->i($x); return $x; }
'''
FILES = {'MCT/F.spvm': 'class MCT::F { has byte : rw public byte; has short : rw public short; has int : rw public int; has long : rw public long; has float : rw public float; has double : rw public double; static method new : MCT::F () { return new MCT::F; } }'}
CV = {'byte': '$CB', 'short': '$CS', 'int': '$CI', 'long': '$CL', 'float': '$CF', 'double': '$CD'}


def items_binary(B):
    out = []
    for ta in TYPES:
        for tb in TYPES:
            t = binary_type(ta, tb)
            ops = ['+', '-', '*', '/'] + (['%', '&', '|', '^'] if t in INTS else [])
            for op in ops:
                out.append(pair_item(op, ta, tb, B[ta], B[tb], t, lambda x, y: arith(op, t, conv(x, ta, t), conv(y, tb, t)), 'bin %s %s %s' % (ta, op, tb)))
            for op in ('==', '!=', '>', '>=', '<', '<=', '<=>'):
                out.append(pair_item(op, ta, tb, B[ta], B[tb], 'int', lambda x, y: compare(op, conv(x, ta, t), conv(y, tb, t)), 'cmp %s %s %s' % (ta, op, tb)))
            if ta in INTS and tb in INTS[:3]:
                r = widen(ta)
                sv = list(range(0, BITS[r]))
                for op in ('<<', '>>', '>>>'):
                    out.append(pair_item(op, ta, tb, B[ta], sv, r, lambda x, y: shift(op, r, x, y), 'shift %s %s %s' % (ta, op, tb)))
    for t, s in (('int', 'uint'), ('long', 'ulong')):
        for op in ('div_', 'mod_'):
            out.append(pair_item(op + s, t, t, B[t], B[t], t, lambda x, y: arith(op + s, t, x, y), '%s%s' % (op, s)))
    return out


def items_unary(B):
    out = []
    for t in TYPES:
        r = widen(t)
        for op, f in (('-', lambda v: wrap(r, -v) if r in INTS else -v), ('+', lambda v: v)) + ((('~', lambda v: ~v),) if t in INTS else ()):
            vals = B[t]
            body = arr('a', t, vals) + 'MCLog->s(compile_type_name (%s$a->[0]));\nfor (my $i = 0; $i < @$a; $i++) { my $x = $a->[$i]; my $r = %s$x; MCLog->%s($r); }' % (op, op, LOG[r])
            out.append(Item(body, 's%s;' % r + ''.join(fmt(r, f(v)) for v in vals), 'unary %s %s' % (op, t)))
        # conditions
        vals = B[t]
        truth = [int(bool(v)) if not (isinstance(v, float) and math.isnan(v)) else 1 for v in vals]
        body = arr('a', t, vals) + '''for (my $i = 0; $i < @$a; $i++) { my $x = $a->[$i];
 if ($x) { MCLog->i(1); } else { MCLog->i(0); }
 unless ($x) { MCLog->i(1); } else { MCLog->i(0); }
 if (!$x) { MCLog->i(1); } else { MCLog->i(0); }
 if ($x && 1) { MCLog->i(1); } else { MCLog->i(0); }
 if (0 || $x) { MCLog->i(1); } else { MCLog->i(0); }
 if (!!$x) { MCLog->i(1); } else { MCLog->i(0); }
 my $n = 0; while ($x) { $n++; last; } MCLog->i($n);
}'''
        out.append(Item(body, ''.join('%d;%d;%d;%d;%d;%d;%d;' % (c, 1 - c, 1 - c, c, c, c, c) for c in truth), 'condition %s' % t))
        # condition directly on a comparison or an arithmetic result, negated and not
        for op in ('==', '!=', '>', '>=', '<', '<='):
            body = arr('a', t, vals) + '''for (my $i = 0; $i < @$a; $i++) { for (my $j = 0; $j < @$a; $j++) { my $n = 0;
  if ($a->[$i] %s $a->[$j]) { $n += 1; } unless ($a->[$i] %s $a->[$j]) { $n += 2; } if (!($a->[$i] %s $a->[$j])) { $n += 4; } MCLog->i($n); } }''' % (op, op, op)
            out.append(Item(body, ''.join('1;' if compare(op, x, y) else '6;' for x in vals for y in vals), 'branch %s %s' % (op, t)))
    return out


def lvalues(t):
    """(setup, lvalue, needs) for each kind of place a numeric value lives in"""
    return [
        ('local', '', '$v', 'my $v : %s;' % t),
        ('field', 'my $o = MCT::F->new;', '$o->{%s}' % t, ''),
        ('element', 'my $e = new %s[3];' % t, '$e->[1]', ''),
        ('class variable', '', CV[t], ''),
        ('reference', 'my $k : %s; my $ref = \\$k;' % t, '$$ref', ''),
        ('element of an array of arrays', 'my $e = new %s[][2]; $e->[1] = new %s[3];' % (t, t), '$e->[1][2]', ''),
    ]


def items_assign(B):
    out = []
    for t in TYPES:
        for kind, pre, lv, decl in lvalues(t):
            vals = B[t]
            # ++ and --
            body = arr('a', t, vals) + pre + decl + '\nfor (my $i = 0; $i < @$a; $i++) {\n'
            want = ''
            for op in ('%s++', '%s--', '++%s', '--%s'):
                body += '%s = $a->[$i]; MCLog->%s(%s); MCLog->%s(%s);\n' % (lv, LOG[t], op % lv, LOG[t], lv)
            body += '}'
            for v in vals:
                for k, op in enumerate(('%s++', '%s--', '++%s', '--%s')):
                    w = widen(t)
                    d = 1 if '+' in op else -1
                    n = wrap(t, v + d) if t in INTS else arith('+', t, v, float(d))
                    want += fmt(t, v if k < 2 else n) + fmt(t, n)
            out.append(Item(body, want, 'incdec %s %s' % (t, kind)))
            # compound assignment
            for op in ['+', '-', '*', '/'] + (['%', '&', '|', '^', '<<', '>>', '>>>'] if t in INTS else []):
                tb = 'int' if op in ('<<', '>>', '>>>') else t
                vb = [0, 1, 2, 7, 8, 31] if tb == 'int' and tb != t or op in ('<<', '>>', '>>>') else vals
                w = widen(t)
                body = arr('a', t, vals) + arr('b', tb, vb) + pre + decl + '''
for (my $i = 0; $i < @$a; $i++) { for (my $j = 0; $j < @$b; $j++) { %s = $a->[$i];
  eval { my $r = (%s %s= $b->[$j]); MCLog->%s($r); } if ($@) { MCLog->s("E"); } MCLog->%s(%s); } }''' % (lv, lv, op, LOG[t], LOG[t], lv)
                want = ''
                for x in vals:
                    for y in vb:
                        try:
                            r = shift(op, w, x, y) if op in ('<<', '>>', '>>>') else arith(op, w, conv(x, t, w), conv(y, tb, w))
                            r = conv(r, w, t)
                            want += fmt(t, r) * 2
                        except Thrown:
                            want += 'sE;' + fmt(t, x)
                out.append(Item(body, want, 'compound %s %s= %s' % (t, op, kind)))
    return out


PREC = [['||'], ['&&'], ['|', '^'], ['&'], ['==', '!='], ['>', '<=', '<=>'], ['<<', '>>', '>>>'], ['+', '-'], ['*', '/', '%']]
LEVEL = {o: i for i, l in enumerate(PREC) for o in l}
NONASSOC = {4, 5}
LOGICAL = {0, 1}


def ev(op, a, b):
    if op in ('==', '!=', '>', '<=', '<=>'): return compare(op, a, b)
    if op in ('<<', '>>', '>>>'): return shift(op, 'int', a, b)
    return arith(op, 'int', a, b)


class Traced:
    """A little evaluator of expressions written as token lists, by precedence climbing, recording the order of the leaf calls."""
    def __init__(self, toks): self.t, self.i, self.log = toks, 0, []

    def primary(self, live):
        t = self.t[self.i]; self.i += 1
        if t in ('-', '~', '!'):
            v = self.primary(live)
            if not live: return 0
            return wrap('int', -v) if t == '-' else ~v if t == '~' else int(not v)
        if t == '(':
            v = self.expr(0, live); self.i += 1
            return v
        if live: self.log.append(t)
        return t

    def expr(self, lo, live):
        v = self.primary(live)
        while self.i < len(self.t) and self.t[self.i] in LEVEL and LEVEL[self.t[self.i]] >= lo:
            op = self.t[self.i]; self.i += 1
            l = LEVEL[op]
            if op == '&&':
                w = self.expr(l + 1, live and bool(v)); v = (w if v else v) if live else 0
                v = int(bool(v))
            elif op == '||':
                w = self.expr(l + 1, live and not v); v = (v if v else w) if live else 0
                v = int(bool(v))
            else:
                w = self.expr(l + 1, live)
                v = ev(op, v, w) if live else 0
        return v


def items_prec(quick):
    """a op1 b op2 c (and with unary operators and parentheses): grouping and evaluation order"""
    arith_ops = [o for l in PREC[2:] for o in l]
    allops = [o for l in PREC for o in l]
    out = []
    group = []

    def flush():
        if group:
            out.append(Item('\n'.join(g[0] for g in group), ''.join(g[1] for g in group), 'precedence: ' + group[0][2]))
            group.clear()
    leafsets = [(7, 2, 3), (-5, 3, 1), (0, 1, 2), (1, 0, 4)] if quick else list(itertools.product((-5, 0, 1, 2, 7), (0, 1, 3), (0, 1, 2)))

    def add(toks):
        boolean = any(o in ('&&', '||', '!') for o in toks)
        src = ' '.join('MCT->v(%d)' % t if isinstance(t, int) else t for t in toks)
        tr = Traced(toks)
        try:
            v = tr.expr(0, True)
            log = ''.join('%d;' % x for x in tr.log)
        except Undefined:
            return
        except Thrown:
            log = ''.join('%d;' % x for x in tr.log) + 'sE;'; v = None
        if boolean:
            code = 'eval { if (%s) { MCLog->s("T"); } else { MCLog->s("F"); } } if ($@) { MCLog->s("E"); }' % src
            want = log + ('' if v is None else 'sT;' if v else 'sF;')
        else:
            code = 'eval { my $r = %s; MCLog->i($r); } if ($@) { MCLog->s("E"); }' % src
            want = log + ('' if v is None else '%d;' % v)
        group.append((code, want, src))
        if len(group) >= 30: flush()

    def legal(o1, o2):
        if LEVEL[o1] == LEVEL[o2] and LEVEL[o1] in NONASSOC: return False
        # the result of a logical operator is only used as a condition here
        if o1 in ('&&', '||') and LEVEL[o2] > 1 or o2 in ('&&', '||') and LEVEL[o1] > 1: return True
        return True
    for o1, o2 in itertools.product(allops, repeat=2):
        if not legal(o1, o2): continue
        for a, b, c in leafsets:
            add([a, o1, b, o2, c])
            if o1 in arith_ops and o2 in arith_ops:
                add(['(', a, o1, b, ')', o2, c])
                add([a, o1, '(', b, o2, c, ')'])
            if (a, b, c) == leafsets[0]:
                for u in ('-', '~'):
                    add([u, a, o1, b, o2, c]); add([a, o1, u, b, o2, c]); add([a, o1, b, o2, u, c])
    ops3 = ['||', '&&', '|', '&', '==', '<=', '<<', '+', '-', '*', '/']
    for o1, o2, o3 in itertools.product(ops3, repeat=3):
        if not (legal(o1, o2) and legal(o2, o3) and legal(o1, o3)): continue
        for s in [(2, 3, 5, 1)] if quick else [(2, 3, 5, 1), (0, 1, 0, 4), (9, 0, 1, 2)]:
            add([s[0], o1, s[1], o2, s[2], o3, s[3]])
    flush()
    return out


def main():
    quick = TIER == 'quick'
    ck = Check('M08')
    sc = ck.make_scratch()
    bin_ = sc.mcrun(asan=False)
    items = items_binary(BOUND) + items_unary(BOUND) + items_assign(BOUND) + items_prec(quick)
    run_items(ck, bin_, items, header=HEAD, uses='use MCLog; use MCT::F;', files=FILES, chunk=60, cc_opt='-O0')
    if not quick:
        run_items(ck, bin_, items, header=HEAD, uses='use MCLog; use MCT::F;', files=FILES, chunk=60, cc_opt='-O3', modes=('precompile',))
    n = sum(it.want.count(';') for it in items)
    ck.count(states=len(items), transitions=n)
    ck.assumptions += ['float-to-integer conversions out of range and shift counts outside the width are undefined in C and are not evaluated']
    ck.finish(bound='every operator on every pair of numeric types over boundary values; 6 kinds of assignable places; all operator pairs and triples', evaluations=n)
