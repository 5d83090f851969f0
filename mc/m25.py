"""Method calls: which method runs for every hierarchy, static type, runtime class and call form, what it is given for every argument list, and which calls the compiler refuses."""
import itertools
from common import *
from progs import Item, run_items
from acc import accept

LV = 'ABCD'
DEF = {'A': 10, 'B': 20, 'C': 30, 'D': 40}


class Hier:
    def __init__(self, n, kinds, near):
        self.n, self.kinds, self.near = n, kinds, near      # kinds[l] in '-', 'd' (defined), 's' (defined, calls SUPER)
    def name(self, l): return 'H%d%s' % (self.n, LV[l])
    def ok(self):
        seen = False
        for k in self.kinds:
            if k == 's' and not seen: return False
            if k != '-': seen = True
        return True
    def find(self, l):
        while l >= 0 and self.kinds[l] == '-': l -= 1
        return l if l >= 0 else None
    def files(self, stmts=''):
        out = {}
        for l, k in enumerate(self.kinds):
            c = LV[l]
            ext = ' extends %s' % self.name(l - 1) if l else ''
            b = ['use MCLog;', 'has f%s : public int;' % c.lower(), 'static method new : %s () { return new %s; }' % (self.name(l), self.name(l))]
            z = ', $z : int = 300' if l >= 2 else ''
            zz = '.",$z"' if l >= 2 else ''
            if k == 'd':
                b.append('%%PRE%%method m : int ($x : int, $y : int = %d%s) { MCLog->s("%s$x,$y"%s); return $x + $y; }' % (DEF[c], z, c, zz))
            if k == 's':
                b.append('%%PRE%%method m : int ($x : int, $y : int = %d%s) { MCLog->s("%s$x,$y"%s); return $self->SUPER::m($x + 1%s) + 1000; }' % (DEF[c], z, c, zz, ', $y + 1' if self.n % 2 else ''))
            # neighbours in the name space
            for nm in self.near[l]:
                b.append('%%PRE%%method %s : int ($x : int, $y : int = 1) { MCLog->s("%s%s$x"); return -1; }' % (nm, nm, c))
            # another method that calls m on itself: always the one of the runtime class
            if l == 0 and k != '-': b.append('%PRE%method via : int () { return $self->m(7); }')
            out[self.name(l) + '.spvm'] = 'class %s%s : public {\n%s\n}\n' % (self.name(l), ext, '\n'.join(b))
        return out
    def run(self, l, x, y=None, z=None):
        """calling m found from level l"""
        l = self.find(l)
        c = LV[l]
        y = DEF[c] if y is None else y
        tr = 's%s%d,%d%s;' % (c, x, y, ',%d' % (300 if z is None else z) if l >= 2 else '')
        if self.kinds[l] == 'd': return tr, x + y
        t, r = self.run(l - 1, x + 1, y + 1 if self.n % 2 else None)
        return tr + t, r + 1000


def hierarchies():
    out = []
    near = [('l', 'n'), ('ma', 'l', 'm_'), ('M', 'n', 'mm'), ('ma', 'm2')]
    for n, k in enumerate(itertools.product('-ds', repeat=4)):
        out.append(Hier(n, k, [near[(i + n) % 4] for i in range(4)]))
    return out


IFS = {'HI.spvm': 'class HI : interface_t { required method m : int ($x : int, $y : int = 7); method ma : int ($x : int, $y : int = 8); }',
       'HJ.spvm': 'class HJ : interface_t { interface HI; required method m : int ($x : int, $y : int = 7); required method l : int ($x : int); method zz : void (); }'}


def dispatch_items(h):
    out = []
    def item(tag, body, want, **kw): out.append(Item(body, want, 'dispatch %s %s' % (''.join(h.kinds), tag), **kw))
    for r in range(4):
        new = h.name(r) + '->new'
        f = h.find(r)
        for t in range(r + 1):
            pre = 'my $t : %s = %s; ' % (h.name(t), new)
            if h.find(t) is not None:
                for args, a in (('5', (5,)), ('5, 6', (5, 6))):
                    tr, v = h.run(r, *a)
                    item('%s as %s (%s)' % (LV[r], LV[t], args), pre + 'MCLog->i($t->m(%s));' % args, tr + '%d;' % v)
                if h.find(t) >= 2:
                    tr, v = h.run(r, 5, 6, 9)
                    item('%s as %s three' % (LV[r], LV[t]), pre + 'MCLog->i($t->m(5, 6, 9));', tr + '%d;' % v)
                for s in range(t + 1):
                    if h.kinds[s] == '-': continue
                    tr, v = h.run(s, 5)
                    item('%s as %s ::%s' % (LV[r], LV[t], LV[s]), pre + 'MCLog->i($t->%s::m(5));' % h.name(s), tr + '%d;' % v)
            cans = ([('m', True)] if h.find(t) is not None else []) + [(x, True) for x in ('ma', 'l') if any(x in h.near[k] for k in range(t + 1))]
            item('%s as %s can' % (LV[r], LV[t]), pre + ''.join('MCLog->i($t can %s);' % x for x, _ in cans) + 'MCLog->i(1);', '1;' * len(cans) + '1;')
        if f is not None:
            has = lambda x: any(x in h.near[k] for k in range(r + 1))
            item('%s as HI can' % LV[r], 'my $o : object = %s; my $t = (HI)$o; MCLog->i($t can m); MCLog->i($t can ma); my $v : HI = undef; $t = (HI)%s; MCLog->i($t can ma);' % (new, new), '1;%d;%d;' % (has('ma'), has('ma')))
            if has('l'): item('%s as HJ can' % LV[r], 'my $o : object = %s; my $t = (HJ)$o; MCLog->i($t can m); MCLog->i($t can l); MCLog->i($t can zz);' % new, '1;1;0;')
        if f is not None:
            for args, a in (('5', (5,)), ('5, 6', (5, 6))):
                tr, v = h.run(r, *a)
                item('%s as HI (%s)' % (LV[r], args), 'my $o : object = %s; my $t = (HI)$o; MCLog->i($t->m(%s));' % (new, args), tr + '%d;' % v)
                if any('l' in h.near[k] for k in range(r + 1)):
                    item('%s as HJ (%s)' % (LV[r], args), 'my $o : object = %s; my $t = (HI)(HJ)$o; MCLog->i($t->m(%s));' % (new, args), tr + '%d;' % v)
            # an interface method that is not required
            mas = [k for k in range(r + 1) if 'ma' in h.near[k]]
            body = 'my $o : object = %s; my $t = (HI)$o; $@ = undef; eval { MCLog->i($t->ma(4)); } MCLog->i(!!$@);' % new
            item('%s as HI ma' % LV[r], body, ('sma%s4;-1;0;' % LV[mas[-1]] if mas else '1;'))
        if h.kinds[0] != '-':
            tr, v = h.run(r, 7)
            item('%s via' % LV[r], 'MCLog->i(%s->via);' % new, tr + '%d;' % v)
    # one call site, receivers of changing class
    for t in range(4):
        if h.find(t) is None: continue
        w = ''; order = [r for r in (t, 3, t, 2, 3, 1, t) if r >= t]
        for i, r in enumerate(order):
            tr, v = h.run(r, i); w += tr + '%d;' % v
        item('mixed as %s' % LV[t], 'my $a = [%s]; for (my $i = 0; $i < @$a; $i++) { MCLog->i($a->[$i]->m($i)); }' % ', '.join('(%s)%s->new' % (h.name(t), h.name(r)) for r in order), w)
        item('undef as %s' % LV[t], 'my $t : %s = undef; $@ = undef; eval { $t->m(1); MCLog->s("bad"); } MCLog->i(!!$@);' % h.name(t), '1;')
    order = [r for r in (3, 0, 2, 1, 3, 0) if h.find(r) is not None]
    if order:
        w = ''
        for i, r in enumerate(order):
            tr, v = h.run(r, i); w += tr + '%d;' % v
        item('mixed as HI', 'my $a = [%s]; for (my $i = 0; $i < @$a; $i++) { MCLog->i($a->[$i]->m($i)); }' % ', '.join('(HI)%s->new' % h.name(r) for r in order), w)
    item('undef as HI', 'my $t : HI = undef; $@ = undef; eval { $t->m(1); MCLog->s("bad"); } MCLog->i(!!$@);', '1;')
    return out


# ---- arguments
#       type    declaration in the callee, value k, log lines of the callee variable, trace of value k, change in the callee
class Ty:
    def __init__(self, name, val, log, tr, change, opt=None, ref=False):
        self.name, self.val, self.log, self.tr, self.change, self.opt, self.ref = name, val, log, tr, change, opt, ref


def ints(name, big, lim=1):
    return Ty(name, lambda k: '(%s)%s' % (name, big(k)), lambda v: 'MCLog->l(%s);' % v, lambda k: '%d;' % int(big(k).rstrip('L')), lambda v: '%s = (%s)-3;' % (v, name), opt=lambda k: (str(k + 3) + ('L' if name == 'long' else ''), '%d;' % (k + 3)))


T = [ints('byte', lambda k: str(-100 - k)), ints('short', lambda k: str(-30000 - k)), ints('int', lambda k: str(2000000000 + k)), ints('long', lambda k: str(-9000000000000000000 + k) + 'L'),
     Ty('float', lambda k: '%d.5f' % (k + 1), lambda v: 'MCLog->i((int)(%s * 2));' % v, lambda k: '%d;' % (2 * k + 3), lambda v: '%s = -1f;' % v, opt=lambda k: ('%d.5f' % (k + 5), '%d;' % (2 * k + 11))),
     Ty('double', lambda k: '%d.25' % (k + 1000000000), lambda v: 'MCLog->l((long)(%s * 4));' % v, lambda k: '%d;' % (4 * k + 4000000001), lambda v: '%s = -1.0;' % v, opt=lambda k: ('%d.25' % (k + 5), '%d;' % (4 * k + 21))),
     Ty('string', lambda k: '"s%d" . ""' % k, lambda v: 'MCLog->s(%s);' % v, lambda k: 'ss%d;' % k, lambda v: '%s = "changed";' % v, opt=lambda k: ('undef', 'U;')),
     Ty('Int', lambda k: 'Int->new(%d)' % (k + 40), lambda v: 'MCLog->i(%s ? 0 : -1); if (%s) { MCLog->i(%s->value); }' % (v, v, v), lambda k: '', lambda v: '%s = undef;' % v, opt=lambda k: ('undef', '-1;')),
     Ty('int[]', lambda k: '[%d, %d]' % (k, k + 1), lambda v: 'MCLog->i(%s->[1]);' % v, lambda k: '%d;' % (k + 1), lambda v: '%s = new int[0];' % v),
     Ty('object', lambda k: '(object)Int->new(%d)' % (k + 60), lambda v: 'MCLog->i(((Int)%s)->value);' % v, lambda k: '%d;' % (k + 60), lambda v: '%s = undef;' % v),
     Ty('P_2i', lambda k: None, lambda v: 'MCLog->i(%s->{x}); MCLog->i(%s->{y});' % (v, v), lambda k: '%d;%d;' % (k + 70, k + 80), lambda v: '%s->{x} = -1; %s->{y} = -2;' % (v, v)),
     Ty('P_3b', lambda k: None, lambda v: 'MCLog->i(%s->{x}); MCLog->i(%s->{y}); MCLog->i(%s->{z});' % (v, v, v), lambda k: '%d;%d;%d;' % (k - 70, k - 80, k - 90), lambda v: '%s->{x} = 1; %s->{y} = 2; %s->{z} = 3;' % (v, v, v)),
     Ty('int*', lambda k: None, lambda v: 'MCLog->i($%s);' % v, lambda k: '%d;' % (k + 90), lambda v: '$%s = $%s + 1000;' % (v, v), ref=True),
     Ty('P_2i*', lambda k: None, lambda v: 'MCLog->i(%s->{x}); MCLog->i(%s->{y});' % (v, v), lambda k: '%d;%d;' % (k + 20, k + 21), lambda v: '%s->{y} = -5; %s->{x} = -6;' % (v, v), ref=True)]
T[7] = Ty('Int', lambda k: 'Int->new(%d)' % (k + 40), lambda v: 'if (%s) { MCLog->i(%s->value); } else { MCLog->i(-1); }' % (v, v), lambda k: '%d;' % (k + 40), lambda v: '%s = undef;' % v, opt=lambda k: ('undef', '-1;'))
BY = {t.name: t for t in T}
PFILES = {'P_2i.spvm': 'class P_2i : mulnum_t { has x : int; has y : int; }', 'P_3b.spvm': 'class P_3b : mulnum_t { has x : byte; has y : byte; has z : byte; }'}


def setup(t, k):
    """statements that declare $a<k>, the argument expression, the log of the caller's variable after the call"""
    v = '$a%d' % k
    if t.name == 'P_2i': return 'my %s : P_2i; %s->{x} = %d; %s->{y} = %d; ' % (v, v, k + 70, v, k + 80), v
    if t.name == 'P_3b': return 'my %s : P_3b; %s->{x} = (byte)%d; %s->{y} = (byte)%d; %s->{z} = (byte)%d; ' % (v, v, k - 70, v, k - 80, v, k - 90), v
    if t.name == 'int*': return 'my %s = %d; ' % (v, k + 90), '\\' + v
    if t.name == 'P_2i*': return 'my %s : P_2i; %s->{x} = %d; %s->{y} = %d; ' % (v, v, k + 20, v, k + 21), '\\' + v
    return 'my %s : %s = %s; ' % (v, t.name, t.val(k)), v


def width(t): return {'P_2i': 2, 'P_3b': 3}.get(t.name, 1)


class Sig:
    """a callee: required types, optional types"""
    def __init__(self, n, inst, req, opt):
        self.n, self.inst, self.req, self.opt = n, inst, req, opt
        rt = next((t for t in list(reversed(req)) + opt if not t.ref), None)
        self.rt = rt
        self.all = req + opt
    def decl(self):
        ps = ['$p%d : %s' % (k, t.name) for k, t in enumerate(self.req)] + ['$p%d : %s = %s' % (k + len(self.req), t.name, t.opt(k + len(self.req))[0]) for k, t in enumerate(self.opt)]
        ri = self.all.index(self.rt) if self.rt else None
        # locals of every kind in the callee must not overlap the arguments
        b = 'my $li = 11; my $lb = (byte)12; my $ld = 13.0; my $ls = "loc"; my $ll = 14L; my $lp : P_2i; $lp->{x} = 15; my $o = Int->new(16); '
        b += ' '.join(t.log('$p%d' % k) for k, t in enumerate(self.all))
        b += ' MCLog->i(args_width);'
        if ri is not None:
            b += ' my $ret : %s = $p%d;' % (self.rt.name, ri)
        for k, t in enumerate(self.all): b += ' ' + t.change('$p%d' % k)
        b += ' MCLog->i($li + $lb + (int)$ld + (int)$ll + $lp->{x} + $o->value);'
        if ri is not None: b += ' return $ret;'
        return '%%PRE%%%smethod m%d : %s (%s) { %s }' % ('' if self.inst else 'static ', self.n, self.rt.name if self.rt else 'void', ', '.join(ps), b)
    def item(self, cls, given):
        """a call that gives `given` of the optional arguments"""
        body = 'my $self = new %s; ' % cls if self.inst else ''
        args = []; want = ''
        n = len(self.req) + given
        for k, t in enumerate(self.all[:n]):
            s, e = setup(t, k); body += s; args.append(e)
        for k, t in enumerate(self.all):
            want += t.tr(k) if k < n else t.opt(k)[1]
        want += '%d;81;' % (sum(width(t) for t in self.all[:n]) + self.inst)
        call = '%s->m%d(%s)' % ('$self' if self.inst else cls, self.n, ', '.join(args))
        if self.rt:
            ri = self.all.index(self.rt)
            body += 'my $r : %s = %s; ' % (self.rt.name, call) + self.rt.log('$r')
            want += self.rt.tr(ri) if ri < n else self.rt.opt(ri)[1]
        else: body += call + ';'
        for k, t in enumerate(self.all[:n]):
            v = '$a%d' % k
            if t.name == 'int*': body += ' MCLog->i(%s);' % v; want += '%d;' % (k + 1090)
            elif t.name == 'P_2i*': body += ' MCLog->i(%s->{x}); MCLog->i(%s->{y});' % (v, v); want += '-6;-5;'
            else: body += ' ' + t.log(v); want += t.tr(k)
        return Item(body, want, 'call %s(%s%s) given %d' % ('instance ' if self.inst else '', ', '.join(t.name for t in self.req), ' | ' + ', '.join(t.name for t in self.opt) if self.opt else '', given))


def sigs(quick):
    out = []
    opts = [t for t in T if t.opt]
    def add(req, opt):
        for inst in (0, 1): out.append(Sig(len(out), inst, list(req), list(opt)))
    for t in T:
        add([t], [])
        for o in opts: add([t], [o])
    for o in opts:
        add([], [o])
        for q in opts: add([], [o, q])
    for a, b in itertools.product(T, repeat=2):
        add([a, b], [])
        add([a, b], [opts[(T.index(a) + 3 * T.index(b)) % len(opts)], opts[(T.index(a) * 5 + T.index(b)) % len(opts)]])
    third = [BY[x] for x in ('byte', 'long', 'string', 'P_3b', 'int*', 'double')] if quick else T
    for a, b, c in itertools.product(third, repeat=3): add([a, b, c], [])
    return out


def arg_items(quick):
    """(class name, class source, items) groups"""
    out = []
    s = sigs(quick)
    per = 120
    for g in range(0, len(s), per):
        cls = 'MCA%d' % (g // per)
        part = s[g:g + per]
        src = 'class %s : public {\nuse MCLog; use Int; use P_2i; use P_3b;\n%s\n}\n' % (cls, '\n'.join(x.decl() for x in part))
        items = [x.item(cls, n) for x in part for n in range(len(x.opt) + 1)]
        out.append((cls, src, items))
    return out


# ---- many arguments, nested calls, recursion
def long_items():
    decl, items = [], []
    for n in list(range(0, 40)) + [63, 64, 65, 100, 126, 127, 128, 129, 200, 253, 254, 255]:
        for inst in (0, 1):
            if n + inst > 255: continue
            d = 'i' if inst else 's'
            decl.append('%%PRE%%%smethod v%s%d : long (%s) { my $r = 1L; %s return $r; }' % ('' if inst else 'static ', d, n, ', '.join('$p%d : int' % k for k in range(n)), ' '.join('$r = $r * 3 + $p%d;' % k for k in range(n))))
            r = 1
            for k in range(n): r = r * 3 + (k * 7 + 1)
            r &= (1 << 64) - 1
            if r >> 63: r -= 1 << 64
            items.append(Item('my $o = new MCB; MCLog->l(%s->v%s%d(%s));' % ('$o' if inst else 'MCB', d, n, ', '.join(str(k * 7 + 1) for k in range(n))), '%d;' % r, 'arguments %s%d' % (d, n)))
    # optional arguments: every number required and given up to 6
    for req in range(0, 5):
        for opt in range(0, 5):
            for inst in (0, 1):
                nm = 'o%d_%d_%d' % (req, opt, inst)
                decl.append('%%PRE%%%smethod %s : void (%s) { MCLog->s("%s:" . args_width); }' % ('' if inst else 'static ', nm, ', '.join(['$p%d : %s' % (k, 'int' if k % 2 else 'P_2i') for k in range(req)] + ['$q%d : %s = %d' % (k, 'long' if k % 2 else 'byte', k + 1) for k in range(opt)]),
                                                                                         ','.join(['$p%d' % k if k % 2 else '$p%d->{x}' % k for k in range(req)] + ['$q%d' % k for k in range(opt)]).replace('->{x}', '->{x}')))
                for giv in range(opt + 1):
                    args = ['%d' % (k + 20) if k % 2 else '$z' for k in range(req)] + ['%d%s' % (50 + k, 'L' if k % 2 else '') if True else '' for k in range(giv)]
                    args = [('(byte)' + a if i >= req and (i - req) % 2 == 0 else a) for i, a in enumerate(args)]
                    w = ','.join([str(k + 20) if k % 2 else '33' for k in range(req)] + [str(50 + k) for k in range(giv)] + [str(k + 1) for k in range(giv, opt)])
                    wid = inst + sum(1 if k % 2 else 2 for k in range(req)) + giv
                    items.append(Item('my $z : P_2i; $z->{x} = 33; my $o = new MCB; %s->%s(%s);' % ('$o' if inst else 'MCB', nm, ', '.join(args)), 's%s:%d;' % (w, wid), 'optional %d+%d given %d inst %d' % (req, opt, giv, inst)))
    # nested calls: every binary tree with up to 5 leaves, order of evaluation logged
    decl.append('%PRE%static method f : int ($a : int, $b : int) { MCLog->s("f$a,$b"); return $a * 3 + $b; }')
    decl.append('%PRE%method g : int ($a : int, $b : int) { MCLog->s("g$a,$b"); return $a * 5 - $b; }')
    decl.append('%PRE%static method leaf : int ($a : int) { MCLog->s("l$a"); return $a; }')
    def trees(n):
        if n == 1: return ['.']
        return [(a, b) for i in range(1, n) for a in trees(i) for b in trees(n - i)]
    def gen(t, fs, cnt):
        if t == '.':
            k = cnt[0]; cnt[0] += 1
            return ('MCB->leaf(%d)' % k, 'sl%d;' % k, k)
        f = fs.pop(0)
        x = gen(t[0], fs, cnt); y = gen(t[1], fs, cnt)
        v = x[2] * 3 + y[2] if f == 'f' else x[2] * 5 - y[2]
        return ('%s->%s(%s, %s)' % ('MCB' if f == 'f' else '$o', f, x[0], y[0]), x[1] + y[1] + 's%s%d,%d;' % (f, x[2], y[2]), v)
    for n in range(2, 6):
        for t in trees(n):
            for fs in itertools.product('fg', repeat=n - 1):
                e, tr, v = gen(t, list(fs), [1])
                items.append(Item('my $o = new MCB; MCLog->i(%s);' % e, tr + '%d;' % v, 'nested %s %s' % (str(t).replace("'", '').replace(' ', ''), ''.join(fs))))
    # an argument that throws: the others are released, the callee is not entered
    decl.append('%PRE%static method ob : Int ($k : int) { MCLog->s("o$k"); return Int->new($k); }')
    decl.append('%PRE%static method ex : Int () { die "x"; }')
    for n in range(1, 5):
        decl.append('%%PRE%%static method t%d : Int (%s) { MCLog->s("t"); return $p0; }' % (n, ', '.join('$p%d : Int' % k for k in range(n))))
        for p in range(n):
            args = ['MCB->ob(%d)' % k if k != p else 'MCB->ex' for k in range(n)]
            items.append(Item('$@ = undef; eval { my $o = MCB->t%d(%s); } MCLog->i(!!$@); MCLog->i(MCB->t%d(%s)->value); ' % (n, ', '.join(args), n, ', '.join('MCB->ob(%d)' % k for k in range(n))),
                              ''.join('so%d;' % k for k in range(p)) + '1;' + ''.join('so%d;' % k for k in range(n)) + 'st;0;', 'throwing argument %d of %d' % (p, n)))
    # recursion: the locals of each activation are its own; the depth limit is exact and restored by exceptions
    decl.append('%PRE%static method rec : long ($n : int, $s : string, $d : double) { my $k = $n * 2; my $t = $s . "x"; if ($n == 0) { return length $t; } my $r = MCB->rec($n - 1, $t, $d + 1); return $r * 1 + $k - $n * 2 + (long)$d - (long)$d + (length $t) - (length $s) - 1; }')
    decl.append('%PRE%method irec : int ($n : int) { if ($n == 0) { return 0; } return $self->irec($n - 1) + 1; }')
    for n in (0, 1, 2, 10, 500, 998):
        items.append(Item('MCLog->l(MCB->rec(%d, "", 0.5)); my $o = new MCB; MCLog->i($o->irec(%d));' % (n, n), '%d;%d;' % (n + 1, n), 'recursion %d' % n))
    items.append(Item('my $o = new MCB; for (my $i = 0; $i < 3; $i++) { $@ = undef; eval { MCLog->i($o->irec(999)); } MCLog->i(!!$@); $@ = undef; eval { MCLog->i($o->irec(998)); } MCLog->i(!!$@); }', '1;998;0;' * 3, 'recursion limit'))
    src = 'class MCB : public {\nuse MCLog; use Int; use P_2i;\n%s\n}\n' % '\n'.join(decl)
    return [('MCB', src, items)]


# ---- names
def name_items():
    files = {'NA.spvm': 'class NA : public { use MCLog; use NF; alias NB as Z; use NB; enum { E0, E1 = 5, E2, EN = -7, EX = 2147483647 } static method m : int () { return 1; } static method go : int () { return &m + Z->m; } '
                        'static method anon : NF () { return method : int ($x : int) { return &m * 100 + Z->m * 10 + $x; }; } method i : int () { return 3; } static method im : int () { my $o = new NA; return $o->i; } }',
             'NB.spvm': 'class NB : public { enum { E0 = 40, E1 } static method m : int () { return 2; } static method go : int () { return &m; } }',
             'NF.spvm': 'class NF : interface_t { required method : int ($x : int); }',
             'NA/NA.spvm': 'class NA::NA : public { static method m : int () { return 7; } static method go : int () { return &m; } }'}
    it = []
    def a(body, want, ident): it.append(Item(body, want, 'names ' + ident))
    a('MCLog->i(NA->go); MCLog->i(NB->go); MCLog->i(NA::NA->go);', '3;2;7;', 'current class')
    a('MCLog->i(NA->anon->(4));', '124;', 'anonymous method')
    a('MCLog->i(NA->E0); MCLog->i(NA->E1); MCLog->i(NA->E2); MCLog->i(NA->EN); MCLog->i(NA->EX); MCLog->i(NB->E0); MCLog->i(NB->E1);', '0;5;6;-7;2147483647;40;41;', 'enumeration')
    a('MCLog->i(Y->m); MCLog->i(Y->go); MCLog->i(W->m); MCLog->i(NA->im);', '2;2;7;3;', 'alias')
    a('switch (5) { case NA->E0: { MCLog->i(0); break; } case NA->E1: { MCLog->i(1); break; } default: { MCLog->i(9); } }', '1;', 'enumeration in case')
    return files, it


def reject():
    """calls the compiler must take or refuse"""
    out = []
    hs = [h for h in hierarchies()]
    def c(ident, body, ok): out.append((ident, 'class : public { %s }' % body if False else 'class { %s }' % body, ok))
    for h in hs:
        if not h.ok(): continue
        for t in range(4):
            f = h.find(t)
            uses = 'use %s; ' % h.name(t)
            m = uses + 'static method q : void ($t : %s) { ' % h.name(t)
            mx = (3 if f is not None and f >= 2 else 2)
            for n in range(0, 5):
                c('call %s as %s with %d' % (''.join(h.kinds), LV[t], n), m + '$t->m(%s); }' % ', '.join('1' for _ in range(n)), f is not None and 1 <= n <= mx)
            c('call %s as %s undefined name' % (''.join(h.kinds), LV[t]), m + '$t->nosuch(1); }', False)
            c('call %s as %s class method form' % (''.join(h.kinds), LV[t]), uses + 'static method q : void () { %s->m(1); }' % h.name(t), False)
            c('call %s as %s class method on an object' % (''.join(h.kinds), LV[t]), m + '$t->new; }', False)
            c('call %s as %s type of argument' % (''.join(h.kinds), LV[t]), m + '$t->m("a", new int[1]); }', False)
            for s in range(4):
                if h.kinds[s] != '-':
                    c('call %s as %s ::%s' % (''.join(h.kinds), LV[t], LV[s]), 'use %s; ' % h.name(3) + m + '$t->%s::m(1); }' % h.name(s), s <= t)
    for n in range(0, 8):
        for req in range(0, 4):
            for opt in range(0, 4):
                for inst in (0, 1):
                    d = '%smethod c : void (%s) { }' % ('' if inst else 'static ', ', '.join(['$r%d : int' % k for k in range(req)] + ['$o%d : int = 0' % k for k in range(opt)]))
                    a = ', '.join('1' for _ in range(n))
                    ok = req <= n <= req + opt
                    if inst: c('count %d+%d instance %d' % (req, opt, n), d + ' method q : void () { $self->c(%s); }' % a, ok)
                    else: c('count %d+%d static %d' % (req, opt, n), d + ' static method q : void () { &c(%s); }' % a, ok)
    for n in (254, 255, 256, 257, 300):
        c('args %d' % n, 'static method c : void (%s) { }' % ', '.join('$p%d : int' % k for k in range(n)), n <= 255)
    for order in itertools.product('ro', repeat=4):
        c('order ' + ''.join(order), 'static method c : void (%s) { }' % ', '.join('$p%d : int%s' % (k, ' = 1' if x == 'o' else '') for k, x in enumerate(order)), 'or' not in ''.join(order))
    return out


def main():
    ck = Check('M25')
    quick = TIER == 'quick'
    sc = ck.make_scratch()
    bin_ = sc.mcrun()
    hs = [h for h in hierarchies() if h.ok()]
    jobs = []
    size = 8
    for g in range(0, len(hs), size):
        part = hs[g:g + size]
        files = dict(IFS)
        for h in part: files.update(h.files())
        items = [i for h in part for i in dispatch_items(h)]
        uses = 'use MCLog; use HI; use HJ; ' + ' '.join('use %s;' % h.name(l) for h in part for l in range(4))
        jobs.append(('MCD%d' % (g // size), items, files, uses))
    for cls, src, items in arg_items(quick) + long_items():
        f = dict(PFILES); f[cls + '.spvm'] = src
        jobs.append(('MCE' + cls[3:] if cls != 'MCB' else 'MCEB', items, f, 'use MCLog; use Int; use P_2i; use P_3b; use %s;' % cls))
    nf, ni = name_items()
    jobs.append(('MCN', ni, nf, 'use MCLog; use NA; use NB; use NA::NA; alias NB as Y; alias NA::NA as W;'))
    total = 0
    def one(job):
        (cls, items, files, uses), mode = job
        if mode == 'interpreted': run_items(ck, bin_, items, modes=('interpreted',), files=files, chunk=100000, cls=cls, uses=uses)
        else: run_items(ck, bin_, items, modes=('precompile',), files=files, chunk=100000, cls=cls + mode[0], only={'all': '*', 'caller': cls + mode[0], 'ncaller': '!' + cls + mode[0]}[mode], uses=uses)
    modes = ['interpreted', 'all', 'caller', 'ncaller']
    work = [(j, m) for j in jobs for m in modes]
    with ThreadPoolExecutor(NCPU) as ex: list(ex.map(one, work))
    total = sum(len(j[1]) for j in jobs)
    ck.count(states=total * len(modes))
    lang = sc.path('m25src', 'x')[:-2]; os.makedirs(lang, exist_ok=True)
    for n, t in IFS.items(): open(os.path.join(lang, n), 'w').write(t)
    bad = []
    for h in hierarchies():
        for n, t in h.files().items(): open(os.path.join(lang, n), 'w').write(t.replace('%PRE%', ''))
        if not h.ok():
            l = next(i for i in range(4) if h.kinds[i] == 's' and all(k == '-' for k in h.kinds[:i]))
            bad.append(('super of nothing %s' % ''.join(h.kinds), 'class { use %s; }' % h.name(3), False))
    cases = reject() + bad
    accept(ck, sc, [lang], cases)
    ck.finish(exhaustive=True, bound='%d hierarchies of 4 classes (method absent, defined, defined with a SUPER call), every static type, runtime class and call form; argument lists: all pairs and triples of %d of 14 types with 0 to 2 optional arguments, class and instance, caller and callee interpreted or precompiled in the 4 combinations; %d programs in 4 modes, %d classes for acceptance' % (len(hs), 6 if quick else 14, total, len(cases)))
