"""The compiler is total: every short source text compiles or is rejected with a message; it never crashes, hangs, or touches memory it does not own."""
import itertools, threading
from common import *
from m10 import anon_bin

FILES = {
    'TA.spvm': 'class TA { has a : public int; has t : public TA; our $G : public int; static method new : TA () { return new TA; } method im : int ($n : int, $o : int = 1) { return $n; } static method sm : string () { return "s"; } method DESTROY : void () { } enum { EA, EB = 5 } }',
    'TB.spvm': 'class TB extends TA { has b : public object; static method new : TB () { return new TB; } }',
    'TI.spvm': 'class TI : interface_t { required method im : int ($n : int, $o : int = 1); }',
    'TM.spvm': 'class TM : pointer { static method new : TM () { return new TM; } }',
    'T_2i.spvm': 'class T_2i : mulnum_t { has x : int; has y : int; }',
}
USES = 'use TA; use TB; use TI; use T_2i; use Int; use Point;'
VARS = {'i': 'int', 'l': 'long', 'b': 'byte', 'h': 'short', 'g': 'float', 'd': 'double', 's': 'string', 'u': 'mutable string', 'o': 'TA', 'q': 'TB', 'v': 'TI', 'x': 'object', 'n': 'Int',
        'ai': 'int[]', 'ab': 'byte[]', 'as': 'string[]', 'ao': 'TA[]', 'ax': 'object[]', 'aa': 'int[][]', 'am': 'T_2i[]', 'p': 'T_2i', 'r': 'int*', 'rp': 'T_2i*'}
NAMES = ['$' + v for v in VARS]
PRE = 'class { %s has f : int; has k : TA; has m : method : int (); our $C : int; our $D : string; static method go : int ($n : int, $o : int = 1) { return 1; } method im : int () { return 2; } ' % USES
PRE = PRE.replace('has m : method : int (); ', '')
ARGS = ', '.join('$%s : %s' % kv for kv in VARS.items())
def stmt(t, inst=False): return PRE + '%smethod t : int (%s) { %s return 0; } }' % ('' if inst else 'static ', ARGS, t)

TOK = ['$i', '$d', '$s', '$o', '$x', '$ai', '$ax', '$p', '$r', '$@', '$C', '$zz', '1', '1L', '0.5', '"s"', "'c'", '"$i"', 'undef', 'new', 'TA', 'int', 'string', 'object', 'my', 'return', 'if', 'else', 'elsif', 'unless', 'while', 'for',
       '{', '}', '(', ')', '[', ']', ';', ',', '->', '=', '+', '-', '*', '/', '%', '++', '--', '!', '~', '.', '.=', '+=', '<<', '>>>', '&', '|', '^', '==', '<', '<=>', 'isa', 'eq', 'cmp', '&&', '||', '@', '@$ai', '\\', '\\$i', '$$r', '&go', '&im', 'go', 'im', 'f', ':', '::', '=>', '?',
       'die', 'warn', 'print', 'say', 'eval', 'last', 'next', 'break', 'switch', 'case', 'default', 'method', 'static', 'copy', 'dump', 'length', 'scalar', 'type_name', 'compile_type_name', 'weaken', 'isweak', 'can', 'new_string_len', 'make_read_only', 'is_read_only', '__PACKAGE__', '__LINE__',
       'args_width', 'basic_type_id', 'true', 'false', 'eval_error_id', 'is_type', 'is_compile_type', 'is_error', 'isa_error', 'of', 'div_uint', 'class', 'INIT', 'require', 'mutable', 'ref', 'Fn', 'void', '#', '$', '%s', '{f}', '[0]', '()', '->{a}', '->[0]', '->im']
TOK = [t for t in TOK if t != '%s']
SMALL = ['$i', '$s', '$o', '$x', '$ai', '$p', '$r', '1', '"s"', 'undef', 'new', 'TA', 'int', 'my', 'return', 'if', 'else', 'for', '{', '}', '(', ')', '[', ']', ';', ',', '->', '=', '-', '++', '!', '.', '.=', '@', '\\', '&go', ':', '=>', 'die', 'eval', 'last', 'switch', 'case', 'static', 'method', 'isa', 'copy', 'length', 'can', 'weaken']
CTOK = ['class', 'TA', 'extends', ':', 'pointer', 'public', 'static', 'method', 'm', 'new', 'void', 'int', 'string', '(', ')', '{', '}', ';', '$a', '=', '1', '"s"', 'undef', ',', 'has', 'our', '$A', 'enum', 'E', 'use', 'as', 'alias', 'interface', 'TI', 'allow', 'version', 'INIT', 'rw', 'ro', 'native', 'precompile', 'required', 'mulnum_t', 'interface_t', '[]', '*', 'of', 'object', '__END__', 'protected', 'return', 'DESTROY', 'mutable', 'my']
UNARY = ['+', '-', '!', '~', '++', '--', '@', '\\', '&', 'copy', 'dump', 'length', 'scalar', 'scalar @', '@', 'type_name', 'compile_type_name', 'is_read_only', 'make_read_only', 'new_string_len', 'die', 'warn', 'print', 'say', 'return', 'new', 'is_error', 'undef', 'weaken', 'isweak', '(int)', '(string)', '(object)', '(TA)', '(TI)', '(int[])', '(TA[])', '(T_2i)', '(int*)', '(mutable string)', '(double)', '(byte)', '(byte[])', 'eval_error_id', 'last', 'case', '$', '-', 'can', 'args_width']
BIN = ['+', '-', '*', '/', '%', 'div_uint', 'mod_uint', 'div_ulong', 'mod_ulong', '<<', '>>', '>>>', '&', '|', '^', '==', '!=', '<', '<=', '>', '>=', '<=>', 'eq', 'ne', 'lt', 'le', 'gt', 'ge', 'cmp', '.', '&&', '||', 'isa', '=', '+=', '-=', '*=', '/=', '%=', '<<=', '>>=', '>>>=', '&=', '|=', '^=', '.=', '->', '=>', ',']


def typed():
    "operators applied to operands of every type, in statement, initialiser, condition, argument and return position"
    out = []
    ends = NAMES + ['1', '1L', '0.5', '1.5f', '"s"', "'c'", 'undef', 'TA->new', 'TA->EA', '$C', '$D', '$self', '$self->{f}', '$self->{k}', '$o->{a}', '$ai->[0]', '$p->{x}', '$rp->{x}', '$am->[0]->{x}', '$am->[0]', '$s->[0]', '$u->[0]', 'new int[2]', '[1,2]', '["a"]', '{a => 1}', '$TA::G', '$@', '$$r', 'method : int () { return 1; }', '($i + 1)', '&go(1)', '&im', 'true', 'new TA', '__PACKAGE__', '$ao->[0]->{t}', '(string)$x', '@$ai', '"a$i"']
    ctxs = ['%s;', 'my $z = %s;', 'if (%s) { }', '&go(%s);', 'my $z : object = %s;', 'return %s;', '$x = (%s);', 'while (%s) { last; }', '{ eval { %s; } }', 'my $z : string = %s;', 'for (my $k = 0; %s; $k++) { last; }']
    for u in UNARY:
        for e in ends:
            for c in ctxs: out.append(stmt(c % ('%s %s' % (u, e)), True))
    for e in ends:
        for c in ctxs: out.append(stmt(c % e, True))
        for post in ('++', '--', '->[0]', '->{a}', '->{f}', '->im(1)', '->im', '->(1)', '->[0]->[0]', '->{k}->{a}', '->[0] = 1', '->{a} = 1', '->[0] = undef', '->[0]++', '->[0] .= "x"', '->{a} += 1', ' isa TA', ' isa int[]', ' isa TI', ' is_type TA', ' isa_error Error', ' is_compile_type int', ' can im', ' can none', '->sm', '->EA', '->[$i]', '->[$l]', '->[$s]', '->{zz}', '->zz', ' = undef', '[0]', '{f}', '->[0] = $o', '->[0] = $i', '->TA::im(1)', '->SUPER::im(1)', '->[1.5]', '->[-1]'):
            for c in ctxs[:4]: out.append(stmt(c % (e + post), True))
        for c in ('for my $z (@%s) { }', 'switch (%s) { case 1: { } default: { } }', 'switch ($i) { case %s: { } }', 'my $z : int[] = [%s, 1];', 'my $z = [%s, %s];', 'my $z = {a => %s};', 'new int[%s];', 'new TA[%s];', 'new_string_len %s;', 'die %s;', 'die Error %s;', 'die 5 %s;', 'die %s, "m";', 'my $z = \\%s;', 'weaken %s;', 'weaken %s->{t};', 'isweak %s->{t};', 'unweaken %s->{a};', 'warn %s;', 'print %s;', 'new TA(%s);', 'TA->new(%s);', '$o->im(%s);', '$o->im(1, %s);', '$o->im(1, 2, %s);', 'my $z = "a${i}" . %s;', 'if (%s) { } elsif (%s) { } else { }', 'unless (%s) { }', 'my $z : TA[] = [%s];', 'my $z : object[] = [(object)%s];', 'my ($z, $y) = %s;', 'case %s:', 'return', '%s, %s;', '(%s);', '((%s));', '[%s];', '{%s};', '!%s && %s || %s;', 'copy copy %s;', '$i = $l = %s;', 'make_read_only %s;', 'my $z = [[%s],[%s]];', 'my $z = [%s, 1L, 0.5];', 'my $z = method : int ($n : int) { return %s; };', 'my $z = [$i : int] method : int () { return %s; };'):
            out.append(stmt(c.replace('%s', e), True))
    return out


def pairs(quick):
    out = []
    ops = BIN
    names = (NAMES if not quick else ['$' + v for v in 'ildbsuoxvn'] + ['$ai', '$as', '$ao', '$ax', '$aa', '$am', '$p', '$r', '$rp']) + ['1', '0.5', '"s"', 'undef', '$o->{a}', '$ai->[0]', '$p->{x}', '$C', '$self', '$ao->[0]', '$am->[0]'] + ([] if quick else ['$u->[0]', '300', '"$i"'])
    for op in ops:
        for a in names:
            for b in names:
                out.append(stmt('my $z = %s %s %s;' % (a, op, b), True))
                if not op.endswith('=') and quick: continue
                if not quick: out.append(stmt('if (%s %s %s) { }' % (a, op, b), True))
                out.append(stmt('%s %s %s;' % (a, op, b), True))
    return out


LV = ['$i', '$l', '$b', '$g', '$d', '$s', '$u', '$o', '$x', '$n', '$ai', '$as', '$ao', '$ax', '$p', '$$r', '$r', '$@', '$C', '$D', '$TA::G', '$self->{f}', '$self->{k}', '$o->{a}', '$o->{t}', '$o->{t}->{t}', '$q->{b}', '$ai->[0]', '$ab->[0]', '$as->[0]', '$ao->[0]',
      '$ax->[0]', '$aa->[0]', '$aa->[0]->[0]', '$am->[0]', '$am->[0]->{x}', '$p->{x}', '$rp->{x}', '$u->[0]', '$ao->[0]->{a}', 'my $w', 'my $w : object', 'my $w : int', '&go', '$i + 1', '$o->im', '($i)', '@$ai']


def chains(quick):
    "assignments whose value is used: every pair of assignable operands, joined by every assignment operator"
    out = []
    ops = ['=', '+=', '.=', '/=', '<<='] if quick else ['=', '+=', '-=', '*=', '/=', '%=', '<<=', '>>>=', '&=', '.=']
    rv = ['1', 'undef', '"s"', '$x'] if quick else ['1', '1L', 'undef', '"s"', '$x', '$o', '$d', '$b', '$p', '\\$i']
    for a in LV:
        for op in ops:
            for b in LV:
                for r in rv:
                    out.append(stmt('%s %s %s = %s;' % (a, op, b, r), True))
                if not quick:
                    for op2 in ops: out.append(stmt('%s %s %s %s 1;' % (a, op, b, op2), True))
                for f in ('%s++', '--%s', '(%s)', '!%s', 'copy %s', '(%s)->[0]', '(%s .= "x")', '(%s += 1)'): out.append(stmt('%s %s %s;' % (a, op, f % b), True))
        for c in ('if (%s = %s) { }', 'return %s = %s;', '$o->im(%s = %s);', 'my $z = "a" . (%s = %s);', 'die (%s = %s);', 'print %s = %s;', '(%s = %s) . "x";', '(%s = %s)->[0];', '(%s = %s)->{a};', '(%s = %s)->im;', '(%s = %s) + 1;', '-(%s = %s);', '(object)(%s = %s);', 'for (%s = %s; 0; ) { }',
                  'for (; 0; %s = %s) { }', 'while (%s = %s) { last; }', '{ %s = %s; }', '[%s = %s];', 'my $z = \\(%s = %s);', '(%s = %s)++;', 'switch (%s = %s) { default: { } }', 'for my $z (@{(%s = %s)}) { }', 'weaken (%s = %s)->{t};', '(%s = %s) isa TA;', '(%s = %s) && 1;', '!(%s = %s);', 'eval { %s = %s; }', 'unless (%s = %s) { }', '@(%s = %s);', 'copy (%s = %s);', '&go(1, %s = %s);', 'my $z : object = (%s = %s);', '(%s = %s) = 1;', '(%s = %s) = undef;', 'new int[%s = %s];', 'warn (%s = %s);', 'length (%s = %s);'):
            for r in NAMES + ['undef', '1', '"s"', '0.5', "'c'", '[1, 2]', '["a"]', '{a => 1}', '($i && 1)', '!$i', '($i || $l)', '$i++', '--$l', '($s .= "x")', '($i += 1)', '(my $y = 1)', 'new TA', '[$o]', '[[1]]', 'new int[1]', '&im', '$i == 1', '$@', '$C', '$o isa TA', '($x = undef)']: out.append(stmt(c.replace('%s', a, 1).replace('%s', r, 1), True))
    return out


LEX = ['a', '0', '1', '9', 'x', 'b', 'e', 'f', 'L', '_', '.', '-', '+', '"', "'", '\\', '$', '@', '{', '}', '[', ']', '(', ')', '#', '\n', '=', '<', '>', ':', ';', '&', '\xc3', '\xe3\x81', '\xf0\x9f', '\x80', '\xff', '\t', 'u', 'N', 'o', '~', ' ', 'n', 'C', ',', '/', '8']
LCTX = ['my $z = "%s";', "my $z = '%s';", 'my $z = %s;', '%s', 'my $z = <<"E";\n%s\nE\n', "<<'E';%s", 'my $z = "$%s";', 'my $z = "${%s}";', 'my $z = "\\x%s";', 'my $z = "\\o%s";', 'my $z = "\\N{U+%s}";', 'my $z = 0x%s;', 'my $z = 1%s;', 'my $z = 0b%s;', 'my $z = 1.%s;', 'my $z = 1e%s;', '$%s;', '\n=%s\n\n=cut\n', 'my $z = "$i%s";', 'my $z = "@%s";', '#line %s\n', "'\\%s'", 'my $z = "\\%s";']


def lexer(quick):
    out = []
    for c in LCTX:
        for n in (0, 1, 2, 3):
            al = LEX if n < 3 else LEX[:0] if quick and c not in ('%s', 'my $z = %s;', 'my $z = "%s";', "my $z = '%s';") else LEX
            if n == 3 and quick and c != '%s': al = al[::2] + ['"', '\\']
            if n == 3 and quick and c == '%s': al = ['a', '1', '"', "'", '\\', '$', '@', '{', '}', '#', '\n', '=', '<', ':', '\xe3\x81', '\xff', '-', '.', '_', '&', '[', ';']
            for s in itertools.product(al, repeat=n):
                t = c.replace('%s', ''.join(s))
                out.append(stmt(t))
    for n in (0, 1, 2, 3):        # the end of the file anywhere
        for s in itertools.product(LEX if n < 3 else LEX[::3], repeat=n):
            t = ''.join(s)
            out.append(t); out.append('class { ' + t)
            if n < 3: out.append('class { } ' + t); out.append('class { static method t : int () { return 1; } } ' + t); out.append('class { our $A' + t); out.append('class { static method t : void () { my $z = "' + t); out.append('class { static method t : void () { <<"E";\n' + t)
    full = stmt('my $z = "a\\x41$i\\N{U+3042}\xe3\x81\x82"; if ($i > 0x1F) { $o->im(1.5e3 > 2); } my $w = <<"E2";\nabc $i\nE2\n for my $e (@$ai) { } switch ($i) { case 1: { break; } default: { } } eval { die "x"; } ')
    out += [full[:k] for k in range(len(full))]
    out += [full[:k] + full[k + 1:] for k in range(len(full))]
    return out


def longnames(quick):
    out = []
    for n in (10, 100, 200, 239, 240, 250, 254, 255, 256, 257, 300, 1000) + (() if quick else (5000, 70000)):
        w = 'a' * n
        for t in ('my $%s = 1; $%s++;', '&%s(1);', '$o->%s(1);', '$o->{%s};', '%s->new;', 'my $z : %s;', '$C::%s;', 'my $z = "%s";', '$i = %s;', 'my $z = 1%s;', 'use %s;', 'my $z = $o isa %s;', 'die "%s" . 1 + "a";', 'my $z : %s = 1L;', 'my $z = "${%s}";', '$i->%s = 1;', 'new %s;', 'last %s;'):
            out.append(stmt(t.replace('%s', w)))
        for cs in ('class { static method %s : void ($n : int) { } static method t : void () { &%s("a"); } }', 'class { has %s : int; method t : void () { $self->{%s} = "a"; } }', 'class { our $%s : int; static method t : void () { $%s = "a"; } }', 'class { enum { %s } static method t : int () { return &%s; } }',
                   'class { static method t : void ($%s : int) { $%s = "a"; } }', 'class { use TA as %s; static method t : void () { %s->new; } }', 'class { use %s; }', 'class %s { }', 'class { interface %s; }', 'class { static method t : %s () { } }', 'class { version "%s"; }', 'class { allow %s; }', 'class { static method %s : void () { } static method %s : void () { } }',
                   'class { static method t : void () { my $z = method : int () { return 1; }; } method %s : void () { my $z = method : int () { my $y = method : int () { return 2; }; return "b"; }; } }', 'class { use TA; static method %s : int ($x : TA) { } static method t : void () { &%s(new int[1]); } }'):
            out.append(cs.replace('%s', w))
        out.append(stmt('my $z = ' + '(' * min(n, 3000) + '1' + ')' * min(n, 3000) + ';'))
        out.append(stmt('my $z = ' + '-' * min(n, 3000) + '$i;')); out.append(stmt('my $z = ' + '- ' * min(n, 1000) + '$i;'))
        out.append(stmt('{' * min(n, 1000) + '}' * min(n, 1000))); out.append(stmt('my $z = [' + '1,' * n + '];')); out.append(stmt('my $z = 0' + ''.join(' + $i' for _ in range(min(n, 1000))) + ';'))
        out.append(stmt('if ($i) { ' * min(n, 300) + '}' * min(n, 300))); out.append(stmt('eval { ' * min(n, 200) + '}' * min(n, 200))); out.append(stmt('my $z = new int' + '[]' * min(n, 300) + '[1];'))
        out.append(stmt(''.join('my $w%d = %d;' % (k, k) for k in range(min(n, 1000))))); out.append(stmt(''.join('my $w%d = "%d";' % (k, k) for k in range(min(n, 1000)))))
        out.append('class { ' + ''.join('has f%d : int;' % k for k in range(min(n, 1000))) + '}'); out.append('class { static method t : void (' + ', '.join('$a%d : int' % k for k in range(min(n, 300))) + ') { } }')
        out.append(stmt('switch ($i) { ' + ''.join('case %d: { }' % k for k in range(min(n, 1000))) + '}')); out.append('class { enum { ' + ','.join('E%d' % k for k in range(min(n, 1000))) + '} }')
        out.append(stmt('\n' * n + '"')); out.append(stmt(' ' * n + 'my $z = method : int () { return 1; };')); out.append(stmt('\n#line 2147483647\n' + ' ' * n + 'my $z = method : int () { return 1; };')); out.append(stmt('\n#line 999999999 "f"\n' + ' ' * n + 'my $z = [$i : int] method : int () { return $i; };'))
    return out


CLS = {}


def classes(quick):
    """whole class files: multi-numeric classes by name and fields, very long field lists, inherited and interface methods that do not fit"""
    out = []
    def put(name, text):
        assert name not in CLS, name
        CLS[name] = text; out.append('class { use %s; }' % name.replace('/', '::'))
    k = 0
    types = ['byte', 'int', 'double', 'string', 'Int', 'T_2i', 'int*', 'int[]', 'object']
    for tail in ('', '_', '_1', '_i', '_1i', '_2i', '_3i', '_2b', '_2d', '_0i', '_02i', '_2ii', '_256i', '_2147483648i', '_2x', '2i'):
        for nf in range(3 if quick else 4):
            for ts in itertools.product(types if nf < 3 else types[:4], repeat=nf):
                for pre in ('T', 'A' * 5, 'Abcdefghijklmnop'):
                    if nf == 2 and quick and pre != 'T' and tail not in ('', '_2i', '_2d'): continue
                    k += 1
                    nm = (pre + ''.join('abcdefghij'[int(c)] for c in str(k)) if pre != 'T' or tail == '_2i' or nf > 1 else 'M%d/%s' % (k, pre)) + tail
                    put(nm, 'class %s : mulnum_t { %s }' % (nm.replace('/', '::'), ' '.join('has f%d : %s;' % (i, t) for i, t in enumerate(ts))))
    for nm in ('A', 'Z', 'A_', 'A_1', 'A1'):
        put(nm, 'class %s : mulnum_t { has x : int; }' % nm)
    for n in (65534, 65535, 65536, 65537):
        put('L%d' % n, 'class L%d { %s }' % (n, ''.join('has f%d:int;' % i for i in range(n))))
        put('K%d' % n, 'class K%d extends L65535 { %s }' % (n, ''.join('has f%d:int;' % i for i in range(n - 65000, n))))
    for n in (255, 256, 300):
        put('U_%db' % n, 'class U_%db : mulnum_t { %s }' % (n, ''.join('has f%d:byte;' % i for i in range(n))))
    sig = ['method m : int ()', 'method m : int ($a : int)', 'method m : string ($a : int)', 'method m : int ($a : int = 1)', 'method m : int ($a : string)', 'static method m : int ($a : int)', 'method m : int ($a : int, $b : int)', 'method m : int ($a : int*)', 'method m : void ()', 'method n : int ()', 'required method m : int ($a : int)']
    kinds = [('class %s : public { %s { die "x"; } }', ' extends %s'), ('class %s : interface_t { %s; }', None), ('class %s : interface_t { %s { die "x"; } }', None), ('class %s : pointer { %s { die "x"; } }', ' extends %s')]
    for i, a in enumerate(sig):
        for j, (t, ext) in enumerate(kinds):
            put('S%d_%dq' % (i, j), t % ('S%d_%dq' % (i, j), a))
            for m, b in enumerate(sig):
                nm = 'C%d_%d_%dq' % (i, j, m); p = 'S%d_%dq' % (i, j)
                for v, text in enumerate(('class %s extends %s { %s { die "x"; } }' % (nm + 'e', p, b), 'class %s { interface %s; %s { die "x"; } }' % (nm + 'i', p, b), 'class %s { use %s; %s { die "x"; } static method t : void ($s : %s) { my $z : %s = $s; my $y = (%s)$s; $s->m(1); $s->m; $s can m; } }' % (nm + 'u', p, b, p, nm + 'u', nm + 'u'))):
                    put(nm + 'eiu'[v], text)
    return out


def seqs(toks, n, wrap): return (wrap(' '.join(s)) for s in itertools.product(toks, repeat=n))


ENV = dict(SAN_ENV, ASAN_OPTIONS=SAN_ENV['ASAN_OPTIONS'] + ':malloc_context_size=1:quarantine_size_mb=16')


def run(ck, sc, bin_, name, sources):
    # a directory name that must not be taken for a format
    d = sc.path('inc%s%n%d_' + name, 'x')[:-2]; os.makedirs(d, exist_ok=True)
    for n, t in list(FILES.items()) + [(n + '.spvm', t) for n, t in (CLS.items() if name == 'classes' else ())]:
        if '/' in n: os.makedirs(os.path.join(d, os.path.dirname(n)), exist_ok=True)
        open(os.path.join(d, n), 'w').write(t + '\n')
    sources = list(dict.fromkeys(sources))
    n = max(NCPU, len(sources) // 1500 + 1)
    acc = [0]
    lock = threading.Lock()
    def one(k):
        part = sources[k::n]; bad = []; start = 0
        while start < len(part):
            p = sc.path('%s_%d' % (name, k))
            with open(p, 'wb') as o:
                for t in part[start:]: o.write(t.encode('latin-1').replace(b'\n', b'\x01') + b'\n')
            r = subprocess.run([bin_, p, d, sc.src + '/lib/SPVM'], capture_output=True, text=True, errors='replace', env=ENV)
            last = ok = 0
            for l in r.stdout.split('\n'):
                if l.startswith('B '): last = int(l[2:])
                elif l.startswith('R '):
                    a = l.split(' ', 3)
                    if a[2] == '0': ok += 1
                    elif a[3] == '-': bad.append((part[start + int(a[1])], 'rejected without a message'))
                    with lock:
                        if a[2] != '0': ck.outcomes.add(''.join(c for c in a[3][:60] if not c.isdigit()))
            with lock: acc[0] += ok
            if r.stdout.rstrip().endswith('END') and r.returncode == 0: break
            bad.append((part[start + last], summarize_san(r.stderr) if r.stderr.strip() else 'the process ends with %d' % r.returncode))
            start += last + 1
            if len(bad) > 40: break
        return len(part), bad
    nb = 0
    with ThreadPoolExecutor(NCPU) as ex:
        for cnt, bad in ex.map(one, range(n)):
            ck.count(states=cnt, traces=cnt)
            for src, why in bad:
                nb += 1
                if nb <= 40: ck.fail('%s:%s' % (name, ' '.join(src.replace(PRE, '').replace(ARGS, '..').split())[:300]), '%s\n%s' % (why, src[-3000:]))
    if name == 'base' and acc[0] < 2 and not nb: raise RuntimeError('the program the texts are built from does not compile')
    ck.sample('%s: %d source texts, %d compile' % (name, len(sources), acc[0]))
    return len(sources)


def main():
    quick = TIER == 'quick'
    ck = Check('M22')
    sc = ck.make_scratch()
    bin_ = anon_bin(sc)
    tot = {}
    def go(name, src): tot[name] = run(ck, sc, bin_, name, src)
    go('base', [stmt(''), stmt('', True)])
    go('long', longnames(quick))
    go('classes', classes(quick))
    go('typed', typed())
    go('pairs', pairs(quick))
    go('chains', chains(quick))
    go('stmt', list(seqs(TOK, 1, stmt)) + list(seqs(TOK, 2, stmt)))
    go('stmt3', list(seqs(SMALL[:36] if quick else TOK, 3, stmt)))
    go('class', [PRE.split('has f')[0] + ' '.join(s) for n in (1, 2) for s in itertools.product(CTOK, repeat=n)] + ['class ' + ' '.join(s) for n in (1, 2, 3) for s in itertools.product(CTOK[:26] if n == 3 and quick else CTOK, repeat=n)] + ['class { ' + ' '.join(s) + ' }' for n in (1, 2, 3) for s in itertools.product(CTOK[:32] if n == 3 and quick else CTOK, repeat=n)])
    go('lexer', lexer(quick))
    ck.finish(bound='%s' % tot)
