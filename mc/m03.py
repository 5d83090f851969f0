"""M03: threads that copy and release references to shared objects, under every schedule up to a number of preemptions."""
from common import *
import thr
from thr import Scn

HEAD = '''
  version "0.001";
  interface Nothing;
'''
HEAD = '''
  use StringBuffer; use Fn;
  our $SLOT : rw object;
  has n : public int; has a : public object; has b : public object; has c : public object;
  static method mk : MCT3 ($n : int) { my $o = new MCT3; $o->{n} = $n; return $o; }
  static method rca : void ($o : object) { MCLog->i(MCLog->rc($o->(MCT3)->{a}) - 1); }
  static method rcb : void ($o : object) { MCLog->i(MCLog->rc($o->(MCT3)->{b}) - 1); }
  static method rcc : void ($o : object) { MCLog->i(MCLog->rc($o->(MCT3)->{c}) - 1); }
  static method get : MCT3 ($h : MCT3) { return $h->{a}->(MCT3); }
  static method take : MCT3 ($h : MCT3) { my $x = $h->{a}->(MCT3); $h->{a} = undef; return $x; }
  static method rcin : void ($o : object) { MCLog->i(MCLog->rc($o->(MCT3)->{a}->(MCT3)->{a}) - 1); }
  static method un : void ($o : MCT3) { MCLog->i($o->{a} == undef); }
  static method rcs : void () { MCLog->i(MCLog->rc($SLOT) - 1); }
  method DESTROY : void () { MCThr->mark("D" . $self->{n}); }
'''
N = 'MCT3->mk(%d)'


def norm(t):
    """Marks, check log and memory delta."""
    p = t.split('|')
    return p


def exactly(marks=None, log=None, after=None, mem=0):
    """Destruction marks as multisets during the threads, in the check and after it."""
    def f(t):
        p = t.split('|')
        if len(p) != 4:
            return 'malformed or a lock is still held'
        got = [sorted(x[1:] if x[0].isdigit() else x for x in q.split(';') if x) for q in p[:1]]
        if 'E' in p[0]:
            return 'a thread ended with an exception'
        if marks is not None and got[0] != sorted(marks):
            return 'expected destructions %s while the threads run' % sorted(marks)
        if log is not None and p[1] != log:
            return 'expected check log %s' % log
        a = sorted(x[2:] if x.startswith('-1') else x for x in p[2].split(';') if x)
        if after is not None and a != sorted(after):
            return 'expected destructions %s at the end' % sorted(after)
        if p[3] != 'm%d' % mem:
            return 'expected memory delta %d' % mem
        return True
    return f


def scenarios():
    S = []
    two = '    my $o = MCT3->mk(0); $o->{a} = MCT3->mk(1); return $o;'
    copy = '    my $x = $o->(MCT3)->{a}; my $y = $x; $x = undef;'
    # one shared object copied and released by locals
    S.append(Scn('copies of a shared object in locals, 2 threads', two, [copy] * 2, '    MCT3->rca($o);', exactly([], '1;', ['D0', 'D1']), 2))
    S.append(Scn('copies of a shared object in locals, 3 threads', two, ['    my $x = $o->(MCT3)->{a};'] * 3, '    MCT3->rca($o);', exactly([], '1;', ['D0', 'D1']), 2))
    # the last references dropped by different threads
    two_holders = '''    my $t = MCT3->mk(9); my $o = MCT3->mk(0); $o->{a} = MCT3->mk(1); $o->{b} = MCT3->mk(2);
    $o->{a}->(MCT3)->{a} = $t; $o->{b}->(MCT3)->{a} = $t; return $o;'''
    drop = lambda f: '    my $h = $o->(MCT3)->{%s}->(MCT3); $h->{a} = undef;' % f
    S.append(Scn('the last two references released by 2 threads', two_holders, [drop('a'), drop('b')], '', exactly(['D9'], '', ['D0', 'D1', 'D2']), 2))
    three_holders = two_holders.replace('return $o;', '$o->{c} = MCT3->mk(3); $o->{c}->(MCT3)->{a} = $t; return $o;')
    S.append(Scn('the last three references released by 3 threads', three_holders, [drop('a'), drop('b'), drop('c')], '', exactly(['D9'], '', ['D0', 'D1', 'D2', 'D3']), 2))
    S.append(Scn('one thread releases, one copies through its own reference', two_holders, [drop('a'), '    my $h = $o->(MCT3)->{b}->(MCT3); my $x = $h->{a}; my $y = $x; $h->{a} = undef; $x = undef; MCThr->mark("r");'], '',
                 exactly(['D9', 'r'], '', ['D0', 'D1', 'D2']), 2))
    # a slot overwritten by both
    S.append(Scn('both threads overwrite one field', two, ['    my $h = $o->(MCT3); $h->{a} = MCT3->mk(%d);' % (5 + k) for k in range(2)], '    MCLog->i($o->(MCT3)->{a}->(MCT3)->{n});',
                 lambda t: True if sorted(x[1:] for x in t.split('|')[0].split(';') if x) in (['D1', 'D5'], ['D1', 'D6']) and
                 t.split('|')[1] == ('6;' if 'D5' in t.split('|')[0] else '5;') and t.endswith('|m0') and t.count('|') == 3 else 'one of the two objects stays, every other one is destroyed once', 2))
    S.append(Scn('both threads clear one field', two, ['    my $h = $o->(MCT3); $h->{a} = undef;'] * 2, '    MCLog->i($o->(MCT3)->{a} == undef ? 1 : 0);'.replace('? 1 : 0', ''), exactly(['D1'], '1;', ['D0']), 2))
    S.append(Scn('both threads store one shared object in one field', '    my $o = MCT3->mk(0); $o->{a} = MCT3->mk(1); $o->{b} = MCT3->mk(2); return $o;', ['    my $h = $o->(MCT3); $h->{a} = $h->{b};'] * 2,
                 '    MCT3->rcb($o);', exactly(['D1'], '2;', ['D0', 'D2']), 2))
    S.append(Scn('both threads overwrite an array element', '    my $o = MCT3->mk(0); $o->{a} = [(object)MCT3->mk(1)]; return $o;', ['    my $h = (object[])$o->(MCT3)->{a}; $h->[0] = MCT3->mk(%d);' % (5 + k) for k in range(2)],
                 '    my $h = (object[])$o->(MCT3)->{a}; MCLog->i($h->[0]->(MCT3)->{n});',
                 lambda t: True if sorted(x[1:] for x in t.split('|')[0].split(';') if x) in (['D1', 'D5'], ['D1', 'D6']) and t.endswith('|m0') and t.count('|') == 3 else 'one of the two objects stays, every other one is destroyed once', 2))
    S.append(Scn('both threads overwrite a class variable', '    $SLOT = MCT3->mk(1); return MCT3->mk(0);', ['    $SLOT = MCT3->mk(%d);' % (5 + k) for k in range(2)],
                 '    MCLog->i($SLOT->(MCT3)->{n}); $SLOT = undef;',
                 lambda t: True if sorted(x[1:] for x in t.split('|')[0].split(';') if x) in (['D1', 'D5'], ['D1', 'D6']) and t.endswith('|m0') and t.count('|') == 3 else 'one of the two objects stays, every other one is destroyed once', 2))
    # a class variable shared between threads only read
    S.append(Scn('both threads read a class variable', '    $SLOT = MCT3->mk(1); return MCT3->mk(0);', ['    my $x = $SLOT; my $y = $x;'] * 2, '    MCT3->rcs; $SLOT = undef;', exactly([], '1;', ['D0', 'D1']) if False else
                 (lambda t: True if t.split('|')[0] == '' and t.split('|')[1].startswith('1;') and t.endswith('|m0') and t.count('|') == 3 else 'the count returns to one'), 2))
    # weak references to one shared target
    weak_setup = '''    my $t = MCT3->mk(9); my $o = MCT3->mk(0); my $p = MCT3->mk(1); my $q = MCT3->mk(2);
    $p->{a} = $t; $q->{a} = $t; $o->{a} = $p; $o->{b} = $q; $o->{c} = $t; return $o;'''
    wk = lambda f, op: '    my $h = $o->(MCT3)->{%s}->(MCT3); %s' % (f, op)
    chk = '    my $p = $o->(MCT3)->{a}->(MCT3); my $q = $o->(MCT3)->{b}->(MCT3); MCLog->i(isweak $p->{a}); MCLog->i(isweak $q->{a}); MCT3->rcc($o); $o->(MCT3)->{c} = undef; MCT3->un($p); MCT3->un($q);'
    def weak_case(name, setup_extra, bodies, wp, wq, rc, P=2):
        # after dropping the strong reference in the check, weak fields become undef; strong ones keep it
        log = '%d;%d;%d;' % (wp, wq, rc)
        def f(t, wp=wp, wq=wq):
            q = t.split('|')
            if len(q) != 4 or q[0]:
                return 'nothing is destroyed while the threads run'
            if 'E' in q[1]:
                return 'exception'
            dead = wp and wq
            exp = log + ('-1D9;' if dead else '') + ('1;1;' if dead else '0;0;')
            if q[1] != exp:
                return 'expected %s' % exp
            return True if q[3] == 'm0' else 'memory is lost'
        S.append(Scn(name, weak_setup.replace('return $o;', setup_extra + ' return $o;'), bodies, chk, f, P))
    weak_case('2 threads weaken their fields', '', [wk('a', 'weaken $h->{a};'), wk('b', 'weaken $h->{a};')], 1, 1, 1)
    weak_case('one weakens, one makes strong again', 'weaken $q->{a};', [wk('a', 'weaken $h->{a};'), wk('b', 'unweaken $h->{a};')], 1, 0, 2)
    weak_case('2 threads make strong again', 'weaken $p->{a}; weaken $q->{a};', [wk('a', 'unweaken $h->{a};'), wk('b', 'unweaken $h->{a};')], 0, 0, 3)
    weak_case('weaken and strong again against weaken', '', [wk('a', 'weaken $h->{a}; unweaken $h->{a};'), wk('b', 'weaken $h->{a};')], 0, 1, 2, 2)
    S.append(Scn('2 threads overwrite their weak fields', weak_setup.replace('return $o;', 'weaken $p->{a}; weaken $q->{a}; return $o;'), [wk('a', '$h->{a} = undef;'), wk('b', '$h->{a} = undef;')],
                 '    MCT3->rcc($o); $o->(MCT3)->{c} = undef;', lambda t: True if t.split('|')[0] == '' and t.split('|')[1] == '1;-1D9;' and t.endswith('|m0') and t.count('|') == 3 else 'the target has one reference, then is destroyed', 2))
    S.append(Scn('weaken against release of the last other references', two_holders, [drop('a'), '    my $h = $o->(MCT3)->{b}->(MCT3); weaken $h->{a};'],
                 '    MCLog->i($o->(MCT3)->{b}->(MCT3)->{a} == undef);', exactly(['D9'], '1;', ['D0', 'D1', 'D2']), 2))
    # references handed back by methods
    S.append(Scn('both threads get a shared object from a method', two_holders, ['    my $h = $o->(MCT3)->{%s}->(MCT3); my $x = MCT3->get($h); $x = undef;' % f for f in 'ab'], '    MCT3->rcin($o);', exactly([], '2;', ['D0', 'D1', 'D2', 'D9']), 2))
    S.append(Scn('one gets a shared object from a method, one releases its reference', two_holders, ['    my $h = $o->(MCT3)->{a}->(MCT3); my $x = MCT3->get($h);', drop('b')], '    MCT3->rcin($o);', exactly([], '1;', ['D0', 'D1', 'D2', 'D9']), 2))
    S.append(Scn('one gets a shared object from a method, one weakens its reference', two_holders, ['    my $h = $o->(MCT3)->{a}->(MCT3); my $x = MCT3->get($h);', '    my $h = $o->(MCT3)->{b}->(MCT3); weaken $h->{a};'], '    MCT3->rcin($o);', exactly([], '1;', ['D0', 'D1', 'D2', 'D9']), 2))
    S.append(Scn('a returned last own reference against the release of the other', two_holders, ['    my $h = $o->(MCT3)->{a}->(MCT3); my $x = MCT3->take($h); if ($x) { MCThr->mark("x"); }', drop('b')], '',
                 lambda t: True if sorted(x[1:] for x in t.split('|')[0].split(';') if x) == ['D9', 'x'] and t.endswith('|m0') and t.count('|') == 3 else 'the returned object stays until the local is left', 2))
    # creation: the count of memory blocks
    mk = lambda body: '    ' + body
    for name, body in [('objects', 'my $x = MCT3->mk(5); $x = MCT3->mk(6); $x = undef;'), ('strings', 'my $x = "ab" . "cd"; my $y = copy $x;'), ('arrays', 'my $x = new int[3]; my $y = new object[2]; $y->[0] = $x;')]:
        S.append(Scn('2 threads create %s' % name, '    return MCT3->mk(0);', [mk(body), mk(body)], '    MCLog->i(1);',
                     exactly(['D5', 'D5', 'D6', 'D6'] if name == 'objects' else [], '1;', ['D0']), 2))
    S.append(Scn('one creates, one releases', two, ['    my $h = $o->(MCT3); $h->{a} = undef;', '    my $x = MCT3->mk(5); my $y = new int[2];'], '', exactly(['D1', 'D5'], '', ['D0']), 2))
    # destruction of a graph while another thread holds a part of it
    graph = '''    my $o = MCT3->mk(0); my $r = MCT3->mk(1); my $m = MCT3->mk(2); $r->{a} = $m; $r->{b} = MCT3->mk(3); $o->{a} = $r; $o->{b} = $m; return $o;'''
    S.append(Scn('a graph is destroyed while a part is copied', graph, ['    my $h = $o->(MCT3); $h->{a} = undef;', '    my $x = $o->(MCT3)->{b}; my $y = $x; $x = undef;'], '    MCT3->rcb($o);', exactly(['D1', 'D3'], '1;', ['D0', 'D2']), 2))
    S.append(Scn('both threads drop graphs that share a part', graph.replace('$o->{b} = $m;', 'my $s = MCT3->mk(4); $s->{a} = $m; $o->{b} = $s;').replace('my $r', 'my $r'), ['    my $h = $o->(MCT3); $h->{a} = undef;', '    my $h = $o->(MCT3); $h->{b} = undef;'], '',
                 exactly(['D1', 'D2', 'D3', 'D4'], '', ['D0']), 2))
    # exceptions belong to the stack of one thread
    S.append(Scn('each thread throws and catches', '    return MCT3->mk(0);', ['    my $x = MCT3->mk(%d); eval { die "e%d"; } MCThr->mark(Fn->substr($@, 0, 2)); MCThr->mark("" . eval_error_id);' % (5 + k, k) for k in range(2)], '',
                 lambda t: True if sorted(t.split('|')[0].split(';')) == sorted(['', '018', '0D5', '0e0', '118', '1D6', '1e1']) and t.endswith('|m0') else 'each thread sees its own exception', 2))
    S.append(Scn('an exception leaves one thread', '    return MCT3->mk(0);', ['    my $x = MCT3->mk(5); die "e0";', '    my $y = MCT3->mk(6); $y = undef; if ($@) { MCThr->mark("X"); }'], '',
                 lambda t: True if sorted(t.split('|')[0].split(';')) == sorted(['', '0D5', '1D6', 'Ee0']) and t.endswith('|m0') else 'the exception stays in its thread', 2))
    # the cache of type checks
    S.append(Scn('first type checks of a pair in 2 threads', '    return MCT3->mk(0);', ['    if ($o isa StringBuffer) { MCThr->mark("P"); } if ($o isa MCT3) { MCThr->mark("M"); }'] * 2, '',
                 lambda t: True if sorted(t.split('|')[0].split(';')) == ['', '0M', '1M'] and t.endswith('|m0') else 'isa gives the same answer in each thread', 2))
    S.append(Scn('first casts of a pair in 2 threads', '    return MCT3->mk(0);', ['    my $c = $o->(Cloneable::X);'.replace('->(Cloneable::X)', '') + ' eval { my $p = (StringBuffer)$o; } if ($@) { MCThr->mark("F"); } my $m = (MCT3)$o; MCThr->mark("ok");'] * 2, '',
                 lambda t: True if sorted(t.split('|')[0].split(';')) == ['', '0F', '0ok', '1F', '1ok'] and t.endswith('|m0') else 'casts give the same answer in each thread', 2))
    return S


def main():
    ck = Check('M03')
    s = ck.make_scratch()
    b = thr.build(s)
    S = scenarios()
    summ = thr.explore(ck, b, 'MCT3', HEAD, S, P=3)
    for x in summ:
        print('  ' + x)
    ck.assumptions = ['interleavings are explored at the granularity of single instrumented memory accesses under sequential consistency: reorderings by weak memory hardware are not explored',
                      'preemptions are limited to 2 or 3 (thorough: 3 or 4) and happen before lock operations, atomic operations and accesses to locations that two threads use without a common lock']
    ck.finish(scenarios=summ, bounds='%d scenarios of 2 or 3 threads, up to 2-3 preemptions (thorough 3-4)' % len(S))
