"""M30: compilations by several threads on one compiler, under every schedule up to a number of preemptions."""
from common import *
import thr
from thr import Scn

HEAD = '''
  has n : public int;
'''
CL = {
    'C30A': 'class C30A { use C30D; static method value : int () { return 10 + C30D->value; } }',
    'C30B': 'class C30B { use C30D; static method value : int () { my $o = C30D->new; $o->{n} = 4; return 20 + $o->{n} + C30D->value; } }',
    'C30C': 'class C30C { our $V : rw int; INIT { $V = 3; } static method value : int () { my $s = "c30c" . 1; return length $s; } }',
    'C30D': 'class C30D { has n : rw public int; static method new : C30D () { return new C30D; } static method value : int () { return 5; } }',
    'C30E': 'class C30E { use C30D; static method value : int () { return 1 + ; } }',
    'C30F': 'class C30F { use C30D; static method value : int () { my $x : string = 5; return nothing->x; } }',
    'C30G': 'class C30G { interface_t Foo; }',
}


def ok(marks, log):
    def f(t):
        p = t.split('|')
        if len(p) != 4:
            return 'a lock is still held'
        if sorted(x for x in p[0].split(';') if x) != sorted(marks):
            return 'expected %s while the threads run' % sorted(marks)
        return True if p[1] == log else 'expected %s afterwards' % log
    return f


def scenarios():
    S = []
    init = '    return new MCT30;'
    c = lambda n: '    if (MCThr->compile("%s")) { MCThr->mark("fails"); } else { MCThr->mark("ok"); }' % n
    v = lambda *ns: '\n'.join('    MCLog->i(MCThr->call("%s"));' % n for n in ns)
    S.append(Scn('two classes', init, [c('C30A'), c('C30B')], v('C30A', 'C30B', 'C30D'), ok(['0ok', '1ok'], '15;29;5;')))
    S.append(Scn('one class by both', init, [c('C30A'), c('C30A')], v('C30A', 'C30D'), ok(['0ok', '1ok'], '15;5;')))
    S.append(Scn('a class and its dependency', init, [c('C30A'), c('C30D')], v('C30A', 'C30D'), ok(['0ok', '1ok'], '15;5;')))
    S.append(Scn('one syntax error', init, [c('C30E'), c('C30A')], v('C30A', 'C30D', 'C30E'), ok(['0fails', '1ok'], '15;5;-1;')))
    S.append(Scn('one type error', init, [c('C30A'), c('C30F')], v('C30A', 'C30D', 'C30F'), ok(['0ok', '1fails'], '15;5;-1;')))
    S.append(Scn('both fail', init, [c('C30E'), c('C30F')], c('C30B') + '\n' + v('C30B', 'C30E', 'C30F'), lambda t: True if t.split('|')[0] and sorted(t.split('|')[0].split(';')) == ['', '0fails', '1fails'] and t.split('|')[1] == '-1ok;29;-1;-1;' else 'both fail, and a later compilation succeeds'))
    S.append(Scn('three classes', init, [c('C30A'), c('C30B'), c('C30C')], v('C30A', 'C30B', 'C30C'), ok(['0ok', '1ok', '2ok'], '15;29;5;')))
    S.append(Scn('two compilations each', init, [c('C30A') + c('C30C'), c('C30B') + c('C30E')], v('C30A', 'C30B', 'C30C'), ok(['0ok', '0ok', '1ok', '1fails'], '15;29;5;')))
    # a thread runs while another compiles
    run = '    my $h = new MCT30; $h->{n} = 2; my $s = "a" . $h->{n}; if ($o isa MCT30) { MCThr->mark($s); }'
    S.append(Scn('one compiles, one runs', init, [c('C30A'), run], v('C30A'), ok(['0ok', '1a2'], '15;')))
    return S


def main():
    ck = Check('M30')
    s = ck.make_scratch()
    b = thr.build(s)
    S = scenarios()
    summ = thr.explore(ck, b, 'MCT30', HEAD, S, extra=list(CL.items()), P=3)
    for x in summ:
        print('  ' + x)
    ck.assumptions = ['interleavings under sequential consistency, preemptions before lock operations and accesses to locations used without a common lock']
    ck.finish(scenarios=summ, bounds='%d scenarios of 2 or 3 threads, up to 3 preemptions (thorough up to 5)' % len(S))
