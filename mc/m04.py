"""M04: Sync::Mutex and the guarantees built on it, under every schedule up to a number of preemptions."""
from common import *
import thr
from thr import Scn

HEAD = '''
  use Sync::Mutex;
  our $A : rw int; our $B : rw int; our $M : rw Sync::Mutex; our $N : rw Sync::Mutex; our $W : rw int; our $R : rw int;
  static method init : object () { $A = 0; $B = 0; $W = 0; $R = 0; $M = Sync::Mutex->new; $N = Sync::Mutex->new; return $M; }
  static method fin : void () { MCLog->i($A); MCLog->i($B); $M = undef; $N = undef; }
  static method crit : void ($name : string) { MCThr->mark("+" . $name); MCThr->step; MCThr->mark("-" . $name); }
'''


def parse(t):
    return t.split('|')


def excl(log, writers='w', check=None):
    """No section of a writer overlaps any other section; the check log is as given."""
    def f(t):
        p = t.split('|')
        if len(p) != 4:
            return 'a lock is still held'
        inside = []
        for x in p[0].split(';'):
            if not x:
                continue
            if x[0] == 'E':
                return 'an exception: ' + x
            who, op, kind = x[0], x[1], x[2:]
            if op == '+':
                for y in inside:
                    if y[1][0] in writers or kind[0] in writers:
                        return 'section %s of thread %s overlaps section %s of thread %s' % (kind, who, y[1], y[0])
                inside.append((who, kind))
            elif op == '-':
                if (who, kind) not in inside:
                    return 'malformed'
                inside.remove((who, kind))
        if log is not None and p[1] != log:
            return 'expected final values %s' % log
        if p[3] != 'm0':
            return 'memory is lost'
        return check(p[0]) if check else True
    return f


def scenarios():
    S = []
    init = '    return MCT4->init;'
    fin = '    MCT4->fin;'
    w = '    my $m = (Sync::Mutex)$o; $m->lock; MCT4->crit("w"); $A++; $m->unlock;'
    w2 = '    my $m = (Sync::Mutex)$o; $m->lock; MCT4->crit("w"); $A++; $m->unlock; $m->lock; MCT4->crit("w"); $A++; $m->unlock;'
    r = '    my $m = (Sync::Mutex)$o; $m->reader_lock; MCT4->crit("r"); $m->reader_unlock;'
    pair = '    my $m = (Sync::Mutex)$o; $m->lock; $A++; MCThr->step; $B++; $m->unlock;'
    look = '    my $m = (Sync::Mutex)$o; $m->reader_lock; my $a = $A; MCThr->step; my $b = $B; $m->reader_unlock; if ($a != $b) { die "torn"; }'
    S.append(Scn('2 writers', init, [w, w], fin, excl('2;0;'), 4))
    S.append(Scn('2 writers, twice each', init, [w2, w2], fin, excl('4;0;'), 3))
    S.append(Scn('3 writers', init, [w] * 3, fin, excl('3;0;'), 2))
    S.append(Scn('writer and reader', init, [w, r], fin, excl('1;0;'), 4))
    S.append(Scn('2 writers and a reader', init, [w, w, r], fin, excl('2;0;'), 2))
    S.append(Scn('writer and 2 readers', init, [w, r, r], fin, excl('1;0;'), 2))
    S.append(Scn('reader then writer in each thread', init, [r + w.replace('    my $m = (Sync::Mutex)$o;', ''), r + w.replace('    my $m = (Sync::Mutex)$o;', '')], fin, excl('2;0;'), 3))
    S.append(Scn('a pair written under the lock is read whole', init, [pair, look], fin, excl('1;1;'), 4))
    S.append(Scn('a pair written under the lock is read whole by 2 readers', init, [pair, look, look], fin, excl('1;1;'), 2))
    S.append(Scn('2 writers of a pair and a reader', init, [pair, pair, look], fin, excl('2;2;'), 2))
    # two mutexes are independent
    other = '    my $m = $N; $m->lock; MCT4->crit("o"); $m->unlock;'
    S.append(Scn('two mutexes do not exclude each other', init, [w, other], fin, excl('1;0;', writers=''), 3))
    ordered = '    my $m = (Sync::Mutex)$o; $m->lock; $N->lock; MCT4->crit("w"); $A++; $N->unlock; $m->unlock;'
    S.append(Scn('two mutexes in one order', init, [ordered, ordered], fin, excl('2;0;'), 3))
    nested = '    my $m = (Sync::Mutex)$o; $m->reader_lock; $N->lock; MCT4->crit("w"); $A++; $N->unlock; $m->reader_unlock;'
    S.append(Scn('a writer section inside a reader section', init, [nested, nested], fin, excl('2;0;'), 3))
    # objects handed over under the lock
    HO = '''    my $m = (Sync::Mutex)$o; $m->lock; $V->push_(1); $m->unlock;'''
    put = '    my $m = (Sync::Mutex)$o; $m->lock; $Q = MCT4->node(%d, $Q); $m->unlock;'
    get = '    my $m = (Sync::Mutex)$o; $m->lock; if ($Q) { my $x = $Q; $Q = $x->{next}; $x->{next} = undef; $A += $x->{n}; } $m->unlock;'
    drain = '    while ($Q) { $A += $Q->{n}; $Q = $Q->{next}; } MCT4->fin;'
    S.append(Scn('2 threads push on a list under the lock', init, [put % 1, put % 2], drain, excl('3;0;'), 2))
    S.append(Scn('push and pop on a list under the lock', init, [put % 1, get], drain, excl('1;0;'), 3))
    S.append(Scn('2 pops of a list under the lock', '    my $m = MCT4->init; $Q = MCT4->node(1, MCT4->node(2, undef)); return $m;', [get, get], drain, excl('3;0;'), 2))
    # a mutex object shared and released by threads
    S.append(Scn('a mutex released last by a thread', '    MCT4->init; my $h = MCT4->node(0, undef); my $k = MCT4->node(0, undef); $h->{m} = Sync::Mutex->new; $k->{m} = $h->{m}; $h->{next} = $k; return $h;',
                 ['    my $h = (MCT4)$o; my $m = $h->{m}; $m->lock; MCT4->crit("w"); $A++; $m->unlock; $m = undef; $h->{m} = undef;', '    my $h = ((MCT4)$o)->{next}; my $m = $h->{m}; $m->lock; MCT4->crit("w"); $A++; $m->unlock; $m = undef; $h->{m} = undef;'],
                 fin, excl('2;0;'), 2))
    return S


HEAD += '''
  our $Q : rw MCT4; has n : public int; has next : public MCT4; has m : public Sync::Mutex;
  static method node : MCT4 ($n : int, $next : MCT4) { my $x = new MCT4; $x->{n} = $n; $x->{next} = $next; return $x; }
'''


def main():
    ck = Check('M04')
    s = ck.make_scratch()
    b = thr.build(s)
    S = scenarios()
    summ = thr.explore(ck, b, 'MCT4', HEAD, S, P=4, focus=True)
    for x in summ:
        print('  ' + x)
    # readers may be inside together: some schedule must show it
    n = [i for i, x in enumerate(S) if x.name == 'writer and 2 readers'][0]
    def overlap(t):
        k = 0
        for x in t.split('|')[0].split(';'):
            if x[1:] == '+r': k += 1
            if x[1:] == '-r': k -= 1
            if k == 2: return True
    if not ck.viol and not any(overlap(t) for i, t in ck.outcomes if i == n):
        ck.fail('readers exclude each other', 'no schedule of two readers has both inside the reader section: scenario "writer and 2 readers"')
    ck.assumptions = ['the lock primitive itself (pthread_rwlock) is modelled by the explorer: exclusive for writers, shared for readers, EDEADLK when a writer locks again',
                      'interleavings under sequential consistency; preemptions before lock operations and accesses to locations used without a common lock']
    ck.finish(scenarios=summ, bounds='%d scenarios of 2 or 3 threads, 2 to 4 preemptions (thorough one more)' % len(S))
