"""M01/M02: object lifetimes and weak references. Breadth-first search of the heap model; every transition is replayed on the runtime."""
import itertools, collections
from common import *
from seqs import *

SRC = '''class MCT {
  use MCLog;
  use MCT::Node;
  our $G : MCT::Node;
  our $NEXT : int;
  %(pre)s static method pass : MCT::Node ($a : MCT::Node, $b : MCT::Node) { return $b; }
  %(pre)s static method fresh : MCT::Node ($link : MCT::Node) { my $n = MCT::Node->new($NEXT++); $n->{x} = $link; return $n; }
  %(pre)s static method boom : MCT::Node ($link : MCT::Node) { my $n = MCT::Node->new($NEXT++); $n->{x} = $link; if ($n isa MCT::Node) { die "boom"; } return $n; }
  %(pre)s static method show : void ($n : MCT::Node) {
    if ($n) {
      MCLog->i($n->{id});
      my $x = $n->{x};
      if ($x) { MCLog->i($x->{id}); MCLog->i(isweak $n->{x}); } else { MCLog->s("u"); MCLog->i(isweak $n->{x}); }
    }
    else { MCLog->s("U"); }
  }
  %(pre)s static method run : void ($ops : string) {
    my $len = length $ops;
    $NEXT = 1;
    my $a : MCT::Node;
    my $b : MCT::Node;
    my $o : object;
    my $arr = new MCT::Node[2];
    for (my $i = 0; $i < $len; $i++) {
      MCLog->s("|");
      switch ((int)$ops->[$i]) {
%(cases)s
      }
      MCLog->s("=");
      MCT->show($a); MCT->show($b); MCT->show($G); MCT->show($arr->[0]);
      if ($o) { my $c = (MCT::Node)$o; MCLog->i($c->{id}); } else { MCLog->s("U"); }
    }
    MCLog->s("|");
    if ($G) { $G->{x} = undef; }
    if ($a) { $a->{x} = undef; }
    if ($b) { $b->{x} = undef; }
    $G = undef; $o = undef; $arr = undef; $a = undef; $b = undef;
    MCLog->s("=");
  }
}
'''
NODE = '''class MCT::Node {
  use MCLog;
  has id : public int;
  has x : public MCT::Node;
  has s : public string;
  static method new : MCT::Node ($id : int) { my $self = new MCT::Node; $self->{id} = $id; $self->{s} = (string)$id; return $self; }
  method id : int () { return $self->{id}; }
  method DESTROY : void () { MCLog->s("D"); MCLog->i($self->{id}); }
}
'''
# op letter: SPVM statements
OPS = collections.OrderedDict([
    ('n', '$a = MCT::Node->new($NEXT++);'),
    ('u', '$a = undef;'),
    ('v', '$b = undef;'),
    ('c', '$a = $b;'),
    ('C', '$b = $a;'),
    ('x', 'if ($a) { $a->{x} = $b; }'),
    ('X', 'if ($a) { $a->{x} = undef; }'),
    ('s', 'if ($a) { $a->{x} = $a; }'),
    ('y', 'if ($a) { $a = $a->{x}; }'),
    ('Y', 'if ($a) { $b = $a->{x}; }'),
    ('w', 'if ($a) { weaken $a->{x}; }'),
    ('t', 'if ($a) { unweaken $a->{x}; }'),
    ('g', '$G = $a;'),
    ('h', '$a = $G;'),
    ('e', '$arr->[0] = $a;'),
    ('f', '$a = $arr->[0];'),
    ('r', '$arr = new MCT::Node[2];'),
    ('o', '$o = $a;'),
    ('O', 'if ($o) { $b = (MCT::Node)$o; }'),
    ('m', '$a = MCT->pass($a, $b);'),
    ('l', '$b = MCT->fresh($a);'),
    ('d', 'eval { my $l = MCT->fresh($a); my $k = MCT->boom($l); $b = $k; }'),
    ('k', '{ my $c = $a; $a = $b; $b = $c; }'),
    ('z', 'MCLog->i(MCT->fresh($a)->id);'),
    ('p', 'if ($a) { my $old = $a->{x}; $a->{x} = MCT::Node->new($NEXT++); weaken $a->{x}; $b = $old; }'),
    ('q', 'if ($a) { if ($a->{x}) { my $t = $a->{x}; $t->{x} = $b; weaken $t->{x}; } }'),
])


class Heap:
    """Reference model: explicit reference counts over a handful of nodes."""
    def __init__(self):
        self.n = 1
        self.rc = {}
        self.x = {}       # id -> (target, weak)
        self.v = {'a': None, 'b': None, 'G': None, 'o': None, 'e': None}
        self.log = []

    def copy(self):
        h = Heap.__new__(Heap)
        h.n = self.n; h.rc = dict(self.rc); h.x = dict(self.x); h.v = dict(self.v); h.log = []
        return h

    def new(self):
        i = self.n; self.n += 1
        self.rc[i] = 0; self.x[i] = (None, 0)
        return i

    def inc(self, i):
        if i is not None:
            self.rc[i] += 1

    def dec(self, i):
        if i is None:
            return
        self.rc[i] -= 1
        if self.rc[i] == 0:
            self.log.append(i)
            t, w = self.x[i]
            self.x[i] = (None, 0)
            if t is not None and not w:
                self.dec(t)
            for k, (t, w) in list(self.x.items()):
                if t == i and w:
                    self.x[k] = (None, 0)
            del self.rc[i], self.x[i]

    def set(self, name, i):
        old = self.v[name]
        self.inc(i); self.v[name] = i; self.dec(old)

    def setx(self, i, t):
        old, w = self.x[i]
        self.inc(t); self.x[i] = (t, 0)
        if not w:
            self.dec(old)

    def weaken(self, i):
        t, w = self.x[i]
        if t is not None and not w:
            self.x[i] = (t, 1)
            self.dec(t)

    def fresh(self, link):
        i = self.new(); self.inc(i)
        self.setx(i, link)
        return i          # the caller owns one count

    def op(self, c):
        v = self.v
        a = v['a']
        out = []
        if c == 'n': i = self.new(); self.set('a', i)
        elif c == 'u': self.set('a', None)
        elif c == 'v': self.set('b', None)
        elif c == 'c': self.set('a', v['b'])
        elif c == 'C': self.set('b', a)
        elif c == 'x':
            if a is not None: self.setx(a, v['b'])
        elif c == 'X':
            if a is not None: self.setx(a, None)
        elif c == 's':
            if a is not None: self.setx(a, a)
        elif c == 'y':
            if a is not None: self.set('a', self.x[a][0])
        elif c == 'Y':
            if a is not None: self.set('b', self.x[a][0])
        elif c == 'w':
            if a is not None: self.weaken(a)
        elif c == 't':
            if a is not None:
                t, w = self.x[a]
                if w: self.inc(t); self.x[a] = (t, 0)
        elif c == 'g': self.set('G', a)
        elif c == 'h': self.set('a', v['G'])
        elif c == 'e': self.set('e', a)
        elif c == 'f': self.set('a', v['e'])
        elif c == 'r': self.set('e', None)
        elif c == 'o': self.set('o', a)
        elif c == 'O':
            if v['o'] is not None: self.set('b', v['o'])
        elif c == 'm': self.set('a', v['b'])
        elif c == 'l': i = self.fresh(a); self.set('b', i); self.dec(i)
        elif c == 'd':
            i = self.fresh(a)
            j = self.fresh(i)
            self.dec(j); self.dec(i)
        elif c == 'k':
            b = v['b']; v['a'], v['b'] = b, a
        elif c == 'z': i = self.fresh(a); out.append('%d;' % i); self.dec(i)
        elif c == 'p':
            if a is not None:
                self.inc(a)
                old = self.x[a][0]; self.inc(old)
                i = self.new(); self.inc(i)
                self.setx(a, i)
                self.weaken(a)
                self.set('b', old); self.dec(old)
                self.dec(i)
                self.dec(a)
        elif c == 'q':
            if a is not None and self.x[a][0] is not None:
                t = self.x[a][0]
                self.inc(t)
                self.setx(t, v['b']); self.weaken(t)
                self.dec(t)
        return out

    def show(self, i):
        if i is None:
            return 'sU;'
        t, w = self.x[i]
        return '%d;' % i + ('%d;%d;' % (t, w) if t is not None else 'su;0;')

    def state(self):
        v = self.v
        return ''.join(self.show(v[k]) for k in 'abGe') + ('%d;' % v['o'] if v['o'] is not None else 'sU;')

    def canon(self):
        ren, out, work = {}, [], []
        for k in ('a', 'b', 'G', 'e', 'o'):
            i = self.v[k]
            if i is not None and i not in ren:
                ren[i] = len(ren); work.append(i)
            out.append(ren.get(i) if i is not None else None)
        while work:
            i = work.pop(0)
            t, w = self.x[i]
            if t is not None and t not in ren:
                ren[t] = len(ren); work.append(t)
            out.append((ren.get(t) if t is not None else None, w))
        # nodes only held by an unreachable cycle matter for what a weak reference sees, and for nothing else
        return tuple(out), len(self.rc) - len(ren)


def expect(seq):
    h = Heap()
    tr = []
    for c in seq:
        out = h.op(c)
        tr.append((out, sorted(h.log), h.state()))
        h.log = []
    v = h.v
    for k in 'Gab':
        if v[k] is not None:
            h.setx(v[k], None)
    for k in 'Goeab':
        h.set(k, None)
    return tr, sorted(h.log), len(h.rc)


def norm(trace, n):
    """Splits an implementation trace into per-step (output, destroyed, state)."""
    parts = trace.split('s|;')[1:]
    steps = []
    for p in parts:
        body, _, st = p.partition('s=;')
        toks = body.split(';')[:-1]
        out, d = [], []
        i = 0
        while i < len(toks):
            if toks[i] == 'sD':
                d.append(int(toks[i + 1])); i += 2
            else:
                out.append(toks[i] + ';'); i += 1
        steps.append((out, sorted(d), st))
    return steps


def explore(ops, full_depth, max_states, max_nodes):
    """All sequences up to full_depth, then breadth-first with canonical states."""
    seqs = []
    for d in range(1, full_depth + 1):
        seqs += [''.join(s) for s in itertools.product(ops, repeat=d)]
    seen = {Heap().canon()}
    frontier = collections.deque([('', Heap())])
    trans = 0
    capped = False
    while frontier:
        hist, h = frontier.popleft()
        for c in ops:
            g = h.copy()
            g.op(c)
            trans += 1
            if len(hist) >= full_depth:
                seqs.append(hist + c)
            if len(g.rc) > max_nodes:
                continue
            k = g.canon()
            if k not in seen:
                if len(seen) >= max_states:
                    capped = True
                    continue
                seen.add(k)
                frontier.append((hist + c, g))
    return seqs, len(seen), trans, capped


def run(pid, ops_quick):
    quick = TIER == 'quick'
    ck = Check(pid)
    sc = ck.make_scratch()
    bin_ = sc.mcrun()
    seqs, states, trans, capped = explore(ops_quick, 3 if quick else 4, 4000 if quick else 30000, 3)
    seqs = list(dict.fromkeys(seqs))
    cases = ''.join("        case '%s': { %s break; }\n" % (k, s) for k, s in OPS.items())
    ck.count(states=states, transitions=trans)
    ck.cov['alphabet'] = len(ops_quick)
    ck.cov['bfs_state_cap_hit'] = capped
    for mode in ('interpreted', 'precompile'):
        pre = 'precompile' if mode == 'precompile' else ''
        src = SRC % dict(cases=cases, pre=pre)
        d = sc.path('cls_' + mode, 'x')[:-2]
        os.makedirs(d + '/MCT', exist_ok=True)
        open(d + '/MCT.spvm', 'w').write(src)
        open(d + '/MCT/Node.spvm', 'w').write(NODE)
        todo = seqs
        compare(ck, bin_, [d, VERIF + '/mc/driver/lib', sc.src + '/lib/SPVM'], todo, mode, src)
    ck.assumptions += ['the order in which objects of one cascade are destroyed is not specified and is compared as a set per statement',
                       'objects kept by unreachable strong cycles are expected to stay (documented)']
    ck.finish(exhaustive=not capped, bound='all sequences to depth %d; breadth-first over canonical heaps with at most 3 nodes beyond' % (3 if quick else 4))


def compare(ck, bin_, dirs, seqs, mode, src, exp=None, describe=None):
    exp = exp or expect
    describe = describe or OPS.get
    sc = ck.scratch
    pdir = sc.path('pre', 'x')[:-2] if mode == 'precompile' else None
    step = (len(seqs) + NCPU - 1) // NCPU
    parts = [seqs[i:i + step] for i in range(0, len(seqs), step)]

    def one(k):
        f = sc.path('seq', '%s_%d' % (mode, k))
        open(f, 'w').write(''.join(s + '\n' for s in parts[k]))
        return run_class(bin_, dirs, 'MCT', precompile=pdir, cc='gcc -O1 -I' + sc.inc, seq=f, lim=20, timeout=800, only='MCT')
    bad = 0
    with ThreadPoolExecutor(NCPU) as ex:
        for k, b in enumerate(ex.map(one, range(len(parts)))):
            if b.compile_error:
                ck.fail('build:' + mode, b.compile_error + '\n' + src)
                return
            if len(b.res) < len(parts[k]) and not any(r.crash for r in b.res.values()):
                ck.fail('stopped:' + mode, 'only %d of %d sequences ran\n%s' % (len(b.res), len(parts[k]), b.stderr[-800:]))
            for i, s in enumerate(parts[k]):
                r = b.res.get(i)
                if r is None:
                    continue
                tr, last, left = exp(s)
                why = None
                if r.crash:
                    why = 'crash: ' + r.crash
                elif r.err:
                    why = 'exception ' + r.msg
                else:
                    got = norm(r.trace, len(s))
                    want = tr + [([], last, '')]
                    ck.outcomes.add(hash(r.trace))
                    if got != want:
                        j = next((j for j in range(min(len(got), len(want))) if got[j] != want[j]), -1)
                        why = 'after operation %d (%s): expected (output, destroyed, state) %s, observed %s' % (
                            j, s[j:j + 1] or 'end', want[j], got[j] if j < len(got) else None)
                    elif left == 0 and r.mem != 0:
                        why = '%d memory blocks are left' % r.mem
                    elif left > 0 and r.mem < 2 * left:
                        why = '%d memory blocks are left although %d nodes are still referenced' % (r.mem, left)
                if why:
                    bad += 1
                    if bad <= 5:
                        ck.fail('%s:%s' % (mode, s), 'operations %s (%s)\n%s\n%s\n%s' % (s, mode, why, '\n'.join('  %s: %s' % (c, describe(c)) for c in s), r))
            ck.count(traces=len(b.res))
            if parts[k]:
                ck.sample('%s %s -> %s' % (mode, parts[k][-1], b.res.get(len(parts[k]) - 1)))


def main():
    run('M01', [c for c in OPS if c not in 'wtpq'])


if __name__ == '__main__':
    main()
