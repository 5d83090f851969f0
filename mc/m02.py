"""M02: weak references. Two explorations: the single-letter heap of M01 with weaken/unweaken in the alphabet, and one with
many weak holders of the same targets, whose states include the order in which the references were weakened."""
import collections
from common import *
import m01

H = 3
NH = 3   # set by main


def src(pre, n):
    c = []
    for i in range(n):
        for j in range(2):
            c.append("case '%s': { if ($h%d && $t%d) { $h%d->{x} = $t%d; } break; }" % ('abcdefghij'[i * 2 + j], i, j, i, j))
        c.append("case '%d': { if ($h%d) { weaken $h%d->{x}; } break; }" % (i, i, i))
        c.append("case '%s': { if ($h%d) { unweaken $h%d->{x}; } break; }" % ('klmno'[i], i, i))
        c.append("case '%s': { if ($h%d) { $h%d->{x} = undef; } break; }" % ('pqrst'[i], i, i))
        c.append("case '%s': { $h%d = undef; break; }" % ('vwxyz'[i], i))
        c.append("case '%s': { if ($h%d) { my $k = $h%d->{x}; $t0 = $k; } break; }" % ('ABCDE'[i], i, i))
    for j in range(2):
        c.append("case '%s': { $t%d = undef; break; }" % ('XY'[j], j))
    c.append("case 'N': { $t0 = MCT::Node->new($next++); break; }")
    show = ''.join('if ($h%d) { my $v = $h%d->{x}; if ($v) { MCLog->i($v->{id}); } else { MCLog->s("u"); } MCLog->i(isweak $h%d->{x}); } else { MCLog->s("-"); }\n' % (i, i, i) for i in range(n))
    return '''class MCT { use MCLog; use MCT::Node;
  %s static method run : void ($ops : string) {
    my $len = length $ops; my $next = 20;
    my $t0 = MCT::Node->new(10); my $t1 = MCT::Node->new(11);
    %s
    for (my $i = 0; $i < $len; $i++) {
      MCLog->s("|");
      switch ((int)$ops->[$i]) {
        %s
      }
      MCLog->s("=");
      %s
      if ($t0) { MCLog->i(MCLog->rc($t0)); }
      if ($t1) { MCLog->i(MCLog->rc($t1)); }
    }
    MCLog->s("|");
    $t0 = undef; $t1 = undef; %s
    MCLog->s("=");
  }
}''' % (pre, ' '.join('my $h%d = MCT::Node->new(%d);' % (i, i) for i in range(n)), '\n        '.join(c), show, ' '.join('$h%d = undef;' % i for i in range(n)))


class M:
    def __init__(s, n):
        s.n = n
        s.h = [[None, 0] for _ in range(n)]      # [target, weak] or None
        s.t = [10, 11]
        s.rc = {10: 1, 11: 1}
        s.order = {10: [], 11: []}               # holders in the order they were weakened
        s.next = 20
        s.log = []

    def copy(s):
        m = M.__new__(M)
        m.n = s.n; m.h = [None if x is None else list(x) for x in s.h]; m.t = list(s.t); m.rc = dict(s.rc)
        m.order = {k: list(v) for k, v in s.order.items()}; m.next = s.next; m.log = []
        return m

    def dec(s, t):
        if t is None: return
        s.rc[t] -= 1
        if s.rc[t] == 0:
            s.log.append(t); del s.rc[t]
            for i in s.order.pop(t): s.h[i] = [None, 0]

    def setx(s, i, t):
        old, w = s.h[i]
        if t is not None: s.rc[t] += 1
        s.h[i] = [t, 0]
        if w: s.order[old].remove(i)
        else: s.dec(old)

    def op(s, c):
        for i in range(s.n):
            x = s.h[i]
            for j in range(2):
                if c == 'abcdefghij'[i * 2 + j]:
                    if x is not None and s.t[j] is not None: s.setx(i, s.t[j])
                    return
            if c == str(i):
                if x is not None and x[0] is not None and not x[1]:
                    x[1] = 1
                    s.order[x[0]].append(i)
                    s.dec(x[0])
                return
            if c == 'klmno'[i]:
                if x is not None and x[1]:
                    s.rc[x[0]] += 1; s.order[x[0]].remove(i); x[1] = 0
                return
            if c == 'pqrst'[i]:
                if x is not None: s.setx(i, None)
                return
            if c == 'vwxyz'[i]:
                if x is not None:
                    s.log.append(i)
                    s.setx(i, None); s.h[i] = None
                return
            if c == 'ABCDE'[i]:
                if x is not None:
                    if x[0] is not None: s.rc[x[0]] += 1
                    old = s.t[0]; s.t[0] = x[0]; s.dec(old)
                return
        if c in 'XY':
            j = 'XY'.index(c); old = s.t[j]; s.t[j] = None; s.dec(old)
        if c == 'N':
            k = s.next; s.next += 1; s.rc[k] = 1; s.order[k] = []
            old = s.t[0]; s.t[0] = k; s.dec(old)

    def show(s):
        out = ''
        for x in s.h:
            out += 's-;' if x is None else ('%d;' % x[0] if x[0] is not None else 'su;') + '%d;' % x[1]
        for t in s.t:
            if t is not None: out += '%d;' % s.rc[t]
        return out

    def canon(s):
        ren = {}
        for t in s.t + [x[0] for x in s.h if x]:
            if t is not None: ren.setdefault(t, len(ren))
        return (tuple(None if x is None else (ren.get(x[0]), x[1]) for x in s.h), tuple(ren.get(t) for t in s.t),
                tuple(sorted((ren[t], tuple(o)) for t, o in s.order.items() if t in ren)))


def alphabet(n):
    a = ''
    for i in range(n):
        a += 'abcdefghij'[i * 2:i * 2 + 2] + str(i) + 'klmno'[i] + 'pqrst'[i] + 'vwxyz'[i] + 'ABCDE'[i]
    return a + 'XYN'


def expect(seq, n):
    m = M(n); tr = []
    for c in seq:
        m.op(c); tr.append(([], sorted(m.log), m.show())); m.log = []
    last = list(m.log)
    for j in range(2):
        old = m.t[j]; m.t[j] = None; m.dec(old)
    for i in range(n):
        if m.h[i] is not None:
            m.log.append(i); m.setx(i, None); m.h[i] = None
    return tr, sorted(m.log), 0


def search(n, max_states):
    al = alphabet(n)
    seen = {M(n).canon()}
    fr = collections.deque([('', M(n))])
    seqs, capped = [], False
    covered = set()
    while fr:
        hist, m = fr.popleft()
        for c in al:
            g = m.copy(); g.op(c)
            k = g.canon()
            seqs.append(hist + c)
            if k not in seen:
                if len(seen) >= max_states: capped = True; continue
                seen.add(k); fr.append((hist + c, g))
    return seqs, len(seen), capped


class Shim:
    pass


def main():
    quick = TIER == 'quick'
    ck = Check('M02')
    sc = ck.make_scratch()
    bin_ = sc.mcrun()
    ops = [c for c in m01.OPS if c in 'nuvcCxXsyYwtgeflkpqd']
    seqs, states, trans, capped = m01.explore(ops, 3 if quick else 4, 2500 if quick else 30000, 3)
    ck.count(states=states, transitions=trans)
    seqs = list(dict.fromkeys(seqs))
    n = 4
    seqs2, st2, cap2 = search(n, 20000 if quick else 200000)
    ck.count(states=st2, transitions=len(seqs2))
    cases = ''.join("        case '%s': { %s break; }\n" % (k, s) for k, s in m01.OPS.items())
    for mode in ('interpreted', 'precompile'):
        pre = 'precompile' if mode == 'precompile' else ''
        for which in (0, 1):
            text = m01.SRC % dict(cases=cases, pre=pre) if which == 0 else src(pre, n)
            d = sc.path('cls_%s%d' % (mode, which), 'x')[:-2]
            os.makedirs(d + '/MCT', exist_ok=True)
            open(d + '/MCT.spvm', 'w').write(text)
            open(d + '/MCT/Node.spvm', 'w').write(m01.NODE)
            dirs = [d, VERIF + '/mc/driver/lib', sc.src + '/lib/SPVM']
            if which == 0:
                m01.compare(ck, bin_, dirs, seqs, mode, text)
            else:
                m01.compare(ck, bin_, dirs, seqs2, mode, text, exp=lambda s: expect(s, n), describe=lambda c: 'case %s' % c)
    ck.assumptions += ['the order in which objects of one cascade are destroyed is compared as a set per statement']
    ck.finish(exhaustive=not (capped or cap2), bound='heap: all sequences to depth %d and breadth-first states (cap hit: %s); weak holders: %d holders of 2 targets, states with weakening order (cap hit: %s)' % (3 if quick else 4, capped, n, cap2))
