"""Generic exploration of operation sequences on real objects: a reference model is explored exhaustively (all sequences to a depth, then
breadth first over the states of the model) and every transition is replayed on the implementation, interpreted and precompiled."""
import collections
from common import *
from seqs import run_seqs


def explore(new, ops, depth, max_states, bound=None, max_depth=99):
    """all sequences of `depth` operations, then one representative per state; returns (sequences, expectations, states, transitions, capped)"""
    seqs, seen, capped = {}, set(), False
    m0 = new()
    fr = collections.deque([('', m0, m0.show())])
    seen.add(m0.canon())
    trans = 0
    while fr:
        hist, m, tr = fr.popleft()
        leaf = True
        for c in ops:
            g = m.copy()
            w = g.op(c)
            if w is None: continue                     # not enabled in this state
            trans += 1; leaf = False
            t = tr + 's|;' + w + g.show()
            k = g.canon()
            if (bound and bound(g)) : 
                seqs[hist + c] = t; continue
            if len(hist) + 1 < depth:
                seen.add(k); fr.append((hist + c, g, t))
            elif k not in seen and len(hist) + 1 < max_depth:
                if len(seen) >= max_states: capped = True; seqs[hist + c] = t; continue
                seen.add(k); fr.append((hist + c, g, t))
            else:
                seqs[hist + c] = t
        if leaf and hist: seqs[hist] = tr
    return seqs, len(seen), trans, capped


def source(cls, uses, pre, setup, cases, show, end, members=''):
    return '''class %s {
  %s
  %s
  %s static method run : void ($ops : string) {
    my $len = length $ops;
    %s
    %s
    for (my $op_i = 0; $op_i < $len; $op_i++) {
      MCLog->s("|");
      eval {
        switch ((int)$ops->[$op_i]) {
        %s
        }
      }
      if ($@) { MCLog->s("E"); }
      %s
    }
    %s
  }
}''' % (cls, uses, members.replace('%PRE%', pre), pre, setup, show, '\n        '.join("case '%s': { %s break; }" % (k, s) for k, s in cases.items()), show, end)


def check(ck, bin_, name, new, ops, uses, setup, show, end='', members='', depth=2, max_states=2000, max_depth=99, bound=None, modes=('interpreted', 'precompile'), files=None, mem=True, lim=20):
    """ops: letter -> statements. The model has op(letter) -> text logged by the operation ('sE;' if it throws) or None, show(), copy(), canon()."""
    sc = ck.scratch
    seqs, states, trans, capped = explore(new, list(ops), depth, max_states, bound, max_depth)
    ck.count(states=states, transitions=trans)
    for mode in modes:
        pre = 'precompile' if mode == 'precompile' else ''
        text = source('MCT', 'use MCLog; ' + uses, pre, setup, ops, show, end, members)
        d = sc.path('mach_%s_%s' % (name, mode), 'x')[:-2]
        os.makedirs(d, exist_ok=True)
        open(d + '/MCT.spvm', 'w', encoding='latin-1').write(text)
        for n, t in (files or {}).items(): open(os.path.join(d, n), 'w', encoding='latin-1').write(t.replace('%PRE%', pre))
        run_seqs_keyed(ck, bin_, [d, VERIF + '/mc/driver/lib', sc.src + '/lib/SPVM'], name, list(seqs), seqs, mode, text, d if mode == 'precompile' else None, mem, lim, ops)
    ck.sample('%s: %d states, %d transitions, %d sequences%s' % (name, states, trans, len(seqs), ', capped' if capped else ''))
    return capped


def run_seqs_keyed(ck, bin_, dirs, name, seqs, expect, mode, src, pdir, mem, lim, ops):
    sc = ck.scratch
    nsplit = NCPU
    step = (len(seqs) + nsplit - 1) // nsplit or 1
    parts = [seqs[i:i + step] for i in range(0, len(seqs), step)]

    def one(k):
        f = sc.path('seq', '%s_%s_%d' % (name, mode, k))
        with open(f, 'w', encoding='latin-1') as fh: fh.write(''.join(s + '\n' for s in parts[k]))
        return run_class(bin_, dirs, 'MCT', precompile=pdir, cc='gcc -O1 -I' + sc.inc, seq=f, lim=lim, timeout=800)
    bad = 0
    def say(s): return '; '.join(ops[c] for c in s)
    with ThreadPoolExecutor(NCPU) as ex:
        for k, b in enumerate(ex.map(one, range(len(parts)))):
            if b.compile_error:
                ck.fail('%s:%s:build' % (name, mode), 'the %s program is not built or does not start:\n%s\n%s' % (mode, b.compile_error, src)); return
            for i, s in enumerate(parts[k]):
                r = b.res.get(i)
                if r is None: continue
                want = expect[s]
                why = None
                if r.crash: why = 'the process dies: ' + str(r.crash)
                elif r.err: why = 'exception %s' % r.msg
                elif r.trace != want:
                    a, w = r.trace.split('|;'), want.split('|;')
                    j = next((j for j in range(min(len(a), len(w))) if a[j] != w[j]), min(len(a), len(w)))
                    why = 'after operation %d (%s)\n  expected %s\n  observed %s' % (j, ops.get(s[j - 1]) if 0 < j <= len(s) else 'start', w[j] if j < len(w) else '(end)', a[j] if j < len(a) else '(end)')
                elif mem and r.mem: why = '%d memory blocks left' % r.mem
                ck.outcomes.add(hash(r.trace))
                if why:
                    bad += 1
                    if bad <= 4: ck.fail('%s:%s:%s' % (name, mode, s), '%s, %s: %s\noperations: %s\nexpected trace %s\nobserved trace %s\nprogram:\n%s' % (name, mode, why, say(s), want, r.trace, src))
            n = len(b.res)
            if n < len(parts[k]) and not any(r.crash for r in b.res.values()):
                ck.fail('%s:%s:stopped' % (name, mode), 'only %d of %d sequences were run: %s' % (n, len(parts[k]), b.stderr[-1000:]))
            if b.end and b.end[0] not in (0, None): ck.fail('%s:%s:teardown' % (name, mode), 'memory blocks left at the end: %s' % (b.end,))
            ck.count(traces=n)
