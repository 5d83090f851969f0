"""Class initialisation: every graph of use and extends statements of three classes (with cycles), from every root; INIT blocks run exactly once, in an order the documentation allows."""
import itertools
from common import *
from progs import Item, run_items


def orders(n, use, par, roots):
    """every order that a depth-first run from the roots can give; which root is first is not documented"""
    out = set()
    for perm in itertools.permutations(range(n)):
        seen, log = set(), []
        def init(c):
            if c in seen: return
            seen.add(c)
            if par[c] is not None: init(par[c])
            for u in use[c]: init(u)
            log.append(c)
        for r in perm: init(r)
        out.add(''.join('ABCD'[c] for c in log))
    return out


def reach(use, par, r):
    s, w = set(), [r]
    while w:
        c = w.pop()
        if c in s: continue
        s.add(c); w += list(use[c]) + ([par[c]] if par[c] is not None else [])
    return s


def parents(n):
    for p in itertools.product(*[[None] + [x for x in range(n) if x != c] for c in range(n)]):
        ok = True
        for c in range(n):
            x, k = p[c], 0
            while x is not None and k <= n: x = p[x]; k += 1
            if k > n: ok = False
        if ok: yield p


def graphs(n, ordered):
    opts = []
    for c in range(n):
        o = [x for x in range(n) if x != c]
        opts.append([p for k in range(n) for p in (itertools.permutations if ordered else itertools.combinations)(o, k)])
    for use in itertools.product(*opts):
        for par in parents(n): yield use, par


def build(k, n, use, par, root, blocks):
    g = 'G%d' % k
    files = {g + 'R.spvm': 'class %sR { our $S : ro string; our $N : ro int; %%PRE%% static method add : void ($s : string) { if ($S) { $S .= $s; } else { $S = $s; } $N++; } }' % g}
    for c in reach(use, par, root):
        X = 'ABCD'[c]
        nb = blocks[c]
        text = 'class %s%s%s { use %sR; %s our $V : ro int; %%PRE%% static method v : int () { return $V; }' % (g, X, ' extends %s%s' % (g, 'ABCD'[par[c]]) if par[c] is not None else '', g, ''.join('use %s%s; ' % (g, 'ABCD'[u]) for u in use[c]))
        for b in range(nb): text += ' INIT { %sR->add("%s%d"); $V = $V * 10 + %d; }' % (g, X, b, b + 1)
        # a class is ready before the ones that use it, where the order is determined: it sees their values
        files['%s%s.spvm' % (g, X)] = text + ' }'
    cs = sorted(reach(use, par, root))
    # only the classes that are loaded are initialised
    m = {c: i for i, c in enumerate(cs)}
    allowed = set()
    for o in orders(len(cs), [tuple(m[u] for u in use[c]) for c in cs], [None if par[c] is None else m[par[c]] for c in cs], None):
        allowed.add(''.join(''.join('%s%d' % ('ABCD'[cs['ABCD'.index(x)]], b) for b in range(blocks[cs['ABCD'.index(x)]])) for x in o))
    vals = ''.join('%d;' % [0, 1, 12, 123][blocks[c]] for c in cs)
    def norm(s, allowed=allowed):
        h, _, t = s.partition(';')
        return 'ok;' + t if (h[1:] if h[:1] == 's' else '') in allowed or (h == 'U' and '' in allowed) else s
    body = 'MCLog->s(%sR->S); ' % g + ' '.join('MCLog->i(%s%s->v);' % (g, 'ABCD'[c]) for c in cs)
    # calling INIT again does nothing
    body += ' my $n = %sR->N; ' % g + ' '.join('%s%s->INIT;' % (g, 'ABCD'[c]) for c in cs) + ' MCLog->i(%sR->N == $n);' % g
    ident = 'use %r extends %r root %s blocks %r' % (use, par, 'ABCD'[root], blocks)
    return files, g + 'ABCD'[root], [g + 'ABCD'[c] for c in cs], Item(body, 'ok;' + vals + '1;', ident, norm=norm)


def main():
    quick = TIER == 'quick'
    ck = Check('M27')
    sc = ck.make_scratch()
    bin_ = sc.mcrun(asan=True)
    jobs, k = [], 0
    for n, ordered in ((1, True), (2, True), (3, True)) + (() if quick else ((4, False),)):
        for i, (use, par) in enumerate(graphs(n, ordered)):
            if n == 4 and i % 40: continue
            if quick and n == 3 and sum(p is not None for p in par) > 1 and sum(map(len, use)) > 2: continue
            for root in range(n):
                if len(reach(use, par, root)) < n: continue   # a smaller graph
                for blocks in ([1] * n, [2] * n, [1, 0, 3, 1][:n]) if n < 3 else ([[1, 2, 0, 1], [2, 1, 1, 0], [1, 1, 3, 2]][k % 3][:n],):
                    jobs.append(build(k, n, use, par, root, tuple(blocks))); k += 1
    ck.count(states=len(jobs))
    step = 60
    for a in range(0, len(jobs), step):
        part = jobs[a:a + step]
        files = {}
        for f, _, _, _ in part: files.update(f)
        uses = 'use MCLog; ' + ' '.join('use %s; use %sR;' % (r, r[:-1]) for _, r, _, _ in part)
        run_items(ck, bin_, [j[3] for j in part], modes=('interpreted',), files=files, uses=uses, chunk=step)
    ck.finish(bound='every graph of use (in every order) and extends statements of up to 3 classes%s from every root, with 0 to 3 INIT blocks' % (' with at most one parent or two uses' if quick else ' and every 40th of 4'), methods=len(jobs))


if __name__ == '__main__':
    main()
