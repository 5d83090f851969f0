"""Batches of test methods: each item is (statements, expected trace parts...). Run interpreted and precompiled and compared."""
import os
from common import *


class Item:
    __slots__ = ('body', 'want', 'err', 'msg', 'mem', 'ident', 'decl', 'norm')
    def __init__(self, body, want, ident, err=0, msg=None, mem=0, decl='', norm=None):
        self.body, self.want, self.ident, self.err, self.msg, self.mem, self.decl, self.norm = body, want, ident, err, msg, mem, decl, norm


def run_items(ck, bin_, items, modes=('interpreted', 'precompile'), header='', files=None, chunk=200, cc_opt='-O0', cls='MCT', only='MCT', uses='use MCLog;', per_method_limit=20, classattr=''):
    """items -> methods t0.. of chunked classes."""
    sc = ck.scratch
    jobs = []
    for mode in modes:
        for c in range(0, len(items), chunk):
            jobs.append((mode, c))

    def one(job):
        mode, c = job
        pre = 'precompile ' if mode == 'precompile' else ''
        part = items[c:c + chunk]
        src = ['class %s%s {\n%s\n%s\n' % (cls, classattr, uses, header.replace('%PRE%', pre))]
        for i, it in enumerate(part):
            if it.decl:
                src.append(it.decl.replace('%PRE%', pre).replace('%N%', str(i)))
            src.append('%sstatic method t%d : void () {\n%s\n}\n' % (pre, i, it.body.replace('%N%', str(i))))
        src.append('}\n')
        src = ''.join(src)
        d = sc.path('p_%s_%s_%d' % (cls, mode, c), 'x')[:-2]
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, cls + '.spvm'), 'w', encoding='latin-1').write(src)
        for name, text in (files or {}).items():
            p = os.path.join(d, name); os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, 'w', encoding='latin-1').write(text.replace('%PRE%', pre))
        b = run_class(bin_, [d, VERIF + '/mc/driver/lib', sc.src + '/lib/SPVM'], cls, precompile=d if mode == 'precompile' else None,
                      cc='gcc %s -fwrapv -fno-strict-aliasing -I%s' % (cc_opt, sc.inc), only=only, lim=per_method_limit, timeout=800)
        return job, b, src
    nbad = 0
    with ThreadPoolExecutor(NCPU) as ex:
        for (mode, c), b, src in ex.map(one, jobs):
            part = items[c:c + chunk]
            if b.compile_error:
                nbad += 1
                if nbad <= 1:
                    ck.fail('%s:%s:%d:build' % (cls, mode, c), 'the %s class is not built or does not start:\n%s\n%s' % (mode, b.compile_error[:3000], src[:6000]))
                continue
            for i, it in enumerate(part):
                r = b.res.get(i)
                if r is None:
                    nbad += 1
                    if nbad <= 8:
                        ck.fail('%s:%s:notrun' % (mode, it.ident), 'was not run: %s %s' % (b.end, b.stderr[-600:]))
                    continue
                got = it.norm(r.trace) if it.norm and not r.crash else r.trace
                want = (it.norm(it.want) if it.norm else it.want).replace('%N%', str(i))
                ck.outcomes.add(hash(r.trace))
                bad = None
                if r.crash: bad = 'the process dies: ' + r.crash
                elif it.err is not None and r.err != it.err and not (it.err < 0 and r.err > 0): bad = 'error id %d (%s), expected %d' % (r.err, unesc(r.msg), it.err)
                elif it.msg is not None and r.msg != it.msg: bad = 'exception %r, expected %r' % (unesc(r.msg), unesc(it.msg))
                elif got != (want or '-'): bad = diff(got, want or '-')
                elif it.mem is not None and r.mem != it.mem: bad = '%d memory blocks left, expected %d' % (r.mem, it.mem)
                if bad:
                    if nbad >= 8 or not ck.fail('%s:%s' % (mode, it.ident), '%s, %s\n%s\nprogram:\n%s\n%s' % (it.ident, mode, bad, it.decl, it.body)): nbad += 1
            if b.end and b.end[0]:
                nbad += 1
                ck.fail('%s:%s:%d:teardown' % (cls, mode, c), 'memory blocks left after teardown: %s' % (b.end,))
            ck.count(traces=len(b.res))
            if part:
                ck.sample('%s %s: %s' % (mode, part[-1].ident, str(b.res.get(len(part) - 1))[:200]))
    return nbad


def diff(got, want):
    g, w = str(got).split(';'), str(want).split(';')
    for k in range(max(len(g), len(w))):
        x = g[k] if k < len(g) else '<end>'
        y = w[k] if k < len(w) else '<end>'
        if x != y:
            return 'observation %d: expected %s, observed %s (observed %s ... %s)' % (k, y, x, ';'.join(g[max(0, k - 4):k]), ';'.join(g[k:k + 4]))
    return 'expected %s observed %s' % (want, got)
