"""Runs operation sequences (one per line) through a class's method `run` and compares every record with the model's."""
import os, re
from concurrent.futures import ThreadPoolExecutor
from common import *


def write_class(scratch, name, src):
    d = scratch.path('cls_' + name, 'x')[:-2]
    with open(os.path.join(d, name + '.spvm'), 'w', encoding='latin-1') as f:
        f.write(src)
    return d


def run_seqs(check, bin_, dirs, cls, seqs, expect, mode, cc=None, what='sequence', limit_report=6, src=None, nsplit=None, lim=20):
    """expect(seq) -> (err_or_None, msg_or_None, mem_or_None, trace). Only what is not None is compared."""
    scratch = check.scratch
    nsplit = nsplit or NCPU
    pdir = None
    if mode == 'precompile':
        pdir = scratch.path('pre_' + cls, 'x')[:-2]
    step = (len(seqs) + nsplit - 1) // nsplit or 1
    parts = [seqs[i:i + step] for i in range(0, len(seqs), step)]

    def one(k):
        f = scratch.path('seq', '%s_%s_%d' % (cls, mode, k))
        with open(f, 'w', encoding='latin-1') as fh:
            fh.write(''.join(s + '\n' for s in parts[k]))
        return run_class(bin_, dirs, cls, precompile=pdir, cc=cc or 'gcc -O1 -I' + scratch.inc, seq=f, lim=lim, timeout=800)
    bad = 0
    with ThreadPoolExecutor(NCPU) as ex:
        for k, b in enumerate(ex.map(one, range(len(parts)))):
            if b.compile_error:
                check.fail('%s:%s:build' % (cls, mode), 'the %s program is not built or does not start:\n%s\n%s' % (mode, b.compile_error, src or ''))
                return
            for i, s in enumerate(parts[k]):
                e = expect(s)
                r = b.res.get(i)
                if r is None:
                    if bad < limit_report:
                        pass
                    continue
                ok = not r.crash and all(x is None or x == y for x, y in zip(e, (r.err, r.msg, r.mem, r.trace)))
                if not ok:
                    bad += 1
                    if bad <= limit_report:
                        check.fail('%s:%s:%s' % (cls, mode, s), '%s %r, %s\nexpected (error, message, memory blocks left, trace):\n  %s\nobserved:\n  %s\nprogram:\n%s' %
                                   (what, s, mode, e, r, src or ''))
            n = len(b.res)
            if n < len(parts[k]) and not any(r.crash for r in b.res.values()):
                check.fail('%s:%s:stopped' % (cls, mode), 'only %d of %d %ss were run: %s' % (n, len(parts[k]), what, b.stderr[-1000:]))
            if b.end and b.end[0] not in (0, None):
                check.fail('%s:%s:teardown' % (cls, mode), 'memory blocks left after the class variables are released: %s' % (b.end,))
            check.count(traces=n)
    return bad
