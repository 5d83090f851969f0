"""Acceptance of classes: each case is (ident, class source, accepted?); every class is compiled on the real compiler."""
import os, subprocess
from common import *
from m10 import anon_bin


def accept(ck, sc, dirs, cases, what='accept', refused=None):
    bin_ = anon_bin(sc)
    n = NCPU * 2

    def one(k):
        part = cases[k::n]
        p = sc.path('acc_%s_%d' % (what, k))
        with open(p, 'w', encoding='latin-1') as o:
            for _, body, _ in part: o.write(body.replace('\n', '\x01') + '\n')
        r = subprocess.run([bin_, p] + dirs + [VERIF + '/mc/driver/lib', sc.src + '/lib/SPVM'], capture_output=True, text=True, errors='replace', env=dict(os.environ, **SAN_ENV))
        got = {}
        for l in r.stdout.split('\n'):
            if l.startswith('R '):
                a = l.split(' '); got[int(a[1])] = (int(a[2]), a[3])
        return part, got, r
    nbad = 0
    with ThreadPoolExecutor(NCPU) as ex:
        for part, got, r in ex.map(one, range(n)):
            for i, (ident, body, want) in enumerate(part):
                if i not in got:
                    nbad += 1
                    if nbad < 8: ck.fail('%s:%s' % (what, ident), 'compiling the class ends the process: %s\n%s' % (body, summarize_san(r.stderr) if r.stderr else r.returncode))
                    break
                e, msg = got[i]
                ck.outcomes.add((ident.split(' ')[0], e != 0))
                if e != 0 and refused is not None: refused.add(ident)
                if (e == 0) != want:
                    nbad += 1
                    if nbad < 400: ck.fail('%s:%s' % (what, ident), '%s: %s\n%s\n%s' % (ident, 'compiled, although it must be refused' if e == 0 else 'does not compile, although it is correct', body, unesc(msg)))
            ck.count(traces=len(got), states=len(got))
            if part: ck.sample('%s -> %s' % (part[-1][0], got.get(len(part) - 1)))
    return nbad
