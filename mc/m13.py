"""Control flow: every nest of control constructs with every jump inside, with scoped objects at every level."""
import itertools
from common import *
from lang import run_progs, legal

CTX = ['block', 'if', 'ifelse', 'elsif2', 'elsif3', 'unless', 'while', 'for', 'foreach', 'case', 'casemulti', 'default', 'eval', 'call']


def wrap(ctx, B, helpers, lv):
    L = lambda s: ('log', '%s%d' % (s, lv))
    if ctx == 'block': return [('block', B)]
    if ctx == 'if': return [('if', 1, B, [L('no')])]
    if ctx == 'ifelse': return [('if', 0, [L('no')], B)]
    if ctx == 'elsif2': return [('elsif', 0, [L('no')], 1, B, [L('no')])]
    if ctx == 'elsif3': return [('elsif', 0, [L('no')], 0, [L('no')], B)]
    if ctx == 'unless': return [('unless', 0, B, None)]
    if ctx in ('while', 'for', 'foreach'): return [(ctx, 3, B)]
    if ctx == 'case': return [('switch', 3, [((1,), [L('no')]), ((3,), B), ((4,), [L('no')])], [L('no')])]
    if ctx == 'casemulti': return [('switch', 2, [((5, 2, -9), B), ((7,), [L('no')])], None)]
    if ctx == 'default': return [('switch', 6, [((1,), [L('no')]), ((7,), [L('no')])], B)]
    if ctx == 'eval': return [('eval', B), ('exlog',)]
    if ctx == 'call':
        helpers.append(B)
        return [('call', len(helpers))]
    raise ValueError(ctx)


JUMPS = [None, ('last',), ('next',), ('break',), ('return',), ('die', 'x'), ('div0',),
         ('at', 0, ('next',)), ('at', 1, ('last',)), ('at', 1, ('next',)), ('at', 1, ('break',)), ('at', 2, ('return',)), ('at', 1, ('die', 'y'))]


def nest(ctxs, jump, shape):
    helpers = []
    B = [('log', 'in'), ('obj', 90)] + ([jump] if jump else []) + [('log', 'after')]
    for k, c in reversed(list(enumerate(ctxs))):
        B = wrap(c, B, helpers, k)
        if shape == 0: B = [('obj', k * 2)] + B + [('log', 'p%d' % k)]
        elif shape == 1: B = [('log', 'a%d' % k)] + B + [('obj', k * 2), ('log', 'p%d' % k)]
        else: B = [('obj', k * 2), ('log', 'a%d' % k)] + B + [('reobj', k * 2 + 1), ('obj', 50 + k), ('log', 'p%d' % k)]
    return [B] + helpers


def gen(quick):
    out = []
    for n in (1, 2, 3):
        for cs in itertools.product(CTX, repeat=n):
            for j in JUMPS:
                if n == 3 and quick and j is not None and j[0] == 'at' and j != ('at', 1, ('last',)): continue
                for sh in ((0, 1, 2) if n < 3 else (2,)):
                    p = nest(cs, j, sh)
                    if legal(p): out.append(('%s/%s/%d' % ('>'.join(cs), j, sh), p))
    # sequences: two constructs one after the other inside a third
    J2 = [('last',), ('next',), ('break',), ('return',), ('at', 1, ('next',)), ('at', 1, ('last',)), ('die', 'z'), None]
    for o in ('while', 'for', 'foreach', 'case', 'eval', 'block'):
        for a, b in itertools.product(CTX, repeat=2):
            for j1, j2 in itertools.product(J2, repeat=2):
                if quick and (a in ('unless', 'elsif2', 'casemulti') or b in ('unless', 'elsif2', 'casemulti')): continue
                if (j1 is not None and j2 is not None) and quick and o not in ('for', 'case'): continue
                h = []
                B = wrap(a, [('obj', 1)] + ([j1] if j1 else []) + [('log', 'a')], h, 1) + [('obj', 3), ('log', 'm')] + \
                    wrap(b, [('obj', 2), ('log', 'b')] + ([j2] if j2 else []), h, 2) + [('log', 'e')]
                p = [[('obj', 9)] + wrap(o, B, h, 0) + [('log', 'end')]] + h
                # numbering of helpers: wrap appends in order, the outer context is never a call
                if legal(p): out.append(('%s{%s/%s %s/%s}' % (o, a, j1, b, j2), p))
    return out


def main():
    quick = TIER == 'quick'
    ck = Check('M13')
    sc = ck.make_scratch()
    bin_ = sc.mcrun(asan=False)
    progs = gen(quick)
    small = [p for p in progs if p[0].count('>') < 2 and '{' not in p[0]]
    ck.count(states=len(progs))
    run_progs(ck, bin_, progs, modes=('interpreted',), chunk=300)
    run_progs(ck, bin_, small if quick else progs, modes=('precompile',), chunk=60)
    ck.finish(bound='all nests of 14 control constructs to depth 3 around 13 jumps, and pairs in sequence inside a third', programs=len(progs))
