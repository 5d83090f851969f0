"""Exceptions: every program built from eval blocks, throws, calls, loops and destructors to a bounded depth."""
import itertools
from common import *
from lang import run_progs, legal

THROWS = [('die', 'a'), ('dieu',), ('diec', 'Error::System', 'b'), ('dieid', 'Error::NotSupported', 'c'), ('div0',), ('undef',), ('index',), ('native',)]
OBS = [('exlog',), ('idlog',)]


def chain(ctxs, inner, post):
    """inner wrapped in the contexts; after each context the exception state is observed"""
    h = []
    B = list(inner)
    for k, c in reversed(list(enumerate(ctxs))):
        if c == 'eval': B = [('eval', B)] + OBS
        elif c == 'evalobj': B = [('eval', [('obj', 10 + k)] + B + [('obj', 20 + k), ('log', 'e%d' % k)])] + OBS
        elif c == 'evalE': B = [('eval', [('obj', 10 + k, 'E')] + B)] + OBS
        elif c == 'evalF': B = [('eval', [('obj', 10 + k, 'F')] + B)] + OBS
        elif c == 'call': h.append(B); B = [('call', len(h)), ('log', 'c%d' % k)] + OBS
        elif c == 'callobj': h.append([('obj', 30 + k)] + B); B = [('obj', 40 + k), ('call', len(h)), ('log', 'c%d' % k)]
        elif c == 'catch': B = [('eval', [('die', 'first')])] + B + OBS       # thrown while another one is pending in $@
        elif c == 'before': B = [('eval', B + [('eval', [('log', 'n')])] + OBS)] + OBS    # a nested eval after the throw
        elif c == 'beforethrow': B = [('eval', [('eval', [('die', 'n')])] + OBS + B + [('eval', [('log', 'n2'), ('die', 'n2')])] + OBS)] + OBS
        elif c == 'loop': B = [('for', 2, B + [('log', 'i')])]
        elif c == 'loopeval': B = [('for', 3, [('eval', [('obj', 50 + k)] + B), ('exlog',), ('log', 'i')])]
        elif c == 'if': B = [('if', 1, B, None)]
        elif c == 'case': B = [('switch', 1, [((1,), B)], None)]
        elif c == 'set': B = [('setex', 'set')] + B + OBS
        elif c == 'clear': B = [('eval', B), ('clrex',)] + OBS
        else: raise ValueError(c)
    return [B + post] + h


CTX = ['eval', 'evalobj', 'evalE', 'evalF', 'call', 'callobj', 'catch', 'before', 'beforethrow', 'loop', 'loopeval', 'if', 'case', 'set', 'clear']


def gen(quick):
    out = []
    inner = [[t] for t in THROWS] + [[('log', 'ok')], [('return',)], [('obj', 1), ('die', 'o')], [('obj', 1, 'E'), ('die', 'o')], [('obj', 1, 'F'), ('die', 'o')],
                                     [('obj', 1, 'F'), ('log', 'x')], [('obj', 1, 'E'), ('return',)], [('setex', 'x'), ('log', 'y')], [('obj', 1, 'F'), ('setex', 'x'), ('return',)]]
    for n in (0, 1, 2, 3):
        for cs in itertools.product(CTX, repeat=n):
            for i, b in enumerate(inner):
                if n == 3 and quick and i not in (0, 1, 3, 8, 10): continue
                p = chain(cs, b, [('log', 'end')])
                if legal(p): out.append(('%s/%d' % ('>'.join(cs), i), p))
    # jumps out of eval blocks
    for cs in itertools.product(['eval', 'evalobj', 'evalF', 'if', 'before', 'catch'], repeat=2):
        for j in (('last',), ('next',), ('return',), ('at', 1, ('last',)), ('at', 0, ('next',)), ('at', 1, ('die', 'q'))):
            for lp in ('for', 'while', 'foreach'):
                p = chain(cs, [('obj', 1), j], [])
                B = [(lp, 3, p[0] + OBS + [('log', 'i')])] + OBS
                out.append(('%s{%s/%s}' % (lp, '>'.join(cs), j), [B + [('div0',)]] + p[1:]))
                out.append(('eval{%s{%s/%s}}' % (lp, '>'.join(cs), j), [[('eval', B + [('div0',)])] + OBS] + p[1:]))
    # sequences of evals and throws in one block
    E = [('eval', [('log', '1')]), ('eval', [('die', 'p')]), ('eval', [('diec', 'Error::System', 'q')]), ('eval', [('obj', 5), ('div0',)]), ('setex', 's'), ('clrex',),
         ('eval', [('eval', [('die', 'in')]), ('exlog',)]), ('eval', [('eval', [('die', 'in')]), ('die', 'out')]), ('eval', [('call', 1)]), ('call', 2), ('block', [('obj', 7, 'F')]), ('block', [('obj', 7, 'E')])]
    for n in (2, 3) if quick else (2, 3, 4):
        for seq in itertools.product(E, repeat=n):
            B = []
            for s in seq: B += [s] + OBS
            out.append(('seq %s' % (seq,), [B, [('obj', 8), ('diec', 'Error::NotSupported', 'h')], [('eval', [('die', 'sub')]), ('idlog',)]]))
    # deep call chains: the stack trace stops growing at a depth of 100
    for depth in (1, 2, 3, 5, 20, 60, 90) if quick else list(range(1, 96)):
        out.append(('depth %d' % depth, [[('eval', [('call', 1)])] + OBS] + [[('obj', k), ('call', k + 1)] for k in range(1, depth)] + [[('die', 'deep')]]))
    return out


def main():
    quick = TIER == 'quick'
    ck = Check('M06')
    sc = ck.make_scratch()
    bin_ = sc.mcrun(asan=False)
    progs = gen(quick)
    pre = [p for i, p in enumerate(progs) if p[0].count('>') < 2 and not (p[0].startswith('seq') and p[0].count("('eval'") > 3)] if quick else progs
    ck.count(states=len(progs))
    run_progs(ck, bin_, progs, modes=('interpreted',), chunk=300)
    run_progs(ck, bin_, pre, modes=('precompile',), chunk=60)
    ck.finish(bound='all nests to depth 3 of 15 exception contexts around 16 bodies; all sequences of 12 statements; jumps out of eval blocks', programs=len(progs), precompiled=len(pre))
