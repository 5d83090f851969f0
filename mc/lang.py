"""A fragment of the language (control flow, scopes, exceptions, calls) with a printer and a reference interpreter.

Statements are tuples:
 ('log',s) ('obj',n[,kind]) ('reobj',n)            log a mark; declare a local object whose DESTROY logs; replace the last declared local
 ('block',B) ('if',k,B,E) ('unless',k,B,E) ('elsif',k1,B1,k2,B2,E)
 ('while',n,B) ('for',n,B) ('foreach',n,B) ('switch',v,[(case...),B],D)
 ('at',i,S)                                        S in iteration i of the innermost loop only
 ('last',) ('next',) ('break',) ('return',)
 ('die',m) ('diec',cls,m) ('dieid',cls,m) ('div0',) ('undef',) ('index',) ('native',)
 ('eval',B) ('call',k) ('exlog',) ('idlog',) ('setex',m) ('clrex',)
A program is a list of bodies: body 0 is the method itself, body k the helper k."""

FILE = 'MCT.spvm'
ID = {'Error': 18}


class Return(Exception): pass
class Last(Exception): pass
class Next(Exception): pass
class Break(Exception): pass
class Die(Exception):
    def __init__(self, msg, cls): self.msg, self.cls = msg, cls


MSG_DIV = 'A value of an integer type cannnot be divided by 0.'
MSG_UNDEF = '?undef'


class Printer:
    def __init__(self, name):
        self.name, self.n, self.lines, self.u = name, 0, [], 0
        self.line = {}
        self.loop = []
        self.objs = []

    def out(self, s):
        self.lines.append('  ' + s)

    def uid(self):
        self.u += 1
        return self.u

    def body(self, B):
        k = len(self.objs)
        for s in B:
            self.stmt(s)
        del self.objs[k:]

    def stmt(self, s):
        t = s[0]
        self.line.setdefault(id(s), len(self.lines))
        o = self.out
        if t == 'log': o('MCLog->s("%s");' % s[1])
        elif t == 'obj':
            u = self.uid(); self.objs.append(u)
            o('my $o%d = MCT::%s->new(%d);' % (u, s[2] if len(s) > 2 else 'D', s[1]))
        elif t == 'reobj': o('$o%d = MCT::D->new(%d);' % (self.objs[-1], s[1]))
        elif t == 'block': o('{'); self.body(s[1]); o('}')
        elif t in ('if', 'unless'):
            o('%s (MCT::V->v(%d)) {' % (t, s[1])); self.body(s[2])
            if s[3] is not None: o('}'); o('else {'); self.body(s[3])
            o('}')
        elif t == 'elsif':
            o('if (MCT::V->v(%d)) {' % s[1]); self.body(s[2]); o('}'); o('elsif (MCT::V->v(%d)) {' % s[3]); self.body(s[4])
            if s[5] is not None: o('}'); o('else {'); self.body(s[5])
            o('}')
        elif t in ('while', 'for', 'foreach'):
            u = self.uid()
            if t == 'while':
                o('my $i%d = -1;' % u); o('while (++$i%d < %d) {' % (u, s[1]))
            elif t == 'for': o('for (my $i%d = 0; $i%d < %d; $i%d++) {' % (u, u, s[1], u))
            else: o('for my $i%d (@{MCT::V->range(%d)}) {' % (u, s[1]))
            self.loop.append(u); self.body(s[2]); self.loop.pop(); o('}')
        elif t == 'switch':
            o('switch (MCT::V->v(%d)) {' % s[1])
            for cs, B in s[2]:
                for c in cs[:-1]: o('case %d:' % c)
                o('case %d: {' % cs[-1]); self.body(B); o('}')
            if s[3] is not None: o('default: {'); self.body(s[3]); o('}')
            o('}')
        elif t == 'at':
            o('if ($i%d == %d) {' % (self.loop[-1], s[1])); self.stmt(s[2]); o('}')
        elif t in ('last', 'next', 'break', 'return'): o(t + ';')
        elif t == 'die': o('die "%s";' % s[1])
        elif t == 'dieu': o('die (string)undef;')
        elif t == 'diec': o('die %s "%s";' % (s[1], s[2]))
        elif t == 'dieid': o('die basic_type_id %s, "%s";' % (s[1], s[2]))
        elif t == 'div0':
            u = self.uid(); o('my $z%d = 1 / MCT::V->v(0);' % u)
        elif t == 'undef':
            u = self.uid(); o('my $z%d = MCT::V->none->{n};' % u)
        elif t == 'index':
            u = self.uid(); o('my $z%d = MCT::V->range(2)->[2];' % u)
        elif t == 'native': o('MCT::V->none->n;')
        elif t == 'eval': o('eval {'); self.body(s[1]); o('}')
        elif t == 'call': o('MCT->h%%N%%_%d;' % s[1])
        elif t == 'exlog': o('if ($@) {'); o('MCLog->s($@);'); o('}'); o('else {'); o('MCLog->s("-");'); o('}')
        elif t == 'idlog': o('MCT::V->id(eval_error_id);')
        elif t == 'setex': o('$@ = "%s";' % s[1])
        elif t == 'clrex': o('$@ = undef;')
        else: raise ValueError(s)


MAXSTEPS = 4000


class Interp:
    def __init__(self, bodies, prog, n):
        """bodies: list of (name, line of first statement, Printer)"""
        self.prog, self.bodies = prog, bodies
        self.log, self.ex, self.steps, self.live = [], None, 0, 0
        self.d = {}

    def emit(self, s): self.log.append(s)

    def destroy(self, o):
        self.live -= 1
        n, kind = o
        self.emit('D%d' % n)
        # DESTROY saves and restores the exception; what it throws becomes a warning

    def run(self):
        """-> (trace marks, error message or None, class)"""
        try:
            self.call(0)
        except Die as e:
            return self.log, self.ex, e.cls
        return self.log, None, None

    def call(self, k):
        f = dict(k=k, eid=None, loops=[])
        try:
            self.scope(self.prog[k], f)
        except Return:
            pass

    def scope(self, B, f, pre=None):
        objs = []
        try:
            for s in B:
                self.stmt(s, f, objs)
        finally:
            for o in reversed(objs):
                self.destroy(o)

    def trace(self, f, s):
        name, line0, pr = self.bodies[f['k']]
        self.ex = self.ex + '\n  MCT->%s at %s line %d' % (name, FILE, line0 + pr.line[id(s)])

    def throw(self, f, s, msg, cls):
        self.ex = msg
        self.trace(f, s)
        raise Die(msg, cls)

    def stmt(self, s, f, objs):
        self.steps += 1
        if self.steps > MAXSTEPS: raise RuntimeError('too long')
        t = s[0]
        if t == 'log': self.emit('s' + s[1])
        elif t == 'obj':
            self.live += 1; objs.append((s[1], s[2] if len(s) > 2 else 'D'))
        elif t == 'reobj':
            self.live += 1
            o = objs[-1]; objs[-1] = (s[1], 'D'); self.destroy(o)
        elif t == 'block': self.scope(s[1], f)
        elif t in ('if', 'unless'):
            if bool(s[1]) == (t == 'if'): self.scope(s[2], f)
            elif s[3] is not None: self.scope(s[3], f)
        elif t == 'elsif':
            if s[1]: self.scope(s[2], f)
            elif s[3]: self.scope(s[4], f)
            elif s[5] is not None: self.scope(s[5], f)
        elif t in ('while', 'for', 'foreach'):
            for i in range(s[1]):
                f['loops'].append(i)
                depth = len(f['loops'])
                try:
                    self.scope(s[2], f)
                except Next: pass
                except Last: break
                finally:
                    del f['loops'][depth - 1:]
        elif t == 'switch':
            try:
                for cs, B in s[2]:
                    if s[1] in cs:
                        self.scope(B, f); break
                else:
                    if s[3] is not None: self.scope(s[3], f)
            except Break: pass
        elif t == 'at':
            if f['loops'][-1] == s[1]: self.scope([s[2]], f)
        elif t == 'last': raise Last
        elif t == 'next': raise Next
        elif t == 'break': raise Break
        elif t == 'return': raise Return
        elif t == 'die': self.throw(f, s, s[1], 'Error')
        elif t == 'dieu': self.throw(f, s, 'Error', 'Error')
        elif t in ('diec', 'dieid'): self.throw(f, s, s[2], s[1])
        elif t == 'div0': self.throw(f, s, MSG_DIV, 'Error')
        elif t in ('undef', 'native', 'index'): self.throw(f, s, '?' + t, 'Error')
        elif t == 'eval':
            self.ex = None; f['eid'] = None
            depth = len(f['loops'])
            try:
                self.scope(s[1], f)
            except Die as e:
                f['eid'] = e.cls
                del f['loops'][depth:]
        elif t == 'call':
            try:
                self.call(s[1])
            except Die as e:
                self.trace(f, s)
                raise
        elif t == 'exlog': self.emit('s' + (self.ex if self.ex is not None else '-'))
        elif t == 'idlog': self.emit('sid' + (f['eid'] or '0'))
        elif t == 'setex': self.ex = s[1]
        elif t == 'clrex': self.ex = None
        else: raise ValueError(s)


def merge_d(marks):
    """consecutive destructions are compared as a set"""
    out, run = [], []
    for m in marks:
        if m.startswith('D'):
            run.append(m)
        else:
            out += sorted(run); run = []
            out.append(m)
    return out + sorted(run)


def legal(prog):
    """every program body: jumps have their targets"""
    def body(B, loop, sw, ev):
        return all(st(s, loop, sw, ev) for s in B if s is not None)

    def st(s, loop, sw, ev):
        t = s[0]
        if t in ('last', 'next'): return loop
        if t == 'break': return sw
        if t == 'at': return loop and st(s[2], loop, sw, ev)
        if t == 'block': return body(s[1], loop, sw, ev)
        if t in ('if', 'unless'): return body(s[2], loop, sw, ev) and body(s[3] or [], loop, sw, ev)
        if t == 'elsif': return all(body(x or [], loop, sw, ev) for x in (s[2], s[4], s[5]))
        if t in ('while', 'for', 'foreach'): return body(s[2], True, sw, ev)
        if t == 'switch': return all(body(b, loop, True, ev) for _, b in s[2]) and body(s[3] or [], loop, True, ev)
        if t == 'eval': return body(s[1], loop, sw, True)
        return True
    return all(body(B, False, False, False) for B in prog)


FILES = {
    'MCT/V.spvm': '''class MCT::V { use MCLog; use MCT::D; use Error::System; use Error::NotSupported;
  %PRE%static method v : int ($i : int) { return $i; }
  %PRE%static method range : int[] ($n : int) { my $a = new int[$n]; for (my $i = 0; $i < $n; $i++) { $a->[$i] = $i; } return $a; }
  %PRE%static method none : MCT::D () { my $d : MCT::D = undef; return $d; }
  %PRE%static method id : void ($id : int) {
    if ($id == 0) { MCLog->s("id0"); }
    elsif ($id == basic_type_id Error) { MCLog->s("idError"); }
    elsif ($id == basic_type_id Error::System) { MCLog->s("idError::System"); }
    elsif ($id == basic_type_id Error::NotSupported) { MCLog->s("idError::NotSupported"); }
    else { MCLog->i($id); }
  }
}
''',
    'MCT/D.spvm': '''class MCT::D { use MCLog; has n : public int;
  %PRE%static method new : MCT::D ($n : int) { my $s = new MCT::D; $s->{n} = $n; return $s; }
  %PRE%method n : int () { return $self->{n}; }
  %PRE%method DESTROY : void () { MCLog->s("#"); MCLog->i($self->{n}); }
}
''',
    'MCT/E.spvm': '''class MCT::E extends MCT::D { use MCLog;
  %PRE%static method new : MCT::E ($n : int) { my $s = new MCT::E; $s->{n} = $n; return $s; }
  %PRE%method DESTROY : void () { MCLog->s("#"); MCLog->i($self->{n}); die Error::System "in DESTROY"; }
}
''',
    'MCT/F.spvm': '''class MCT::F extends MCT::D { use MCLog; use MCT::V;
  %PRE%static method new : MCT::F ($n : int) { my $s = new MCT::F; $s->{n} = $n; return $s; }
  %PRE%method DESTROY : void () { if ($@) { MCLog->s("BAD"); } MCLog->s("#"); MCLog->i($self->{n}); eval { die Error::NotSupported "caught in DESTROY"; } unless ($@) { MCLog->s("BAD"); } }
}
''',
}
HEAD = 'use MCT::V; use MCT::D; use MCT::E; use MCT::F; use Error::System; use Error::NotSupported;'


def parse_trace(tr, unesc):
    """raw trace -> marks"""
    if tr == '-' or not tr: return []
    out = []
    parts = tr.split(';')
    i = 0
    while i < len(parts):
        p = parts[i]
        if p == 's#':
            out.append('D' + parts[i + 1]); i += 2; continue
        if p: out.append(p[0] + unesc(p[1:]).decode() if p[0] == 's' else p)
        i += 1
    return out


def run_progs(ck, bin_, progs, modes=('interpreted', 'precompile'), chunk=150, cc_opt='-O0', tag='MCT', maxfail=8):
    """progs: list of (ident, prog). Prints, runs and compares them with the reference interpreter."""
    import os, re
    from common import run_class, VERIF, NCPU, ThreadPoolExecutor, unesc
    sc = ck.scratch
    jobs = [(m, c) for m in modes for c in range(0, len(progs), chunk)]

    def one(job):
        mode, c = job
        pre = 'precompile ' if mode == 'precompile' else ''
        lines = ['class MCT { use MCLog; ' + HEAD]
        want = []
        for i, (ident, prog) in enumerate(progs[c:c + chunk]):
            prog = fresh(prog)
            bodies, start = [], len(lines)
            for k, B in enumerate(prog):
                name = 't%d' % i if k == 0 else 'h%d_%d' % (i, k)
                pr = Printer(name)
                pr.body(B)
                lines.append('%sstatic method %s : void () {' % (pre, name))
                bodies.append((name, len(lines) + 1, pr))
                lines += [x.replace('%N%', str(i)) for x in pr.lines]
                lines.append('}')
            it = Interp(bodies, prog, i)
            want.append((it.run(), start, len(lines)))
            if it.live: raise RuntimeError('reference leak')
        lines.append('}')
        src = '\n'.join(lines) + '\n'
        d = sc.path('l_%s_%s_%d' % (tag, mode, c), 'x')[:-2]
        os.makedirs(d + '/MCT', exist_ok=True)
        open(d + '/MCT.spvm', 'w').write(src)
        for n, t in FILES.items(): open(d + '/' + n, 'w').write(t.replace('%PRE%', pre))
        b = run_class(bin_, [d, VERIF + '/mc/driver/lib', sc.src + '/lib/SPVM'], 'MCT', precompile=d if pre else None,
                      cc='gcc %s -w -fwrapv -fno-strict-aliasing -I%s' % (cc_opt, sc.inc), only='MCT', lim=20, timeout=800)
        bad = []
        if b.compile_error:
            bad.append(('%s:%s:%d:build' % (tag, mode, c), 'not built or does not start:\n%s\n%s' % (b.compile_error[:2500], src[:5000])))
        for i, (ident, prog) in enumerate(progs[c:c + chunk] if not b.compile_error else []):
            (marks, ex, cls), a, z = want[i]
            r = b.res.get(i)
            why = None
            if r is None: why = 'was not run: %s %s' % (b.end, b.stderr[-300:])
            elif r.crash: why = 'the process dies: ' + r.crash
            else:
                got = merge_d(parse_trace(re.sub(r'%20at%20[^%;]*MCT\.spvm', '%20at%20' + FILE, r.trace), unesc))
                w = merge_d(marks)
                n = 0
                while n < len(w) and n < len(got) and same(w[n], got[n]): n += 1
                if n < len(w) or n < len(got):
                    why = 'observation %d: expected %r, observed %r; observed in all %s' % (n, w[n] if n < len(w) else '<end>', got[n] if n < len(got) else '<end>', got)
                elif bool(r.err) != bool(cls): why = 'the method ends with error %d, expected %s' % (r.err, cls)
                elif cls and not ex.startswith('?') and unesc(r.msg).decode().split('\n')[0] != ex.split('\n')[0]: why = 'ends with %r, expected %r' % (unesc(r.msg), ex)
                elif r.mem != (0 if not cls else r.mem): why = '%d memory blocks left' % r.mem
            if why: bad.append(('%s:%s:%s' % (tag, mode, ident), '%s, %s\n%s\nprogram:\n%s' % (ident, mode, why, '\n'.join(lines[a:z]))))
        if b.end and b.end[0]: bad.append(('%s:%s:%d:teardown' % (tag, mode, c), 'memory blocks left after teardown: %s' % (b.end,)))
        sample = None
        if b.res:
            k = max(b.res); sample = '%s %s: %s' % (mode, progs[c + k][0], b.res[k].trace[:300])
        return bad, len(b.res), sum(len(w[0][0]) for w in want), sample, {hash(r.trace) for r in b.res.values()}
    n = 0
    with ThreadPoolExecutor(NCPU) as ex:
        for bad, k, marks, sample, outs in ex.map(one, jobs):
            ck.count(transitions=marks, traces=k)
            ck.outcomes |= outs
            if sample: ck.sample(sample)
            for ident, text in bad:
                n += 1
                if n <= maxfail: ck.fail(ident, text)
    return n


def fresh(x):
    """a deep copy in which every statement is an object of its own"""
    if isinstance(x, tuple): return tuple([fresh(y) for y in x])
    if isinstance(x, list): return [fresh(y) for y in x]
    return x


def same(w, g):
    if w.startswith('s?'):
        return g.startswith('s') and w.split('\n')[1:] == g.split('\n')[1:] and len(g.split('\n')[0]) > 1
    return w == g
