"""Access control: every kind of member with every access attribute, used from every kind of class in every form: accepted or refused."""
from common import *
from acc import accept

ATTRS = ['', 'public', 'protected', 'private']
# kind -> (default, members of the owner, uses)     %O owner class, %T class of the invocant variable $o, %A attribute
KINDS = {
    'instance method': ('public', '%A method go : int ($x : int = 0) { return 1; }', ['$o->go;', '$o->go(1);', 'my $z = $o->go + 1;', '$o->%O::go;', 'MCLog->i($o->go);']),
    'class method': ('public', '%A static method sgo : int ($x : int = 0) { return 1; }', ['%O->sgo;', 'my $z = %O->sgo(1);', 'my $z = [%O->sgo];']),
    'field': ('private', 'has f : %A int; has ob : public object;', ['my $z = $o->{f};', '$o->{f} = 1;', '$o->{f} += 1;', '$o->{f}++;', 'my $z = "$o->{f}";', 'my $z = [$o->{f}];', 'if ($o->{f}) { }']),
    'object field': ('private', 'has g : %A string;', ['my $z = $o->{g};', '$o->{g} = undef;', 'weaken $o->{g};', 'unweaken $o->{g};', 'my $z = isweak $o->{g};', '$o->{g} .= "a";', 'my $z = length $o->{g};']),
    'class variable': ('private', 'our $V : %A int;', ['my $z = $%O::V;', '$%O::V = 1;', '$%O::V++;', '$%O::V += 2;', 'my $z = "$%O::V";']),
    'new': ('private', '', ['my $z = new %O;', 'my $z : object = new %O;', '(new %O)->pub;']),
    'enumeration': ('public', '%A enum { E1 = 5 }', ['my $z = %O->E1;', 'switch (1) { case %O->E1: { } }', 'MCLog->i(%O->E1);']),
}
FREE = {     # what no attribute restricts
    'array': ['my $z = new %O[3];', 'my $z : %O[] = undef;', 'my $z : %O = undef; $z = (%O)(object)undef;', 'my $z = $o isa %O;'],
    'getter': ['my $z = $o->gr;', 'my $z = $o->gw;', '$o->set_gw(1);', '$o->set_gs(1);', 'my $z = %O->CR; %O->SET_CW(1); $z = %O->CW; %O->SET_CS(1);'],
}
# the classes of one case: O extends P0; B extends O; C extends B; S extends O; U; G (allowed by O); GC extends G; H (allowed by B); N = O::N; X = O with another last letter
REL = {'O': None, 'P0': None, 'B': 'O', 'C': 'B', 'S': 'O', 'U': None, 'G': None, 'GC': 'G', 'H': None, 'N': None, 'X': None}


def can(attr, caller, kind):
    if attr == 'public': return True
    if caller in ('O', 'G'): return True
    if attr == 'protected' and caller in ('B', 'C', 'S'): return True
    return False


def build(lang, k, kind, attr, caller, inv, use, anon):
    """writes the classes of the case and returns the source of the class that loads them"""
    names = {c: 'K%d%s' % (k, c) for c in REL}
    names['N'] = names['O'] + '::N'; names['X'] = names['O'] + 'x'
    default, members, _ = KINDS.get(kind, ('', 'has gr : ro int; has gw : rw int; has gs : wo int; our $CR : ro int; our $CW : rw int; our $CS : wo int;', 0))
    def sub(t): return t.replace('%O', names['O']).replace('%A', attr).replace('%T', names[inv])
    stm = sub(use)
    others = ' '.join('use %s;' % names[c] for c in {'O', 'B', 'S', inv} - {caller})
    mem = {c: '' for c in REL}
    mem['O'] += sub(members) + ' method pub : int () { return 1; }'
    mem['B'] += ' has bb : int;'
    body = 'static method run : void ($o : %s) { %s }' % (names[inv], stm) if not anon else 'static method run : void () { my $m = method : void ($o : %s) { %s }; }' % (names[inv], stm)
    for c in REL:
        cattr = (attr if kind == 'new' else '') if c == 'O' else ''
        par = {'O': 'P0'}.get(c, REL[c])
        allow = ' use %s; allow %s;' % (names['G'], names['G']) if c == 'O' else ' use %s; allow %s;' % (names['H'], names['H']) if c == 'B' else ''
        src = 'class %s%s%s { use MCLog; %s%s %s %s }' % (names[c], ' extends ' + names[par] if par else '', ' : ' + cattr if cattr else '', others if c == caller else '', allow, mem[c], body if c == caller else '')
        p = os.path.join(lang, names[c].replace('::', '/') + '.spvm'); os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, 'w').write(src)
    return 'class { use %s; use %s; use %s; }' % (names['O'], names['B'], names[caller])


def main():
    ck = Check('M31')
    sc = ck.make_scratch()
    quick = TIER == 'quick'
    lang = sc.path('m31', 'x')[:-2]; os.makedirs(lang, exist_ok=True)
    cases = []
    k = 0
    for kind, (default, _, uses) in list(KINDS.items()) + [(f, ('public', '', u)) for f, u in FREE.items()]:
        for attr in ATTRS if kind in KINDS else ['']:
            for caller in REL:
                # invocants of the class itself and of classes that inherit the member
                for inv in (['O', 'B', 'C'] if kind in ('instance method', 'field', 'object field', 'getter') else ['O']):
                    if inv == 'C' and quick and caller not in ('O', 'B', 'C', 'S', 'U', 'G', 'H'): continue
                    for n, use in enumerate(uses):
                        for anon in (0, 1):
                            if quick and anon and n > 1 and inv != 'O': continue
                            k += 1
                            src = build(lang, k, kind, attr, caller, inv, use, anon)
                            ok = can(attr or default, caller, kind) if kind in KINDS else True
                            cases.append(('%s %s from %s through %s%s: %s' % (attr or 'default', kind, caller, inv, ' in an anonymous method' if anon else '', use), src, ok))
    # attributes: at most one access attribute
    for a in ATTRS[1:]:
        for b in ATTRS[1:]:
            for t in ('class { has f : %s int; }', 'class { our $V : %s int; }', 'class { %s method m : void () { } }', 'class { %s static method m : void () { } }', 'class : %s { }', 'class { %s enum { E } }'):
                cases.append(('two attributes %s %s %s' % (a, b, t), t % (a + ' ' + b), False))
                cases.append(('one attribute %s %s' % (a, t), t % a, True))
    cases = [(i.replace('"', "'"), s, o) for i, s, o in cases]
    accept(ck, sc, [lang], cases)
    ck.finish(exhaustive=True, bound='%d cases: %d kinds of members, 4 access attributes, %d kinds of using classes, direct and anonymous, through objects of the class and of classes that inherit it, every form of use' % (len(cases), len(KINDS), len(REL)))
