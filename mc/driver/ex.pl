# ex.pl DIR GROUP PART PARTS : calls between Perl and SPVM, every case of a group against the documented conversion.
# DIR holds the SPVM classes (ex.pl DIR gen writes them). Prints "F<TAB>ident<TAB>text" for each case that differs and "N<TAB>cases<TAB>distinct outcomes" at the end.
use strict; use warnings; no warnings qw(numeric overflow imprecision pack misc);
my ($DIR, $GROUP, $PART, $PARTS);
our (@NUM, %PK, %LET, @P, @SIGS);
BEGIN {
  ($DIR, $GROUP, $PART, $PARTS) = @ARGV; $PART //= 0; $PARTS ||= 1;
  @NUM = qw(byte short int long float double);
  %PK = (byte => 'c', short => 's', int => 'l', long => 'q', float => 'f', double => 'd');
  %LET = (byte => 'b', short => 's', int => 'i', long => 'l', float => 'f', double => 'd');
  # parameter types of the signatures: type, text of the parameter $p, statement that changes what it refers to
  @P = (['int', '"" . $p'], ['long', '"" . $p'], ['double', '"" . $p'], ['byte', '"" . (int)$p'], ['string', '$p'], ['object', '(string)$p'], ['PXA', '"" . $p->{id}'],
    ['T_2d', '$p->{x} . "," . $p->{y}'], ['T_3b', '(int)$p->{x} . "," . (int)$p->{y} . "," . (int)$p->{z}'], ['int*', '"" . $$p', '$$p += K;'], ['double*', '"" . $$p', '$$p += K;'],
    ['T_2d*', '$p->{x} . "," . $p->{y}', '$p->{x} += K; $p->{y} += K + 1;'], ['short[]', '(int)$p->[0] . "," . (int)$p->[1]', '$p->[0] = (short)K;'], ['T_3b[]', '(int)$p->[1]{x} . "," . (int)$p->[1]{y} . "," . (int)$p->[1]{z}'], ['int[][]', '"" . $p->[1][0]']);
  for my $n (0 .. 3) { my @s = ([]); @s = map { my $s = $_; map { [@$s, $_] } 0 .. $#P } @s for 1 .. $n; push @SIGS, @s; }
}
sub gen {
  mkdir "$DIR/SPVM";
  my $w = sub { open my $f, '>', "$DIR/SPVM/$_[0].spvm" or die; print $f $_[1]; close $f };
  $w->("T_2$LET{$_}", "class T_2$LET{$_} : mulnum_t { has x : $_; has y : $_; }"), $w->("T_3$LET{$_}", "class T_3$LET{$_} : mulnum_t { has x : $_; has z : $_; has y : $_; }"), $w->("T_1$LET{$_}", "class T_1$LET{$_} : mulnum_t { has v : $_; }") for @NUM;
  $w->('PXI', 'class PXI : interface_t { required method iam : string (); }');
  $w->('PXA', 'class PXA : public { interface PXI; has id : public rw int; has next : public rw PXA; static method new : PXA ($id : int = 0) { my $o = new PXA; $o->{id} = $id; return $o; } method iam : string () { return "A" . $self->{id}; } method both : string () { return "a" . $self->{id}; } method boom : void () { die "bm"; } static method st : int () { return 1; } }');
  $w->('PXB', 'class PXB extends PXA : public { static method new : PXB ($id : int = 0) { my $o = new PXB; $o->{id} = $id; return $o; } method iam : string () { return "B" . $self->{id}; } method only_b : string () { return "ob"; } }');
  $w->('PXC', 'class PXC : public { static method new : PXC () { return new PXC; } }');
  $w->('PXN', 'class PXN : public { our $LOG : string; our $KEEP : PXN; our $COUNT : int; has id : int; has next : PXN; static method new : PXN ($id : int) { my $o = new PXN; $o->{id} = $id; return $o; } method DESTROY : void () { $LOG .= $self->{id} . ","; } '
    . 'method set_next : void ($n : PXN) { $self->{next} = $n; } method next : PXN () { return $self->{next}; } method id : int () { return $self->{id}; } static method keep : void ($n : PXN) { $KEEP = $n; } static method kept : PXN () { return $KEEP; } static method log : string () { my $l = (string)copy $LOG; $LOG = ""; return $l; } static method init_log : void () { $LOG = ""; }'
    . 'static method boom : void ($n : PXN, $m : PXN) { my $t = new PXN; $t->{id} = 99; $t->{next} = $m; die "boom"; } static method pass : PXN ($n : PXN, $m : PXN) { my $t = $n; return $m; } static method fresh : PXN ($id : int, $n : PXN) { my $o = PXN->new($id); $o->{next} = $n; return $o; } static method clear : void () { $KEEP = undef; $LOG = undef; } static method arr : PXN[] ($a : PXN[]) { return $a; } static method first : PXN ($a : object[]) { return (PXN)$a->[0]; } }');
  $w->('PXE', 'class PXE extends Error : public { }');
  my $s = "class PX {\n use PXA; use PXB; use PXC; use PXI; use PXN; use PXE; use Int; use Stringer; use Fn;\n " =~ s/use Stringer; use Fn;//r;
  $s .= "use T_1$LET{$_}; use T_2$LET{$_}; use T_3$LET{$_};" for @NUM;
  for my $t (@NUM) {
    my $l = $LET{$t};
    $s .= "static method id_$l : $t (\$x : $t) { return \$x; } static method ref_$l : void (\$x : $t*) { } static method set_$l : void (\$x : $t*, \$y : $t) { \$\$x = \$y; } static method arr_$l : $t\[] (\$x : $t\[]) { return \$x; } static method elem_$l : $t (\$x : $t\[], \$i : int) { return \$x->[\$i]; } static method len_$l : int (\$x : $t\[]) { return \@\$x; }\n";
    $s .= "static method id2_$l : T_2$l (\$x : T_2$l) { return \$x; } static method swap2_$l : void (\$x : T_2$l*) { my \$t = \$x->{x}; \$x->{x} = \$x->{y}; \$x->{y} = \$t; } static method id3_$l : T_3$l (\$x : T_3$l) { return \$x; } static method z3_$l : $t (\$x : T_3$l) { return \$x->{z}; } static method rot3_$l : void (\$x : T_3$l*) { my \$t = \$x->{x}; \$x->{x} = \$x->{y}; \$x->{y} = \$x->{z}; \$x->{z} = \$t; } static method id1_$l : T_1$l (\$x : T_1$l) { return \$x; }\n";
    $s .= "static method arr2_$l : T_2$l\[] (\$x : T_2$l\[]) { return \$x; } static method arr3_$l : T_3$l\[] (\$x : T_3$l\[]) { return \$x; } static method elem3_$l : T_3$l (\$x : T_3$l\[], \$i : int) { return \$x->[\$i]; } static method after_$l : int (\$x : T_3$l, \$y : int) { return \$y; }\n";
    $s .= "static method lim_$l : $t (\$i : int) { my \$a = new $t\[1]; unless (\$i) { return \$a->[0]; } " . (join '', map { my $v = (7, -7, (0) x 6)[$_ - 1]; my $e = $l =~ /[fd]/ ? ('1.5', '-0.0', '1e30', '0.1', '-1e-30')[$_ - 1] . ($l eq 'f' ? 'f' : '') : (1, -1, '0x7f', '-0x80', $l eq 'b' ? 3 : '0x7fff')[$_ - 1]; $e =~ s/^(-?\d+)(f?)$/$1.0$2/ if $l =~ /[fd]/; "if (\$i == $_) { return ($t)($e); } " } 1 .. 5) . "return \$a->[0]; }\n";
  }
  my %o = (string => 'string', object => 'object', PXA => 'PXA', PXB => 'PXB', PXI => 'PXI');
  my $k = 0;
  for my $t (otypes()) { my $n = tname($t); $s .= "static method o_$n : $t (\$x : $t) { return \$x; } static method u_$n : $t () { return undef; } static method same_$n : int (\$x : object, \$y : $t) { return \$x == \$y; } method im_$n : $t (\$y : int, \$x : $t) { return \$x; }\n"; }
  $s .= 'static method new : PX () { return new PX; } has id : int; method set_id : void ($i : int) { $self->{id} = $i; } method plus : int ($a : int) { return $self->{id} + $a; } static method v : void () { } static method opt : string ($a : int, $b : long = 7, $c : string = undef, $d : double = 2.5, $e : object = undef) { my $r = $a . ":" . $b . ":"; unless ($c) { $r .= "u"; } else { $r .= $c; } $r .= ":" . $d; if ($e) { $r .= ":o"; } return $r; } '
    . 'method iopt : string ($a : int = 3, $b : byte = 4) { return $self->{id} . ":" . $a . ":" . (int)$b; } static method dies : void ($m : string) { die $m; } static method dies_e : void ($m : string) { die PXE $m; } static method dies_deep : void ($m : string, $n : int) { if ($n) { PX->dies_deep($m, $n - 1); } else { die PXE $m; } } static method div : int ($a : int, $b : int) { return $a / $b; } '
    . 'static method strs : string ($a : object[]) { my $r = ""; for (my $i = 0; $i < @$a; $i++) { my $e = $a->[$i]; $r .= dump $e; $r .= ";"; } return $r; } static method dump : string ($o : object) { return dump $o; } static method mixed : object[] () { my $i = Int->new(5); return [(object)"s", (object)$i, undef, (object)[1, 2], (object)["x"], (object)PXA->new(4)]; } static method nested : string[][] () { return [["a", undef], undef, new string[0]]; } static method ints2 : int[][] () { return [[1, 2], undef, [3]]; } static method bytes : byte[] () { return [(byte)1, (byte)2]; } '
    . 'static method refthrow : void ($x : int*) { $$x = 77; die "rt"; } static method refret : int ($x : int*, $y : string, $z : double*) { $$x += 1; $$z *= 2; return $$x + 100; } static method depth : int ($n : int) { if ($n) { return PX->depth($n - 1) + 1; } return 0; }' . "\n";
  for my $k (0 .. $#SIGS) {
    my @s = @{$SIGS[$k]}; my $i = 0; my ($par, $body, $chg) = ('', '', '');
    for my $p (@s) { $i++; my ($t, $e, $c) = @{$P[$p]}; $par .= ($i > 1 ? ', ' : '') . "\$p$i : $t"; $body .= ' $r .= ' . ($e =~ s/\$p\b/\$p$i/gr) . ' . "|";'; if ($c) { my $K = $i * 10; $chg .= ' ' . ($c =~ s/\$p\b/\$p$i/gr =~ s/K/$K/gr); } }
    $s .= "static method m$k : string ($par) { my \$r = \"\"; $body$chg return \$r; } method i$k : string ($par) { my \$r = \$self->{id} . \"|\"; $body$chg return \$r; }\n";
  }
  $w->('PX', "$s}\n");
  exit;
}
sub otypes { qw(string object PXA PXB PXI string[] object[] PXA[] PXB[] PXI[] byte[] int[] int[][] string[][] PXA[][] T_2i[] int[][][]) }
sub tname { my $t = shift; $t =~ s/\[\]/_a/g; $t =~ s/object/obj/; $t }
BEGIN { gen() if $GROUP eq 'gen' }
use B; use Scalar::Util qw(blessed reftype dualvar);
use lib $DIR; use SPVM 'PX'; use SPVM 'PXA'; use SPVM 'PXB'; use SPVM 'PXC'; use SPVM 'PXN'; use SPVM 'PXE'; use SPVM 'Int';
my $api = SPVM::api();
my ($n, %seen) = (0);
sub hx { join '', map { /[\x21-\x7e]/ && $_ ne '%' ? $_ : sprintf '%%%02x', ord } split //, $_[0] }
sub fl { my $v = shift; $v != $v ? 'fnan' : 'f' . unpack 'H*', pack 'd>', $v }
sub bytes { my $s = shift; utf8::encode($s) if utf8::is_utf8($s); $s }
# text of a Perl value that came from SPVM
sub fmt {
  my $v = shift;
  return 'undef' unless defined $v;
  if (blessed $v) {
    return 'S(' . hx($v->to_bin) . ')' if ref $v eq 'SPVM::BlessedObject::String';
    if (ref $v eq 'SPVM::BlessedObject::Array') { my $e = $v->to_elems; return 'A:' . bytes($v->__get_type_name) . '(' . join(' ', map { fmt($_) } @$e) . ')'; }
    if (ref $v eq 'SPVM::BlessedObject::Class') { my $t = bytes($v->__get_type_name); return "C:$t" . ($t =~ /^PX[ABN]$/ ? '#' . $v->id : $t eq 'Int' ? '#' . $v->value : ''); }
    return ref $v;
  }
  if (ref $v eq 'HASH') { return '{' . join(' ', map { "$_=" . fmt($v->{$_}) } sort keys %$v) . '}'; }
  if (ref $v eq 'ARRAY') { return '[' . join(' ', map { fmt($_) } @$v) . ']'; }
  return ref $v if ref $v;
  my $f = B::svref_2object(\$v)->FLAGS;
  return fl($v) if $f & B::SVf_NOK && !($f & B::SVf_POK);
  return "i$v" if $f & B::SVf_IOK && !($f & B::SVf_POK);
  return 'p(' . hx(bytes("$v")) . ')';
}
sub conv { my ($t, $v) = @_;
  return $t eq 'double' ? unpack('d', pack 'd', $v) : unpack('f', pack 'f', $v) if $t eq 'float' || $t eq 'double';
  return unpack $PK{$t}, pack 'q', $v;
}
sub nf { my ($t, $v) = @_; $t =~ /float|double/ ? fl(conv($t, $v)) : 'i' . conv($t, $v) }
my ($fails, $last) = (0, '');
sub t {
  my ($ident, $want, $code) = @_;
  return if $n++ % $PARTS != $PART;
  $api->set_exception(undef);
  my $c0 = $api->get_memory_blocks_count;
  my $got = run($code);
  $api->set_exception(undef);
  my $c1 = $api->get_memory_blocks_count;
  $seen{$got} = 1 if keys %seen < 200000;
  print "S\t", hx("$ident: $got"), "\n" if $n % 1009 == 1 && length $got < 200;
  my $bad = '';
  if (ref $want) { $bad = "observed $got, expected $$want" unless $got =~ $$want }
  else { my $g = $want eq 'E' ? substr($got, 0, 1) eq 'E' ? 'E' : $got : $got; $bad = "observed $got, expected " . ($want eq 'E' ? 'an exception' : $want) if $g ne $want; }
  $bad = "$bad " . ($c1 - $c0) . ' memory blocks of SPVM left' if $c1 != $c0;
  if ($bad) { $fails++; print "F\t", hx($ident), "\t", hx($bad), "\n" if $fails < 400; }
}
sub run { my $code = shift; my @r; my $ok = eval { local $SIG{__WARN__} = sub {}; @r = $code->(); 1 }; my $g = $ok ? join ' ', map { ref $_ eq 'SCALAR' ? $$_ : fmt($_) } @r : 'E' . hx(substr $@, 0, 150); return $g; }
# ---- values
my @V = (0, 1, -1, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536, 2147483647, 2147483648, -2147483648, -2147483649, 4294967295, 4294967296, 9007199254740993, 9223372036854775807, 9223372036854775808, 18446744073709551615, -9223372036854775808,
  0.5, -0.5, 1.5, 1.9, -1.9, 1e10 + .5, 1e18, 1e19, -1e19, 3.4e38, 1e39, 1e-45, 1e-320, 1e300, -0.0, 0.1, 16777217, 0.30000001192092896, '12', '-7', ' 3', '3 ', '1.5', '1e2', '0x10', 'abc', '', '128', '-129', '9223372036854775807', '18446744073709551615', '1_000', "\x{3042}", !!1, !!0, dualvar(5, 'abc'), dualvar(2.5, '7'));
my @FV = (9**9**9, -9**9**9, -sin(9**9**9), 'inf', 'nan');
sub bad { (undef, [], {}, \1, sub { 1 }, qr/x/, \\1, bless({}, 'Foo'), bless([], 'Foo'), bless(\(my $x = 1), 'Foo'), $api->new_string('5'), $api->new_int_array([1]), SPVM::PXA->new) }
my @BADN = qw(undef arrayref hashref scalarref code regexp refref object object_array object_scalar String Array Class);
sub vn { my $v = shift; defined $v ? utf8::is_utf8($v) ? 'wide' : "'$v'" : 'undef' }
sub h2 { "{x=$_[0] y=$_[1]}" }
my %G;
$G{scalar} = sub {
  for my $t (@NUM) {
    my $l = $LET{$t}; my ($id, $rf, $st, $id2, $sw, $id3, $z3, $rot, $id1, $af) = map { "${_}_$l" } qw(id ref set id2 swap2 id3 z3 rot3 id1 after);
    my @v = (@V, $t =~ /float|double/ ? @FV : ());
    my $kn = 0;
    for my $v (@v) {
      my $w = nf($t, $v); my $o = nf($t, 3); my $i = "$t " . vn($v) . ' (' . $kn++ . ')';
      t("$i argument", $w, sub { SPVM::PX->$id($v) });
      t("$i call_method", $w, sub { $api->call_method('PX', $id, $v) });
      t("$i reference", $w, sub { my $x = $v; SPVM::PX->$rf(\$x); $x });
      t("$i set through reference", $w, sub { my $x = 3; SPVM::PX->$st(\$x, $v); $x });
      t("$i first field", h2($w, $o), sub { SPVM::PX->$id2({x => $v, y => 3}) });
      t("$i second field", h2($o, $w), sub { SPVM::PX->$id2({y => $v, x => 3}) });
      t("$i only field", "{v=$w}", sub { SPVM::PX->$id1({v => $v}) });
      t("$i of three fields", "{x=$o y=$w z=" . nf($t, 5) . '}', sub { SPVM::PX->$id3({x => 3, y => $v, z => 5, other => 9}) });
      t("$i field z", $w, sub { SPVM::PX->$z3({x => 3, z => $v, y => 5}) });
      t("$i argument after fields", 'i41', sub { SPVM::PX->$af({x => 3, z => $v, y => 5}, 41) });
      t("$i swapped in reference", h2($o, $w), sub { my $h = {x => $v, y => 3}; my $k = $h; SPVM::PX->$sw(\$h); die 'another hash' unless $k == $h; $h });
      t("$i rotated in reference", "{x=" . nf($t, 5) . " y=$o z=$w}", sub { my $h = {x => $v, y => 5, z => 3}; SPVM::PX->$rot(\$h); $h });
      t("$i unchanged argument", 'p(ok)', sub { my $x = $v; my $h = {x => $v, y => 3}; my $b = B::svref_2object(\$x)->FLAGS & (B::SVf_POK | B::SVf_ROK); SPVM::PX->$id($x); SPVM::PX->$id2($h); die 'argument changed' if $x ne $v || $h->{x} ne $v || keys %$h != 2; 'ok' });
    }
    my $k = 0;
    for my $name (@BADN) { my $j = $k++;
      t("$t of $name", 'E', sub { SPVM::PX->$id((bad())[$j]) });
      t("reference to $t of $name", 'E', sub { SPVM::PX->$rf((bad())[$j]) }) unless $name =~ /scalar|refref|regexp/;
      t("fields of $name", 'E', sub { SPVM::PX->$id2((bad())[$j]) }) unless $name =~ /^object$|hash|String|Array|Class/;
      t("reference to fields of $name", 'E', sub { my $x = (bad())[$j]; SPVM::PX->$sw(\$x) }) unless $name =~ /^object$|hash|String|Array|Class/;
      t("hash instead of reference, $name", 'E', sub { my $x = {x => 1, y => 2}; SPVM::PX->$sw($x) });
    }
    for my $h ({}, {x => 1}, {y => 1}, {x => 1, Y => 1}, {x => 1, 'y ' => 1}, {x => 1, z => 1}) { my $s = join ',', sort keys %$h;
      t("missing field $t {$s}", 'E', sub { SPVM::PX->$id2($h) }); t("missing field in reference $t {$s}", 'E', sub { my $x = $h; SPVM::PX->$sw(\$x) }); t("missing field of element $t {$s}", 'E', sub { my $m = "arr2_$l"; SPVM::PX->$m([$h]) }); t("missing field of second element $t {$s}", 'E', sub { my $m = "arr2_$l"; SPVM::PX->$m([{x => 1, y => 2}, $h]) }); }
    t("plain number as reference $t", 'E', sub { SPVM::PX->$rf(5) });
    t("limit $t $_", ($l =~ /[fd]/ ? fl(conv($t, (0, 1.5, -0.0, 1e30, 0.1, -1e-30)[$_])) : 'i' . (0, 1, -1, 127, -128, $l eq 'b' ? 3 : 32767)[$_]), do { my $i = $_; sub { my $m = "lim_$l"; SPVM::PX->$m($i) } }) for 0 .. 5;
  }
};
$G{array} = sub {
  for my $t (@NUM) {
    my $l = $LET{$t}; my ($arr, $el, $len, $arr2, $arr3, $el3) = map { "${_}_$l" } qw(arr elem len arr2 arr3 elem3);
    my @v = (@V, $t =~ /float|double/ ? @FV : ()); my $kn = 0; my $z = nf($t, 0);
    my ($new, $newu, $nlen, $bin) = ("new_${t}_array", "new_${t}_array_unsigned", "new_${t}_array_len", "new_${t}_array_from_bin");
    my $size = {byte => 1, short => 2, int => 4, long => 8, float => 4, double => 8}->{$t};
    for my $v (@v) {
      my $w = nf($t, $v); my $o = nf($t, 3); my $i = "$t " . vn($v) . ' (' . $kn++ . ')';
      t("$i array argument", "A:$t\[]($w $o)", sub { SPVM::PX->$arr([$v, 3]) });
      t("$i element of array argument", $w, sub { SPVM::PX->$el([3, $v, 3], 1) });
      t("$i new array", "A:$t\[]($o $w)", sub { $api->$new([3, $v]) });
      t("$i get", "$o $w $o", sub { my $a = $api->$new([3, $v, 3]); map { $a->get($_) } 0 .. 2 });
      t("$i set", "A:$t\[]($o $w $o)", sub { my $a = $api->$new([3, 3, 3]); $a->set(1, $v); $a });
      t("$i binary", 'p(' . hx(pack "$PK{$t}2", 3, conv($t, $v)) . ')', sub { $api->$new([3, $v])->to_bin }) unless $v ne $v || "$v" =~ /nan/i;
      t("$i dereference", "[$w $o]", sub { [@{$api->$new([$v, 3])}] });
      t("$i element field", "A:T_2$l\[]({x=$w y=$o} {x=$o y=$w})", sub { SPVM::PX->$arr2([{x => $v, y => 3}, {y => $v, x => 3}]) });
      t("$i element field of three", "A:T_3$l\[]({x=$w y=$o z=$z} {x=$z y=$w z=$o})", sub { SPVM::PX->$arr3([{x => $v, y => 3, z => 0}, {x => 0, y => $v, z => 3}]) });
      t("$i element of fields", "{x=$z y=$w z=$o}", sub { SPVM::PX->$el3([{x => 3, y => 3, z => 3}, {x => 0, y => $v, z => 3}], 1) });
      t("$i new fields", "A:T_2$l\[]({x=$w y=$o})", sub { $api->new_mulnum_array("T_2$l\[]", [{x => $v, y => 3}]) });
      t("$i array unchanged", 'p(ok)', sub { my @a = ($v, 3); SPVM::PX->$arr(\@a); die 'changed' if @a != 2 || $a[0] ne $v || $a[1] ne 3; 'ok' });
      if ($l !~ /[fd]/) { my $u = $v; my $x = do { no warnings; unpack 'Q', pack 'Q', $u }; my $w = 'i' . unpack $PK{$t}, pack 'Q', $x; t("$i unsigned", "A:$t\[]($w)", sub { $api->$newu([$v]) }) unless $v =~ /^-|e19/ || $v > 1.8e19; }
    }
    for my $c (0 .. 4) { t("$t array of length $c", "A:$t\[](" . join(' ', map { nf($t, $_ * 7) } 1 .. $c) . ")", sub { SPVM::PX->$arr([map { $_ * 7 } 1 .. $c]) }); t("$t array of length $c in SPVM", "i$c i$c", sub { my $a = $api->$new([(1) x $c]); (SPVM::PX->$len($a), $a->length) }); }
    t("$t array undef", 'undef', sub { SPVM::PX->$arr(undef) }); t("$t new array undef", 'undef', sub { $api->$new(undef) }); t("fields array undef $t", 'undef', sub { SPVM::PX->$arr2(undef) }); t("fields array empty $t", "A:T_2$l\[]()", sub { SPVM::PX->$arr2([]) });
    my $k = 0;
    for my $name (@BADN) { my $j = $k++;
      t("$t array of $name", 'E', sub { SPVM::PX->$arr((bad())[$j]) }) unless $name eq 'undef' || $name =~ /^arrayref|object_array/ || $name eq 'Array' && $t eq 'int';
      t("$t new array of $name", 'E', sub { $api->$new((bad())[$j]) }) unless $name eq 'undef' || $name =~ /^arrayref|object_array/ || $name eq 'Array' && $t eq 'int';
      for my $p (0 .. 2) { t("$t array with $name at $p", 'E', sub { my @a = (1, 2, 3); $a[$p] = (bad())[$j]; SPVM::PX->$arr(\@a) }); t("$t new array with $name at $p", 'E', sub { my @a = (1, 2, 3); $a[$p] = (bad())[$j]; $api->$new(\@a) }); t("$t unsigned array with $name at $p", 'E', sub { my @a = (1, 2, 3); $a[$p] = (bad())[$j]; $api->$newu(\@a) }) if $l !~ /[fd]/;
        t("$t fields array with $name at $p", 'E', sub { my @a = map { +{x => 1, y => 2} } 1 .. 3; $a[$p] = (bad())[$j]; SPVM::PX->$arr2(\@a) }) unless $name =~ /^(hashref|object|String|Array|Class)$/; }
      t("$t binary of $name", 'E', sub { $api->$bin((bad())[$j]) }); t("$t fields of binary of $name", 'E', sub { $api->new_mulnum_array_from_bin("T_2$l\[]", (bad())[$j]) });
    }
    t("$t plain value as array", 'E', sub { SPVM::PX->$arr(5) }); t("$t text as array", 'E', sub { SPVM::PX->$arr('abc') });
    for my $u (@NUM) { my $nu = "new_${u}_array"; my ($w) = $u eq $t ? 'i1' : 'E'; t("$u\[] object as $t\[]", $u eq $t ? "A:$t\[](" . nf($t, 1) . ')' : 'E', sub { SPVM::PX->$arr($api->$nu([1])) }); t("$u\[] object in $new", $u eq $t ? "A:$t\[](" . nf($t, 1) . ')' : 'E', sub { $api->$new($api->$nu([1])) });
      my $lu = $LET{$u}; t("T_2$lu\[] object as T_2$l\[]", $u eq $t ? "A:T_2$l\[](" . h2(nf($t, 1), nf($t, 2)) . ')' : 'E', sub { SPVM::PX->$arr2($api->new_mulnum_array("T_2$lu\[]", [{x => 1, y => 2}])) }); t("T_2$lu\[] object as $t\[]", 'E', sub { SPVM::PX->$arr($api->new_mulnum_array("T_2$lu\[]", [{x => 1, y => 2}])) }); t("$u\[] object as T_2$l\[]", 'E', sub { SPVM::PX->$arr2($api->$nu([1, 2])) }); }
    for my $i (-2147483648, -2, -1, 0, 1, 2, 3, 4, 2147483647) { my $in = $i >= 0 && $i < 3;
      t("$t get at $i", $in ? nf($t, $i + 5) : 'E', sub { $api->$new([5, 6, 7])->get($i) });
      t("$t set at $i", $in ? "A:$t\[](" . join(' ', map { nf($t, $_ == $i ? 9 : $_ + 5) } 0 .. 2) . ')' : 'E', sub { my $a = $api->$new([5, 6, 7]); $a->set($i, 9); $a });
      t("$t get at $i of an empty array", 'E', sub { $api->$new([])->get($i) }); }
    t("$t length $_", $_ < 0 ? 'E' : "A:$t\[](" . join(' ', ($z) x $_) . ')', do { my $c = $_; sub { $api->$nlen($c) } }), t("T_3$l length $_", $_ < 0 ? 'E' : "A:T_3$l\[](" . join(' ', ("{x=$z y=$z z=$z}") x $_) . ')', do { my $c = $_; sub { $api->new_mulnum_array_len("T_3$l\[]", $c) } }) for -2147483648, -1, 0, 1, 2, 7;
    for my $c (0 .. 49) { my $b = join '', map { chr(($_ * 37 + 11) % 128) } 1 .. $c; my @e = unpack "$PK{$t}*", $b;
      t("$t from $c bytes", $c % $size ? 'E' : "A:$t\[](" . join(' ', map { nf($t, $_) } @e) . ')', sub { $api->$bin($b) });
      t("$t from $c bytes and back", $c % $size ? 'E' : 'p(' . hx($b) . ')', sub { $api->$bin($b)->to_bin });
      for my $f (1 .. 3) { t("T_$f$l from $c bytes", $c % ($size * $f) ? 'E' : "A:T_$f$l\[](" . join(' ', map { my $q = $_; my %h; @h{$f == 1 ? ('v') : $f == 2 ? qw(x y) : qw(x z y)} = @e[$q * $f .. $q * $f + $f - 1]; '{' . join(' ', map { "$_=" . nf($t, $h{$_}) } sort keys %h) . '}' } 0 .. $c / ($size * $f) - 1) . ')', sub { $api->new_mulnum_array_from_bin("T_$f$l\[]", $b) });
        t("T_$f$l from $c bytes and back", $c % ($size * $f) ? 'E' : 'p(' . hx($b) . ')', sub { $api->new_mulnum_array_from_bin("T_$f$l\[]", $b)->to_bin }); } }
  }
};
# ---- objects
sub isa_ { my ($b, $d, $t, $e) = @_;   # type $b with $d dimensions assignable to type $t with $e dimensions
  return 1 if $t eq 'object' && $e == 0;
  if ($t eq 'object' && $e == 1) { return $d > 1 || $d == 1 && $b !~ /^(byte|short|int|long|float|double|T_.*)$/ }
  return 0 if $d != $e;
  return 1 if $b eq $t;
  return 1 if $t eq 'PXA' && $b eq 'PXB' || $t eq 'PXI' && $b =~ /^PX[AB]$/;
  return 0;
}
# values: name, code, kind, text when it goes through, element values
sub ovalues {
  my @o = (['undef', sub { undef }, 'undef']);
  my @s = (['text', 'abc'], ['empty', ''], ['wide', "\x{3042}"], ['latin1', "\xe9"], ['upgraded', do { my $x = "\xe9"; utf8::upgrade($x); $x }], ['NUL', "a\0b"], ['long', 'x' x 1000], ['bytes', join '', map { chr } 0 .. 255]);
  for my $s (@s) { my $v = $s->[1]; push @o, [$s->[0], sub { $v }, 'plain', 'S(' . hx(bytes($v)) . ')'], ["String object of $s->[0]", sub { $api->new_string($v) }, 'obj', 'S(' . hx(bytes($v)) . ')', 'string', 0]; }
  push @o, ['integer', sub { 5 }, 'num', 'S(5)'], ['negative', sub { -12 }, 'num', 'S(-12)'], ['double', sub { 1.5 }, 'num', 'S(1.5)'];
  push @o, [$BADN[$_], do { my $j = $_; sub { (bad())[$j] } }, 'ref'] for 2 .. 7, 9;
  push @o, ['PXA object', sub { SPVM::PXA->new(3) }, 'obj', 'C:PXA#3', 'PXA', 0], ['PXB object', sub { SPVM::PXB->new(4) }, 'obj', 'C:PXB#4', 'PXB', 0], ['PXC object', sub { SPVM::PXC->new }, 'obj', 'C:PXC', 'PXC', 0], ['Int object', sub { SPVM::Int->new(6) }, 'obj', 'C:Int#6', 'Int', 0];
  push @o, ['byte array', sub { $api->new_byte_array([1]) }, 'obj', 'A:byte[](i1)', 'byte', 1], ['int array', sub { $api->new_int_array([1, 2]) }, 'obj', 'A:int[](i1 i2)', 'int', 1], ['empty int array', sub { $api->new_int_array([]) }, 'obj', 'A:int[]()', 'int', 1], ['string array', sub { $api->new_string_array(['a', undef]) }, 'obj', 'A:string[](S(a) undef)', 'string', 1],
    ['object array', sub { $api->new_object_array('object[]', [SPVM::PXC->new, undef]) }, 'obj', 'A:object[](C:PXC undef)', 'object', 1], ['PXA array', sub { $api->new_object_array('PXA[]', [SPVM::PXB->new(2), undef, SPVM::PXA->new(1)]) }, 'obj', 'A:PXA[](C:PXB#2 undef C:PXA#1)', 'PXA', 1], ['PXB array', sub { $api->new_object_array('PXB[]', [SPVM::PXB->new(2)]) }, 'obj', 'A:PXB[](C:PXB#2)', 'PXB', 1], ['PXC array', sub { $api->new_object_array_len('PXC[]', 1) }, 'obj', 'A:PXC[](undef)', 'PXC', 1], ['PXI array', sub { $api->new_object_array('PXI[]', [SPVM::PXA->new(1)]) }, 'obj', 'A:PXI[](C:PXA#1)', 'PXI', 1],
    ['int[][]', sub { $api->new_muldim_array('int[][]', [$api->new_int_array([1]), undef]) }, 'obj', 'A:int[][](A:int[](i1) undef)', 'int', 2], ['byte[][]', sub { $api->new_muldim_array_len('byte[][]', 1) }, 'obj', 'A:byte[][](undef)', 'byte', 2], ['string[][]', sub { SPVM::PX->nested }, 'obj', 'A:string[][](A:string[](S(a) undef) undef A:string[]())', 'string', 2], ['PXA[][]', sub { $api->new_muldim_array('PXA[][]', [$api->new_object_array('PXA[]', [SPVM::PXA->new(1)])]) }, 'obj', 'A:PXA[][](A:PXA[](C:PXA#1))', 'PXA', 2], ['int[][][]', sub { $api->new_muldim_array_len('int[][][]', 2) }, 'obj', 'A:int[][][](undef undef)', 'int', 3],
    ['T_2i[]', sub { $api->new_mulnum_array('T_2i[]', [{x => 1, y => 2}]) }, 'obj', 'A:T_2i[]({x=i1 y=i2})', 'T_2i', 1], ['T_3i[]', sub { $api->new_mulnum_array_len('T_3i[]', 0) }, 'obj', 'A:T_3i[]()', 'T_3i', 1];
  return @o;
}
# what a conversion of the value to the type gives: the text, 'E', or nothing when the documentation leaves it open
sub oconv { my ($o, $t, $e, $elem) = @_; my ($name, $c, $kind, $text, $b, $d) = @$o;
  return 'undef' if $kind eq 'undef';
  if ($kind eq 'obj') { return isa_($b, $d, $t, $e) ? $text : 'E' }
  if ($t eq 'string' && $e == 0) { return $kind eq 'ref' ? 'E' : $text }
  if ($t eq 'object' && $e == 0 && $kind eq 'plain') { return $elem ? 'E' : () }
  return 'E';
}
$G{object} = sub {
  my @o = ovalues();
  for my $type (otypes()) {
    my $n = tname($type); my ($t, $e) = ($type =~ /^(\w+)/, scalar(() = $type =~ /\[\]/g)); my ($id, $im, $same) = ("o_$n", "im_$n", "same_$n");
    for my $o (@o) {
      my ($w) = oconv($o, $t, $e); next unless defined $w;
      my $wi = $w; my $c = $o->[1];
      t("$o->[0] as $type", $w, sub { SPVM::PX->$id($c->()) });
      t("$o->[0] as $type of an instance method", $wi, sub { my $i = SPVM::PX->new; $i->$im(7, $c->()) });
      t("$o->[0] is the same object as $type", 'i1', sub { my $v = $c->(); SPVM::PX->$same($v, $v) }) if $o->[2] eq 'obj' && $w ne 'E';
      if ($e == 0 && $t ne 'string') { next }
      if ($t eq 'string' && $e == 0) { t("new_string of $o->[0]", $w, sub { $api->new_string($c->()) }); }
      elsif ($t eq 'string' && $e == 1) { t("new_string_array of $o->[0]", $w, sub { $api->new_string_array($c->()) }); }
      elsif ($e == 1 && $t !~ /^(byte|int|T_2i)$/) { t("new_object_array $type of $o->[0]", $w, sub { $api->new_object_array($type, $c->()) }); }
      elsif ($e > 1) { t("new_muldim_array $type of $o->[0]", $w, sub { $api->new_muldim_array($type, $c->()) }); }
    }
    t("undef from $type method", 'undef', sub { my $m = "u_$n"; SPVM::PX->$m });
    next if !$e || $t =~ /^(byte|int|T_2i)$/ && $e == 1;
    my $et = $type =~ s/\[\]$//r;
    t("empty array as $type", "A:$type()", sub { SPVM::PX->$id([]) });
    t("bad reference as $type", 'E', sub { SPVM::PX->$id({}) });
    for my $p (0 .. 2) { for my $o (@o) {
      my ($w) = oconv($o, $t, $e - 1, 1); next unless defined $w; my $c = $o->[1];
      my $all = $w eq 'E' ? 'E' : "A:$type(" . join(' ', map { $_ == $p ? $w : 'undef' } 0 .. 2) . ')';
      t("array with $o->[0] at $p as $type", $all, sub { my @a = (undef) x 3; $a[$p] = $c->(); SPVM::PX->$id(\@a) });
      t("array with $o->[0] at $p in constructor of $type", $all, sub { my @a = (undef) x 3; $a[$p] = $c->(); $e > 1 ? $api->new_muldim_array($type, \@a) : $t eq 'string' ? $api->new_string_array(\@a) : $api->new_object_array($type, \@a) });
      next if $o->[2] ne 'obj' && $o->[2] ne 'undef';
      t("set $o->[0] at $p of $type", $all, sub { my $a = $e > 1 ? $api->new_muldim_array_len($type, 3) : $t eq 'string' ? $api->new_string_array_len(3) : $api->new_object_array_len($type, 3); $a->set($p, $c->()); $a });
      t("get $o->[0] at $p of $type", $w, sub { my $a = $e > 1 ? $api->new_muldim_array_len($type, 3) : $t eq 'string' ? $api->new_string_array_len(3) : $api->new_object_array_len($type, 3); $a->set($p, $c->()); $a->get($p) });
      t("set $o->[0] twice at $p of $type", $w eq 'E' ? 'E' : 'i1 i1', sub { my $a = $e > 1 ? $api->new_muldim_array_len($type, 3) : $t eq 'string' ? $api->new_string_array_len(3) : $api->new_object_array_len($type, 3); my $v = $c->(); $a->set($p, $v); $a->set($p, undef); $a->set($p, $v); my $g = $a->get($p); (SPVM::PX->same_obj($v, $g), 0 + !!($api->get_memory_blocks_count > 0)) });
    } }
    for my $i (-1, 0, 1, 2, 3) { my $in = $i >= 0 && $i < 2; my $mk = sub { $e > 1 ? $api->new_muldim_array_len($type, 2) : $t eq 'string' ? $api->new_string_array_len(2) : $api->new_object_array_len($type, 2) };
      t("get at $i of $type", $in ? 'undef' : 'E', sub { $mk->()->get($i) }); t("set undef at $i of $type", $in ? "A:$type(undef undef)" : 'E', sub { my $a = $mk->(); $a->set($i, undef); $a }); }
    t("length $_ of $type", $_ < 0 ? 'E' : "A:$type(" . join(' ', ('undef') x $_) . ')', do { my $c = $_; sub { $e > 1 ? $api->new_muldim_array_len($type, $c) : $t eq 'string' ? $api->new_string_array_len($c) : $api->new_object_array_len($type, $c) } }) for -1, 0, 1, 5;
    t("binary of $type", 'E', sub { my $a = $e > 1 ? $api->new_muldim_array_len($type, 2) : $t eq 'string' ? $api->new_string_array_len(2) : $api->new_object_array_len($type, 2); $a->to_bin });
  }
  for my $i (-1, 0, 1, 2) { t("get at $i of fields", $i == 0 || $i == 1 ? \qr/^(E|\{x=i@{[1 + 2 * $i]} y=i@{[2 + 2 * $i]}\}$)/ : 'E', sub { $api->new_mulnum_array('T_2i[]', [{x => 1, y => 2}, {x => 3, y => 4}])->get($i) }); }
  for my $o (@o) { my $c = $o->[1]; t("set $o->[0] in an array of fields", \qr/^(E|A:T_2i\[\]\(\{x=i1 y=i2\}\)$)/, sub { my $a = $api->new_mulnum_array('T_2i[]', [{x => 1, y => 2}]); $a->set(0, $c->()); $a }) if $o->[2] =~ /obj|undef/; }
  t('elements of mixed array', 'S(s) C:Int#5 undef A:int[](i1 i2) A:string[](S(x)) C:PXA#4', sub { @{SPVM::PX->mixed->to_elems} });
  t("element $_ of mixed array", ('S(s)', 'C:Int#5', 'undef', 'A:int[](i1 i2)', 'A:string[](S(x))', 'C:PXA#4')[$_], do { my $i = $_; sub { SPVM::PX->mixed->get($i) } }) for 0 .. 5;
  t('strings', '[p(a) p(%e3%81%82)]', sub { $api->new_string_array(['a', "\x{3042}"])->to_strings }); t('binaries', '[p(a) p(%e3%81%82)]', sub { $api->new_string_array(['a', "\x{3042}"])->to_bins });
  t("to_string $_->[0]", $_->[1], do { my $s = $_->[0]; sub { $api->new_string($s)->to_string } }), t("in a string $_->[0]", $_->[1], do { my $s = $_->[0]; sub { my $o = $api->new_string($s); "$o" } }) for ['a', 'p(a)'], ['', 'p()'], ["\x{3042}", 'p(%e3%81%82)'], ["\x{1f600}b", 'p(%f0%9f%98%80b)'], ["\xff", 'E'], ["a\xe3\x81", 'E'];
  t('String is true', 'p(yes)', sub { $api->new_string('0') ? 'yes' : 'no' });
  for my $ty ('int[]', 'Nope[]', 'PXA', 'PXA[][]', 'PXA[', '', 'T_2i[]', 'PX A[]') { t("new_object_array of '$ty'", 'E', sub { $api->new_object_array($ty, []) }); t("new_object_array_len of '$ty'", 'E', sub { $api->new_object_array_len($ty, 1) }); }
  for my $ty ('Nope[][]', 'PXA', 'PXA[]', '', 'int[]', 'int' . '[]' x 256) { t("new_muldim_array of '$ty'", 'E', sub { $api->new_muldim_array($ty, []) }); t("new_muldim_array_len of '$ty'", 'E', sub { $api->new_muldim_array_len($ty, 1) }); }
  for my $ty ('Nope[]', 'T_2i', 'T_2i[][]', '', 'PXA[]', 'int[]') { t("new_mulnum_array of '$ty'", 'E', sub { $api->new_mulnum_array($ty, []) }); t("new_mulnum_array_len of '$ty'", 'E', sub { $api->new_mulnum_array_len($ty, 1) }); t("new_mulnum_array_from_bin of '$ty'", 'E', sub { $api->new_mulnum_array_from_bin($ty, '') }); }
};
$G{signature} = sub {
  my @A = ([sub { -70000 + $_[0] }, sub { -70000 + $_[0] }], [sub { 5000000000 + $_[0] }, sub { 5000000000 + $_[0] }], [sub { 1.5 * $_[0] }, sub { 1.5 * $_[0] }], [sub { -$_[0] }, sub { -$_[0] }], [sub { "s$_[0]" }, sub { "s$_[0]" }], [sub { $api->new_string("o$_[0]") }, sub { "o$_[0]" }], [sub { SPVM::PXB->new(20 + $_[0]) }, sub { 20 + $_[0] }],
    [sub { +{x => $_[0] + .25, y => -.5} }, sub { ($_[0] + .25) . ',-0.5' }], [sub { +{x => $_[0], y => 100, z => -3} }, sub { "$_[0],100,-3" }], [sub { my $x = 300 + $_[0]; \$x }, sub { 300 + $_[0] }, sub { 'i' . (300 + $_[0] * 11) }], [sub { my $x = .5 + $_[0]; \$x }, sub { .5 + $_[0] }, sub { fl(.5 + $_[0] * 11) }],
    [sub { my $x = {x => $_[0], y => -$_[0]}; \$x }, sub { "$_[0],-$_[0]" }, sub { '{x=' . fl($_[0] * 11) . ' y=' . fl($_[0] * 9 + 1) . '}' }], [sub { [$_[0], 400] }, sub { "$_[0],400" }], [sub { [{x => 0, y => 0, z => 0}, {x => $_[0], y => 5, z => -6}] }, sub { "$_[0],5,-6" }], [sub { $api->new_muldim_array('int[][]', [undef, $api->new_int_array([600 + $_[0]])]) }, sub { 600 + $_[0] }]);
  for my $k (0 .. $#SIGS) { my @s = @{$SIGS[$k]};
    my @w = map { $A[$s[$_]][1]->($_ + 1) . '|' } 0 .. $#s; my @r = map { my $f = $A[$s[$_]][2]; $f ? $f->($_ + 1) : () } 0 .. $#s;
    my $id = join ', ', map { $P[$_][0] } @s;
    my $call = sub { my ($inst) = @_; my @a = map { $A[$s[$_]][0]->($_ + 1) } 0 .. $#s; my ($m, $g) = ($inst ? "i$k" : "m$k");
      if ($inst) { my $o = SPVM::PX->new; $o->set_id(8); $g = $o->$m(@a) } else { $g = SPVM::PX->$m(@a) }
      return (\$g->to_bin, map { $A[$s[$_]][2] ? ${$a[$_]} : () } 0 .. $#s) };
    t("($id)", join(' ', join('', @w), @r), sub { $call->(0) }); t("instance method ($id)", join(' ', join('', '8|', @w), @r), sub { $call->(1) });
    t("($id) with one argument more", 'E', sub { my $m = "m$k"; SPVM::PX->$m((map { $A[$s[$_]][0]->($_ + 1) } 0 .. $#s), 1) });
    t("($id) with one argument less", 'E', sub { my $m = "m$k"; SPVM::PX->$m(map { $A[$s[$_]][0]->($_ + 1) } 0 .. $#s - 1) }) if @s;
  }
};
$G{call} = sub {
  SPVM::PXN->init_log;   my $op = sub { my @w = @_; $w[1] //= 7; my $c = $w[2]; sprintf 'S(%s:%s:%s:%s%s)', $w[0], $w[1], (defined $c ? $c : 'u'), (defined $w[3] ? $w[3] : 2.5), ($w[4] ? ':o' : '') };
  for my $n (0 .. 6) { my @a = (1, -9, 'str', 1.25, SPVM::PXA->new(1), 5)[0 .. $n - 1]; t("$n of 1 to 5 arguments", $n < 1 || $n > 5 ? 'E' : $op->(@a), sub { SPVM::PX->opt(@a) }); t("$n of 1 to 5 arguments by name", $n < 1 || $n > 5 ? 'E' : $op->(@a), sub { $api->call_method('PX', 'opt', @a) }); t("$n of 1 to 5 arguments by class object", $n < 1 || $n > 5 ? 'E' : $op->(@a), sub { $api->class('PX')->opt(@a) }); t("$n of 1 to 5 arguments and error object", $n < 1 || $n > 5 ? 'E' : $op->(@a), sub { my $e = $api->new_error; my $r = $api->call_method('PX', 'opt', @a, $e); die 'error id' if $e->id; $r }); }
  for my $n (0 .. 3) { my @a = (11, 12, 13)[0 .. $n - 1]; t("$n of 0 to 2 arguments of an instance method", $n > 2 ? 'E' : 'S(8:' . ($n > 0 ? 11 : 3) . ':' . ($n > 1 ? 12 : 4) . ')', sub { my $o = SPVM::PX->new; $o->set_id(8); $o->iopt(@a) }); }
  for my $c (['PXA', 'A5', 'a5'], ['PXB', 'B5', 'a5']) { my ($cl, $i, $b) = @$c; my $mk = sub { "SPVM::$cl"->new(5) };
    t("$cl iam", "S($i)", sub { $mk->()->iam }); t("$cl both", "S($b)", sub { $mk->()->both }); t("$cl by name", "S($i)", sub { $api->call_method($mk->(), 'iam') }); t("$cl static to parent", 'S(A5)', sub { $mk->()->SPVM::PXA::iam }); t("$cl static to parent by name", 'S(A5)', sub { $api->call_method($mk->(), 'PXA::iam') });
    t("$cl static to child", $cl eq 'PXB' ? 'S(B5)' : 'E', sub { $mk->()->SPVM::PXB::iam }); t("$cl static to child by name", $cl eq 'PXB' ? 'S(B5)' : 'E', sub { $api->call_method($mk->(), 'PXB::iam') }); t("$cl static to another class", 'E', sub { $api->call_method($mk->(), 'PXC::iam') }); t("$cl static to no class", 'E', sub { $api->call_method($mk->(), 'Nope::iam') }); t("$cl static to a static method", 'E', sub { $api->call_method($mk->(), 'PXA::st') });
    t("$cl static to no method", 'E', sub { $api->call_method($mk->(), 'PXA::nope') }); t("$cl without a method", 'E', sub { $mk->()->nope }); t("$cl static method on an instance", 'E', sub { $mk->()->st }); t("$cl single colon", 'E', sub { $api->call_method($mk->(), 'PXA:iam') }); t("$cl only_b", $cl eq 'PXB' ? 'S(ob)' : 'E', sub { $mk->()->only_b }); t("$cl instance method on the class", 'E', sub { "SPVM::$cl"->iam }); t("$cl instance method on the class by name", 'E', sub { $api->call_method($cl, 'iam') }); t("$cl method throws", 'E', sub { $mk->()->boom });
    # the names given to the call are not changed, also by a call that fails
    for my $m ('iam', 'PXA::iam', 'PXB::iam', 'PXC::iam', 'Nope::iam', 'PXA::st', 'PXA::nope', 'PXA:iam', 'nope', 'PXA::boom') { t("name $m of $cl kept", 'p(' . hx($m) . ') p(' . hx($m) . ')', sub { my $k = $m . ''; my $j = $k; my $o = $mk->(); eval { $api->call_method($o, $k) }; ($k, $j) });
      t("name $m of $cl called again", 'p(same)', sub { my $k = $m . ''; my $o = $mk->(); my @r = map { my $r = eval { $api->call_method($o, $k) }; my $e = $@; $e =~ s/ at .*//s; defined $r ? "$r" : $e } 1, 2; $r[0] eq $r[1] ? 'same' : "$r[0] then $r[1]" }); } }
  for my $o (['array', sub { $api->new_int_array([1]) }], ['string', sub { $api->new_string('PX') }], ['Perl object', sub { bless {}, 'Foo' }]) { my $c = $o->[1]; t("call on $o->[0]", 'E', sub { $api->call_method($c->(), 'iam') }); }
  t('no class', 'E', sub { $api->call_method('Nope', 'new') }); t('no method', 'E', sub { SPVM::PX->nope }); t('void', 'undef', sub { SPVM::PX->v }); t('void in scalar context', 'undef', sub { scalar SPVM::PX->v });
  for my $n (0, 1, 3, 10) { for my $m ('m', '', "\x{3042}x", 'a b', "l1\nl2", 'x' x 500) {
    my $b = bytes($m); my $q = quotemeta hx(substr $b, 0, 20); my $len = $n;
    t("exception $n '" . hx(substr $b, 0, 9) . "'", \qr/^E$q/, sub { SPVM::PX->dies_deep($m, $n) });
    t("error id $n '" . hx(substr $b, 0, 9) . "'", \qr/^p\(ok/, sub { my $e = $api->new_error; my $ok = eval { $api->call_method('PX', 'dies_deep', $m, $n, $e); 1 }; my $x = $@; my $e2 = $api->new_error; eval { $api->call_method('PX', 'dies', $m, $e2) }; die 'no exception' if $ok; die 'id ' . $e->id . ' ' . $e2->id unless $e->id > 20 && $e2->id == 18; my $g = $api->get_exception; die 'exception ' . fmt($g) if $m ne '' && index($g->to_bin, $b) != 0; $api->set_exception(undef); 'ok' });
    t("call after exception $n", 'i5', sub { eval { SPVM::PX->dies_deep($m, $n) }; SPVM::PX->id_i(5) }); t("exception of destroyed arguments $n", 'S(99,)', sub { SPVM::PXN->log; eval { SPVM::PXN->boom(undef, undef) }; $api->set_exception(undef); SPVM::PXN->log }); } }
  t('exception text kept', 'S(abc)', sub { $api->set_exception('abc'); my $r = $api->get_exception; $api->set_exception(undef); $r }); t('exception undef', 'undef', sub { $api->set_exception(undef); $api->get_exception }); t('exception of a reference', 'E', sub { $api->set_exception([]) });
  t('reference is not written when the method throws', 'i5', sub { my $x = 5; eval { SPVM::PX->refthrow(\$x) }; $x }); t('references and a return value', 'i103 i3 ' . fl(5), sub { my ($x, $y) = (2, 2.5); my $r = SPVM::PX->refret(\$x, 'a', \$y); ($r, $x, $y) });
  t("depth $_", $_ <= 990 ? "i$_" : 'E', do { my $d = $_; sub { SPVM::PX->depth($d) } }) for 0, 1, 10, 100, 900, 990, 1001, 2000;
  t("division $_->[0] by $_->[1]", $_->[2], do { my $a = $_; sub { SPVM::PX->div($a->[0], $a->[1]) } }) for [6, 3, 'i2'], [1, 0, 'E'], [-7, 2, 'i-3'];
  for my $o (['undef', sub { undef }], ['string', sub { $api->new_string("a\n") }], ['ints', sub { $api->new_int_array([1, 2]) }], ['PXA', sub { SPVM::PXA->new(1) }], ['nested', sub { SPVM::PX->ints2 }], ['mixed', sub { SPVM::PX->mixed }]) { my $c = $o->[1]; next if $o->[0] eq 'undef'; t("dump of $o->[0]", 'p(same)', sub { my $v = $c->(); my ($a, $b) = map { s/0x[0-9a-f]+//gr } $api->dump($v)->to_bin, SPVM::PX->dump($v)->to_bin; $a eq $b && length $a ? 'same' : "$a and $b" }); }
  t("dump of Perl value $_", 'E', do { my $j = $_; sub { $api->dump((bad())[$j]) } }) for 1 .. 7; t('dump of text', 'E', sub { $api->dump('abc') });
  t('options', 'A:object[](S(x) C:Int#3)', sub { $api->new_options({x => SPVM::Int->new(3)}) }); t('empty options', 'A:object[]()', sub { $api->new_options({}) }); t('undef option', 'A:object[](S(y) undef)', sub { $api->new_options({y => undef}) }); t('plain option', 'E', sub { $api->new_options({y => 3}) }); t('options of array', 'E', sub { $api->new_options([]) }); t('options of Perl object', 'E', sub { $api->new_options({x => bless {}, 'Foo'}) });
  my @k = map { "k$_" } 1 .. 5; t('many options', join(',', map { "$_=C:Int#" . substr $_, 1 } @k), sub { my $a = $api->new_options({map { ($_ => SPVM::Int->new(substr $_, 1)) } @k}); my %h; my @e = @$a; while (@e) { my $k = shift @e; $h{$k->to_string} = fmt(shift @e) } \join ',', map { "$_=$h{$_}" } sort keys %h });
};
# ---- lifetimes: every history of operations on three Perl variables and a class variable
$G{history} = sub {
  my $depth = $ENV{EX_DEPTH} || 4;
  my (@var, @rc, @next, $keep, $log, $idc);
  my ($inc, $dec); $inc = sub { $rc[$_[0]]++ if defined $_[0] }; $dec = sub { my $i = shift; return unless defined $i; if (--$rc[$i] == 0) { $log .= "$i,"; my $nx = $next[$i]; $next[$i] = undef; $dec->($nx) } };
  my $mset = sub { my ($v, $x) = @_; $inc->($x); my $old = $var[$v]; $var[$v] = $x; $dec->($old) };
  my @p;
  my @ops = (
    ['a = new', sub { my $i = ++$idc; $rc[$i] = 0; $next[$i] = undef; $mset->(0, $i) }, sub { $p[0] = SPVM::PXN->new($idc) }],
    ['b = a', sub { $mset->(1, $var[0]) }, sub { $p[1] = $p[0] }],
    ['a = b', sub { $mset->(0, $var[1]) }, sub { $p[0] = $p[1] }],
    ['undef a', sub { $mset->(0, undef) }, sub { undef $p[0] }],
    ['undef b', sub { $mset->(1, undef) }, sub { $p[1] = undef }],
    ['a.next = b', sub { return 0 unless defined $var[0]; $inc->($var[1]); my $o = $next[$var[0]]; $next[$var[0]] = $var[1]; $dec->($o); 1 }, sub { $p[0]->set_next($p[1]) }],
    ['b = a.next', sub { return 0 unless defined $var[0]; $mset->(1, $next[$var[0]]); 1 }, sub { $p[1] = $p[0]->next }],
    ['keep a', sub { $inc->($var[0]); my $o = $keep; $keep = $var[0]; $dec->($o); 1 }, sub { SPVM::PXN->keep($p[0]) }],
    ['b = kept', sub { $mset->(1, $keep) }, sub { $p[1] = SPVM::PXN->kept }],
    ['throw with a and b', sub { $log .= '99,'; 1 }, sub { eval { SPVM::PXN->boom($p[0], $p[1]) }; die 'no exception' unless $@ }],
    ['a = pass(a, b)', sub { $mset->(0, $var[1]) }, sub { $p[0] = SPVM::PXN->pass($p[0], $p[1]) }],
    ['b = fresh(a)', sub { my $i = ++$idc; $rc[$i] = 0; $next[$i] = $var[0]; $inc->($var[0]); $mset->(1, $i) }, sub { $p[1] = SPVM::PXN->fresh($idc, $p[0]) }],
    ['a = first of [b]', sub { $mset->(0, $var[1]) }, sub { $p[0] = SPVM::PXN->first([$p[1]]) }],
    ['array object of a and b, a = element 1', sub { $mset->(0, $var[1]) }, sub { my $arr = $api->new_object_array('PXN[]', [$p[0], $p[1]]); my $ar2 = SPVM::PXN->arr($arr); $p[0] = $ar2->get(1) }],
    ['a = elements of [a, b]', sub { $mset->(0, $var[1]) }, sub { my $e = $api->new_any_object_array([$p[0], $p[1]])->to_elems; $p[0] = $e->[1] }],
    ['failing call with a', sub { 1 }, sub { eval { SPVM::PXN->pass($p[0]) }; eval { SPVM::PXN->pass($p[0], 5) }; eval { SPVM::PXN->first([$p[0], 3]) }; }],
  );
  SPVM::PXN->init_log;
  my $count = 0;
  my $total = @ops ** ($depth - 1);   # every history begins with an object
  for (my $q = $PART; $q < $total; $q += $PARTS) {
    my $x = $q; my @s = (0, map { my $r = $x % @ops; $x = int($x / @ops); $r } 2 .. $depth);
    $count++;
    @var = (); @rc = (); @next = (); $keep = undef; $idc = 0; @p = ();
    my ($w, $g, $bad) = ('', '', '');
    my $c0 = $api->get_memory_blocks_count;
    for my $o (@s) {
      $log = ''; my $r = $ops[$o][1]->(); last if defined $r && !ref $r && $r eq '0' && $ops[$o][0] =~ /next/;
      my $ok = eval { $ops[$o][2]->(); 1 }; my $err = $ok ? '' : "exception $@";
      my $l = SPVM::PXN->log->to_bin; my $ids = join ',', map { defined $p[$_] ? $p[$_]->id : 'u' } 0, 1; my $wids = join ',', map { defined $var[$_] ? $var[$_] : 'u' } 0, 1;
      $w .= "$log/$wids "; $g .= "$err$l/$ids ";
    }
    # the end: everything that is not in a cycle goes away
    $log = ''; $mset->(0, undef); $mset->(1, undef); my $kk = $keep; $keep = undef; $dec->($kk);
    undef $p[0]; undef $p[1]; SPVM::PXN->keep(undef); $api->set_exception(undef);
    $g .= SPVM::PXN->log->to_bin; $w .= $log;
    my $live = grep { $_ } @rc[1 .. $#rc]; my $c1 = $api->get_memory_blocks_count;
    $seen{$g} = 1 if keys %seen < 200000;
    $bad = "objects destroyed / objects in a and b: observed $g, expected $w" if $g ne $w;
    $bad .= ' ' . ($c1 - $c0) . " memory blocks left, expected $live" if $c1 - $c0 != $live && !$bad;
    if ($bad && $fails++ < 20) { print "F\t", hx('history ' . join '; ', map { $ops[$_][0] } @s), "\t", hx($bad), "\n"; }
  }
  $n += $count;
  SPVM::PXN->clear;
};
$G{$GROUP}->();
print "N\t", ($GROUP eq 'history' ? $n : int($n / $PARTS)), "\t", scalar(keys %seen), "\n";
