"""The SPVM classes that the Perl exchange checks call, and the Perl helpers of their snippets."""
import os

NUM = ["byte", "short", "int", "long", "float", "double"]
CODE = {"byte": "c", "short": "s", "int": "l", "long": "q", "float": "f", "double": "d"}
MUL = {t: "VX::P_%d%s" % (2 if t in ("int", "double", "byte") else 3, t[0]) for t in NUM}
FIELDS = {t: ["x", "y", "z"][:2 if t in ("int", "double", "byte") else 3] for t in NUM}


def classes():
    out = {}
    L = ["class VX {", "  use Fn; use Int; use Stringable; " + " ".join("use %s;" % MUL[t] for t in NUM) + " use VX::N; use VX::C; use VX::I; use VX::E;", "  our $KEEP : object;"]
    for t in NUM:
        m = MUL[t]
        out[m] = "class %s : mulnum_t { %s }" % (m, " ".join("has %s : %s;" % (f, t) for f in FIELDS[t]))
        n = len(FIELDS[t])
        w = {"byte": 1, "short": 2, "int": 4, "long": 8, "float": 4, "double": 8}[t]
        L.append("""
  static method echo_T : T ($x : T) { return $x; }
  static method raw_T : string ($x : T) { my $a = new T[1]; $a->[0] = $x; return &rawa_T($a); }
  static method rawa_T : string ($a : T[]) { unless ($a) { return undef; } my $s = (mutable string)new_string_len(@$a * %d); Fn->memcpy($s, 0, $a, 0, @$a * %d); return $s; }
  static method echoa_T : T[] ($a : T[]) { return $a; }
  static method set_T : void ($a : T[], $i : int, $v : T) { $a->[$i] = $v; }
  static method get_T : T ($a : T[], $i : int) { return $a->[$i]; }
  static method ref_T : int ($a : int, $r : T*, $b : T) { $$r = (T)($$r + $b); return $a; }
  static method def_T : string ($a : T, $b : T = 7, $c : string = undef) { return &raw_T($a) . &raw_T($b) . ($c ? 0 : 0); }
  static method m_echo_T : %s ($p : %s) { return $p; }
  static method m_raw_T : string ($a : int, $p : %s, $b : T) { my $q = new T[%d]; %s $q->[%d] = $b; return &rawa_T($q) . "/$a"; }
  static method m_ref_T : void ($p : %s*, $b : T) { %s }
  static method m_rawa_T : string ($p : %s[]) { unless ($p) { return undef; } my $q = new T[@$p * %d]; for (my $i = 0; $i < @$p; $i++) { %s } return &rawa_T($q); }
  static method m_echoa_T : %s[] ($p : %s[]) { return $p; }
  static method m_seta_T : void ($p : %s[], $i : int, $v : T) { $p->[$i]{y} = $v; }
  static method new_T : object ($n : int) { return new T[$n]; }
""".replace(" . ($c ? 0 : 0)", "").replace("T", "@@") .replace("@@", "\0") % ((w, w, m, m, m, n + 1, " ".join("$q->[%d] = $p->{%s};" % (i, f) for i, f in enumerate(FIELDS[t])), n,
            m, " ".join("$p->{%s} = (\0)($p->{%s} + $b);" % (f, f) for f in FIELDS[t]), m, n,
            " ".join("$q->[$i * %d + %d] = $p->[$i]{%s};" % (n, i, f) for i, f in enumerate(FIELDS[t])), m, m, m)))
        L[-1] = L[-1].replace("\0", t)
    L.append("""
  static method echo_string : string ($x : string) { return $x; }
  static method len_string : int ($x : string) { unless ($x) { return -1; } return length $x; }
  static method chars_string : byte[] ($x : string) { return (byte[])$x; }
  static method from_bytes : string ($x : byte[]) { return (string)$x; }
  static method cat : string ($x : string, $y : string) { return $x . $y; }
  static method echoa_string : string[] ($x : string[]) { return $x; }
  static method join_string : string ($x : string[]) { my $s = ""; for my $e (@$x) { if ($e) { my $l = length $e; $s .= "$l:" . $e . ","; } else { $s .= "u,"; } } return $s; }
  static method set_string : void ($a : string[], $i : int, $v : string) { $a->[$i] = $v; }
  static method echo_object : object ($x : object) { return $x; }
  static method echoa_object : object[] ($x : object[]) { return $x; }
  static method set_object : void ($a : object[], $i : int, $v : object) { $a->[$i] = $v; }
  static method get_object : object ($a : object[], $i : int) { return $a->[$i]; }
  static method same : int ($x : object, $y : object) { return $x == $y; }
  static method tname : string ($x : object) { return type_name $x; }
  static method count : int ($x : object[]) { unless ($x) { return -1; } return @$x; }
  static method echo_n : VX::N ($x : VX::N) { return $x; }
  static method echo_c : VX::C ($x : VX::C) { return $x; }
  static method echo_i : VX::I ($x : VX::I) { return $x; }
  static method echo_ai : int[] ($x : int[]) { return $x; }
  static method echoa_n : VX::N[] ($x : VX::N[]) { return $x; }
  static method echoa_i : VX::I[] ($x : VX::I[]) { return $x; }
  static method echo_ii : int[][] ($x : int[][]) { return $x; }
  static method echo_ss : string[][] ($x : string[][]) { return $x; }
  static method echo_iii : int[][][] ($x : int[][][]) { return $x; }
  static method nothing : void () { }
  static method nothing1 : void ($x : object) { }
  static method keep : void ($x : object) { $KEEP = $x; }
  static method kept : object () { return $KEEP; }
  static method drop : void () { $KEEP = undef; }
  static method fail : int ($m : string, $how : int) { my $x = new int[3]; my $o = VX::N->new(1); if ($how == 1) { die $m; } if ($how == 2) { die VX::E $m; } if ($how == 3) { $x->[5]; } if ($how == 4) { (VX::C)$o; } return 5; }
  static method failref : void ($r : int*, $how : int) { $$r = 99; if ($how) { die "failref"; } }
  static method opt : string ($a : int, $b : long = 11, $c : string = undef, $d : double = 2.5, $e : VX::N = undef) { my $s = "$a/$b/"; if ($c) { $s .= $c; } $s .= "/$d/"; if ($e) { $s .= $e->value; } return $s; }
  static method mix : string ($a : byte, $b : string, $c : int[], $d : VX::N, $e : double, $f : %s, $g : object, $h : short) { my $s = (int)$a . "|"; if ($b) { $s .= $b; } $s .= "|"; if ($c) { my $n = @$c; $s .= $n; } $s .= "|"; if ($d) { $s .= $d->value; } $s .= "|$e|" . $f->{x} . "," . $f->{y} . "|"; if ($g) { $s .= type_name $g; } $s .= "|" . (int)$h; return $s; }
  static method refarr : int ($a : int[], $r : int*, $s : string, $p : %s*, $o : object, $q : double*) { $$r = $$r + @$a; $p->{y} = $p->{y} + 1; $$q = $$q * 2; return length $s; }
  static method eid : int () { return basic_type_id VX::E; }
  static method deep : int ($n : int) { if ($n == 0) { return 0; } return 1 + &deep($n - 1); }
  static method alive : int () { return VX::N->ALIVE; }
}
""" % (MUL["int"], MUL["int"]))
    out["VX"] = "\n".join(L)
    out["VX::I"] = "class VX::I : interface_t { required method vxi : int (); }"
    out["VX::E"] = "class VX::E extends Error { }"
    out["VX::N"] = """class VX::N {
  use VX::I;
  interface VX::I;
  our $ALIVE : ro int;
  has v : rw int;
  has child : rw object;
  static method new : VX::N ($v : int = 0) { my $s = new VX::N; $s->{v} = $v; $ALIVE++; return $s; }
  static method bump : void () { $ALIVE++; }
  method DESTROY : void () { $ALIVE--; }
  method value : int () { return $self->{v}; }
  method vxi : int () { return 1; }
  method add : int ($x : int, $y : int = 1) { $self->{v} = $self->{v} + $x * $y; return $self->{v}; }
  method me : VX::N () { return $self; }
  method name : string () { return "N"; }
  method fail : void ($m : string) { die $m; }
  static method cls : int ($x : int) { return $x + 1; }
}"""
    out["VX::C"] = """class VX::C extends VX::N {
  static method new : VX::C ($v : int = 0) { my $s = new VX::C; $s->set_v($v); VX::N->bump; return $s; }
  method name : string () { return "C/" . $self->SUPER::name; }
  method only : int () { return 77; }
}"""
    return out


HELP = r'''
our (%V, %M, $API, @BAD, $N);
# (pack makes doubles above the largest float infinite although they round to it)
use constant FMAX => 3.40282346638528859812e38;
sub cv { my ($c, $x) = @_; no warnings; $c =~ /[cslq]/ ? substr(pack("q", do { use integer; $x + 0 }), 0, {c => 1, s => 2, l => 4, q => 8}->{$c}) : pack($c, $c eq "f" && abs($x) > FMAX && abs($x) < 3.40282356779733662e38 ? ($x < 0 ? -(FMAX) : FMAX) : $x) }
sub ad { my ($c, $p, $q) = @_; use integer; cv($c, unpack($c, cv($c, $p)) + unpack($c, cv($c, $q))) }
sub cu { my ($c, $x) = @_; no warnings; substr(pack("Q", $x | 0), 0, {c => 1, s => 2, l => 4, q => 8}->{$c}) }
sub bk { my ($c, $b) = @_; unpack("$c*", $b) }
sub h { unpack("H*", $_[0]) }
# how a value looks from Perl
sub R { my ($x) = @_;
  return "u" unless defined $x;
  if (my $r = ref $x) {
    return "S" . h($x->to_bin) if $r eq "SPVM::BlessedObject::String";
    return "A" . $x->__get_type_name if $r eq "SPVM::BlessedObject::Array";
    return "C" . $x->__get_type_name if $r eq "SPVM::BlessedObject::Class";
    return "{" . join(",", map { "$_=" . R($x->{$_}) } sort keys %$x) . "}" if $r eq "HASH";
    return "[" . join(",", map { R($_) } @$x) . "]" if $r eq "ARRAY";
    return $r;
  }
  my $f = B::svref_2object(\$x)->FLAGS;
  return "i$x" if $f & B::SVf_IOK() && !($f & B::SVf_POK());
  return "d" . h(pack("d>", $x)) if $f & B::SVf_NOK() && !($f & B::SVf_POK());
  my $y = $x; my $u = utf8::is_utf8($y) ? "U" : "B"; utf8::encode($y) if $u eq "U";
  return "s$u" . h($y);
}
# checks: what the code gives against what is expected ("DIE" for an exception)
sub ck (&$) { my ($c, $e) = @_;
  $N++;
  my $g;
  eval { my @l = $c->(); $g = join ";", map { R($_) } @l; 1 } or $g = "DIE " . (split /\n/, "$@")[0];
  return if $e eq "DIE" ? $g =~ /^DIE / : $e =~ /^DIE (.*)/s ? $g =~ /^DIE / && index($g, $1) >= 0 : $g eq $e;
  push @BAD, (caller)[2] . ": expected $e, got $g";
  return;
}
'''


def write(d):
    for n, s in classes().items():
        p = os.path.join(d, "SPVM", n.replace("::", "/") + ".spvm")
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as f:
            f.write(s)
