use strict;
use warnings;
my ($in, $out) = @ARGV;
open(my $r, "<&=", $in) or die;
open(my $w, ">&=", $out) or die;
binmode $r; binmode $w;
select((select(STDOUT), $| = 1)[0]);
package VTX;
our @REC;
our %G;
# integers, numbers (bits), byte strings
sub oi { push @REC, map { defined $_ ? "i" . (ref $_ ? "REF" : "$_") : "u" } @_; return }
sub od { push @REC, map { defined $_ ? "d" . unpack("H*", pack("d>", $_)) : "u" } @_; return }
sub os { push @REC, map { my $x = $_; defined $x ? do { utf8::encode($x) if utf8::is_utf8($x); "s" . unpack("H*", $x) } : "u" } @_; return }
# the class of a Perl reference
sub oc { push @REC, map { defined $_ ? "c" . ref($_) : "u" } @_; return }
sub flags { my ($x) = @_; require B; my $f = B::svref_2object(\$x)->FLAGS; push @REC, "f" . ($f & B::SVf_IOK() ? "I" : "") . ($f & B::SVf_NOK() ? "N" : "") . ($f & B::SVf_POK() ? "P" : ""); return }
# runs code, records "ok" or the first line of the exception
sub try_ (&) { my ($c) = @_; my $ok = eval { local $SIG{__WARN__} = sub {}; $c->(); 1 }; push @REC, $ok ? "ok" : "e" . ((split /\n/, "$@")[0]); return }
package main;
sub rd { my $n = shift; my $b = ""; while (length $b < $n) { my $k = read($r, $b, $n - length $b, length $b); exit 0 unless $k; } $b }
while (1) {
  my $n = unpack("V", rd(4));
  my $code = rd($n);
  utf8::decode($code) or die "code";
  @VTX::REC = ();
  {
    local $@;
    local $SIG{__WARN__} = sub {};
    eval "package VTX; use utf8; no warnings; our (%V, %M, \$API, \@BAD, \$N); $code; 1";
    push @VTX::REC, defined $@ ? "$@" : "";
  }
  my @o = map { my $x = $_; utf8::encode($x) if utf8::is_utf8($x); $x } @VTX::REC;
  print $w pack("V", scalar @o), map { pack("V", length $_) . $_ } @o;
  $w->flush;
}
