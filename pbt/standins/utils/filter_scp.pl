#!/usr/bin/perl
# stand-in of Kaldi's: keeps the lines whose field is a first field of the id list
use strict;
my $exclude = 0; my $field = 0;
while (@ARGV && $ARGV[0] =~ /^-./) {
  my $o = shift @ARGV;
  if ($o eq '--exclude') { $exclude = 1; }
  elsif ($o eq '-f') { $field = (shift @ARGV) - 1; }
  else { die "filter_scp.pl: bad option $o\n"; }
}
@ARGV == 1 || @ARGV == 2 || die "usage: filter_scp.pl id-list [in.scp]\n";
my $ids = shift @ARGV;
my %seen;
my $F;
if ($ids eq '-') { $F = \*STDIN; } else { open($F, '<', $ids) || die "Could not open id-list file $ids\n"; }
while (<$F>) { my @a = split; @a >= 1 || die "Invalid id-list file line $_\n"; $seen{$a[0]} = 1; }
my $G;
if (@ARGV) { open($G, '<', $ARGV[0]) || die "cannot open $ARGV[0]\n"; } else { $G = \*STDIN; }
while (<$G>) {
  my @a = split;
  @a > $field || die "Invalid scp file line $_\n";
  if ((defined $seen{$a[$field]}) != $exclude) { print $_; }
}
exit 0;
