#!/usr/bin/perl
use strict;
while (<>) {
  my @a = split;
  @a > 1 || die "Invalid line in spk2utt file: $_\n";
  my $s = shift @a;
  print "$_ $s\n" for @a;
}
