#!/usr/bin/perl
use strict;
my (@spks, %utts);
while (<>) {
  my @a = split;
  @a == 2 || die "Invalid line in utt2spk file: $_\n";
  if (!defined $utts{$a[1]}) { push @spks, $a[1]; $utts{$a[1]} = []; }
  push @{$utts{$a[1]}}, $a[0];
}
print "$_ " . join(' ', @{$utts{$_}}) . "\n" for @spks;
