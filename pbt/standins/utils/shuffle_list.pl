#!/usr/bin/perl
use strict;
srand($ENV{STANDIN_SEED} || 1);
my @l = <>;
for (my $i = @l - 1; $i > 0; $i--) { my $j = int(rand($i + 1)); @l[$i, $j] = @l[$j, $i]; }
print @l;
