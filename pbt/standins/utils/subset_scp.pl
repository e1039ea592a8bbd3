#!/usr/bin/perl
# n lines: the first, the last, or evenly distributed
use strict;
my $how = '';
if ($ARGV[0] =~ /^--(first|last)$/) { $how = $1; shift @ARGV; }
my $n = shift @ARGV;
my @l = <>;
@l >= $n || die "not enough lines\n";
if ($how eq 'first') { print @l[0 .. $n - 1]; }
elsif ($how eq 'last') { print @l[@l - $n .. $#l]; }
else { for my $i (0 .. $n - 1) { print $l[int($i * @l / $n)]; } }
