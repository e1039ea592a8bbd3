#!/usr/bin/perl
# runs a command once per job: run.pl JOB=first:last log command args...
use strict;
my ($name, $a, $b) = shift(@ARGV) =~ /^(\w+)=(\d+):(\d+)$/ or die "bad job specification\n";
my $log = shift @ARGV;
$log =~ /$name/ || $a == $b || die "log has to depend on the job\n";
my $fail = 0;
for my $j ($a .. $b) {
  my @c = @ARGV; my $l = $log;
  s/$name/$j/g for (@c, $l);
  open(my $L, '>', $l) || die "cannot write $l\n"; print $L "@c\n"; close $L;
  system(@c) == 0 or $fail = 1;
}
exit $fail;
