# Prints, per property of the Unicode Character Database, the ranges of each value with its short and
# long names (perl 5.38, Unicode 15.0).  Input of gen_names.py.
use Unicode::UCD qw(prop_invmap prop_value_aliases prop_values);
for my $p (qw(gc bc ea lb SB WB GCB dt jt jg sc blk hst InPC InSC vo nt)) {
    for my $v (prop_values($p)) { my @a = prop_value_aliases($p, $v); print "V;$p;", join(";", @a), "\n"; }
    my ($l, $m, $f, $d) = prop_invmap($p);
    for my $i (0..$#$l) { last if $l->[$i] > 0x10ffff; my @a = prop_value_aliases($p, $m->[$i]); print "R;$p;$l->[$i];", (@a ? $a[0] : $m->[$i]), "\n"; }
}
