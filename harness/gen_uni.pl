# regenerates src/js/uni.rs from perl's Unicode tables
use strict; use Unicode::UCD;
my @r; my ($last,$from)=(-1,0);
for my $c (128..0x110000) {
  my $k=-1;
  if ($c<0x110000) {
    if ($c>=0xd800 && $c<0xe000) { $k=0 } else {
    my $s=chr($c);
    my $new = $s !~ /\p{Age: V9_0}/ && $s !~ /\p{Present_In: 9.0}/;
    my $un = $s =~ /\p{Cn}/;
    $k = ($s =~ /\p{ID_Start}/) ? 1 : ($s =~ /\p{ID_Continue}/) ? 2 : 0;
    $k = 3 if $c==0x1cf2 || $c==0x1cf3 || $c==0x111c9; # reclassified in Unicode 11 and 12
    $k = 3 if $new && !$un || $un && $s !~ /\p{Noncharacter_Code_Point}/;
    }
  }
  if ($k!=$last) { push @r,[$from,$c-1,$last] if $last>0; $from=$c; $last=$k }
}
open F,">","src/js/uni.rs";
print F "//! Code point classes from Unicode ",Unicode::UCD::UnicodeVersion(),", by gen_uni.pl. UNKNOWN marks the code points\n//! that were not yet assigned in Unicode 9 or still are not (the standard lets implementations differ there).\npub const NONE: u8 = 0;\npub const START: u8 = 1;\npub const PART: u8 = 2;\npub const UNKNOWN: u8 = 3;\n\n";
print F "/// Other space separators (Zs) of every Unicode version since 6.3.\npub fn zs(c: u32) -> bool {\n    c == 0xa0 || c == 0x1680 || c >= 0x2000 && c <= 0x200a || c == 0x202f || c == 0x205f || c == 0x3000\n}\n\n";
print F "/// ID_Start / ID_Continue class of a code point above ASCII.\npub fn id_class(c: u32) -> u8 {\n    let (mut lo, mut hi) = (0usize, T.len());\n    while lo < hi {\n        let m = (lo + hi) / 2;\n        if c < T[m].0 {\n            hi = m;\n        } else if c > T[m].1 {\n            lo = m + 1;\n        } else {\n            return T[m].2;\n        }\n    }\n    NONE\n}\n\n";
print F "static T: [(u32, u32, u8); ",scalar(@r),"] = [\n";
printf F "    (0x%x, 0x%x, %d),\n",@$_ for @r;
print F "];\n";
