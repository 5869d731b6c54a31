package main

// nearKeys: for point j of node "10.0.0.i:80" the keys whose points were the
// closest ones above and below it among the first 7.5e9 numerals in base 36
// (about 2^31 of 2^64 apart: they agree with the point in their 33 high bits).
var nearKeys = [12][8][2]string{
	1:  {{"2isig14", "evj4lt"}, {"17n0x2s", "3c1urtb"}, {"2tmudug", "ocrh5r"}, {"29et2tm", "19a0ku9"}, {"3byv9ib", "31zoyx"}, {"1h8mtpn", "1cb87ll"}, {"64kj3y", "bjyy8z"}, {"ulj0rs", "s1yrm5"}},
	2:  {{"2ywhgml", "x7gut5"}, {"hr1kgu", "32bmssi"}, {"4q6yxb", "2vj68kp"}, {"w0in2g", "1843yie"}, {"2icxc9y", "1pjtg6i"}, {"nfkg9t", "374l2we"}, {"1aq3yzq", "25qwwkv"}, {"1vemml7", "184dhkz"}},
	3:  {{"1v6yvrm", "2ez9swb"}, {"2wfejiu", "2sy5jej"}, {"m3v1g2", "hcd8zm"}, {"1co4i2a", "2sh8btk"}, {"1isrgqq", "6h32on"}, {"gsfilt", "g6gu65"}, {"3dh6fof", "1mamm7f"}, {"27t13gy", "1hhroew"}},
	4:  {{"10tmabk", "3umwwc"}, {"1ufdg95", "1gvwiac"}, {"2bjuw56", "2chy7v6"}, {"192drx4", "244lpj2"}, {"520g87", "3dax2uk"}, {"on3rsh", "33zldna"}, {"1bahpbt", "5uqzpp"}, {"gydkjl", "1xq9t31"}},
	5:  {{"21r6fpt", "irda2i"}, {"1g9vlcc", "32uo97j"}, {"1qz1uvn", "2is8jip"}, {"33a2mp2", "2w4wx17"}, {"94d6wl", "2dlg28w"}, {"1mmywgk", "1b8sqnf"}, {"2lnujne", "1ejjp07"}, {"2zaabir", "1k2orbo"}},
	6:  {{"2f7ea1t", "2un76zg"}, {"by03vl", "bgq1c4"}, {"19h52kq", "2atzhqp"}, {"1rskg0r", "1bcf3go"}, {"1l53gm3", "m7hxrs"}, {"1icrjsr", "1rtizoz"}, {"28apr8t", "320mwm3"}, {"2k4sm9o", "2w2j6cy"}},
	7:  {{"2cncikt", "23mwp6u"}, {"2134865", "1kdsbje"}, {"13ljgkw", "wvjhhm"}, {"higcso", "1bmpkru"}, {"28rnabj", "391hgt7"}, {"3b0f39d", "vkkfiy"}, {"yvfkti", "2483y0b"}, {"2bc2u0t", "55xd9s"}},
	8:  {{"tazdls", "vfzgxy"}, {"1celd46", "122sj3z"}, {"25nayqr", "1azwmjn"}, {"etn35n", "2c3fpk1"}, {"25wu2n7", "2hwayei"}, {"hnwkn", "2rpd2g2"}, {"27eqe8d", "1ua4pya"}, {"2vdfgp5", "csbsso"}},
	9:  {{"1i1m11i", "onkedm"}, {"1p8yy1k", "2qh6xh7"}, {"1xc6zw9", "35z9emv"}, {"15z9sf4", "1anbdpm"}, {"1ar4ixa", "18f1wwe"}, {"anjsno", "33gacwy"}, {"33m95nh", "1gmw6c2"}, {"xcd63h", "2oul1ff"}},
	10: {{"1k2escc", "1hvr19e"}, {"39p7vmi", "3dtbtkt"}, {"1pnr228", "7iosd3"}, {"1xwxrrv", "m2knx2"}, {"37pl0r8", "20iazxw"}, {"apwjry", "9m5cuu"}, {"391v693", "2r6yb0y"}, {"1v56nsj", "1zxob7f"}},
	11: {{"1mgjnel", "2mjkwyw"}, {"3bb35tk", "1khsfgk"}, {"b2vbjw", "1f8zn3y"}, {"opayss", "33iqugk"}, {"1cvullf", "iwhzmq"}, {"3dowe9z", "22e4pz0"}, {"12fsf7u", "y1tf5n"}, {"2t0oszw", "2h8t3n3"}},
}
