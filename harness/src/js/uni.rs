//! Code point classes from Unicode 15.0.0, by gen_uni.pl. UNKNOWN marks the code points
//! that were not yet assigned in Unicode 9 or still are not (the standard lets implementations differ there).
pub const NONE: u8 = 0;
pub const START: u8 = 1;
pub const PART: u8 = 2;
pub const UNKNOWN: u8 = 3;

/// Other space separators (Zs) of every Unicode version since 6.3.
pub fn zs(c: u32) -> bool {
    c == 0xa0 || c == 0x1680 || c >= 0x2000 && c <= 0x200a || c == 0x202f || c == 0x205f || c == 0x3000
}

/// ID_Start / ID_Continue class of a code point above ASCII.
pub fn id_class(c: u32) -> u8 {
    let (mut lo, mut hi) = (0usize, T.len());
    while lo < hi {
        let m = (lo + hi) / 2;
        if c < T[m].0 {
            hi = m;
        } else if c > T[m].1 {
            lo = m + 1;
        } else {
            return T[m].2;
        }
    }
    NONE
}

static T: [(u32, u32, u8); 1525] = [
    (0xaa, 0xaa, 1),
    (0xb5, 0xb5, 1),
    (0xb7, 0xb7, 2),
    (0xba, 0xba, 1),
    (0xc0, 0xd6, 1),
    (0xd8, 0xf6, 1),
    (0xf8, 0x2c1, 1),
    (0x2c6, 0x2d1, 1),
    (0x2e0, 0x2e4, 1),
    (0x2ec, 0x2ec, 1),
    (0x2ee, 0x2ee, 1),
    (0x300, 0x36f, 2),
    (0x370, 0x374, 1),
    (0x376, 0x377, 1),
    (0x378, 0x379, 3),
    (0x37a, 0x37d, 1),
    (0x37f, 0x37f, 1),
    (0x380, 0x383, 3),
    (0x386, 0x386, 1),
    (0x387, 0x387, 2),
    (0x388, 0x38a, 1),
    (0x38b, 0x38b, 3),
    (0x38c, 0x38c, 1),
    (0x38d, 0x38d, 3),
    (0x38e, 0x3a1, 1),
    (0x3a2, 0x3a2, 3),
    (0x3a3, 0x3f5, 1),
    (0x3f7, 0x481, 1),
    (0x483, 0x487, 2),
    (0x48a, 0x52f, 1),
    (0x530, 0x530, 3),
    (0x531, 0x556, 1),
    (0x557, 0x558, 3),
    (0x559, 0x559, 1),
    (0x560, 0x560, 3),
    (0x561, 0x587, 1),
    (0x588, 0x588, 3),
    (0x58b, 0x58c, 3),
    (0x590, 0x590, 3),
    (0x591, 0x5bd, 2),
    (0x5bf, 0x5bf, 2),
    (0x5c1, 0x5c2, 2),
    (0x5c4, 0x5c5, 2),
    (0x5c7, 0x5c7, 2),
    (0x5c8, 0x5cf, 3),
    (0x5d0, 0x5ea, 1),
    (0x5eb, 0x5ef, 3),
    (0x5f0, 0x5f2, 1),
    (0x5f5, 0x5ff, 3),
    (0x610, 0x61a, 2),
    (0x61d, 0x61d, 3),
    (0x620, 0x64a, 1),
    (0x64b, 0x669, 2),
    (0x66e, 0x66f, 1),
    (0x670, 0x670, 2),
    (0x671, 0x6d3, 1),
    (0x6d5, 0x6d5, 1),
    (0x6d6, 0x6dc, 2),
    (0x6df, 0x6e4, 2),
    (0x6e5, 0x6e6, 1),
    (0x6e7, 0x6e8, 2),
    (0x6ea, 0x6ed, 2),
    (0x6ee, 0x6ef, 1),
    (0x6f0, 0x6f9, 2),
    (0x6fa, 0x6fc, 1),
    (0x6ff, 0x6ff, 1),
    (0x70e, 0x70e, 3),
    (0x710, 0x710, 1),
    (0x711, 0x711, 2),
    (0x712, 0x72f, 1),
    (0x730, 0x74a, 2),
    (0x74b, 0x74c, 3),
    (0x74d, 0x7a5, 1),
    (0x7a6, 0x7b0, 2),
    (0x7b1, 0x7b1, 1),
    (0x7b2, 0x7bf, 3),
    (0x7c0, 0x7c9, 2),
    (0x7ca, 0x7ea, 1),
    (0x7eb, 0x7f3, 2),
    (0x7f4, 0x7f5, 1),
    (0x7fa, 0x7fa, 1),
    (0x7fb, 0x7ff, 3),
    (0x800, 0x815, 1),
    (0x816, 0x819, 2),
    (0x81a, 0x81a, 1),
    (0x81b, 0x823, 2),
    (0x824, 0x824, 1),
    (0x825, 0x827, 2),
    (0x828, 0x828, 1),
    (0x829, 0x82d, 2),
    (0x82e, 0x82f, 3),
    (0x83f, 0x83f, 3),
    (0x840, 0x858, 1),
    (0x859, 0x85b, 2),
    (0x85c, 0x85d, 3),
    (0x85f, 0x89f, 3),
    (0x8a0, 0x8b4, 1),
    (0x8b5, 0x8b5, 3),
    (0x8b6, 0x8bd, 1),
    (0x8be, 0x8d3, 3),
    (0x8d4, 0x8e1, 2),
    (0x8e3, 0x903, 2),
    (0x904, 0x939, 1),
    (0x93a, 0x93c, 2),
    (0x93d, 0x93d, 1),
    (0x93e, 0x94f, 2),
    (0x950, 0x950, 1),
    (0x951, 0x957, 2),
    (0x958, 0x961, 1),
    (0x962, 0x963, 2),
    (0x966, 0x96f, 2),
    (0x971, 0x980, 1),
    (0x981, 0x983, 2),
    (0x984, 0x984, 3),
    (0x985, 0x98c, 1),
    (0x98d, 0x98e, 3),
    (0x98f, 0x990, 1),
    (0x991, 0x992, 3),
    (0x993, 0x9a8, 1),
    (0x9a9, 0x9a9, 3),
    (0x9aa, 0x9b0, 1),
    (0x9b1, 0x9b1, 3),
    (0x9b2, 0x9b2, 1),
    (0x9b3, 0x9b5, 3),
    (0x9b6, 0x9b9, 1),
    (0x9ba, 0x9bb, 3),
    (0x9bc, 0x9bc, 2),
    (0x9bd, 0x9bd, 1),
    (0x9be, 0x9c4, 2),
    (0x9c5, 0x9c6, 3),
    (0x9c7, 0x9c8, 2),
    (0x9c9, 0x9ca, 3),
    (0x9cb, 0x9cd, 2),
    (0x9ce, 0x9ce, 1),
    (0x9cf, 0x9d6, 3),
    (0x9d7, 0x9d7, 2),
    (0x9d8, 0x9db, 3),
    (0x9dc, 0x9dd, 1),
    (0x9de, 0x9de, 3),
    (0x9df, 0x9e1, 1),
    (0x9e2, 0x9e3, 2),
    (0x9e4, 0x9e5, 3),
    (0x9e6, 0x9ef, 2),
    (0x9f0, 0x9f1, 1),
    (0x9fc, 0xa00, 3),
    (0xa01, 0xa03, 2),
    (0xa04, 0xa04, 3),
    (0xa05, 0xa0a, 1),
    (0xa0b, 0xa0e, 3),
    (0xa0f, 0xa10, 1),
    (0xa11, 0xa12, 3),
    (0xa13, 0xa28, 1),
    (0xa29, 0xa29, 3),
    (0xa2a, 0xa30, 1),
    (0xa31, 0xa31, 3),
    (0xa32, 0xa33, 1),
    (0xa34, 0xa34, 3),
    (0xa35, 0xa36, 1),
    (0xa37, 0xa37, 3),
    (0xa38, 0xa39, 1),
    (0xa3a, 0xa3b, 3),
    (0xa3c, 0xa3c, 2),
    (0xa3d, 0xa3d, 3),
    (0xa3e, 0xa42, 2),
    (0xa43, 0xa46, 3),
    (0xa47, 0xa48, 2),
    (0xa49, 0xa4a, 3),
    (0xa4b, 0xa4d, 2),
    (0xa4e, 0xa50, 3),
    (0xa51, 0xa51, 2),
    (0xa52, 0xa58, 3),
    (0xa59, 0xa5c, 1),
    (0xa5d, 0xa5d, 3),
    (0xa5e, 0xa5e, 1),
    (0xa5f, 0xa65, 3),
    (0xa66, 0xa71, 2),
    (0xa72, 0xa74, 1),
    (0xa75, 0xa75, 2),
    (0xa76, 0xa80, 3),
    (0xa81, 0xa83, 2),
    (0xa84, 0xa84, 3),
    (0xa85, 0xa8d, 1),
    (0xa8e, 0xa8e, 3),
    (0xa8f, 0xa91, 1),
    (0xa92, 0xa92, 3),
    (0xa93, 0xaa8, 1),
    (0xaa9, 0xaa9, 3),
    (0xaaa, 0xab0, 1),
    (0xab1, 0xab1, 3),
    (0xab2, 0xab3, 1),
    (0xab4, 0xab4, 3),
    (0xab5, 0xab9, 1),
    (0xaba, 0xabb, 3),
    (0xabc, 0xabc, 2),
    (0xabd, 0xabd, 1),
    (0xabe, 0xac5, 2),
    (0xac6, 0xac6, 3),
    (0xac7, 0xac9, 2),
    (0xaca, 0xaca, 3),
    (0xacb, 0xacd, 2),
    (0xace, 0xacf, 3),
    (0xad0, 0xad0, 1),
    (0xad1, 0xadf, 3),
    (0xae0, 0xae1, 1),
    (0xae2, 0xae3, 2),
    (0xae4, 0xae5, 3),
    (0xae6, 0xaef, 2),
    (0xaf2, 0xaf8, 3),
    (0xaf9, 0xaf9, 1),
    (0xafa, 0xb00, 3),
    (0xb01, 0xb03, 2),
    (0xb04, 0xb04, 3),
    (0xb05, 0xb0c, 1),
    (0xb0d, 0xb0e, 3),
    (0xb0f, 0xb10, 1),
    (0xb11, 0xb12, 3),
    (0xb13, 0xb28, 1),
    (0xb29, 0xb29, 3),
    (0xb2a, 0xb30, 1),
    (0xb31, 0xb31, 3),
    (0xb32, 0xb33, 1),
    (0xb34, 0xb34, 3),
    (0xb35, 0xb39, 1),
    (0xb3a, 0xb3b, 3),
    (0xb3c, 0xb3c, 2),
    (0xb3d, 0xb3d, 1),
    (0xb3e, 0xb44, 2),
    (0xb45, 0xb46, 3),
    (0xb47, 0xb48, 2),
    (0xb49, 0xb4a, 3),
    (0xb4b, 0xb4d, 2),
    (0xb4e, 0xb55, 3),
    (0xb56, 0xb57, 2),
    (0xb58, 0xb5b, 3),
    (0xb5c, 0xb5d, 1),
    (0xb5e, 0xb5e, 3),
    (0xb5f, 0xb61, 1),
    (0xb62, 0xb63, 2),
    (0xb64, 0xb65, 3),
    (0xb66, 0xb6f, 2),
    (0xb71, 0xb71, 1),
    (0xb78, 0xb81, 3),
    (0xb82, 0xb82, 2),
    (0xb83, 0xb83, 1),
    (0xb84, 0xb84, 3),
    (0xb85, 0xb8a, 1),
    (0xb8b, 0xb8d, 3),
    (0xb8e, 0xb90, 1),
    (0xb91, 0xb91, 3),
    (0xb92, 0xb95, 1),
    (0xb96, 0xb98, 3),
    (0xb99, 0xb9a, 1),
    (0xb9b, 0xb9b, 3),
    (0xb9c, 0xb9c, 1),
    (0xb9d, 0xb9d, 3),
    (0xb9e, 0xb9f, 1),
    (0xba0, 0xba2, 3),
    (0xba3, 0xba4, 1),
    (0xba5, 0xba7, 3),
    (0xba8, 0xbaa, 1),
    (0xbab, 0xbad, 3),
    (0xbae, 0xbb9, 1),
    (0xbba, 0xbbd, 3),
    (0xbbe, 0xbc2, 2),
    (0xbc3, 0xbc5, 3),
    (0xbc6, 0xbc8, 2),
    (0xbc9, 0xbc9, 3),
    (0xbca, 0xbcd, 2),
    (0xbce, 0xbcf, 3),
    (0xbd0, 0xbd0, 1),
    (0xbd1, 0xbd6, 3),
    (0xbd7, 0xbd7, 2),
    (0xbd8, 0xbe5, 3),
    (0xbe6, 0xbef, 2),
    (0xbfb, 0xbff, 3),
    (0xc00, 0xc03, 2),
    (0xc04, 0xc04, 3),
    (0xc05, 0xc0c, 1),
    (0xc0d, 0xc0d, 3),
    (0xc0e, 0xc10, 1),
    (0xc11, 0xc11, 3),
    (0xc12, 0xc28, 1),
    (0xc29, 0xc29, 3),
    (0xc2a, 0xc39, 1),
    (0xc3a, 0xc3c, 3),
    (0xc3d, 0xc3d, 1),
    (0xc3e, 0xc44, 2),
    (0xc45, 0xc45, 3),
    (0xc46, 0xc48, 2),
    (0xc49, 0xc49, 3),
    (0xc4a, 0xc4d, 2),
    (0xc4e, 0xc54, 3),
    (0xc55, 0xc56, 2),
    (0xc57, 0xc57, 3),
    (0xc58, 0xc5a, 1),
    (0xc5b, 0xc5f, 3),
    (0xc60, 0xc61, 1),
    (0xc62, 0xc63, 2),
    (0xc64, 0xc65, 3),
    (0xc66, 0xc6f, 2),
    (0xc70, 0xc77, 3),
    (0xc80, 0xc80, 1),
    (0xc81, 0xc83, 2),
    (0xc84, 0xc84, 3),
    (0xc85, 0xc8c, 1),
    (0xc8d, 0xc8d, 3),
    (0xc8e, 0xc90, 1),
    (0xc91, 0xc91, 3),
    (0xc92, 0xca8, 1),
    (0xca9, 0xca9, 3),
    (0xcaa, 0xcb3, 1),
    (0xcb4, 0xcb4, 3),
    (0xcb5, 0xcb9, 1),
    (0xcba, 0xcbb, 3),
    (0xcbc, 0xcbc, 2),
    (0xcbd, 0xcbd, 1),
    (0xcbe, 0xcc4, 2),
    (0xcc5, 0xcc5, 3),
    (0xcc6, 0xcc8, 2),
    (0xcc9, 0xcc9, 3),
    (0xcca, 0xccd, 2),
    (0xcce, 0xcd4, 3),
    (0xcd5, 0xcd6, 2),
    (0xcd7, 0xcdd, 3),
    (0xcde, 0xcde, 1),
    (0xcdf, 0xcdf, 3),
    (0xce0, 0xce1, 1),
    (0xce2, 0xce3, 2),
    (0xce4, 0xce5, 3),
    (0xce6, 0xcef, 2),
    (0xcf0, 0xcf0, 3),
    (0xcf1, 0xcf2, 1),
    (0xcf3, 0xd00, 3),
    (0xd01, 0xd03, 2),
    (0xd04, 0xd04, 3),
    (0xd05, 0xd0c, 1),
    (0xd0d, 0xd0d, 3),
    (0xd0e, 0xd10, 1),
    (0xd11, 0xd11, 3),
    (0xd12, 0xd3a, 1),
    (0xd3b, 0xd3c, 3),
    (0xd3d, 0xd3d, 1),
    (0xd3e, 0xd44, 2),
    (0xd45, 0xd45, 3),
    (0xd46, 0xd48, 2),
    (0xd49, 0xd49, 3),
    (0xd4a, 0xd4d, 2),
    (0xd4e, 0xd4e, 1),
    (0xd50, 0xd53, 3),
    (0xd54, 0xd56, 1),
    (0xd57, 0xd57, 2),
    (0xd5f, 0xd61, 1),
    (0xd62, 0xd63, 2),
    (0xd64, 0xd65, 3),
    (0xd66, 0xd6f, 2),
    (0xd7a, 0xd7f, 1),
    (0xd80, 0xd81, 3),
    (0xd82, 0xd83, 2),
    (0xd84, 0xd84, 3),
    (0xd85, 0xd96, 1),
    (0xd97, 0xd99, 3),
    (0xd9a, 0xdb1, 1),
    (0xdb2, 0xdb2, 3),
    (0xdb3, 0xdbb, 1),
    (0xdbc, 0xdbc, 3),
    (0xdbd, 0xdbd, 1),
    (0xdbe, 0xdbf, 3),
    (0xdc0, 0xdc6, 1),
    (0xdc7, 0xdc9, 3),
    (0xdca, 0xdca, 2),
    (0xdcb, 0xdce, 3),
    (0xdcf, 0xdd4, 2),
    (0xdd5, 0xdd5, 3),
    (0xdd6, 0xdd6, 2),
    (0xdd7, 0xdd7, 3),
    (0xdd8, 0xddf, 2),
    (0xde0, 0xde5, 3),
    (0xde6, 0xdef, 2),
    (0xdf0, 0xdf1, 3),
    (0xdf2, 0xdf3, 2),
    (0xdf5, 0xe00, 3),
    (0xe01, 0xe30, 1),
    (0xe31, 0xe31, 2),
    (0xe32, 0xe33, 1),
    (0xe34, 0xe3a, 2),
    (0xe3b, 0xe3e, 3),
    (0xe40, 0xe46, 1),
    (0xe47, 0xe4e, 2),
    (0xe50, 0xe59, 2),
    (0xe5c, 0xe80, 3),
    (0xe81, 0xe82, 1),
    (0xe83, 0xe83, 3),
    (0xe84, 0xe84, 1),
    (0xe85, 0xe86, 3),
    (0xe87, 0xe88, 1),
    (0xe89, 0xe89, 3),
    (0xe8a, 0xe8a, 1),
    (0xe8b, 0xe8c, 3),
    (0xe8d, 0xe8d, 1),
    (0xe8e, 0xe93, 3),
    (0xe94, 0xe97, 1),
    (0xe98, 0xe98, 3),
    (0xe99, 0xe9f, 1),
    (0xea0, 0xea0, 3),
    (0xea1, 0xea3, 1),
    (0xea4, 0xea4, 3),
    (0xea5, 0xea5, 1),
    (0xea6, 0xea6, 3),
    (0xea7, 0xea7, 1),
    (0xea8, 0xea9, 3),
    (0xeaa, 0xeab, 1),
    (0xeac, 0xeac, 3),
    (0xead, 0xeb0, 1),
    (0xeb1, 0xeb1, 2),
    (0xeb2, 0xeb3, 1),
    (0xeb4, 0xeb9, 2),
    (0xeba, 0xeba, 3),
    (0xebb, 0xebc, 2),
    (0xebd, 0xebd, 1),
    (0xebe, 0xebf, 3),
    (0xec0, 0xec4, 1),
    (0xec5, 0xec5, 3),
    (0xec6, 0xec6, 1),
    (0xec7, 0xec7, 3),
    (0xec8, 0xecd, 2),
    (0xece, 0xecf, 3),
    (0xed0, 0xed9, 2),
    (0xeda, 0xedb, 3),
    (0xedc, 0xedf, 1),
    (0xee0, 0xeff, 3),
    (0xf00, 0xf00, 1),
    (0xf18, 0xf19, 2),
    (0xf20, 0xf29, 2),
    (0xf35, 0xf35, 2),
    (0xf37, 0xf37, 2),
    (0xf39, 0xf39, 2),
    (0xf3e, 0xf3f, 2),
    (0xf40, 0xf47, 1),
    (0xf48, 0xf48, 3),
    (0xf49, 0xf6c, 1),
    (0xf6d, 0xf70, 3),
    (0xf71, 0xf84, 2),
    (0xf86, 0xf87, 2),
    (0xf88, 0xf8c, 1),
    (0xf8d, 0xf97, 2),
    (0xf98, 0xf98, 3),
    (0xf99, 0xfbc, 2),
    (0xfbd, 0xfbd, 3),
    (0xfc6, 0xfc6, 2),
    (0xfcd, 0xfcd, 3),
    (0xfdb, 0xfff, 3),
    (0x1000, 0x102a, 1),
    (0x102b, 0x103e, 2),
    (0x103f, 0x103f, 1),
    (0x1040, 0x1049, 2),
    (0x1050, 0x1055, 1),
    (0x1056, 0x1059, 2),
    (0x105a, 0x105d, 1),
    (0x105e, 0x1060, 2),
    (0x1061, 0x1061, 1),
    (0x1062, 0x1064, 2),
    (0x1065, 0x1066, 1),
    (0x1067, 0x106d, 2),
    (0x106e, 0x1070, 1),
    (0x1071, 0x1074, 2),
    (0x1075, 0x1081, 1),
    (0x1082, 0x108d, 2),
    (0x108e, 0x108e, 1),
    (0x108f, 0x109d, 2),
    (0x10a0, 0x10c5, 1),
    (0x10c6, 0x10c6, 3),
    (0x10c7, 0x10c7, 1),
    (0x10c8, 0x10cc, 3),
    (0x10cd, 0x10cd, 1),
    (0x10ce, 0x10cf, 3),
    (0x10d0, 0x10fa, 1),
    (0x10fc, 0x1248, 1),
    (0x1249, 0x1249, 3),
    (0x124a, 0x124d, 1),
    (0x124e, 0x124f, 3),
    (0x1250, 0x1256, 1),
    (0x1257, 0x1257, 3),
    (0x1258, 0x1258, 1),
    (0x1259, 0x1259, 3),
    (0x125a, 0x125d, 1),
    (0x125e, 0x125f, 3),
    (0x1260, 0x1288, 1),
    (0x1289, 0x1289, 3),
    (0x128a, 0x128d, 1),
    (0x128e, 0x128f, 3),
    (0x1290, 0x12b0, 1),
    (0x12b1, 0x12b1, 3),
    (0x12b2, 0x12b5, 1),
    (0x12b6, 0x12b7, 3),
    (0x12b8, 0x12be, 1),
    (0x12bf, 0x12bf, 3),
    (0x12c0, 0x12c0, 1),
    (0x12c1, 0x12c1, 3),
    (0x12c2, 0x12c5, 1),
    (0x12c6, 0x12c7, 3),
    (0x12c8, 0x12d6, 1),
    (0x12d7, 0x12d7, 3),
    (0x12d8, 0x1310, 1),
    (0x1311, 0x1311, 3),
    (0x1312, 0x1315, 1),
    (0x1316, 0x1317, 3),
    (0x1318, 0x135a, 1),
    (0x135b, 0x135c, 3),
    (0x135d, 0x135f, 2),
    (0x1369, 0x1371, 2),
    (0x137d, 0x137f, 3),
    (0x1380, 0x138f, 1),
    (0x139a, 0x139f, 3),
    (0x13a0, 0x13f5, 1),
    (0x13f6, 0x13f7, 3),
    (0x13f8, 0x13fd, 1),
    (0x13fe, 0x13ff, 3),
    (0x1401, 0x166c, 1),
    (0x166f, 0x167f, 1),
    (0x1681, 0x169a, 1),
    (0x169d, 0x169f, 3),
    (0x16a0, 0x16ea, 1),
    (0x16ee, 0x16f8, 1),
    (0x16f9, 0x16ff, 3),
    (0x1700, 0x170c, 1),
    (0x170d, 0x170d, 3),
    (0x170e, 0x1711, 1),
    (0x1712, 0x1714, 2),
    (0x1715, 0x171f, 3),
    (0x1720, 0x1731, 1),
    (0x1732, 0x1734, 2),
    (0x1737, 0x173f, 3),
    (0x1740, 0x1751, 1),
    (0x1752, 0x1753, 2),
    (0x1754, 0x175f, 3),
    (0x1760, 0x176c, 1),
    (0x176d, 0x176d, 3),
    (0x176e, 0x1770, 1),
    (0x1771, 0x1771, 3),
    (0x1772, 0x1773, 2),
    (0x1774, 0x177f, 3),
    (0x1780, 0x17b3, 1),
    (0x17b4, 0x17d3, 2),
    (0x17d7, 0x17d7, 1),
    (0x17dc, 0x17dc, 1),
    (0x17dd, 0x17dd, 2),
    (0x17de, 0x17df, 3),
    (0x17e0, 0x17e9, 2),
    (0x17ea, 0x17ef, 3),
    (0x17fa, 0x17ff, 3),
    (0x180b, 0x180d, 2),
    (0x180f, 0x180f, 3),
    (0x1810, 0x1819, 2),
    (0x181a, 0x181f, 3),
    (0x1820, 0x1877, 1),
    (0x1878, 0x187f, 3),
    (0x1880, 0x18a8, 1),
    (0x18a9, 0x18a9, 2),
    (0x18aa, 0x18aa, 1),
    (0x18ab, 0x18af, 3),
    (0x18b0, 0x18f5, 1),
    (0x18f6, 0x18ff, 3),
    (0x1900, 0x191e, 1),
    (0x191f, 0x191f, 3),
    (0x1920, 0x192b, 2),
    (0x192c, 0x192f, 3),
    (0x1930, 0x193b, 2),
    (0x193c, 0x193f, 3),
    (0x1941, 0x1943, 3),
    (0x1946, 0x194f, 2),
    (0x1950, 0x196d, 1),
    (0x196e, 0x196f, 3),
    (0x1970, 0x1974, 1),
    (0x1975, 0x197f, 3),
    (0x1980, 0x19ab, 1),
    (0x19ac, 0x19af, 3),
    (0x19b0, 0x19c9, 1),
    (0x19ca, 0x19cf, 3),
    (0x19d0, 0x19da, 2),
    (0x19db, 0x19dd, 3),
    (0x1a00, 0x1a16, 1),
    (0x1a17, 0x1a1b, 2),
    (0x1a1c, 0x1a1d, 3),
    (0x1a20, 0x1a54, 1),
    (0x1a55, 0x1a5e, 2),
    (0x1a5f, 0x1a5f, 3),
    (0x1a60, 0x1a7c, 2),
    (0x1a7d, 0x1a7e, 3),
    (0x1a7f, 0x1a89, 2),
    (0x1a8a, 0x1a8f, 3),
    (0x1a90, 0x1a99, 2),
    (0x1a9a, 0x1a9f, 3),
    (0x1aa7, 0x1aa7, 1),
    (0x1aae, 0x1aaf, 3),
    (0x1ab0, 0x1abd, 2),
    (0x1abf, 0x1aff, 3),
    (0x1b00, 0x1b04, 2),
    (0x1b05, 0x1b33, 1),
    (0x1b34, 0x1b44, 2),
    (0x1b45, 0x1b4b, 1),
    (0x1b4c, 0x1b4f, 3),
    (0x1b50, 0x1b59, 2),
    (0x1b6b, 0x1b73, 2),
    (0x1b7d, 0x1b7f, 3),
    (0x1b80, 0x1b82, 2),
    (0x1b83, 0x1ba0, 1),
    (0x1ba1, 0x1bad, 2),
    (0x1bae, 0x1baf, 1),
    (0x1bb0, 0x1bb9, 2),
    (0x1bba, 0x1be5, 1),
    (0x1be6, 0x1bf3, 2),
    (0x1bf4, 0x1bfb, 3),
    (0x1c00, 0x1c23, 1),
    (0x1c24, 0x1c37, 2),
    (0x1c38, 0x1c3a, 3),
    (0x1c40, 0x1c49, 2),
    (0x1c4a, 0x1c4c, 3),
    (0x1c4d, 0x1c4f, 1),
    (0x1c50, 0x1c59, 2),
    (0x1c5a, 0x1c7d, 1),
    (0x1c80, 0x1c88, 1),
    (0x1c89, 0x1cbf, 3),
    (0x1cc8, 0x1ccf, 3),
    (0x1cd0, 0x1cd2, 2),
    (0x1cd4, 0x1ce8, 2),
    (0x1ce9, 0x1cec, 1),
    (0x1ced, 0x1ced, 2),
    (0x1cee, 0x1cf1, 1),
    (0x1cf2, 0x1cf3, 3),
    (0x1cf4, 0x1cf4, 2),
    (0x1cf5, 0x1cf6, 1),
    (0x1cf7, 0x1cf7, 3),
    (0x1cf8, 0x1cf9, 2),
    (0x1cfa, 0x1cff, 3),
    (0x1d00, 0x1dbf, 1),
    (0x1dc0, 0x1df5, 2),
    (0x1df6, 0x1dfa, 3),
    (0x1dfb, 0x1dff, 2),
    (0x1e00, 0x1f15, 1),
    (0x1f16, 0x1f17, 3),
    (0x1f18, 0x1f1d, 1),
    (0x1f1e, 0x1f1f, 3),
    (0x1f20, 0x1f45, 1),
    (0x1f46, 0x1f47, 3),
    (0x1f48, 0x1f4d, 1),
    (0x1f4e, 0x1f4f, 3),
    (0x1f50, 0x1f57, 1),
    (0x1f58, 0x1f58, 3),
    (0x1f59, 0x1f59, 1),
    (0x1f5a, 0x1f5a, 3),
    (0x1f5b, 0x1f5b, 1),
    (0x1f5c, 0x1f5c, 3),
    (0x1f5d, 0x1f5d, 1),
    (0x1f5e, 0x1f5e, 3),
    (0x1f5f, 0x1f7d, 1),
    (0x1f7e, 0x1f7f, 3),
    (0x1f80, 0x1fb4, 1),
    (0x1fb5, 0x1fb5, 3),
    (0x1fb6, 0x1fbc, 1),
    (0x1fbe, 0x1fbe, 1),
    (0x1fc2, 0x1fc4, 1),
    (0x1fc5, 0x1fc5, 3),
    (0x1fc6, 0x1fcc, 1),
    (0x1fd0, 0x1fd3, 1),
    (0x1fd4, 0x1fd5, 3),
    (0x1fd6, 0x1fdb, 1),
    (0x1fdc, 0x1fdc, 3),
    (0x1fe0, 0x1fec, 1),
    (0x1ff0, 0x1ff1, 3),
    (0x1ff2, 0x1ff4, 1),
    (0x1ff5, 0x1ff5, 3),
    (0x1ff6, 0x1ffc, 1),
    (0x1fff, 0x1fff, 3),
    (0x203f, 0x2040, 2),
    (0x2054, 0x2054, 2),
    (0x2065, 0x2065, 3),
    (0x2071, 0x2071, 1),
    (0x2072, 0x2073, 3),
    (0x207f, 0x207f, 1),
    (0x208f, 0x208f, 3),
    (0x2090, 0x209c, 1),
    (0x209d, 0x209f, 3),
    (0x20bf, 0x20cf, 3),
    (0x20d0, 0x20dc, 2),
    (0x20e1, 0x20e1, 2),
    (0x20e5, 0x20f0, 2),
    (0x20f1, 0x20ff, 3),
    (0x2102, 0x2102, 1),
    (0x2107, 0x2107, 1),
    (0x210a, 0x2113, 1),
    (0x2115, 0x2115, 1),
    (0x2118, 0x211d, 1),
    (0x2124, 0x2124, 1),
    (0x2126, 0x2126, 1),
    (0x2128, 0x2128, 1),
    (0x212a, 0x2139, 1),
    (0x213c, 0x213f, 1),
    (0x2145, 0x2149, 1),
    (0x214e, 0x214e, 1),
    (0x2160, 0x2188, 1),
    (0x218c, 0x218f, 3),
    (0x23ff, 0x23ff, 3),
    (0x2427, 0x243f, 3),
    (0x244b, 0x245f, 3),
    (0x2b74, 0x2b75, 3),
    (0x2b96, 0x2b97, 3),
    (0x2bba, 0x2bbc, 3),
    (0x2bc9, 0x2bc9, 3),
    (0x2bd2, 0x2beb, 3),
    (0x2bf0, 0x2bff, 3),
    (0x2c00, 0x2c2e, 1),
    (0x2c2f, 0x2c2f, 3),
    (0x2c30, 0x2c5e, 1),
    (0x2c5f, 0x2c5f, 3),
    (0x2c60, 0x2ce4, 1),
    (0x2ceb, 0x2cee, 1),
    (0x2cef, 0x2cf1, 2),
    (0x2cf2, 0x2cf3, 1),
    (0x2cf4, 0x2cf8, 3),
    (0x2d00, 0x2d25, 1),
    (0x2d26, 0x2d26, 3),
    (0x2d27, 0x2d27, 1),
    (0x2d28, 0x2d2c, 3),
    (0x2d2d, 0x2d2d, 1),
    (0x2d2e, 0x2d2f, 3),
    (0x2d30, 0x2d67, 1),
    (0x2d68, 0x2d6e, 3),
    (0x2d6f, 0x2d6f, 1),
    (0x2d71, 0x2d7e, 3),
    (0x2d7f, 0x2d7f, 2),
    (0x2d80, 0x2d96, 1),
    (0x2d97, 0x2d9f, 3),
    (0x2da0, 0x2da6, 1),
    (0x2da7, 0x2da7, 3),
    (0x2da8, 0x2dae, 1),
    (0x2daf, 0x2daf, 3),
    (0x2db0, 0x2db6, 1),
    (0x2db7, 0x2db7, 3),
    (0x2db8, 0x2dbe, 1),
    (0x2dbf, 0x2dbf, 3),
    (0x2dc0, 0x2dc6, 1),
    (0x2dc7, 0x2dc7, 3),
    (0x2dc8, 0x2dce, 1),
    (0x2dcf, 0x2dcf, 3),
    (0x2dd0, 0x2dd6, 1),
    (0x2dd7, 0x2dd7, 3),
    (0x2dd8, 0x2dde, 1),
    (0x2ddf, 0x2ddf, 3),
    (0x2de0, 0x2dff, 2),
    (0x2e45, 0x2e7f, 3),
    (0x2e9a, 0x2e9a, 3),
    (0x2ef4, 0x2eff, 3),
    (0x2fd6, 0x2fef, 3),
    (0x2ffc, 0x2fff, 3),
    (0x3005, 0x3007, 1),
    (0x3021, 0x3029, 1),
    (0x302a, 0x302f, 2),
    (0x3031, 0x3035, 1),
    (0x3038, 0x303c, 1),
    (0x3040, 0x3040, 3),
    (0x3041, 0x3096, 1),
    (0x3097, 0x3098, 3),
    (0x3099, 0x309a, 2),
    (0x309b, 0x309f, 1),
    (0x30a1, 0x30fa, 1),
    (0x30fc, 0x30ff, 1),
    (0x3100, 0x3104, 3),
    (0x3105, 0x312d, 1),
    (0x312e, 0x3130, 3),
    (0x3131, 0x318e, 1),
    (0x318f, 0x318f, 3),
    (0x31a0, 0x31ba, 1),
    (0x31bb, 0x31bf, 3),
    (0x31e4, 0x31ef, 3),
    (0x31f0, 0x31ff, 1),
    (0x321f, 0x321f, 3),
    (0x32ff, 0x32ff, 3),
    (0x3400, 0x4db5, 1),
    (0x4db6, 0x4dbf, 3),
    (0x4e00, 0x9fd5, 1),
    (0x9fd6, 0x9fff, 3),
    (0xa000, 0xa48c, 1),
    (0xa48d, 0xa48f, 3),
    (0xa4c7, 0xa4cf, 3),
    (0xa4d0, 0xa4fd, 1),
    (0xa500, 0xa60c, 1),
    (0xa610, 0xa61f, 1),
    (0xa620, 0xa629, 2),
    (0xa62a, 0xa62b, 1),
    (0xa62c, 0xa63f, 3),
    (0xa640, 0xa66e, 1),
    (0xa66f, 0xa66f, 2),
    (0xa674, 0xa67d, 2),
    (0xa67f, 0xa69d, 1),
    (0xa69e, 0xa69f, 2),
    (0xa6a0, 0xa6ef, 1),
    (0xa6f0, 0xa6f1, 2),
    (0xa6f8, 0xa6ff, 3),
    (0xa717, 0xa71f, 1),
    (0xa722, 0xa788, 1),
    (0xa78b, 0xa7ae, 1),
    (0xa7af, 0xa7af, 3),
    (0xa7b0, 0xa7b7, 1),
    (0xa7b8, 0xa7f6, 3),
    (0xa7f7, 0xa801, 1),
    (0xa802, 0xa802, 2),
    (0xa803, 0xa805, 1),
    (0xa806, 0xa806, 2),
    (0xa807, 0xa80a, 1),
    (0xa80b, 0xa80b, 2),
    (0xa80c, 0xa822, 1),
    (0xa823, 0xa827, 2),
    (0xa82c, 0xa82f, 3),
    (0xa83a, 0xa83f, 3),
    (0xa840, 0xa873, 1),
    (0xa878, 0xa87f, 3),
    (0xa880, 0xa881, 2),
    (0xa882, 0xa8b3, 1),
    (0xa8b4, 0xa8c5, 2),
    (0xa8c6, 0xa8cd, 3),
    (0xa8d0, 0xa8d9, 2),
    (0xa8da, 0xa8df, 3),
    (0xa8e0, 0xa8f1, 2),
    (0xa8f2, 0xa8f7, 1),
    (0xa8fb, 0xa8fb, 1),
    (0xa8fd, 0xa8fd, 1),
    (0xa8fe, 0xa8ff, 3),
    (0xa900, 0xa909, 2),
    (0xa90a, 0xa925, 1),
    (0xa926, 0xa92d, 2),
    (0xa930, 0xa946, 1),
    (0xa947, 0xa953, 2),
    (0xa954, 0xa95e, 3),
    (0xa960, 0xa97c, 1),
    (0xa97d, 0xa97f, 3),
    (0xa980, 0xa983, 2),
    (0xa984, 0xa9b2, 1),
    (0xa9b3, 0xa9c0, 2),
    (0xa9ce, 0xa9ce, 3),
    (0xa9cf, 0xa9cf, 1),
    (0xa9d0, 0xa9d9, 2),
    (0xa9da, 0xa9dd, 3),
    (0xa9e0, 0xa9e4, 1),
    (0xa9e5, 0xa9e5, 2),
    (0xa9e6, 0xa9ef, 1),
    (0xa9f0, 0xa9f9, 2),
    (0xa9fa, 0xa9fe, 1),
    (0xa9ff, 0xa9ff, 3),
    (0xaa00, 0xaa28, 1),
    (0xaa29, 0xaa36, 2),
    (0xaa37, 0xaa3f, 3),
    (0xaa40, 0xaa42, 1),
    (0xaa43, 0xaa43, 2),
    (0xaa44, 0xaa4b, 1),
    (0xaa4c, 0xaa4d, 2),
    (0xaa4e, 0xaa4f, 3),
    (0xaa50, 0xaa59, 2),
    (0xaa5a, 0xaa5b, 3),
    (0xaa60, 0xaa76, 1),
    (0xaa7a, 0xaa7a, 1),
    (0xaa7b, 0xaa7d, 2),
    (0xaa7e, 0xaaaf, 1),
    (0xaab0, 0xaab0, 2),
    (0xaab1, 0xaab1, 1),
    (0xaab2, 0xaab4, 2),
    (0xaab5, 0xaab6, 1),
    (0xaab7, 0xaab8, 2),
    (0xaab9, 0xaabd, 1),
    (0xaabe, 0xaabf, 2),
    (0xaac0, 0xaac0, 1),
    (0xaac1, 0xaac1, 2),
    (0xaac2, 0xaac2, 1),
    (0xaac3, 0xaada, 3),
    (0xaadb, 0xaadd, 1),
    (0xaae0, 0xaaea, 1),
    (0xaaeb, 0xaaef, 2),
    (0xaaf2, 0xaaf4, 1),
    (0xaaf5, 0xaaf6, 2),
    (0xaaf7, 0xab00, 3),
    (0xab01, 0xab06, 1),
    (0xab07, 0xab08, 3),
    (0xab09, 0xab0e, 1),
    (0xab0f, 0xab10, 3),
    (0xab11, 0xab16, 1),
    (0xab17, 0xab1f, 3),
    (0xab20, 0xab26, 1),
    (0xab27, 0xab27, 3),
    (0xab28, 0xab2e, 1),
    (0xab2f, 0xab2f, 3),
    (0xab30, 0xab5a, 1),
    (0xab5c, 0xab65, 1),
    (0xab66, 0xab6f, 3),
    (0xab70, 0xabe2, 1),
    (0xabe3, 0xabea, 2),
    (0xabec, 0xabed, 2),
    (0xabee, 0xabef, 3),
    (0xabf0, 0xabf9, 2),
    (0xabfa, 0xabff, 3),
    (0xac00, 0xd7a3, 1),
    (0xd7a4, 0xd7af, 3),
    (0xd7b0, 0xd7c6, 1),
    (0xd7c7, 0xd7ca, 3),
    (0xd7cb, 0xd7fb, 1),
    (0xd7fc, 0xd7ff, 3),
    (0xf900, 0xfa6d, 1),
    (0xfa6e, 0xfa6f, 3),
    (0xfa70, 0xfad9, 1),
    (0xfada, 0xfaff, 3),
    (0xfb00, 0xfb06, 1),
    (0xfb07, 0xfb12, 3),
    (0xfb13, 0xfb17, 1),
    (0xfb18, 0xfb1c, 3),
    (0xfb1d, 0xfb1d, 1),
    (0xfb1e, 0xfb1e, 2),
    (0xfb1f, 0xfb28, 1),
    (0xfb2a, 0xfb36, 1),
    (0xfb37, 0xfb37, 3),
    (0xfb38, 0xfb3c, 1),
    (0xfb3d, 0xfb3d, 3),
    (0xfb3e, 0xfb3e, 1),
    (0xfb3f, 0xfb3f, 3),
    (0xfb40, 0xfb41, 1),
    (0xfb42, 0xfb42, 3),
    (0xfb43, 0xfb44, 1),
    (0xfb45, 0xfb45, 3),
    (0xfb46, 0xfbb1, 1),
    (0xfbc2, 0xfbd2, 3),
    (0xfbd3, 0xfd3d, 1),
    (0xfd40, 0xfd4f, 3),
    (0xfd50, 0xfd8f, 1),
    (0xfd90, 0xfd91, 3),
    (0xfd92, 0xfdc7, 1),
    (0xfdc8, 0xfdcf, 3),
    (0xfdf0, 0xfdfb, 1),
    (0xfdfe, 0xfdff, 3),
    (0xfe00, 0xfe0f, 2),
    (0xfe1a, 0xfe1f, 3),
    (0xfe20, 0xfe2f, 2),
    (0xfe33, 0xfe34, 2),
    (0xfe4d, 0xfe4f, 2),
    (0xfe53, 0xfe53, 3),
    (0xfe67, 0xfe67, 3),
    (0xfe6c, 0xfe6f, 3),
    (0xfe70, 0xfe74, 1),
    (0xfe75, 0xfe75, 3),
    (0xfe76, 0xfefc, 1),
    (0xfefd, 0xfefe, 3),
    (0xff00, 0xff00, 3),
    (0xff10, 0xff19, 2),
    (0xff21, 0xff3a, 1),
    (0xff3f, 0xff3f, 2),
    (0xff41, 0xff5a, 1),
    (0xff66, 0xffbe, 1),
    (0xffbf, 0xffc1, 3),
    (0xffc2, 0xffc7, 1),
    (0xffc8, 0xffc9, 3),
    (0xffca, 0xffcf, 1),
    (0xffd0, 0xffd1, 3),
    (0xffd2, 0xffd7, 1),
    (0xffd8, 0xffd9, 3),
    (0xffda, 0xffdc, 1),
    (0xffdd, 0xffdf, 3),
    (0xffe7, 0xffe7, 3),
    (0xffef, 0xfff8, 3),
    (0x10000, 0x1000b, 1),
    (0x1000c, 0x1000c, 3),
    (0x1000d, 0x10026, 1),
    (0x10027, 0x10027, 3),
    (0x10028, 0x1003a, 1),
    (0x1003b, 0x1003b, 3),
    (0x1003c, 0x1003d, 1),
    (0x1003e, 0x1003e, 3),
    (0x1003f, 0x1004d, 1),
    (0x1004e, 0x1004f, 3),
    (0x10050, 0x1005d, 1),
    (0x1005e, 0x1007f, 3),
    (0x10080, 0x100fa, 1),
    (0x100fb, 0x100ff, 3),
    (0x10103, 0x10106, 3),
    (0x10134, 0x10136, 3),
    (0x10140, 0x10174, 1),
    (0x1018f, 0x1018f, 3),
    (0x1019c, 0x1019f, 3),
    (0x101a1, 0x101cf, 3),
    (0x101fd, 0x101fd, 2),
    (0x101fe, 0x1027f, 3),
    (0x10280, 0x1029c, 1),
    (0x1029d, 0x1029f, 3),
    (0x102a0, 0x102d0, 1),
    (0x102d1, 0x102df, 3),
    (0x102e0, 0x102e0, 2),
    (0x102fc, 0x102ff, 3),
    (0x10300, 0x1031f, 1),
    (0x10324, 0x1032f, 3),
    (0x10330, 0x1034a, 1),
    (0x1034b, 0x1034f, 3),
    (0x10350, 0x10375, 1),
    (0x10376, 0x1037a, 2),
    (0x1037b, 0x1037f, 3),
    (0x10380, 0x1039d, 1),
    (0x1039e, 0x1039e, 3),
    (0x103a0, 0x103c3, 1),
    (0x103c4, 0x103c7, 3),
    (0x103c8, 0x103cf, 1),
    (0x103d1, 0x103d5, 1),
    (0x103d6, 0x103ff, 3),
    (0x10400, 0x1049d, 1),
    (0x1049e, 0x1049f, 3),
    (0x104a0, 0x104a9, 2),
    (0x104aa, 0x104af, 3),
    (0x104b0, 0x104d3, 1),
    (0x104d4, 0x104d7, 3),
    (0x104d8, 0x104fb, 1),
    (0x104fc, 0x104ff, 3),
    (0x10500, 0x10527, 1),
    (0x10528, 0x1052f, 3),
    (0x10530, 0x10563, 1),
    (0x10564, 0x1056e, 3),
    (0x10570, 0x105ff, 3),
    (0x10600, 0x10736, 1),
    (0x10737, 0x1073f, 3),
    (0x10740, 0x10755, 1),
    (0x10756, 0x1075f, 3),
    (0x10760, 0x10767, 1),
    (0x10768, 0x107ff, 3),
    (0x10800, 0x10805, 1),
    (0x10806, 0x10807, 3),
    (0x10808, 0x10808, 1),
    (0x10809, 0x10809, 3),
    (0x1080a, 0x10835, 1),
    (0x10836, 0x10836, 3),
    (0x10837, 0x10838, 1),
    (0x10839, 0x1083b, 3),
    (0x1083c, 0x1083c, 1),
    (0x1083d, 0x1083e, 3),
    (0x1083f, 0x10855, 1),
    (0x10856, 0x10856, 3),
    (0x10860, 0x10876, 1),
    (0x10880, 0x1089e, 1),
    (0x1089f, 0x108a6, 3),
    (0x108b0, 0x108df, 3),
    (0x108e0, 0x108f2, 1),
    (0x108f3, 0x108f3, 3),
    (0x108f4, 0x108f5, 1),
    (0x108f6, 0x108fa, 3),
    (0x10900, 0x10915, 1),
    (0x1091c, 0x1091e, 3),
    (0x10920, 0x10939, 1),
    (0x1093a, 0x1093e, 3),
    (0x10940, 0x1097f, 3),
    (0x10980, 0x109b7, 1),
    (0x109b8, 0x109bb, 3),
    (0x109be, 0x109bf, 1),
    (0x109d0, 0x109d1, 3),
    (0x10a00, 0x10a00, 1),
    (0x10a01, 0x10a03, 2),
    (0x10a04, 0x10a04, 3),
    (0x10a05, 0x10a06, 2),
    (0x10a07, 0x10a0b, 3),
    (0x10a0c, 0x10a0f, 2),
    (0x10a10, 0x10a13, 1),
    (0x10a14, 0x10a14, 3),
    (0x10a15, 0x10a17, 1),
    (0x10a18, 0x10a18, 3),
    (0x10a19, 0x10a33, 1),
    (0x10a34, 0x10a37, 3),
    (0x10a38, 0x10a3a, 2),
    (0x10a3b, 0x10a3e, 3),
    (0x10a3f, 0x10a3f, 2),
    (0x10a48, 0x10a4f, 3),
    (0x10a59, 0x10a5f, 3),
    (0x10a60, 0x10a7c, 1),
    (0x10a80, 0x10a9c, 1),
    (0x10aa0, 0x10abf, 3),
    (0x10ac0, 0x10ac7, 1),
    (0x10ac9, 0x10ae4, 1),
    (0x10ae5, 0x10ae6, 2),
    (0x10ae7, 0x10aea, 3),
    (0x10af7, 0x10aff, 3),
    (0x10b00, 0x10b35, 1),
    (0x10b36, 0x10b38, 3),
    (0x10b40, 0x10b55, 1),
    (0x10b56, 0x10b57, 3),
    (0x10b60, 0x10b72, 1),
    (0x10b73, 0x10b77, 3),
    (0x10b80, 0x10b91, 1),
    (0x10b92, 0x10b98, 3),
    (0x10b9d, 0x10ba8, 3),
    (0x10bb0, 0x10bff, 3),
    (0x10c00, 0x10c48, 1),
    (0x10c49, 0x10c7f, 3),
    (0x10c80, 0x10cb2, 1),
    (0x10cb3, 0x10cbf, 3),
    (0x10cc0, 0x10cf2, 1),
    (0x10cf3, 0x10cf9, 3),
    (0x10d00, 0x10e5f, 3),
    (0x10e7f, 0x10fff, 3),
    (0x11000, 0x11002, 2),
    (0x11003, 0x11037, 1),
    (0x11038, 0x11046, 2),
    (0x1104e, 0x11051, 3),
    (0x11066, 0x1106f, 2),
    (0x11070, 0x1107e, 3),
    (0x1107f, 0x11082, 2),
    (0x11083, 0x110af, 1),
    (0x110b0, 0x110ba, 2),
    (0x110c2, 0x110cf, 3),
    (0x110d0, 0x110e8, 1),
    (0x110e9, 0x110ef, 3),
    (0x110f0, 0x110f9, 2),
    (0x110fa, 0x110ff, 3),
    (0x11100, 0x11102, 2),
    (0x11103, 0x11126, 1),
    (0x11127, 0x11134, 2),
    (0x11135, 0x11135, 3),
    (0x11136, 0x1113f, 2),
    (0x11144, 0x1114f, 3),
    (0x11150, 0x11172, 1),
    (0x11173, 0x11173, 2),
    (0x11176, 0x11176, 1),
    (0x11177, 0x1117f, 3),
    (0x11180, 0x11182, 2),
    (0x11183, 0x111b2, 1),
    (0x111b3, 0x111c0, 2),
    (0x111c1, 0x111c4, 1),
    (0x111c9, 0x111c9, 3),
    (0x111ca, 0x111cc, 2),
    (0x111ce, 0x111cf, 3),
    (0x111d0, 0x111d9, 2),
    (0x111da, 0x111da, 1),
    (0x111dc, 0x111dc, 1),
    (0x111e0, 0x111e0, 3),
    (0x111f5, 0x111ff, 3),
    (0x11200, 0x11211, 1),
    (0x11212, 0x11212, 3),
    (0x11213, 0x1122b, 1),
    (0x1122c, 0x11237, 2),
    (0x1123e, 0x1123e, 2),
    (0x1123f, 0x1127f, 3),
    (0x11280, 0x11286, 1),
    (0x11287, 0x11287, 3),
    (0x11288, 0x11288, 1),
    (0x11289, 0x11289, 3),
    (0x1128a, 0x1128d, 1),
    (0x1128e, 0x1128e, 3),
    (0x1128f, 0x1129d, 1),
    (0x1129e, 0x1129e, 3),
    (0x1129f, 0x112a8, 1),
    (0x112aa, 0x112af, 3),
    (0x112b0, 0x112de, 1),
    (0x112df, 0x112ea, 2),
    (0x112eb, 0x112ef, 3),
    (0x112f0, 0x112f9, 2),
    (0x112fa, 0x112ff, 3),
    (0x11300, 0x11303, 2),
    (0x11304, 0x11304, 3),
    (0x11305, 0x1130c, 1),
    (0x1130d, 0x1130e, 3),
    (0x1130f, 0x11310, 1),
    (0x11311, 0x11312, 3),
    (0x11313, 0x11328, 1),
    (0x11329, 0x11329, 3),
    (0x1132a, 0x11330, 1),
    (0x11331, 0x11331, 3),
    (0x11332, 0x11333, 1),
    (0x11334, 0x11334, 3),
    (0x11335, 0x11339, 1),
    (0x1133a, 0x1133b, 3),
    (0x1133c, 0x1133c, 2),
    (0x1133d, 0x1133d, 1),
    (0x1133e, 0x11344, 2),
    (0x11345, 0x11346, 3),
    (0x11347, 0x11348, 2),
    (0x11349, 0x1134a, 3),
    (0x1134b, 0x1134d, 2),
    (0x1134e, 0x1134f, 3),
    (0x11350, 0x11350, 1),
    (0x11351, 0x11356, 3),
    (0x11357, 0x11357, 2),
    (0x11358, 0x1135c, 3),
    (0x1135d, 0x11361, 1),
    (0x11362, 0x11363, 2),
    (0x11364, 0x11365, 3),
    (0x11366, 0x1136c, 2),
    (0x1136d, 0x1136f, 3),
    (0x11370, 0x11374, 2),
    (0x11375, 0x113ff, 3),
    (0x11400, 0x11434, 1),
    (0x11435, 0x11446, 2),
    (0x11447, 0x1144a, 1),
    (0x11450, 0x11459, 2),
    (0x1145a, 0x1145a, 3),
    (0x1145c, 0x1145c, 3),
    (0x1145e, 0x1147f, 3),
    (0x11480, 0x114af, 1),
    (0x114b0, 0x114c3, 2),
    (0x114c4, 0x114c5, 1),
    (0x114c7, 0x114c7, 1),
    (0x114c8, 0x114cf, 3),
    (0x114d0, 0x114d9, 2),
    (0x114da, 0x1157f, 3),
    (0x11580, 0x115ae, 1),
    (0x115af, 0x115b5, 2),
    (0x115b6, 0x115b7, 3),
    (0x115b8, 0x115c0, 2),
    (0x115d8, 0x115db, 1),
    (0x115dc, 0x115dd, 2),
    (0x115de, 0x115ff, 3),
    (0x11600, 0x1162f, 1),
    (0x11630, 0x11640, 2),
    (0x11644, 0x11644, 1),
    (0x11645, 0x1164f, 3),
    (0x11650, 0x11659, 2),
    (0x1165a, 0x1165f, 3),
    (0x1166d, 0x1167f, 3),
    (0x11680, 0x116aa, 1),
    (0x116ab, 0x116b7, 2),
    (0x116b8, 0x116bf, 3),
    (0x116c0, 0x116c9, 2),
    (0x116ca, 0x116ff, 3),
    (0x11700, 0x11719, 1),
    (0x1171a, 0x1171c, 3),
    (0x1171d, 0x1172b, 2),
    (0x1172c, 0x1172f, 3),
    (0x11730, 0x11739, 2),
    (0x11740, 0x1189f, 3),
    (0x118a0, 0x118df, 1),
    (0x118e0, 0x118e9, 2),
    (0x118f3, 0x118fe, 3),
    (0x118ff, 0x118ff, 1),
    (0x11900, 0x11abf, 3),
    (0x11ac0, 0x11af8, 1),
    (0x11af9, 0x11bff, 3),
    (0x11c00, 0x11c08, 1),
    (0x11c09, 0x11c09, 3),
    (0x11c0a, 0x11c2e, 1),
    (0x11c2f, 0x11c36, 2),
    (0x11c37, 0x11c37, 3),
    (0x11c38, 0x11c3f, 2),
    (0x11c40, 0x11c40, 1),
    (0x11c46, 0x11c4f, 3),
    (0x11c50, 0x11c59, 2),
    (0x11c6d, 0x11c6f, 3),
    (0x11c72, 0x11c8f, 1),
    (0x11c90, 0x11c91, 3),
    (0x11c92, 0x11ca7, 2),
    (0x11ca8, 0x11ca8, 3),
    (0x11ca9, 0x11cb6, 2),
    (0x11cb7, 0x11fff, 3),
    (0x12000, 0x12399, 1),
    (0x1239a, 0x123ff, 3),
    (0x12400, 0x1246e, 1),
    (0x1246f, 0x1246f, 3),
    (0x12475, 0x1247f, 3),
    (0x12480, 0x12543, 1),
    (0x12544, 0x12fff, 3),
    (0x13000, 0x1342e, 1),
    (0x1342f, 0x143ff, 3),
    (0x14400, 0x14646, 1),
    (0x14647, 0x167ff, 3),
    (0x16800, 0x16a38, 1),
    (0x16a39, 0x16a3f, 3),
    (0x16a40, 0x16a5e, 1),
    (0x16a5f, 0x16a5f, 3),
    (0x16a60, 0x16a69, 2),
    (0x16a6a, 0x16a6d, 3),
    (0x16a70, 0x16acf, 3),
    (0x16ad0, 0x16aed, 1),
    (0x16aee, 0x16aef, 3),
    (0x16af0, 0x16af4, 2),
    (0x16af6, 0x16aff, 3),
    (0x16b00, 0x16b2f, 1),
    (0x16b30, 0x16b36, 2),
    (0x16b40, 0x16b43, 1),
    (0x16b46, 0x16b4f, 3),
    (0x16b50, 0x16b59, 2),
    (0x16b5a, 0x16b5a, 3),
    (0x16b62, 0x16b62, 3),
    (0x16b63, 0x16b77, 1),
    (0x16b78, 0x16b7c, 3),
    (0x16b7d, 0x16b8f, 1),
    (0x16b90, 0x16eff, 3),
    (0x16f00, 0x16f44, 1),
    (0x16f45, 0x16f4f, 3),
    (0x16f50, 0x16f50, 1),
    (0x16f51, 0x16f7e, 2),
    (0x16f7f, 0x16f8e, 3),
    (0x16f8f, 0x16f92, 2),
    (0x16f93, 0x16f9f, 1),
    (0x16fa0, 0x16fdf, 3),
    (0x16fe0, 0x16fe0, 1),
    (0x16fe1, 0x16fff, 3),
    (0x17000, 0x187ec, 1),
    (0x187ed, 0x187ff, 3),
    (0x18800, 0x18af2, 1),
    (0x18af3, 0x1afff, 3),
    (0x1b000, 0x1b001, 1),
    (0x1b002, 0x1bbff, 3),
    (0x1bc00, 0x1bc6a, 1),
    (0x1bc6b, 0x1bc6f, 3),
    (0x1bc70, 0x1bc7c, 1),
    (0x1bc7d, 0x1bc7f, 3),
    (0x1bc80, 0x1bc88, 1),
    (0x1bc89, 0x1bc8f, 3),
    (0x1bc90, 0x1bc99, 1),
    (0x1bc9a, 0x1bc9b, 3),
    (0x1bc9d, 0x1bc9e, 2),
    (0x1bca4, 0x1cfff, 3),
    (0x1d0f6, 0x1d0ff, 3),
    (0x1d127, 0x1d128, 3),
    (0x1d165, 0x1d169, 2),
    (0x1d16d, 0x1d172, 2),
    (0x1d17b, 0x1d182, 2),
    (0x1d185, 0x1d18b, 2),
    (0x1d1aa, 0x1d1ad, 2),
    (0x1d1e9, 0x1d1ff, 3),
    (0x1d242, 0x1d244, 2),
    (0x1d246, 0x1d2ff, 3),
    (0x1d357, 0x1d35f, 3),
    (0x1d372, 0x1d3ff, 3),
    (0x1d400, 0x1d454, 1),
    (0x1d455, 0x1d455, 3),
    (0x1d456, 0x1d49c, 1),
    (0x1d49d, 0x1d49d, 3),
    (0x1d49e, 0x1d49f, 1),
    (0x1d4a0, 0x1d4a1, 3),
    (0x1d4a2, 0x1d4a2, 1),
    (0x1d4a3, 0x1d4a4, 3),
    (0x1d4a5, 0x1d4a6, 1),
    (0x1d4a7, 0x1d4a8, 3),
    (0x1d4a9, 0x1d4ac, 1),
    (0x1d4ad, 0x1d4ad, 3),
    (0x1d4ae, 0x1d4b9, 1),
    (0x1d4ba, 0x1d4ba, 3),
    (0x1d4bb, 0x1d4bb, 1),
    (0x1d4bc, 0x1d4bc, 3),
    (0x1d4bd, 0x1d4c3, 1),
    (0x1d4c4, 0x1d4c4, 3),
    (0x1d4c5, 0x1d505, 1),
    (0x1d506, 0x1d506, 3),
    (0x1d507, 0x1d50a, 1),
    (0x1d50b, 0x1d50c, 3),
    (0x1d50d, 0x1d514, 1),
    (0x1d515, 0x1d515, 3),
    (0x1d516, 0x1d51c, 1),
    (0x1d51d, 0x1d51d, 3),
    (0x1d51e, 0x1d539, 1),
    (0x1d53a, 0x1d53a, 3),
    (0x1d53b, 0x1d53e, 1),
    (0x1d53f, 0x1d53f, 3),
    (0x1d540, 0x1d544, 1),
    (0x1d545, 0x1d545, 3),
    (0x1d546, 0x1d546, 1),
    (0x1d547, 0x1d549, 3),
    (0x1d54a, 0x1d550, 1),
    (0x1d551, 0x1d551, 3),
    (0x1d552, 0x1d6a5, 1),
    (0x1d6a6, 0x1d6a7, 3),
    (0x1d6a8, 0x1d6c0, 1),
    (0x1d6c2, 0x1d6da, 1),
    (0x1d6dc, 0x1d6fa, 1),
    (0x1d6fc, 0x1d714, 1),
    (0x1d716, 0x1d734, 1),
    (0x1d736, 0x1d74e, 1),
    (0x1d750, 0x1d76e, 1),
    (0x1d770, 0x1d788, 1),
    (0x1d78a, 0x1d7a8, 1),
    (0x1d7aa, 0x1d7c2, 1),
    (0x1d7c4, 0x1d7cb, 1),
    (0x1d7cc, 0x1d7cd, 3),
    (0x1d7ce, 0x1d7ff, 2),
    (0x1da00, 0x1da36, 2),
    (0x1da3b, 0x1da6c, 2),
    (0x1da75, 0x1da75, 2),
    (0x1da84, 0x1da84, 2),
    (0x1da8c, 0x1da9a, 3),
    (0x1da9b, 0x1da9f, 2),
    (0x1daa0, 0x1daa0, 3),
    (0x1daa1, 0x1daaf, 2),
    (0x1dab0, 0x1dfff, 3),
    (0x1e000, 0x1e006, 2),
    (0x1e007, 0x1e007, 3),
    (0x1e008, 0x1e018, 2),
    (0x1e019, 0x1e01a, 3),
    (0x1e01b, 0x1e021, 2),
    (0x1e022, 0x1e022, 3),
    (0x1e023, 0x1e024, 2),
    (0x1e025, 0x1e025, 3),
    (0x1e026, 0x1e02a, 2),
    (0x1e02b, 0x1e7ff, 3),
    (0x1e800, 0x1e8c4, 1),
    (0x1e8c5, 0x1e8c6, 3),
    (0x1e8d0, 0x1e8d6, 2),
    (0x1e8d7, 0x1e8ff, 3),
    (0x1e900, 0x1e943, 1),
    (0x1e944, 0x1e94a, 2),
    (0x1e94b, 0x1e94f, 3),
    (0x1e950, 0x1e959, 2),
    (0x1e95a, 0x1e95d, 3),
    (0x1e960, 0x1edff, 3),
    (0x1ee00, 0x1ee03, 1),
    (0x1ee04, 0x1ee04, 3),
    (0x1ee05, 0x1ee1f, 1),
    (0x1ee20, 0x1ee20, 3),
    (0x1ee21, 0x1ee22, 1),
    (0x1ee23, 0x1ee23, 3),
    (0x1ee24, 0x1ee24, 1),
    (0x1ee25, 0x1ee26, 3),
    (0x1ee27, 0x1ee27, 1),
    (0x1ee28, 0x1ee28, 3),
    (0x1ee29, 0x1ee32, 1),
    (0x1ee33, 0x1ee33, 3),
    (0x1ee34, 0x1ee37, 1),
    (0x1ee38, 0x1ee38, 3),
    (0x1ee39, 0x1ee39, 1),
    (0x1ee3a, 0x1ee3a, 3),
    (0x1ee3b, 0x1ee3b, 1),
    (0x1ee3c, 0x1ee41, 3),
    (0x1ee42, 0x1ee42, 1),
    (0x1ee43, 0x1ee46, 3),
    (0x1ee47, 0x1ee47, 1),
    (0x1ee48, 0x1ee48, 3),
    (0x1ee49, 0x1ee49, 1),
    (0x1ee4a, 0x1ee4a, 3),
    (0x1ee4b, 0x1ee4b, 1),
    (0x1ee4c, 0x1ee4c, 3),
    (0x1ee4d, 0x1ee4f, 1),
    (0x1ee50, 0x1ee50, 3),
    (0x1ee51, 0x1ee52, 1),
    (0x1ee53, 0x1ee53, 3),
    (0x1ee54, 0x1ee54, 1),
    (0x1ee55, 0x1ee56, 3),
    (0x1ee57, 0x1ee57, 1),
    (0x1ee58, 0x1ee58, 3),
    (0x1ee59, 0x1ee59, 1),
    (0x1ee5a, 0x1ee5a, 3),
    (0x1ee5b, 0x1ee5b, 1),
    (0x1ee5c, 0x1ee5c, 3),
    (0x1ee5d, 0x1ee5d, 1),
    (0x1ee5e, 0x1ee5e, 3),
    (0x1ee5f, 0x1ee5f, 1),
    (0x1ee60, 0x1ee60, 3),
    (0x1ee61, 0x1ee62, 1),
    (0x1ee63, 0x1ee63, 3),
    (0x1ee64, 0x1ee64, 1),
    (0x1ee65, 0x1ee66, 3),
    (0x1ee67, 0x1ee6a, 1),
    (0x1ee6b, 0x1ee6b, 3),
    (0x1ee6c, 0x1ee72, 1),
    (0x1ee73, 0x1ee73, 3),
    (0x1ee74, 0x1ee77, 1),
    (0x1ee78, 0x1ee78, 3),
    (0x1ee79, 0x1ee7c, 1),
    (0x1ee7d, 0x1ee7d, 3),
    (0x1ee7e, 0x1ee7e, 1),
    (0x1ee7f, 0x1ee7f, 3),
    (0x1ee80, 0x1ee89, 1),
    (0x1ee8a, 0x1ee8a, 3),
    (0x1ee8b, 0x1ee9b, 1),
    (0x1ee9c, 0x1eea0, 3),
    (0x1eea1, 0x1eea3, 1),
    (0x1eea4, 0x1eea4, 3),
    (0x1eea5, 0x1eea9, 1),
    (0x1eeaa, 0x1eeaa, 3),
    (0x1eeab, 0x1eebb, 1),
    (0x1eebc, 0x1eeef, 3),
    (0x1eef2, 0x1efff, 3),
    (0x1f02c, 0x1f02f, 3),
    (0x1f094, 0x1f09f, 3),
    (0x1f0af, 0x1f0b0, 3),
    (0x1f0c0, 0x1f0c0, 3),
    (0x1f0d0, 0x1f0d0, 3),
    (0x1f0f6, 0x1f0ff, 3),
    (0x1f10d, 0x1f10f, 3),
    (0x1f12f, 0x1f12f, 3),
    (0x1f16c, 0x1f16f, 3),
    (0x1f1ad, 0x1f1e5, 3),
    (0x1f203, 0x1f20f, 3),
    (0x1f23c, 0x1f23f, 3),
    (0x1f249, 0x1f24f, 3),
    (0x1f252, 0x1f2ff, 3),
    (0x1f6d3, 0x1f6df, 3),
    (0x1f6ed, 0x1f6ef, 3),
    (0x1f6f7, 0x1f6ff, 3),
    (0x1f774, 0x1f77f, 3),
    (0x1f7d5, 0x1f7ff, 3),
    (0x1f80c, 0x1f80f, 3),
    (0x1f848, 0x1f84f, 3),
    (0x1f85a, 0x1f85f, 3),
    (0x1f888, 0x1f88f, 3),
    (0x1f8ae, 0x1f90f, 3),
    (0x1f91f, 0x1f91f, 3),
    (0x1f928, 0x1f92f, 3),
    (0x1f931, 0x1f932, 3),
    (0x1f93f, 0x1f93f, 3),
    (0x1f94c, 0x1f94f, 3),
    (0x1f95f, 0x1f97f, 3),
    (0x1f992, 0x1f9bf, 3),
    (0x1f9c1, 0x1fffd, 3),
    (0x20000, 0x2a6d6, 1),
    (0x2a6d7, 0x2a6ff, 3),
    (0x2a700, 0x2b734, 1),
    (0x2b735, 0x2b73f, 3),
    (0x2b740, 0x2b81d, 1),
    (0x2b81e, 0x2b81f, 3),
    (0x2b820, 0x2cea1, 1),
    (0x2cea2, 0x2f7ff, 3),
    (0x2f800, 0x2fa1d, 1),
    (0x2fa1e, 0x2fffd, 3),
    (0x30000, 0x3fffd, 3),
    (0x40000, 0x4fffd, 3),
    (0x50000, 0x5fffd, 3),
    (0x60000, 0x6fffd, 3),
    (0x70000, 0x7fffd, 3),
    (0x80000, 0x8fffd, 3),
    (0x90000, 0x9fffd, 3),
    (0xa0000, 0xafffd, 3),
    (0xb0000, 0xbfffd, 3),
    (0xc0000, 0xcfffd, 3),
    (0xd0000, 0xdfffd, 3),
    (0xe0000, 0xe0000, 3),
    (0xe0002, 0xe001f, 3),
    (0xe0080, 0xe00ff, 3),
    (0xe0100, 0xe01ef, 2),
    (0xe01f0, 0xefffd, 3),
];
