//! C09: reading the header of a wz file: identification, positions, version and hash
//! fields of the three header kinds, and refusal of anything else.
use crate::rt::*;
use crate::witness;
use wz_reader::util::version::PKGVersion;
use wz_reader::{WzHeader};

fn u16at(b: &[u8], o: usize) -> u32 {
    b[o] as u32 | (b[o + 1] as u32) << 8
}
fn u32at(b: &[u8], o: usize) -> u32 {
    u16at(b, o) | u16at(b, o + 2) << 16
}
fn pick(b: &[u8], p: &[usize]) -> u64 {
    let mut v = 0;
    let mut i = p.len();
    while i > 0 {
        i -= 1;
        v = v << 8 | b[p[i]] as u64;
    }
    v
}
/// a plain header: magic, data size, content start, then `N` more arbitrary bytes
fn plain<const N: usize>(magic: u8) -> [u8; N] {
    let mut b: [u8; N] = any();
    b[0] = b'P';
    b[1] = b'K';
    b[2] = b'G';
    b[3] = magic;
    #[cfg(not(kani))]
    if b[N - 1] % 4 != 0 {
        // a content start inside the file is likely
        b[12] %= 32;
        b[13] = 0;
        b[14] = 0;
        b[15] = 0;
    }
    b
}
fn unknown_flags(h: &WzHeader) -> bool {
    h.flags == WzHeader::default().flags && !h.is_pkg2_64()
}
/// the version a PKG1 header states: the two bytes at the content start, unless they
/// cannot be a version (over 0xff), the file has no content, or the value 0x80 is really
/// the start of a directory with a plausible number of entries
fn version(b: &[u8], len: usize, start: usize, fsize: u64) -> Option<u16> {
    if start > len || len - start < 2 || fsize < 2 {
        return None;
    }
    let v = u16at(b, start);
    if v > 0xff {
        return None;
    }
    if v == 0x80 {
        if len - start < 6 {
            return None;
        }
        let n = u32at(b, start + 2) as i32;
        if n > 0 && n & 0xff == 0 && n <= 0xffff {
            return None;
        }
    }
    Some(v as u16)
}
fn pkg1(len: usize) {
    let b = plain::<28>(b'1');
    let s = &b[..len];
    let r = WzHeader::read_from_buf(s);
    if len < 16 {
        assert!(r.is_err(), "a cut header is accepted");
    } else {
        match &r {
            Err(_) => assert!(false, "a PKG1 header is refused"),
            Ok((h, n)) => {
                let start = u32at(&b, 12) as usize;
                let fsize = u32at(&b, 4) as u64 | (u32at(&b, 8) as u64) << 32;
                assert!(h.ident == PKGVersion::V1 && h.fsize == fsize && h.fstart == start && *n == start);
                let v = version(&b, len, start, fsize);
                assert!(h.encrypt_version == v, "wrong encrypted version");
                assert!(h.data_start == start + if v.is_some() { 2 } else { 0 }, "wrong directory position");
                assert!(unknown_flags(h));
                witness!(h.encrypt_version == Some(0x80));
            }
        }
    }
    leak(r);
}
fn pkg2(len: usize) {
    let b = plain::<28>(b'2');
    let s = &b[..len];
    let r = WzHeader::read_from_buf(s);
    let start = u32at(&b, 12) as usize;
    if len < 16 || start > len || len - start < 8 {
        assert!(r.is_err(), "a cut header is accepted");
    } else {
        match &r {
            Err(_) => assert!(false, "a PKG2 header is refused"),
            Ok((h, n)) => {
                assert!(h.ident == PKGVersion::V2 && h.fstart == start && *n == start);
                assert!(h.fsize == u32at(&b, 4) as u64 | (u32at(&b, 8) as u64) << 32);
                assert!(h.hash1 == u32at(&b, start) as u64 && h.hash2 == u32at(&b, start + 4) as u64, "wrong hashes");
                assert!(h.data_start == start + 8 && h.encrypt_version.is_none());
                assert!(unknown_flags(h));
                witness!(h.hash1 == 5 && start == 16);
            }
        }
    }
    leak(r);
}
/// scrambled headers: the bytes of the fields are scattered, and the header is recognised
/// by the content size it states
fn random<const N: usize>(len: usize) {
    let mut b: [u8; N] = any();
    b[0] = b'x';
    #[cfg(not(kani))]
    {
        // make a matching size likely
        let k = b[1] % 3;
        if k < 2 && len >= 150 {
            let n = (len - 150) as u32;
            for (i, p) in [0x12, 9, 2, 0x95].iter().enumerate() {
                b[*p] = (n >> (8 * i)) as u8;
            }
        }
        if k > 0 && len >= 68 {
            let n = (len - 68) as u32;
            for (i, p) in [0x15, 0x19, 0x39, 0x41].iter().enumerate() {
                b[*p] = (n >> (8 * i)) as u8;
            }
        }
    }
    let s = &b[..len];
    let r = WzHeader::read_from_buf(s);
    let big = len >= 150 && pick(&b, &[0x12, 9, 2, 0x95]) == (len - 150) as u64;
    let small = len >= 68 && pick(&b, &[0x15, 0x19, 0x39, 0x41]) == (len - 68) as u64;
    match &r {
        Err(_) => assert!(!big && !small, "a scrambled header is refused"),
        Ok((h, n)) => {
            assert!(big || small, "an unknown header is accepted");
            let (start, h1, h2) = if big {
                (150, pick(&b, &[0x48, 0x24, 0x0f, 0x31, 0x46, 0x47, 0x63, 0x67]),
                 pick(&b, &[0x8e, 0x8c, 0x93, 0x0e, 0x64, 0x7b, 0x2e, 0x4d]))
            } else {
                (68, pick(&b, &[0x43, 0x1a, 0x30, 0x10]), pick(&b, &[0x2d, 0x07, 0x3f, 0x2e]))
            };
            assert!(h.ident == PKGVersion::V2 && h.encrypt_version.is_none());
            assert!(h.fstart == start && h.data_start == start && *n == start, "wrong content start");
            assert!(h.fsize == (len - start) as u64);
            assert!(h.hash1 == h1 && h.hash2 == h2, "wrong hashes");
            assert!(h.hash1_u32() == h1 as u32 && h.hash2_u32() == h2 as u32);
            assert!(h.is_pkg2_64() == big);
            assert!(h.flags != WzHeader::default().flags);
            witness!(h1 == 3);
        }
    }
    leak(r);
}

macro_rules! header_harnesses {
    ($( $(#[$m:meta])* $name:ident [$unwind:literal] $body:block )*) => {
        $(
            $(#[$m])*
            #[cfg_attr(kani, kani::proof)]
            #[cfg_attr(kani, kani::unwind($unwind))]
            #[cfg_attr(kani, kani::stub(core::str::from_utf8, crate::stubs::from_utf8))]
            pub fn $name() { $body }
        )*
        pub const TABLE: &[(&str, fn())] = &[ $( (stringify!($name), $name as fn()) ),* ];
    };
}
header_harnesses! {
    c09_ident [10] {
        let b: [u8; 8] = any();
        let n = range(0, 8);
        let r = WzHeader::get_ident(&b[..n]);
        if n < 4 {
            assert!(r.is_err());
        } else {
            let head = b[0] == b'P' && b[1] == b'K' && b[2] == b'G';
            let want = match (head, b[3]) {
                (true, b'1') => PKGVersion::V1,
                (true, b'2') => PKGVersion::V2,
                _ => PKGVersion::Unknown,
            };
            assert!(matches!(&r, Ok(v) if *v == want));
            witness!(want == PKGVersion::V2);
        }
        leak(r);
    }
    c09_pkg1 [10] { pkg1(28) }
    c09_pkg1_edges [10] { pkg1(19); pkg1(17); pkg1(16); pkg1(15); pkg1(9) }
    c09_pkg2 [10] { pkg2(28) }
    c09_pkg2_edges [10] { pkg2(24); pkg2(17); pkg2(15) }
    c09_random64 [10] { random::<154>(154) }
    c09_random64_edges [10] { random::<151>(150); random::<151>(149) }
    c09_random [10] { random::<72>(72) }
    c09_random_edges [10] { random::<72>(68); random::<72>(67); random::<72>(4) }
    c09_fields [10] {
        let b: [u8; 20] = any();
        let n = range(0, 20);
        let s = &b[..n];
        let a = WzHeader::get_wz_fsize(s);
        let c = WzHeader::get_wz_fstart(s);
        assert!(a.is_ok() == (n >= 12) && c.is_ok() == (n >= 16));
        if let Ok(v) = &a {
            assert!(*v == u32at(&b, 4) as u64 | (u32at(&b, 8) as u64) << 32);
        }
        if let Ok(v) = &c {
            assert!(*v == u32at(&b, 12));
        }
        witness!(n == 13);
        leak((a, c));
    }
}
