//! C03: string decoding and encoding (ASCII, UTF-16 and PKG2 directory strings).
use crate::common::*;
use crate::rt::*;
use crate::spec::*;
use crate::stubs::*;
use crate::{check, text_harnesses, witness};
use wz_reader::property::*;
use wz_reader::reader::*;
use wz_reader::*;

fn round(s: &str) {
    let w = WzString::from_str(s, [0; 4]);
    let g = w.get_string().unwrap();
    if w.string_type == WzStringType::Ascii {
        assert!(is_text8(&g, s.as_bytes()), "text changed by from_str/get_string");
    } else {
        assert!(is_text16(&g, &units(s)), "text changed by from_str/get_string");
    }
    leak((w, g));
}
/// the units stored in `b` as a wz unicode string under key `k`
fn units16(b: &[u8], k: &[u8; KEYLEN]) -> Vec<u16> {
    let mut v = Vec::new();
    let mut i = 0;
    while i < b.len() / 2 {
        v.push(u16::from_le_bytes([b[2 * i] ^ k[2 * i], b[2 * i + 1] ^ k[2 * i + 1]]) ^ (0xAAAA + i) as u16);
        i += 1;
    }
    v
}
fn units(s: &str) -> Vec<u16> {
    s.encode_utf16().collect()
}

text_harnesses! {
    // every byte of an ASCII string is unmasked with key[i] and (0xAA + i) mod 256
    c03_ascii_raw [305] {
        let b: [u8; 302] = any();
        let kh = key_head::<32>();
        let k = keyed(kh);
        let r = WzSliceReader::new(&b, &k);
        let v = r.resolve_ascii_raw(1, 300).unwrap();
        assert!(v.len() == 300);
        let i: usize = any();
        assume(i < 300);
        assert!(v[i] == b[1 + i] ^ kh[i % 32] ^ ((0xAA + i) % 256) as u8);
        witness!(i == 299);
        leak((r, k, v));
    }
    c03_unicode_raw [526] {
        let b: [u8; 524] = any();
        let kh = key_head::<32>();
        let k = keyed(kh);
        let r = WzSliceReader::new(&b, &k);
        let v = r.resolve_unicode_raw(2, 520).unwrap();
        assert!(v.len() == 260);
        let i: usize = any();
        assume(i < 260);
        let c = u16::from_le_bytes([b[2 + 2 * i], b[3 + 2 * i]]);
        let key = u16::from_le_bytes([kh[(2 * i) % 32], kh[(2 * i + 1) % 32]]);
        assert!(v[i] == c ^ key ^ (0xAAAA + i) as u16);
        witness!(i == 259);
        leak((r, k, v));
    }
    // PKG2 directory strings: the PKG2 key only, no positional mask
    c03_pkg2_raw [35] {
        let b: [u8; 32] = any();
        let kh = key_head::<8>();
        let k2 = keyed(kh);
        let k = keyed([0x55; KEYLEN]);
        let r = WzSliceReader::new(&b, &k).with_pkg2_keys(&k2);
        let v = r.resolve_pkg2_dir_raw(4, 16).unwrap();
        assert!(v.len() == 8);
        let i: usize = any();
        assume(i < 8);
        let c = u16::from_le_bytes([b[4 + 2 * i], b[5 + 2 * i]]);
        let key = u16::from_le_bytes([kh[2 * i], kh[2 * i + 1]]);
        assert!(v[i] == c ^ key);
        witness!(i == 7);
        leak((r, k, k2, v));
    }
    // the mapped reader decodes the same
    c03_base_raw [20] {
        let b: [u8; 16] = any();
        let kh = key_head::<16>();
        let k2h: [u8; 8] = any();
        let mut k2f = [0u8; KEYLEN];
        let mut i = 0;
        while i < 8 { k2f[i] = k2h[i]; i += 1; }
        let k = keyed(kh);
        let k2 = keyed(k2f);
        let r = map_reader(&b, &k, &k2);
        let v = r.resolve_ascii_raw(3, 4).unwrap();
        let u = r.resolve_unicode_raw(3, 4).unwrap();
        let p = r.resolve_pkg2_dir_raw(3, 4).unwrap();
        assert!(v.len() == 4 && u.len() == 2 && p.len() == 2);
        let mut i = 0;
        while i < 4 {
            assert!(v[i] == b[3 + i] ^ kh[i] ^ (0xAA + i) as u8);
            i += 1;
        }
        let mut i = 0;
        while i < 2 {
            let c = u16::from_le_bytes([b[3 + 2 * i], b[4 + 2 * i]]);
            assert!(u[i] == c ^ u16::from_le_bytes([kh[2 * i], kh[2 * i + 1]]) ^ (0xAAAA + i) as u16);
            assert!(p[i] == c ^ u16::from_le_bytes([k2f[2 * i], k2f[2 * i + 1]]));
            i += 1;
        }
        witness!(v[0] == b'a');
        leak((r, k, k2, v, u, p));
    }
    // a range that does not lie inside the buffer is an error, whatever the kind
    c03_out_of_range [20] {
        let b: [u8; 8] = any();
        let k = nokey();
        let r = WzSliceReader::new(&b, &k);
        let o: usize = any();
        assume(o < 1000 && o > 6);
        let x = r.resolve_ascii_raw(o, 2);
        let y = r.resolve_unicode_raw(o, 2);
        let z = r.resolve_pkg2_dir_raw(o, 2);
        assert!(x.is_err() && y.is_err() && z.is_err());
        witness!(o == 7);
        leak((x, y, z, r, k));
    }
    // whole strings: length prefix, decoding, cursor
    c03_read_ascii [12] {
        let kh = key_head::<3>();
        let mut b: [u8; 6] = any();
        b[1] = 0u8.wrapping_sub(3);
        let k = keyed(kh);
        let r = WzSliceReader::new(&b, &k);
        r.seek(1);
        let s = r.read_wz_string().unwrap();
        let mut t = [0u8; 3];
        let mut i = 0;
        while i < 3 { t[i] = b[2 + i] ^ kh[i] ^ (0xAA + i) as u8; i += 1; }
        assert!(is_text8(&s, &t));
        assert!(r.pos.get() == 5);
        witness!(t[0] == b'x');
        leak((r, k, s));
    }
    c03_read_unicode [12] {
        let kh = key_head::<6>();
        let mut b: [u8; 8] = any();
        b[1] = 3;
        let k = keyed(kh);
        let r = WzSliceReader::new(&b, &k);
        r.seek(1);
        let s = r.read_wz_string().unwrap();
        assert!(is_text16(&s, &units16(&b[2..8], &kh)));
        assert!(r.pos.get() == 8);
        witness!(s.len() == 6);
        leak((r, k, s));
    }
    // the 32-bit length forms (0x80 / 0x7f prefix)
    c03_read_long_forms [12] {
        let kh = key_head::<4>();
        let mut b: [u8; 12] = any();
        b[0] = 0x80;
        b[1] = 2; b[2] = 0; b[3] = 0; b[4] = 0;
        let k = keyed(kh);
        let r = WzSliceReader::new(&b, &k);
        let s = r.read_wz_string().unwrap();
        assert!(is_text8(&s, &[b[5] ^ kh[0] ^ 0xAA, b[6] ^ kh[1] ^ 0xAB]));
        assert!(r.pos.get() == 7);
        let mut c = b;
        c[0] = 0x7f;
        let r2 = WzSliceReader::new(&c, &k);
        let s2 = r2.read_wz_string().unwrap();
        assert!(is_text16(&s2, &units16(&c[5..9], &kh)));
        assert!(r2.pos.get() == 9);
        let mut d = b;
        d[0] = 0;
        let r3 = WzSliceReader::new(&d, &k);
        let s3 = r3.read_wz_string().unwrap();
        assert!(s3.len() == 0 && r3.pos.get() == 1);
        witness!();
        leak((r, r2, k, s, s2));
        leak((r3, s3));
    }
    c03_read_pkg2_dir [12] {
        let kh = key_head::<4>();
        let mut b: [u8; 6] = any();
        b[0] = 0u8.wrapping_sub(2);
        let k = keyed(kh);
        let k1 = keyed([0x77; KEYLEN]);
        let r = WzSliceReader::new(&b, &k1).with_pkg2_keys(&k);
        let s = r.read_wz_string_pkg2_dir().unwrap();
        let u0 = u16::from_le_bytes([b[1] ^ kh[0], b[2] ^ kh[1]]);
        let u1 = u16::from_le_bytes([b[3] ^ kh[2], b[4] ^ kh[3]]);
        assert!(is_text16(&s, &[u0, u1]));
        assert!(r.pos.get() == 5);
        witness!(u0 == 0x78);
        leak((r, k, k1, s));
    }
    // encoding is the inverse of decoding: any key, text of every UTF-8/UTF-16 width
    c03_encode_ascii [12] {
        let kh = key_head::<6>();
        let k = keyed(kh);
        let r = map_reader(&[0], &k, &k);
        let t = b"aZ~";
        let e = r.encrypt_str("aZ~", &WzStringType::Ascii);
        assert!(e.len() == 3);
        let mut i = 0;
        while i < 3 { assert!(e[i] == t[i] ^ kh[i] ^ (0xAA + i) as u8); i += 1; }
        let e2 = r.encrypt_str("aZ~", &WzStringType::Pkg2Dir);
        assert!(e2.len() == 6);
        let mut i = 0;
        while i < 3 { assert!(e2[2 * i] == t[i] ^ kh[2 * i] && e2[2 * i + 1] == kh[2 * i + 1]); i += 1; }
        let e3 = r.encrypt_str("", &WzStringType::Empty);
        assert!(e3.len() == 0);
        witness!(kh[0] == 3);
        leak((r, k, e, e2, e3));
    }
    c03_encode_unicode [14] {
        let kh = key_head::<10>();
        let k = keyed(kh);
        let r = map_reader(&[0], &k, &k);
        // 1-, 2-, 3- and 4-byte characters; the last is a surrogate pair
        let want = [0x71u16, 0xe9, 0x4f60, 0xD83C, 0xDF89];
        let e = r.encrypt_str("q\u{e9}\u{4f60}\u{1F389}", &WzStringType::Unicode);
        assert!(e.len() == 10);
        let got = units16(&e, &kh);
        let mut i = 0;
        while i < 5 { assert!(got[i] == want[i]); i += 1; }
        witness!(kh[0] == 3);
        leak((r, k, e, got));
    }
    c03_encode_long [110] {
        let kh = key_head::<32>();
        let k = keyed(kh);
        let r = map_reader(&[0], &k, &k);
        let t = [b'z'; 100];
        let s = unsafe { std::str::from_utf8_unchecked(&t) };
        let e = r.encrypt_str(s, &WzStringType::Ascii);
        assert!(e.len() == 100);
        let i: usize = any();
        assume(i < 100);
        assert!(e[i] == b'z' ^ kh[i % 32] ^ ((0xAA + i) % 256) as u8);
        witness!(i == 99);
        leak((r, k, e));
    }
    // a string built from text reads back as that text
    #[cfg_attr(kani, kani::stub(wz_reader::reader::WzBaseReader::from_buff, crate::stubs::from_buff))]
    c03_from_str_ascii [10] { round("aZ"); witness!(); }
    #[cfg_attr(kani, kani::stub(wz_reader::reader::WzBaseReader::from_buff, crate::stubs::from_buff))]
    c03_from_str_unicode [10] { round("\u{4f60}q"); witness!(); }
    #[cfg_attr(kani, kani::stub(wz_reader::reader::WzBaseReader::from_buff, crate::stubs::from_buff))]
    c03_from_str_astral [10] { round("\u{1F389}"); witness!(); }
}
