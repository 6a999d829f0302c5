//! C04: string descriptions (lazy strings), string blocks, unencrypted helpers, and
//! what malformed encodings give.
use crate::common::*;
use crate::rt::*;
use crate::spec::*;
use crate::stubs::*;
use crate::{check, each, text_harnesses, witness};
use wz_reader::property::*;
use wz_reader::reader::*;
use wz_reader::*;

#[derive(PartialEq, Clone, Copy)]
enum T {
    Empty,
    Ascii,
    Unicode,
}
/// description (kind, offset, byte length) and end of the string stored at `p`; None: an error
fn desc<const N: usize>(b: &[u8; N], p: usize) -> Option<(T, usize, usize, usize)> {
    let n = le(b, p, 1)? as u8 as i8;
    if n == 0 {
        return Some((T::Empty, 0, 0, p + 1));
    }
    let long = n == i8::MIN || n == i8::MAX;
    let at = if long { p + 5 } else { p + 1 };
    let len = if long {
        le(b, p + 1, 4)? as u32 as i32 as i64
    } else {
        (n as i64).abs()
    };
    if len < 0 {
        return None;
    }
    let (t, w) = if n > 0 { (T::Unicode, 2) } else { (T::Ascii, 1) };
    Some((t, at, (len * w) as usize, at + (len * w) as usize))
}
fn kind(t: &WzStringType) -> Option<T> {
    match t {
        WzStringType::Empty => Some(T::Empty),
        WzStringType::Ascii => Some(T::Ascii),
        WzStringType::Unicode => Some(T::Unicode),
        WzStringType::Pkg2Dir => None,
    }
}
macro_rules! is_desc {
    ($got:expr, $want:expr) => {{
        match $got {
            Ok(m) => {
                let w = $want;
                assert!(w.is_some(), "a malformed string is described");
                let w = w.unwrap();
                assert!(kind(&m.string_type) == Some(w.0), "wrong kind");
                if w.0 != T::Empty {
                    assert!(m.offset == w.1, "wrong place");
                }
                assert!(m.length as usize == w.2, "wrong length");
                leak(m);
            }
            Err(e) => {
                leak(e);
                assert!($want.is_none(), "a well-formed string is refused");
            }
        }
    }};
}
const N: usize = 12;

text_harnesses! {
    // any bytes, any start: the description of a string, and where the cursor goes
    c04_meta [10] {
        let b: [u8; N] = any();
        let k = nokey();
        let r = WzSliceReader::new(&b, &k);
        let p: usize = any();
        assume(p <= N);
        r.seek(p);
        let got = r.read_wz_string_meta();
        let want = desc(&b, p);
        if got.is_ok() { assert!(r.pos.get() == want.unwrap().3, "cursor not after the string"); }
        is_desc!(got, want);
        witness!(want.is_none() && p < 4);
        witness!(p == 1 && b[1] == 0x7f && want.is_some());
        witness!(p == 1 && b[1] == 0x80 && want.is_some());
        leak((r, k));
    }
    // reading a description elsewhere leaves the cursor alone
    c04_meta_at [10] {
        let b: [u8; N] = any();
        let k = nokey();
        let r = WzSliceReader::new(&b, &k);
        let p: usize = any();
        let q: usize = any();
        assume(p <= N + 4 && q <= N);
        r.seek(q);
        let got = r.read_wz_string_meta_at(p);
        assert!(r.pos.get() == q, "cursor moved");
        is_desc!(got, desc(&b, p));
        witness!(p == 2);
        leak((r, k));
    }
    // a block is an inline string or a reference relative to the image
    c04_block_meta [10] {
        let b: [u8; N] = any();
        let k = nokey();
        let r = WzSliceReader::new(&b, &k);
        let p: usize = any();
        let base: usize = any();
        assume(p <= N && base <= N);
        r.seek(p);
        let got = r.read_wz_string_block_meta(base);
        let marker = le(&b, p, 1);
        let inline = matches!(marker, Some(0) | Some(0x73));
        let reference = matches!(marker, Some(1) | Some(0x1B));
        let (want, end) = if marker.is_none() {
            (None, 0)
        } else if inline {
            let d = desc(&b, p + 1);
            (d, d.map_or(0, |d| d.3))
        } else if reference {
            match le(&b, p + 1, 4) {
                None => (None, 0),
                Some(o) => {
                    let at = base as i64 + o as u32 as i32 as i64;
                    if at < 0 { (None, 0) } else { (desc(&b, at as usize), p + 5) }
                }
            }
        } else {
            (Some((T::Empty, 0, 0, p + 1)), p + 1)
        };
        if got.is_ok() { assert!(r.pos.get() == end, "cursor not after the block"); }
        is_desc!(got, want);
        witness!(reference && want.is_some() && p == 7 && base == 2);
        witness!(reference && want.is_none() && p == 0);
        witness!(inline && want.is_some());
        leak((r, k));
    }
    // names of pkg2 directories
    c04_pkg2_meta [10] {
        let b: [u8; N] = any();
        let k = nokey();
        let r = WzSliceReader::new(&b, &k);
        let p: usize = any();
        assume(p <= N);
        r.seek(p);
        match r.read_wz_string_pkg2_dir_meta() {
            Ok(m) => {
                let n = le(&b, p, 1).unwrap() as u8 as i8 as i64;
                let l = if n < 0 { (-n * 2) as usize } else { 0 };
                assert!(m.length as usize == l && r.pos.get() == p + 1 + l);
                if l > 0 { assert!(m.offset == p + 1 && m.string_type == WzStringType::Pkg2Dir); }
                else { assert!(m.string_type == WzStringType::Empty); }
                leak(m);
            }
            Err(e) => { leak(e); assert!(p == N); }
        }
        r.seek(p);
        match r.read_wz_string_pkg2_u64_dir_meta() {
            Ok(m) => {
                let n = le(&b, p, 2).unwrap() as u16 as i16 as i64;
                let l = if n < 0 { (-n * 2) as usize } else { 0 };
                assert!(m.length as usize == l && r.pos.get() == p + 2 + l);
                if l > 0 { assert!(m.offset == p + 2 && m.string_type == WzStringType::Pkg2Dir); }
                else { assert!(m.string_type == WzStringType::Empty); }
                leak(m);
            }
            Err(e) => { leak(e); assert!(p + 2 > N); }
        }
        witness!(p == 3 && b[3] == 0x80);
        leak((r, k));
    }
    // a described string resolves to the text the direct read gives
    c04_lazy_ascii [12] {
        let kh = key_head::<3>();
        let mut b: [u8; 9] = any();
        b[0] = 1; b[1] = 3; b[2] = 0; b[3] = 0; b[4] = 0;
        b[5] = 0u8.wrapping_sub(3);
        let k = keyed(kh);
        let m = map_reader(&b, &k, &k);
        let r = m.create_slice_reader();
        let meta = r.read_wz_string_block_meta(2).unwrap();
        assert!(r.pos.get() == 5);
        r.seek(0);
        let eager = r.read_wz_string_block(2).unwrap();
        assert!(r.pos.get() == 5, "cursor not after the reference");
        let lazy = WzString::from_meta(meta, &m);
        let s = lazy.get_string().unwrap();
        let mut t = [0u8; 3];
        let mut i = 0;
        while i < 3 { t[i] = b[6 + i] ^ kh[i] ^ (0xAA + i) as u8; i += 1; }
        assert!(is_text8(&s, &t), "lazy text");
        assert!(is_text8(&eager, &t), "eager text");
        witness!(t[1] == b'k');
        leak((r, k));
        leak(m);
        leak((lazy, s, eager));
    }
    c04_lazy_unicode [12] {
        let kh = key_head::<4>();
        let mut b: [u8; 10] = any();
        b[0] = 0x73; b[1] = 2; b[6] = 0x1B; b[7] = 1; b[8] = 0; b[9] = 0;
        let k = keyed(kh);
        let m = map_reader(&b, &k, &k);
        let r = m.create_slice_reader();
        let meta = r.read_wz_string_block_meta(0).unwrap();
        assert!(r.pos.get() == 6);
        r.seek(0);
        let eager = r.read_wz_string_block(0).unwrap();
        assert!(r.pos.get() == 6);
        r.seek(5);
        let at = r.read_wz_string_at_offset(1).unwrap();
        assert!(r.pos.get() == 5);
        let lazy = WzString::from_meta(meta, &m);
        let s = lazy.get_string().unwrap();
        let mut t = [0u16; 2];
        let mut i = 0;
        while i < 2 {
            t[i] = u16::from_le_bytes([b[2 + 2 * i] ^ kh[2 * i], b[3 + 2 * i] ^ kh[2 * i + 1]]) ^ (0xAAAA + i) as u16;
            i += 1;
        }
        assert!(is_text16(&s, &t), "lazy text");
        assert!(is_text16(&eager, &t), "eager text");
        assert!(is_text16(&at, &t), "text at an offset");
        witness!(t[1] == 0x4e00);
        leak((r, k));
        leak(m);
        leak((lazy, s, eager, at));
    }
    // an unknown marker is an empty text of one byte
    c04_block_other [10] {
        let k = nokey();
        each!(x in [2, 0x1A, 0x1C, 0x72, 0x74, 0x80, 0xff] {
            let b: [u8; 2] = [x, any()];
            let r = WzSliceReader::new(&b, &k);
            let s = r.read_wz_string_block(0).unwrap();
            assert!(s.len() == 0 && r.pos.get() == 1);
            let f = read_wz_string_block(&b, 0).unwrap();
            assert!(f.len() == 0);
            leak((r, s, f));
        });
        witness!();
        leak(k);
    }
    // lengths and references that cannot be right are errors
    //@ tier=thorough
    c04_malformed [10] {
        let k = nokey();
        each!(len in [i32::MIN, -1, 2, 0x3fff_ffff, 0x4000_0000, i32::MAX] {
            each!(head in [0x7f, 0x80] {
                let l = i32::to_le_bytes(len);
                let b = [head, l[0], l[1], l[2], l[3], 7];
                let r = WzSliceReader::new(&b, &k);
                let e = r.read_wz_string();
                assert!(e.is_err(), "a text whose bytes are missing");
                leak((r, e));
            });
        });
        each!(o in [i32::MIN, -4, 2, 3, i32::MAX] {
            let l = i32::to_le_bytes(o);
            let c = [1, l[0], l[1], l[2], l[3], 0xff];
            let r = WzSliceReader::new(&c, &k);
            let e = r.read_wz_string_block(3);
            assert!(e.is_err(), "a text outside the data");
            let e2 = read_wz_string_block(&c, 3);
            assert!(e2.is_err(), "a text outside the data");
            leak((r, e, e2));
        });
        witness!();
        leak(k);
    }
    // the helpers for unencrypted data
    c04_free_ascii [10] {
        let mut b: [u8; 9] = any();
        b[0] = 1; b[1] = 2; b[2] = 0; b[3] = 0; b[4] = 0;
        b[5] = 0u8.wrapping_sub(3);
        let t = [b[6] ^ 0xAA, b[7] ^ 0xAB, b[8] ^ 0xAC];
        let s = read_wz_string_block(&b, 3).unwrap();
        assert!(is_text8(&s, &t));
        b[4] = 0; b[5] = 0;
        let mut c = b;
        c[0] = 0x80; c[1] = 3;
        let u = read_wz_string(&c).unwrap();
        assert!(is_text8(&u, &[c[5] ^ 0xAA, c[6] ^ 0xAB, c[7] ^ 0xAC]));
        witness!(t[0] == b'r');
        leak((s, u));
    }
    c04_free_unicode [10] {
        let mut b: [u8; 9] = any();
        b[0] = 0x73; b[1] = 2;
        let t = [
            u16::from_le_bytes([b[2], b[3]]) ^ 0xAAAA,
            u16::from_le_bytes([b[4], b[5]]) ^ 0xAAAB,
        ];
        let s = read_wz_string_block(&b, 3).unwrap();
        assert!(is_text16(&s, &t));
        let mut c = b;
        c[0] = 0x7f; c[1] = 2; c[2] = 0; c[3] = 0; c[4] = 0;
        let u = read_wz_string(&c).unwrap();
        assert!(is_text16(&u, &[
            u16::from_le_bytes([c[5], c[6]]) ^ 0xAAAA,
            u16::from_le_bytes([c[7], c[8]]) ^ 0xAAAB,
        ]));
        witness!(t[0] == 0x72);
        leak((s, u));
    }
    // and the same cut short, or referenced outside the data
    //@ tier=thorough
    c04_free_cut [12] {
        each!(head in [[0x80, 9], [0x7f, 3], [0x82, 0], [0x04, 0]] {
            let c = [head[0], head[1], 0, 0, 0, 1, 2, 3, 4];
            let e = if head[1] == 0 { read_wz_string(&c[..3]) } else { read_wz_string(&c) };
            assert!(e.is_err(), "a cut text");
            leak(e);
        });
        each!(o in [100u8, 0xff] {
            let c = [1, o, 0, 0, if o == 0xff { 0xff } else { 0 }, 1];
            let e = read_wz_string_block(&c, 3);
            assert!(e.is_err(), "a text outside the data");
            leak(e);
        });
        witness!();
    }
}
