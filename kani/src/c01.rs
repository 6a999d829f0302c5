//! C01: fixed-width little-endian reads and the reader cursor.
use crate::common::*;
use crate::rt::*;
use crate::spec::*;
use crate::{check, harnesses, witness};
use wz_reader::reader::*;
use wz_reader::WzSliceReader;

const N: usize = 10;

macro_rules! seq {
    ($r:ident, $p:ident, $b:ident, $f:ident, $w:expr, $t:ty) => {{
        $r.seek($p);
        let got = $r.$f();
        if got.is_ok() {
            assert!($r.pos.get() == $p + $w, "cursor not advanced by the width read");
        }
        check!(got, le(&$b, $p, $w), $t);
    }};
}

harnesses! {
    c01_slice_at [10] {
        let b: [u8; N] = any();
        let k = nokey();
        let r = WzSliceReader::new(&b, &k);
        let p: usize = any();
        check!(r.read_u8_at(p), le(&b, p, 1), u8);
        check!(r.read_u16_at(p), le(&b, p, 2), u16);
        check!(r.read_u32_at(p), le(&b, p, 4), u32);
        check!(r.read_u64_at(p), le(&b, p, 8), u64);
        check!(r.read_i8_at(p), le(&b, p, 1), i8);
        check!(r.read_i16_at(p), le(&b, p, 2), i16);
        check!(r.read_i32_at(p), le(&b, p, 4), i32);
        check!(r.read_i64_at(p), le(&b, p, 8), i64);
        check!(r.read_float_at(p).map(|f| f.to_bits()), le(&b, p, 4), u32);
        check!(r.read_double_at(p).map(|f| f.to_bits()), le(&b, p, 8), u64);
        assert!(r.pos.get() == 0);
        assert!(r.get_size() == N);
        witness!(p == 2);
        leak(r);
        leak(k);
    }
    c01_base_at [10] {
        let b: [u8; N] = any();
        let k = nokey();
        let r = WzBaseReader { map: b, header: Default::default(), keys: k.clone(), pkg2_keys: k };
        let p: usize = any();
        check!(r.read_u8_at(p), le(&b, p, 1), u8);
        check!(r.read_u16_at(p), le(&b, p, 2), u16);
        check!(r.read_u32_at(p), le(&b, p, 4), u32);
        check!(r.read_u64_at(p), le(&b, p, 8), u64);
        check!(r.read_i8_at(p), le(&b, p, 1), i8);
        check!(r.read_i16_at(p), le(&b, p, 2), i16);
        check!(r.read_i32_at(p), le(&b, p, 4), i32);
        check!(r.read_i64_at(p), le(&b, p, 8), i64);
        check!(r.read_float_at(p).map(|f| f.to_bits()), le(&b, p, 4), u32);
        check!(r.read_double_at(p).map(|f| f.to_bits()), le(&b, p, 8), u64);
        assert!(r.get_size() == N);
        witness!(p == 2);
        leak(r);
    }
    c01_free_at [10] {
        let b: [u8; N] = any();
        let p: usize = any();
        check!(read_u8_at(&b, p), le(&b, p, 1), u8);
        check!(read_u16_at(&b, p), le(&b, p, 2), u16);
        check!(read_u32_at(&b, p), le(&b, p, 4), u32);
        check!(read_u64_at(&b, p), le(&b, p, 8), u64);
        check!(read_i8_at(&b, p), le(&b, p, 1), i8);
        check!(read_i16_at(&b, p), le(&b, p, 2), i16);
        check!(read_i32_at(&b, p), le(&b, p, 4), i32);
        check!(read_i64_at(&b, p), le(&b, p, 8), i64);
        witness!(p == 2);
    }
    c01_sequential [10] {
        let b: [u8; N] = any();
        let k = nokey();
        let r = WzSliceReader::new(&b, &k);
        let p: usize = any();
        assume(p <= N + 8);
        seq!(r, p, b, read_u8, 1, u8);
        seq!(r, p, b, read_u16, 2, u16);
        seq!(r, p, b, read_u32, 4, u32);
        seq!(r, p, b, read_u64, 8, u64);
        seq!(r, p, b, read_i8, 1, i8);
        seq!(r, p, b, read_i16, 2, i16);
        seq!(r, p, b, read_i32, 4, i32);
        seq!(r, p, b, read_i64, 8, i64);
        r.seek(p);
        let f = r.read_float();
        if f.is_ok() { assert!(r.pos.get() == p + 4); }
        check!(f.map(|f| f.to_bits()), le(&b, p, 4), u32);
        r.seek(p);
        let f = r.read_double();
        if f.is_ok() { assert!(r.pos.get() == p + 8); }
        check!(f.map(|f| f.to_bits()), le(&b, p, 8), u64);
        witness!(p == 2);
        leak(r);
        leak(k);
    }
    c01_cursor_and_slices [12] {
        let b: [u8; N] = any();
        let k = nokey();
        let r = WzSliceReader::new(&b, &k);
        let p: usize = any();
        let q: usize = any();
        assume(p <= N && q <= N);
        r.seek(p);
        assert!(r.pos.get() == p);
        assert!(r.available() == N - p);
        assert!(r.is_valid_pos(p) && !r.is_valid_pos(N + 1 + q));
        r.save_pos();
        r.skip(q);
        assert!(r.pos.get() == p + q);
        r.restore_pos();
        assert!(r.pos.get() == p);
        let lo: usize = any();
        let hi: usize = any();
        match r.get_slice_or_error(lo..hi) {
            Ok(s) => {
                assert!(lo <= hi && hi <= N);
                assert!(s.len() == hi - lo);
                let i: usize = any();
                assume(i < s.len());
                assert!(s[i] == b[lo + i]);
                witness!(hi - lo == 3);
            }
            Err(e) => {
                leak(e);
                assert!(lo > hi || hi > N);
            }
        }
        leak(r);
        leak(k);
    }
}
