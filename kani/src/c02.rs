//! C02: compressed integers.
use crate::common::*;
use crate::rt::*;
use crate::spec::*;
use crate::{check, harnesses, witness};
use wz_reader::reader::*;
use wz_reader::WzSliceReader;

const N: usize = 10;

/// value and width of the compressed 32/64-bit integer at `p`
fn spec(b: &[u8; N], p: usize) -> (Option<i32>, Option<i64>, usize, usize) {
    match le(b, p, 1) {
        None => (None, None, 0, 0),
        Some(0x80) => (
            le(b, p + 1, 4).map(|v| v as i32),
            le(b, p + 1, 8).map(|v| v as i64),
            5,
            9,
        ),
        Some(v) => (Some(v as u8 as i8 as i32), Some(v as u8 as i8 as i64), 1, 1),
    }
}

harnesses! {
    // every 10-byte window, every start in it
    c02_slice [10] {
        let b: [u8; N] = any();
        let k = nokey();
        let r = WzSliceReader::new(&b, &k);
        let p: usize = any();
        assume(p <= N);
        let head = le(&b, p, 1);
        let (want32, want64, w32, w64) = spec(&b, p);
        r.seek(p);
        let got = r.read_wz_int();
        if got.is_ok() { assert!(r.pos.get() == p + w32, "compressed int width"); }
        check!(got, want32, i32);
        r.seek(p);
        let got = r.read_wz_int64();
        if got.is_ok() { assert!(r.pos.get() == p + w64, "compressed int64 width"); }
        check!(got, want64, i64);
        r.seek(p);
        let got = r.read_wz_long();
        if got.is_ok() { assert!(r.pos.get() == p + w64, "compressed long width"); }
        check!(got, want64, i64);
        witness!(head == Some(0x80) && p == 1);
        witness!(head == Some(0x7f));
        witness!(head == Some(0x81));
        leak(r);
        leak(k);
    }
    c02_free [10] {
        let b: [u8; N] = any();
        let p: usize = any();
        assume(p <= N);
        let (want32, want64, _, _) = spec(&b, p);
        check!(read_wz_int(&b, Some(p)), want32, i32);
        check!(read_wz_int64(&b, Some(p)), want64, i64);
        check!(read_wz_long(&b, Some(p)), want64, i64);
        let (want32, want64, _, _) = spec(&b, 0);
        check!(read_wz_int(&b, None), want32, i32);
        check!(read_wz_int64(&b, None), want64, i64);
        check!(read_wz_long(&b, None), want64, i64);
        witness!(want64.is_some() && b[0] == 0x80);
    }
}
