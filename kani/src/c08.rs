//! C08: PKG1 version numbers: the hash of a version, which versions match an encrypted
//! version byte, and the candidate iterator.
use crate::rt::*;
use crate::witness;
use wz_reader::util::version::pkg1::VersionGen;

/// the hash as a fold over the decimal digits (32-bit wrapping, like the game client)
fn hash(mut v: u32, negative: bool, digits: u32) -> u32 {
    let mut p = 1u32;
    let mut i = 1;
    while i < digits {
        p *= 10;
        i += 1;
    }
    let mut h = 0u32;
    if negative {
        h = b'-' as u32 + 1;
    }
    let mut i = 0;
    while i < digits {
        let d = v / p;
        v -= d * p;
        p /= 10;
        h = (h << 5).wrapping_add(d).wrapping_add(49);
        i += 1;
    }
    h
}
fn digits(v: u32) -> u32 {
    if v < 10 { 1 } else if v < 100 { 2 } else if v < 1000 { 3 } else if v < 10000 { 4 } else if v < 100_000 { 5 }
    else if v < 1_000_000 { 6 } else if v < 10_000_000 { 7 } else if v < 100_000_000 { 8 }
    else if v < 1_000_000_000 { 9 } else { 10 }
}
fn fold(h: u32) -> u32 {
    (!(h ^ h >> 8 ^ h >> 16 ^ h >> 24)) & 0xff
}

/// assumed contract of `i32::to_string`: the decimal digits, with a sign when negative.
/// The harness builds a number from its digits and keeps them here.
#[cfg(kani)]
static mut DIGITS: [u8; 12] = [0x5E, 0xED, 8, 1, 2, 3, 4, 5, 6, 7, 8, 9];
#[cfg(kani)]
static mut LEN: usize = 0x5EED_0802;
#[cfg(kani)]
static mut VALUE: i32 = 0x5EED_0803;
#[cfg(kani)]
pub fn int_text<T: std::fmt::Display + ?Sized>(x: &T) -> String {
    let v: i32 = unsafe { *(x as *const T as *const i32) };
    unsafe {
        assert!(v == VALUE, "the text of another number is hashed");
        let mut out = Vec::with_capacity(12);
        let mut i = 0;
        while i < LEN {
            out.push(DIGITS[i]);
            i += 1;
        }
        String::from_utf8_unchecked(out)
    }
}
/// the hash of the number with these decimal digits
fn numbers<const N: usize>(negative: bool) {
    let d: [u8; N] = any();
    let (mut v, mut h, mut i) = (0i64, 0u32, 0);
    if negative {
        h = b'-' as u32 + 1;
    }
    let neg = negative as usize;
    while i < N {
        #[cfg(kani)]
        assume(d[i] <= 9);
        let x = d[i] % 10;
        #[cfg(kani)]
        unsafe {
            DIGITS[i + neg] = b'0' + x
        };
        v = v * 10 + x as i64;
        h = (h << 5).wrapping_add(b'0' as u32 + x as u32 + 1);
        i += 1;
    }
    assume(N == 1 || d[0] % 10 != 0);
    assume(v <= i32::MAX as i64 && (v != 0 || !negative));
    let v = if negative { -v } else { v } as i32;
    #[cfg(kani)]
    unsafe {
        if negative {
            DIGITS[0] = b'-';
        }
        LEN = N + neg;
        VALUE = v;
    }
    assert!(VersionGen::calculate_version_hash(v) == h, "wrong version hash");
    witness!(d[N - 1] == 9);
}

/// assumed contract for the matching obligations: any hash, the same one every time
#[cfg(kani)]
static H: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0x5EED_0801);
#[cfg(kani)]
pub fn some_hash(_v: i32) -> u32 {
    H.load(std::sync::atomic::Ordering::Relaxed)
}
fn any_hash(_v: i32) -> u32 {
    #[cfg(kani)]
    {
        let h = any();
        H.store(h, std::sync::atomic::Ordering::Relaxed);
        h
    }
    #[cfg(not(kani))]
    VersionGen::calculate_version_hash(_v)
}
macro_rules! hash_harnesses {
    ($( $(#[$m:meta])* $name:ident [$unwind:literal] $body:block )*) => {
        $(
            $(#[$m])*
            #[cfg_attr(kani, kani::proof)]
            #[cfg_attr(kani, kani::unwind($unwind))]
            pub fn $name() { $body }
        )*
        pub const TABLE: &[(&str, fn())] = &[ $( (stringify!($name), $name as fn()) ),* ];
    };
}
hash_harnesses! {
    #[cfg_attr(kani, kani::stub(std::string::ToString::to_string, int_text))]
    c08_hash_short [8] { numbers::<1>(false); numbers::<2>(false); numbers::<3>(false) }
    #[cfg_attr(kani, kani::stub(std::string::ToString::to_string, int_text))]
    c08_hash_long [13] { numbers::<4>(false); numbers::<7>(false); numbers::<10>(false) }
    #[cfg_attr(kani, kani::stub(std::string::ToString::to_string, int_text))]
    c08_hash_negative [13] { numbers::<1>(true); numbers::<3>(true) }
    // does this version match this encrypted version: exactly when it is the version
    // itself or the folded hash
    #[cfg_attr(kani, kani::stub(wz_reader::util::version::pkg1::VersionGen::calculate_version_hash, some_hash))]
    c08_match [4] {
        let (enc, cur, max): (i32, i32, i32) = (any(), any(), any());
        let h = any_hash(cur);
        let g = VersionGen::new(enc, cur, max);
        let got = g.check_and_get_version_hash();
        if enc == cur || enc == fold(h) as i32 {
            assert!(got == h, "a matching version is refused");
        } else {
            assert!(got == 0, "a version that does not match is accepted");
        }
        witness!(got == 77 && enc != cur);
    }
    // the candidates: every version from the first to the last, in order, once
    #[cfg_attr(kani, kani::stub(wz_reader::util::version::pkg1::VersionGen::calculate_version_hash, some_hash))]
    c08_candidates [4] {
        let (enc, cur, max): (i32, i32, i32) = (any(), any(), any());
        assume(max < i32::MAX);
        let h = any_hash(cur);
        let mut g = VersionGen::new(enc, cur, max);
        let r = g.next();
        if cur > max {
            assert!(r.is_none());
            assert!(g.next().is_none());
        } else {
            let want = if enc == cur || enc == fold(h) as i32 { h } else { 0 };
            assert!(r == Some((cur, want)));
            // ... and goes on with the next version
            assert!(g.current == cur + 1 && g.max_version == max);
            let r = g.next();
            assert!(r.is_some() == (cur < max));
            if let Some((v, _)) = r {
                assert!(v == cur + 1);
            }
        }
        witness!(cur == 7 && max == 8);
    }
    //@ tier=native
    c08_hash_all [16] {
        let v: i32 = any();
        let u = v.unsigned_abs();
        assert!(VersionGen::calculate_version_hash(v) == hash(u, v < 0, digits(u)));
    }
}
