//! C06: directory offset / entry count decryption.
//! Specification: 32-bit modular arithmetic, stated as "encrypting any target offset
//! with the writer's mask and decrypting it gives the target back".
use crate::rt::*;
use crate::{harnesses, witness};
use wz_reader::util::offset::*;
use wz_reader::*;

const MAGIC: u32 = 0x581C3F6D;

fn mix(mut k: u32) -> u32 {
    k = (k >> 16) ^ k;
    k = k.wrapping_mul(0x7FEB352D);
    k = (k >> 15) ^ k;
    k = k.wrapping_mul(0x846CA68B);
    (k >> 16) ^ k
}
struct In {
    header: WzHeader,
    pos: u32,
    start: u32,
    hash: u32,
    hash1: u32,
    target: u32,
    meta_hash: u64,
}
fn input() -> In {
    let start: u32 = any();
    let hash1: u64 = any();
    let hash: u64 = any();
    let header = WzHeader { fstart: start as usize, hash1, ..Default::default() };
    In { header, pos: any(), start, hash: hash as u32, hash1: hash1 as u32, target: any(), meta_hash: hash }
}
impl In {
    /// the base every version starts from: !(pos - start)
    fn base(&self) -> u32 {
        !self.pos.wrapping_sub(self.start)
    }
    /// decryption of the encryption (mask `m`, header factor `f`) gives back the target
    fn round(&self, v: WzOffsetVersion, m: u32, f: u32) {
        let enc = self.target.wrapping_sub(self.start.wrapping_mul(f)) ^ m;
        let meta = WzOffsetMeta { hash: self.meta_hash, encrypted_offset: enc, offset: self.pos as usize };
        let got = v.get_calculator()(&self.header, &meta);
        match got {
            Ok(x) => assert!(x == self.target as usize, "the decrypted offset is not the encrypted one"),
            Err(e) => {
                leak(e);
                panic!("offset decryption failed");
            }
        }
    }
}

harnesses! {
    #[cfg_attr(kani, kani::solver(cvc5))]
    c06_pkg1 [2] {
        let i = input();
        let k = i.base().wrapping_mul(i.hash).wrapping_sub(MAGIC);
        i.round(WzOffsetVersion::Pkg1, k.rotate_left(k & 31), 2);
        witness!(i.target == 100);
    }
    #[cfg_attr(kani, kani::solver(cvc5))]
    c06_pkg2_v1 [2] {
        let i = input();
        let k = i.base().wrapping_mul(i.hash).wrapping_sub(MAGIC) ^ i.hash1.wrapping_mul(0x01010101);
        i.round(WzOffsetVersion::Pkg2V1, k.rotate_left((i.hash ^ i.hash1) & 31), 1);
        witness!(i.target == 100);
    }
    #[cfg_attr(kani, kani::solver(cvc5))]
    c06_pkg2_v2 [2] {
        let i = input();
        let k = i.base().wrapping_mul(i.hash ^ i.hash1).wrapping_sub(MAGIC) ^ i.hash1.wrapping_mul(0x01010101);
        i.round(WzOffsetVersion::Pkg2V2, !k.rotate_left((i.hash ^ i.hash1) & 31), 1);
        witness!(i.target == 100);
    }
    #[cfg_attr(kani, kani::solver(cvc5))]
    c06_pkg2_v3 [2] {
        let i = input();
        let pre = i.hash1 ^ i.hash;
        let m = mix(pre ^ 0x6D4C3B2A) ^ 0x91E10DA5;
        let k = i.base().wrapping_mul(pre.wrapping_add(m ^ 0xA7E3C093)).wrapping_sub(MAGIC)
            ^ i.hash1.wrapping_mul(0x01010101)
            ^ m.wrapping_mul(0x9E3779B9);
        i.round(WzOffsetVersion::Pkg2V3, !k.rotate_left((pre ^ m) & 31), 1);
        witness!(i.target == 100);
    }
    #[cfg_attr(kani, kani::solver(cvc5))]
    c06_pkg2_64 [2] {
        let i = input();
        let pre = i.hash1 ^ i.hash;
        let m = pre ^ 0x33BBBB33;
        let k = i.base().wrapping_mul(pre.wrapping_add(m ^ 0xA7E3C093)).wrapping_sub(MAGIC)
            ^ i.hash1.wrapping_mul(0x01010101)
            ^ m.wrapping_mul(0x9E3779B9);
        i.round(WzOffsetVersion::Pkg2_64V1, !k.rotate_left(19), 1);
        witness!(i.target == 100);
    }
    // 64-bit entry counts: an accepted count is the value above the 16 low bits, in 0..=i32::MAX
    #[cfg_attr(kani, kani::solver(cvc5))]
    c06_entry_count [2] {
        let hash1: u64 = any();
        let hash: u64 = any();
        let count: u32 = any();
        let noise: u16 = any();
        let header = WzHeader { hash1, ..Default::default() };
        let f = WzOffsetVersion::Pkg2_64V1.get_entry_count_calculator();
        let enc = (((count as u64) << 16 | noise as u64) ^ hash1 ^ hash ^ 0x550EC4DD02C468EC) as i64;
        match f(&header, hash, enc) {
            Ok(n) => assert!(n == count as usize && count <= i32::MAX as u32),
            Err(e) => {
                leak(e);
                assert!(count > i32::MAX as u32, "a valid entry count is refused");
            }
        }
        // whatever the stored value: never more entries than an i32 can count
        let any_enc: i64 = any();
        match f(&header, hash, any_enc) {
            Ok(n) => {
                let plain = any_enc as u64 ^ hash1 ^ hash ^ 0x550EC4DD02C468EC;
                assert!(n as u64 == plain >> 16 && n <= i32::MAX as usize, "entry count out of range");
            }
            Err(e) => leak(e),
        }
        witness!(count == 7);
    }
}
