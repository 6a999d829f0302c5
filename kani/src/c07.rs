//! C07: PKG2 version hashes: verification equations, generators (sound and complete),
//! profiles.
use crate::rt::*;
use crate::{harnesses, witness};
use wz_reader::util::offset::*;
use wz_reader::util::profile::*;
use wz_reader::util::string_decryptor::*;
use wz_reader::util::version::pkg2::*;

const KEY: u32 = 0x1A2B3C4D;

fn mix(mut k: u32) -> u32 {
    k ^= k >> 16;
    k = k.wrapping_mul(0x7FEB352D);
    k ^= k >> 15;
    k = k.wrapping_mul(0x846CA68B);
    k ^ (k >> 16)
}
/// hash2 of a file whose header hash is `h1` and version hash is `t`
fn h2_v1(h1: u32, t: u32) -> u32 {
    h1.rotate_left(7) ^ t
}
fn h2_v2(h1: u32, t: u32) -> u32 {
    (h1 ^ t.wrapping_add(KEY)).rotate_left(t & 31) ^ t
}
fn h2_v3(h1: u32, t: u32) -> u32 {
    !((h1 ^ t.wrapping_add(KEY)).rotate_left((t & 15) + (h1 & 15)) ^ t ^ h1)
}
fn h2_v45(h1: u32, t: u32) -> u32 {
    let b = h1 ^ t;
    let m = mix(b ^ 0x6D4C3B2A) ^ 0x91E10DA5;
    let r = h1 ^ (m as u16 as u32).wrapping_add(t).wrapping_add(KEY);
    r.rotate_left(((m ^ t) & 15) + (h1 & 15)) ^ b.wrapping_add(m)
}
fn h2_v4(h1: u32, t: u32) -> u32 {
    !h2_v45(h1, t)
}
fn h2_v5(h1: u32, t: u32) -> u32 {
    h2_v45(h1, t) ^ 0x2A2C818B
}
fn verifies(v: fn(u32, u32, u32) -> bool, f: fn(u32, u32) -> u32) {
    let h1: u32 = any();
    let h2: u32 = any();
    let t: u32 = any();
    let flip: bool = any();
    let h2 = if flip { f(h1, t) } else { h2 };
    assert!(v(h1, h2, t) == (h2 == f(h1, t)), "verification disagrees with the hash equation");
    witness!(flip);
}

// ------------------------------------------------ the search, by contract
/// the statement once for every bit, without a loop (the search's own loops keep a small bound)
macro_rules! each_bit {
    (|$j:ident| $b:block) => {
        each_bit!(@ $j $b 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31)
    };
    (@ $j:ident $b:block $($n:literal)*) => { $( { let $j: usize = $n; $b } )* };
}
/// carry into bit `i` of `t + KEY`
fn carry(t: u32, i: u32) -> u32 {
    if i >= 32 {
        return (t > !KEY) as u32;
    }
    let m = (1u32 << i) - 1;
    ((t & m).wrapping_add(KEY & m) >> i) & 1
}
fn low(t: u32, n: u32) -> u32 {
    if n >= 32 { t } else { t & ((1u32 << n) - 1) }
}
/// (initial values no constant shares: Kani merges equal allocations)
/// ghost state of the contract: the hash looked for, an arbitrary bit index (what is
/// shown for it is shown for every index), and whether the hash was found
#[cfg(kani)]
static mut T: u32 = 0x5EED_0001;
#[cfg(kani)]
static mut J: usize = 0x5EED_0002;
#[cfg(kani)]
static mut FOUND: u32 = 0x5EED_0003;
#[cfg(kani)]
const YES: u32 = 0x5EED_0004;

/// the search state agrees with the wanted hash on its first `bit` bits (the recorded
/// left-hand bits: at index `j`)
#[cfg(kani)]
fn on_path<F: Fn(u32, u32, u32) -> bool>(bit: u32, v: u32, j: usize, info: &mut HashGenInfo<'_, F>) -> bool {
    let t = unsafe { T };
    let st = info.state();
    let lhs = st.hash1 ^ t.wrapping_add(KEY);
    bit <= 32
        && v == low(t, bit)
        && *st.low_bits == low(t, st.low_bit_len)
        && lhs.rotate_left(*st.s % 32) ^ t == st.target
        && st.carries[bit as usize] == carry(t, bit)
        && (j >= bit as usize || st.lhs_bits[j] == (lhs >> j) & 1)
}
/// contract of the recursive call: finds the wanted hash when on its path; writes only
/// the state of the bits from `bit` on
#[cfg(kani)]
fn backtrack_contract<'a, F: Fn(u32, u32, u32) -> bool>(bit: u32, v: u32, info: &mut HashGenInfo<'a, F>) {
    assert!(bit <= 32);
    if on_path(bit, v, unsafe { J }, info) {
        unsafe { FOUND = YES };
    }
    let st = info.state();
    let l: [u32; 32] = any();
    let c: [u32; 33] = any();
    each_bit!(|j| {
        if j >= bit as usize {
            st.lhs_bits[j] = l[j];
            st.carries[j + 1] = c[j + 1];
        }
    });
}
/// the same contract as seen by the callers of the search: the hash is in the results
/// (what it writes besides, the state of bits 1.., no caller reads)
#[cfg(kani)]
fn search_contract<'a, F: Fn(u32, u32, u32) -> bool>(bit: u32, v: u32, info: &mut HashGenInfo<'a, F>) {
    // one result per search: the wanted hash, or anything else
    let t = unsafe { T };
    let found = on_path(bit, v, 31, info);
    info.state().results.push(if found { t } else { !t });
}
#[cfg(kani)]
fn step(low_len: u32) {
    let h1: u32 = any();
    let t: u32 = any();
    let target: u32 = any();
    let jj: usize = any();
    assume(jj < 32);
    unsafe {
        T = t;
        J = jj;
        FOUND = !YES;
    }
    let mut carries: [u32; 33] = any();
    let mut lhs: [u32; 32] = any();
    let (c0, l0) = (carries, lhs);
    let mut results = Vec::new();
    let never = |_: u32, _: u32, _: u32| false;
    let mut info = HashGenInfo::new(h1, 0, low_len, target, &mut carries, &mut lhs, &mut results, &never);
    let s: u32 = any();
    assume(s <= 31);
    *info.state().s = s;
    *info.state().low_bits = any();
    let bit: u32 = any();
    let v: u32 = any();
    assume(bit < 32);
    // every carry is a bit
    assume(c0[bit as usize] <= 1);
    // the invariant, at the arbitrary index and at the one index this level reads
    let path = on_path(bit, v, jj, &mut info) && on_path(bit, v, ((bit + 32 - s) & 31) as usize, &mut info);
    contract::backtrack_rec_body(bit, v, &mut info);
    assert!(!path || unsafe { FOUND == YES }, "the search prunes a valid hash");
    assert!(jj >= bit as usize || lhs[jj] == l0[jj], "the search writes the state of an earlier bit");
    assert!(jj > bit as usize || carries[jj] == c0[jj], "the search writes the carry of an earlier bit");
    witness!(path);
    assert!(results.is_empty());
    leak(results);
}
/// the search when no hash satisfies the equation
#[cfg(kani)]
fn search_none<'a, F: Fn(u32, u32, u32) -> bool>(_bit: u32, _v: u32, _info: &mut HashGenInfo<'a, F>) {}
/// assumed contract of `<[T]>::fill`
#[cfg(kani)]
fn fill32<T: Clone>(s: &mut [T], v: T) {
    assert!(std::mem::size_of::<T>() == 4 && (s.len() == 32 || s.len() == 33));
    unsafe {
        let x: u32 = std::mem::transmute_copy(&v);
        if s.len() == 33 {
            *(s.as_mut_ptr() as *mut [u32; 33]) = [x; 33];
        } else {
            *(s.as_mut_ptr() as *mut [u32; 32]) = [x; 32];
        }
    }
    leak(v);
}
#[cfg(kani)]
fn has(i: &mut Box<dyn Iterator<Item = u32>>, t: u32) -> bool {
    let mut found = false;
    let mut n = 0;
    while n < 33 {
        match i.next() {
            Some(x) => found |= x == t,
            None => break,
        }
        n += 1;
    }
    found
}
/// native form of the completeness contract: the whole search, run for one hash
#[cfg(not(kani))]
fn complete(g: Pkg2VersionGen, f: fn(u32, u32) -> u32) {
    let mut h1: u32 = any();
    let mut t: u32 = any();
    if h1 & 0x100 == 0 {
        h1 &= !15;
        t &= !31;
    }
    let v: Vec<u32> = g.get_generator(h1 as u64, f(h1, t) as u64).get_iter().collect();
    assert!(v.contains(&t), "the search misses a valid hash");
    assert!(v.iter().all(|x| f(h1, *x) == f(h1, t)), "the search returns an invalid hash");
}

/// no check of a candidate is needed to enumerate them
#[cfg(kani)]
macro_rules! no_verifier { ($($n:ident $t:ty),*) => { $(
    fn $n(_: &$t) -> Box<dyn Fn(u32, u32, u32) -> bool> {
        unreachable!()
    }
)* } }
#[cfg(kani)]
no_verifier!(no_verifier1 Pkg2VersionGenV1, no_verifier2 Pkg2VersionGenV2, no_verifier3 Pkg2VersionGenV3);
harnesses! {
    #[cfg_attr(kani, kani::solver(cvc5))]
    c07_verify_v1 [3] { verifies(Pkg2VersionGenV1::verify_hash, h2_v1) }
    #[cfg_attr(kani, kani::solver(cvc5))]
    c07_verify_v2 [3] { verifies(Pkg2VersionGenV2::verify_hash, h2_v2) }
    #[cfg_attr(kani, kani::solver(cvc5))]
    c07_verify_v3 [3] { verifies(Pkg2VersionGenV3::verify_hash, h2_v3) }
    #[cfg_attr(kani, kani::solver(cvc5))]
    c07_verify_v4 [3] { verifies(Pkg2VersionGenV4::verify_hash, h2_v4) }
    #[cfg_attr(kani, kani::solver(cvc5))]
    c07_verify_v5 [3] { verifies(Pkg2VersionGenV5::verify_hash, h2_v5) }
    c07_v6 [3] {
        let h1: u64 = any();
        let t: u64 = any();
        let h2 = h1 ^ t ^ 0xABCDEF0123456789;
        let g = Pkg2VersionGen::V6;
        assert!(g.is_u64_hash() && !Pkg2VersionGen::V5.is_u64_hash());
        let o: u64 = any();
        assert!(Pkg2VersionGenV6::verify_hash(h1, h2, o) == (o == t));
        let mut i = Box::new(Pkg2VersionGenV6::new(h1, h2)).get_iter();
        assert!(i.next() == Some(t) && i.next().is_none());
        witness!(o == t);
        leak(i);
    }
    // the closed-form generator: exactly the one hash
    c07_gen_v1 [3] {
        let h1: u32 = any();
        let t: u32 = any();
        let mut i = Box::new(Pkg2VersionGenV1::new(h1, h2_v1(h1, t))).get_iter();
        assert!(i.next() == Some(t) && i.next().is_none());
        witness!(t == 77);
        leak(i);
    }
    // one level of the search, for every state, the recursive call by contract
    //@ needs=hooks
    #[cfg_attr(kani, kani::stub(wz_reader::util::version::pkg2::contract::backtrack_rec, backtrack_contract))]
    c07_search_step_v2 [4] {
        #[cfg(kani)]
        step(5);
        #[cfg(not(kani))]
        complete(Pkg2VersionGen::V2, h2_v2);
    }
    //@ needs=hooks
    #[cfg_attr(kani, kani::stub(wz_reader::util::version::pkg2::contract::backtrack_rec, backtrack_contract))]
    c07_search_step_v3 [4] {
        #[cfg(kani)]
        step(4);
        #[cfg(not(kani))]
        complete(Pkg2VersionGen::V3, h2_v3);
    }
    // the bottom of the search: a candidate is returned exactly when the equation holds
    //@ needs=hooks
    c07_search_leaf [4] {
        #[cfg(kani)]
        {
            let mut carries: [u32; 33] = any();
            let mut lhs: [u32; 32] = any();
            let mut results = Vec::new();
            let (h1, h2, t): (u32, u32, u32) = (any(), any(), any());
            let verdict: bool = any();
            let val = |a: u32, b: u32, v: u32| {
                assert!(a == h1 && b == h2 && v == t, "another hash is validated");
                verdict
            };
            let mut info = HashGenInfo::new(h1, h2, 5, any(), &mut carries, &mut lhs, &mut results, &val);
            contract::backtrack_rec_body(32, t, &mut info);
            if verdict {
                assert!(results.len() == 1 && results[0] == t);
            } else {
                assert!(results.is_empty());
            }
            witness!(verdict);
            leak(results);
        }
    }
    // the generators: some candidate search is started on the path of every valid hash
    //@ needs=hooks
    #[cfg_attr(kani, kani::stub(wz_reader::util::version::pkg2::backtrack, search_contract))]
    #[cfg_attr(kani, kani::stub(<[u32]>::fill, fill32))]
    c07_search_starts_v2 [36] {
        #[cfg(kani)]
        {
            let (h1, t): (u32, u32) = (any(), any());
            unsafe { T = t };
            let mut i = Box::new(Pkg2VersionGenV2::new(h1, h2_v2(h1, t))).get_iter();
            assert!(has(&mut i, t), "no search is started for a valid hash");
            witness!(t == 9);
            leak(i);
        }
        #[cfg(not(kani))]
        complete(Pkg2VersionGen::V2, h2_v2);
    }
    //@ needs=hooks
    #[cfg_attr(kani, kani::stub(wz_reader::util::version::pkg2::backtrack, search_contract))]
    #[cfg_attr(kani, kani::stub(<[u32]>::fill, fill32))]
    c07_search_starts_v3 [36] {
        #[cfg(kani)]
        {
            let (h1, t): (u32, u32) = (any(), any());
            unsafe { T = t };
            let mut i = Box::new(Pkg2VersionGenV3::new(h1, h2_v3(h1, t))).get_iter();
            assert!(has(&mut i, t), "no search is started for a valid hash");
            witness!(t == 9);
            leak(i);
        }
        #[cfg(not(kani))]
        complete(Pkg2VersionGen::V3, h2_v3);
    }
    // the keys derived from the version hash
    #[cfg_attr(kani, kani::solver(cvc5))]
    c07_string_keys [3] {
        let a: u32 = any();
        let b: u32 = any();
        assert!(pkg2_decryptor::get_kmst1199_key(a, b) == mix(mix(a ^ b ^ 0x6D4C3B2A) ^ 0x4F4CB34A));
        let x: u64 = any();
        let y: u64 = any();
        assert!(pkg2_decryptor::get_kmst1202_key(x, y) == x ^ y ^ 0x66B57FEE317FD3DF);
        witness!(a == 3);
    }
    // every generator is tried, whatever the others found
    //@ needs=hooks
    #[cfg_attr(kani, kani::stub(<[u32]>::fill, fill32))]
    #[cfg_attr(kani, kani::stub(wz_reader::util::version::pkg2::backtrack, search_none))]
    #[cfg_attr(kani, kani::stub(<wz_reader::util::version::pkg2::Pkg2VersionGenV1 as wz_reader::util::version::pkg2::VersionGenerator<u32>>::get_verifier, no_verifier1))]
    #[cfg_attr(kani, kani::stub(<wz_reader::util::version::pkg2::Pkg2VersionGenV2 as wz_reader::util::version::pkg2::VersionGenerator<u32>>::get_verifier, no_verifier2))]
    #[cfg_attr(kani, kani::stub(<wz_reader::util::version::pkg2::Pkg2VersionGenV3 as wz_reader::util::version::pkg2::VersionGenerator<u32>>::get_verifier, no_verifier3))]
    c07_all_generators [36] {
        let (h1, t): (u32, u32) = (any(), any());
        let h2 = h2_v1(h1, t);
        let mut g = VersionGen::new(h1, h2);
        #[cfg(kani)]
        {
            assert!(g.next() == Some(t), "a generator without a hash ends the iteration");
            assert!(g.next().is_none() && g.next().is_none());
        }
        #[cfg(not(kani))]
        assert!(g.any(|x| x == t), "a generator without a hash ends the iteration");
        witness!(t == 9);
        leak(g);
    }
    // the profile table: the parts of a profile fit together
    c07_profiles [12] {
        let all = get_all_pkg2_profiles();
        let mut n = [0u8; 6];
        let mut i = 0;
        while i < all.len() {
            let p = &all[i];
            let wide = p.should_be_pkg2_64();
            assert!(wide == p.version_gen.is_u64_hash());
            assert!(wide == matches!(p.offset_version, WzOffsetVersion::Pkg2_64V1));
            assert!(wide == matches!(p.decryptor_type, DecrypterType::KMST1202));
            assert!(!matches!(p.offset_version, WzOffsetVersion::Pkg1));
            match p.version_gen {
                Pkg2VersionGen::V1 => n[0] += 1,
                Pkg2VersionGen::V2 => n[1] += 1,
                Pkg2VersionGen::V3 => n[2] += 1,
                Pkg2VersionGen::V4 => n[3] += 1,
                Pkg2VersionGen::V5 => n[4] += 1,
                Pkg2VersionGen::V6 => n[5] += 1,
                Pkg2VersionGen::Unknown => panic!("a profile without generator"),
            }
            // the hash equation, the offset formula and the name key of a version go together
            match p.version_gen {
                Pkg2VersionGen::V4 | Pkg2VersionGen::V5 => assert!(
                    matches!(p.offset_version, WzOffsetVersion::Pkg2V3)
                        && p.decryptor_type == DecrypterType::KMST1199
                ),
                Pkg2VersionGen::V3 => assert!(
                    matches!(p.offset_version, WzOffsetVersion::Pkg2V2)
                        && p.decryptor_type == DecrypterType::KMST1198
                ),
                Pkg2VersionGen::V1 => assert!(matches!(p.offset_version, WzOffsetVersion::Pkg2V1)),
                _ => {}
            }
            i += 1;
        }
        assert!(n[0] > 0 && n[1] > 0 && n[2] > 0 && n[3] > 0 && n[4] > 0 && n[5] > 0);
        witness!(n[5] == 1);
        leak(all);
    }
}
