//! C05: keystreams of the string decryptors.
use crate::rt::*;
use crate::{harnesses, witness};
use aes::cipher::{generic_array::GenericArray, BlockEncrypt, KeyInit};
use wz_reader::util::maple_crypto_constants::*;
use wz_reader::util::string_decryptor::*;
use wz_reader::util::version::*;

/// one block of the (trusted) block cipher
pub fn block(key: &[u8; 32], b: [u8; 16]) -> [u8; 16] {
    let mut x = GenericArray::from(b);
    aes::Aes256::new(&GenericArray::from(*key)).encrypt_block(&mut x);
    x.into()
}
fn repeat4(iv: [u8; 4]) -> [u8; 16] {
    let mut b = [0u8; 16];
    let mut i = 0;
    while i < 16 {
        b[i] = iv[i % 4];
        i += 1;
    }
    b
}
/// keystream of an iv: block 0 encrypts the repeated iv, block n encrypts block n-1
pub fn stream<const N: usize>(key: &[u8; 32], iv: [u8; 4]) -> [u8; N] {
    let mut b = repeat4(iv);
    let mut out = [0u8; N];
    let mut i = 0;
    while i < N {
        if i % 16 == 0 {
            b = block(key, b);
        }
        out[i] = b[i % 16];
        i += 1;
    }
    out
}
/// a decryptor for a non-zero iv
fn ecb(iv: [u8; 4], key: [u8; 32]) -> EcbDecryptor {
    let mut d = EcbDecryptor::new(iv, key);
    concrete(&mut d);
    d
}
/// the flag is false for a non-zero iv; from here on the verifier sees it as a constant
fn concrete(d: &mut EcbDecryptor) {
    assert!(!d.without_decrypt);
    d.without_decrypt = false;
}
/// the AES key of the wz format: bytes 0, 16, 32... of the user key, one per 4 bytes
fn default_key() -> [u8; 32] {
    let mut k = [0u8; 32];
    let head = [0x13u8, 0x08, 0x06, 0xB4, 0x1B, 0x0F, 0x33, 0x52];
    let mut i = 0;
    while i < 8 {
        k[4 * i] = head[i];
        i += 1;
    }
    k
}
fn nonzero_iv() -> [u8; 4] {
    let iv: [u8; 4] = any();
    assume(iv != [0; 4]);
    iv
}

harnesses! {
    // any iv, any AES key: the stream is the chained encryption of the repeated iv
    c05_ecb_stream [40] {
        let key = [9u8; 32];
        let iv = nonzero_iv();
        let mut d = ecb(iv, key);
        assert!(!d.is_enough(1) && d.try_at(0).is_none());
        d.ensure_key_size(25).unwrap();
        let s: [u8; 25] = stream(&key, iv);
        let mut i = 0;
        while i < 25 {
            assert!(*d.try_at(i).unwrap() == s[i]);
            i += 1;
        }
        assert!(*d.at(21) == s[21]);
        assert!(d.is_enough(25));
        assert!(d.get_iv_hash() == u32::from_le_bytes(iv) as u64);
        witness!(s[0] == 39);
        leak(d);
    }
    // growing the key later gives the same stream as generating it at once
    c05_ecb_growth [80] {
        let key = [3u8; 32];
        let iv = nonzero_iv();
        let mut d = ecb(iv, key);
        d.ensure_key_size(1).unwrap();
        d.ensure_key_size(30).unwrap();
        let n = d.get_range(0..30).len();
        assert!(n == 30);
        #[cfg(kani)]
        const AT: usize = 33;
        #[cfg(not(kani))]
        const AT: usize = 4097;
        let x = *d.at(AT);
        assert!(x == *d.try_at(AT).unwrap());
        d.ensure_key_size(AT - 20).unwrap();
        let s: [u8; AT + 15] = stream(&key, iv);
        let mut i = 0;
        while i < AT + 15 {
            assert!(*d.try_at(i).unwrap() == s[i], "the stream depends on how it was grown");
            i += 1;
        }
        witness!(s[0] == 79);
        leak(d);
    }
    // a slice is masked with the stream from its start
    c05_ecb_slice [40] {
        let key = [3u8; 32];
        let iv = nonzero_iv();
        let mut d = ecb(iv, key);
        d.ensure_key_size(20).unwrap();
        let orig: [u8; 20] = any();
        let mut data = orig;
        d.decrypt_slice(&mut data);
        let s: [u8; 20] = stream(&key, iv);
        let mut i = 0;
        while i < 20 {
            assert!(data[i] == orig[i] ^ s[i]);
            i += 1;
        }
        witness!(data[0] == 7);
        leak(d);
    }
    // a zero iv means that nothing is encrypted
    c05_ecb_zero_iv [40] {
        let mut d = EcbDecryptor::new([0; 4], any());
        let n: usize = any();
        assert!(Decryptor::is_enough(&d, n));
        let r = d.ensure_key_size(n);
        assert!(r.is_ok());
        let orig: [u8; 8] = any();
        let mut data = orig;
        d.decrypt_slice(&mut data);
        assert!(data == orig);
        assert!(*d.at(n) == 0);
        witness!(n == 5);
        leak((d, r));
    }
    // changing the iv: the stream is that of the new iv
    c05_ecb_set_iv [40] {
        let key = [5u8; 32];
        let mut d = ecb(nonzero_iv(), key);
        d.ensure_key_size(10).unwrap();
        let iv = nonzero_iv();
        let hi: u32 = any();
        d.set_iv(u32::from_le_bytes(iv) as u64 | (hi as u64) << 32, DecrypterType::Custom);
        concrete(&mut d);
        assert!(d.get_enc_type() == DecrypterType::Custom);
        d.ensure_key_size(10).unwrap();
        let s: [u8; 16] = stream(&key, iv);
        let mut i = 0;
        while i < 16 {
            assert!(*d.try_at(i).unwrap() == s[i], "the stream is not that of the iv");
            i += 1;
        }
        witness!(s[0] == 3);
        leak(d);
    }
    c05_ecb_set_iv_zero [40] {
        let mut d = ecb(nonzero_iv(), [5u8; 32]);
        d.ensure_key_size(4).unwrap();
        d.set_iv(0, DecrypterType::BMS);
        let orig: [u8; 8] = any();
        let mut data = orig;
        d.ensure_key_size(8).unwrap();
        d.decrypt_slice(&mut data);
        assert!(data == orig, "a zero iv encrypts nothing");
        // and back
        let iv = nonzero_iv();
        d.set_iv(u32::from_le_bytes(iv) as u64, DecrypterType::BMS);
        concrete(&mut d);
        d.ensure_key_size(8).unwrap();
        d.decrypt_slice(&mut data);
        let s: [u8; 16] = stream(&[5u8; 32], iv);
        let mut i = 0;
        while i < 8 {
            assert!(data[i] == orig[i] ^ s[i]);
            i += 1;
        }
        witness!(data[0] == 7);
        leak(d);
    }
    // the keys of the known regions
    c05_default_keys [40] {
        let iv = nonzero_iv();
        let mut d = EcbDecryptor::from_iv(iv);
        concrete(&mut d);
        d.ensure_key_size(16).unwrap();
        let s: [u8; 16] = stream(&default_key(), iv);
        let i: usize = any();
        assume(i < 16);
        assert!(*d.try_at(i).unwrap() == s[i]);
        let l = EcbDecryptor::new_lua();
        assert!(l.iv == [0xB9, 0x7D, 0x63, 0xE9] && !l.without_decrypt);
        assert!(get_iv_by_maple_version(WzMapleVersion::GMS) == [0x4D, 0x23, 0xC7, 0x2B]);
        assert!(get_iv_by_maple_version(WzMapleVersion::EMS) == [0xB9, 0x7D, 0x63, 0xE9]);
        assert!(get_iv_by_maple_version(WzMapleVersion::BMS) == [0; 4]);
        let uk: [u8; 128] = any();
        let t = get_trimmed_user_key(&uk);
        let j: usize = any();
        assume(j < 32);
        assert!(t[j] == if j % 4 == 0 { uk[4 * j] } else { 0 });
        witness!(i == 3);
        leak((d, l));
    }
    // PKG2: an 8-byte stream made of the overlapping byte pairs of the key
    c05_pkg2_stream [12] {
        let key: u64 = any();
        let k = key.to_le_bytes();
        let want = [k[0], k[1], k[1], k[2], k[2], k[3], k[3], k[4]];
        let mut d = Pkg2Decryptor::new_with_key(key, DecrypterType::KMST1199);
        assert!(d.is_pkg2() && d.get_enc_type() == DecrypterType::KMST1199);
        let i: usize = any();
        assert!(*d.try_at(i).unwrap() == want[i % 8]);
        assert!(*d.at(i) == want[i % 8]);
        assert!(d.is_enough(i));
        assert!(d.get_iv_hash() == key as u32 as u64);
        let orig: [u8; 10] = any();
        let mut data = orig;
        d.decrypt_slice(&mut data);
        let mut j = 0;
        while j < 10 {
            assert!(data[j] == orig[j] ^ want[j % 8]);
            j += 1;
        }
        let key2: u64 = any();
        d.set_iv(key2, DecrypterType::KMST1202);
        let k = key2.to_le_bytes();
        let want = [k[0], k[1], k[1], k[2], k[2], k[3], k[3], k[4]];
        assert!(*d.try_at(i).unwrap() == want[i % 8]);
        assert!(d.get_enc_type() == DecrypterType::KMST1202);
        witness!(i == 9);
        leak(d);
    }
}
