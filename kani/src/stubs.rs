//! Assumed contracts on std conversions (Kani only; natively the real functions run).
//! `from_utf8_lossy` and `from_utf16_lossy` are abstracted as injective functions of
//! their input: the postconditions then say that exactly the specified bytes/units
//! are handed to them.  `from_utf8` is exact on ASCII and refuses anything else (its
//! only callers compare the result with ASCII names).
use std::borrow::Cow;

#[cfg(kani)]
pub fn lossy8(v: &[u8]) -> Cow<'_, str> {
    Cow::Borrowed(unsafe { std::str::from_utf8_unchecked(v) })
}
#[cfg(kani)]
pub fn lossy16(v: &[u16]) -> String {
    let mut out = Vec::with_capacity(v.len() * 2);
    let mut i = 0;
    while i < v.len() {
        out.push((v[i] >> 8) as u8);
        out.push(v[i] as u8);
        i += 1;
    }
    unsafe { String::from_utf8_unchecked(out) }
}
#[cfg(kani)]
pub fn from_utf8(v: &[u8]) -> Result<&str, std::str::Utf8Error> {
    let mut i = 0;
    let mut ok = true;
    while i < v.len() {
        ok &= v[i] < 0x80;
        i += 1;
    }
    if ok {
        Ok(unsafe { std::str::from_utf8_unchecked(v) })
    } else {
        Err(unsafe { std::mem::zeroed() })
    }
}
#[cfg(not(kani))]
pub fn lossy8(v: &[u8]) -> Cow<'_, str> {
    String::from_utf8_lossy(v)
}
#[cfg(not(kani))]
pub fn lossy16(v: &[u16]) -> String {
    String::from_utf16_lossy(v)
}

/// s == lossy8(want), as a byte-wise loop over the expected length
pub fn is_text8(s: &str, want: &[u8]) -> bool {
    same(s.as_bytes(), lossy8(want).as_bytes())
}
pub fn is_text16(s: &str, want: &[u16]) -> bool {
    same(s.as_bytes(), lossy16(want).as_bytes())
}
pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut i = 0;
    let mut ok = true;
    while i < b.len() {
        ok &= a[i] == b[i];
        i += 1;
    }
    ok
}

/// attributes of a harness whose code converts bytes/units to text
#[macro_export]
macro_rules! text_harnesses {
    ($( $(#[$m:meta])* $name:ident [$unwind:literal] $body:block )*) => {
        $(
            $(#[$m])*
            #[cfg_attr(kani, kani::proof)]
            #[cfg_attr(kani, kani::unwind($unwind))]
            #[cfg_attr(kani, kani::stub(std::string::String::from_utf8_lossy, crate::stubs::lossy8))]
            #[cfg_attr(kani, kani::stub(std::string::String::from_utf16_lossy, crate::stubs::lossy16))]
            #[cfg_attr(kani, kani::stub(core::str::from_utf8, crate::stubs::from_utf8))]
            pub fn $name() { $body }
        )*
        pub const TABLE: &[(&str, fn())] = &[ $( (stringify!($name), $name as fn()) ),* ];
    };
}

/// assumed contract of `WzReader::from_buff`: a reader over a copy of the buffer
#[cfg(kani)]
pub fn from_buff(b: &[u8]) -> wz_reader::WzReader {
    let k = crate::common::nokey();
    let mut m = memmap2::MmapMut::map_anon(b.len()).unwrap();
    m.copy_from_slice(b);
    wz_reader::WzReader {
        map: m.make_read_only().unwrap(),
        header: Default::default(),
        keys: k.clone(),
        pkg2_keys: k,
    }
}

/// assumed contract of `with_existing_keys` for a PKG2 key: both key slots are replaced
#[cfg(kani)]
pub fn with_existing_keys<T: AsRef<[u8]>>(
    r: wz_reader::reader::WzBaseReader<T>,
    keys: wz_reader::SharedWzStringDecryptor,
) -> wz_reader::reader::WzBaseReader<T> {
    wz_reader::reader::WzBaseReader {
        map: r.map,
        header: r.header,
        keys: keys.clone(),
        pkg2_keys: keys,
    }
}

/// assumed contract of `Vec::resize` (byte elements): same prefix, the rest is `value`
#[cfg(kani)]
pub fn resize<T: Clone, A: std::alloc::Allocator>(v: &mut Vec<T, A>, n: usize, value: T) {
    let l = v.len();
    if n <= l {
        v.truncate(n);
        return;
    }
    assert!(std::mem::size_of::<T>() == 1);
    v.reserve(n - l);
    unsafe {
        let b: u8 = std::mem::transmute_copy(&value);
        std::ptr::write_bytes(v.as_mut_ptr().add(l) as *mut u8, b, n - l);
        v.set_len(n);
    }
    std::mem::forget(value);
}

/// Kani's provenance obligation of pointer offsets is dropped (memory safety of std's
/// unsafe code is not at stake here)
#[cfg(kani)]
pub fn same_alloc<T: ?Sized>(_a: *const T, _b: *const T) -> bool {
    true
}
#[cfg(kani)]
pub const fn no_ub_checks() -> bool {
    false
}

/// shared values are never destroyed (releasing memory is no part of a contract; the
/// counters are still maintained)
#[cfg(kani)]
pub struct Shared<T: ?Sized, A>(std::marker::PhantomData<(A, *const T)>);
#[cfg(kani)]
impl<T: ?Sized, A: std::alloc::Allocator> Shared<T, A> {
    pub unsafe fn drop_slow(_this: &mut std::sync::Arc<T, A>) {}
}

/// assumed contract of `ToString::to_string` on texts and small numbers
#[cfg(kani)]
pub fn to_string<T: std::fmt::Display + ?Sized>(t: &T) -> String {
    let n = std::any::type_name::<T>().as_bytes();
    let text: &str = if same(n, b"str") {
        unsafe { std::mem::transmute_copy::<&T, &str>(&t) }
    } else if same(n, b"alloc::string::String") {
        unsafe { std::mem::transmute_copy::<&T, &String>(&t) }
    } else if same(n, b"wz_reader::node_name::WzNodeName") {
        unsafe { std::mem::transmute_copy::<&T, &wz_reader::WzNodeName>(&t) }
    } else if same(n, b"i32") {
        let v: i32 = unsafe { *std::mem::transmute_copy::<&T, &i32>(&t) };
        assert!(v >= 0 && v < 10, "only small numbers are converted to text");
        unsafe { std::str::from_utf8_unchecked(std::slice::from_ref(&b"0123456789"[v as usize])) }
    } else {
        unsafe { &**std::mem::transmute_copy::<&T, &Cow<'_, str>>(&t) }
    };
    let mut out = Vec::with_capacity(text.len());
    let mut i = 0;
    while i < text.len() {
        out.push(text.as_bytes()[i]);
        i += 1;
    }
    unsafe { String::from_utf8_unchecked(out) }
}

/// attributes of a harness whose code builds a tree of nodes
#[macro_export]
macro_rules! node_harnesses {
    ($( $(#[$m:meta])* $name:ident [$unwind:literal] $body:block )*) => {
        $(
            $(#[$m])*
            #[cfg_attr(kani, kani::proof)]
            #[cfg_attr(kani, kani::unwind($unwind))]
            #[cfg_attr(kani, kani::stub(std::string::String::from_utf8_lossy, crate::stubs::lossy8))]
            #[cfg_attr(kani, kani::stub(std::string::String::from_utf16_lossy, crate::stubs::lossy16))]
            #[cfg_attr(kani, kani::stub(core::str::from_utf8, crate::stubs::from_utf8))]
            #[cfg_attr(kani, kani::stub(std::sync::Arc::drop_slow, crate::stubs::Shared::drop_slow))]
            #[cfg_attr(kani, kani::stub(std::string::ToString::to_string, crate::stubs::to_string))]
            pub fn $name() { $body }
        )*
        pub const TABLE: &[(&str, fn())] = &[ $( (stringify!($name), $name as fn()) ),* ];
    };
}
