//! Run-time shim: the same contract harnesses run under Kani (symbolic values) and
//! natively (values replayed from a Kani counterexample, or drawn from a seeded generator).

#[cfg(kani)]
mod imp {
    pub use kani::Arbitrary as Any;
    #[inline(always)]
    pub fn any<T: Any>() -> T {
        kani::any()
    }
    #[inline(always)]
    pub fn assume(b: bool) {
        kani::assume(b)
    }
    #[inline(always)]
    pub fn range(lo: usize, hi: usize) -> usize {
        let x: u8 = kani::any();
        kani::assume(x as usize >= lo && x as usize <= hi);
        x as usize
    }
    #[macro_export]
    macro_rules! witness {
        ($c:expr) => {
            kani::cover!($c, "witness")
        };
        () => {
            kani::cover!(true, "witness")
        };
    }
    /// Leak a value: its drop glue is not part of any contract.
    #[inline(always)]
    pub fn leak<T>(t: T) {
        std::mem::forget(t)
    }
}

#[cfg(not(kani))]
mod imp {
    use std::cell::RefCell;
    pub enum Source {
        Replay(Vec<u8>, usize),
        Random(u64, Vec<u8>),
    }
    thread_local! { pub static SRC: RefCell<Source> = const { RefCell::new(Source::Replay(Vec::new(), 0)) }; }
    pub struct Rejected;

    fn rnd(s: &mut u64) -> u64 {
        *s = s.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = *s;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    fn draw(n: usize) -> Vec<u8> {
        SRC.with(|s| match &mut *s.borrow_mut() {
            Source::Replay(b, p) => {
                let mut v = vec![0; n];
                for x in v.iter_mut() {
                    *x = b.get(*p).copied().unwrap_or(0);
                    *p += 1;
                }
                v
            }
            Source::Random(seed, log) => {
                let mut v = vec![0u8; n];
                let mode = rnd(seed) % 8;
                for x in v.iter_mut() {
                    let r = rnd(seed);
                    *x = match mode {
                        0 => [0u8, 1, 0x7f, 0x80, 0xff, 0xfe, 0x81, 2][(r % 8) as usize],
                        1 => (r % 4) as u8,
                        2 => 0,
                        3 => 0xff,
                        _ => r as u8,
                    };
                }
                if n > 1 && mode == 4 {
                    // small value in a wide integer
                    for x in v.iter_mut().skip(1) {
                        *x = 0;
                    }
                }
                log.extend_from_slice(&v);
                v
            }
        })
    }
    pub trait Any: Sized {
        fn gen() -> Self;
    }
    macro_rules! prim { ($($t:ty)*) => { $( impl Any for $t {
        fn gen() -> Self { <$t>::from_le_bytes(draw(std::mem::size_of::<$t>()).try_into().unwrap()) }
    } )* } }
    prim!(u8 i8 u16 i16 u32 i32 u64 i64 usize isize);
    impl Any for bool {
        fn gen() -> Self {
            let b = draw(1)[0];
            SRC.with(|s| {
                if let Source::Random(_, log) = &mut *s.borrow_mut() {
                    *log.last_mut().unwrap() = b & 1;
                }
            });
            b & 1 == 1
        }
    }
    impl<const N: usize> Any for [u8; N] {
        fn gen() -> Self {
            draw(N).try_into().unwrap()
        }
    }
    impl<const N: usize> Any for [u16; N] {
        fn gen() -> Self {
            let d = draw(N * 2);
            std::array::from_fn(|i| u16::from_le_bytes([d[i * 2], d[i * 2 + 1]]))
        }
    }
    impl<const N: usize> Any for [u32; N] {
        fn gen() -> Self {
            let d = draw(N * 4);
            std::array::from_fn(|i| u32::from_le_bytes(d[i * 4..i * 4 + 4].try_into().unwrap()))
        }
    }
    pub fn any<T: Any>() -> T {
        T::gen()
    }
    pub fn assume(b: bool) {
        if !b {
            std::panic::panic_any(Rejected)
        }
    }
    pub fn range(lo: usize, hi: usize) -> usize {
        let x = draw(1)[0] as usize;
        let random = SRC.with(|s| matches!(&*s.borrow(), Source::Random(..)));
        if random {
            let y = lo + x % (hi - lo + 1);
            SRC.with(|s| {
                if let Source::Random(_, log) = &mut *s.borrow_mut() {
                    *log.last_mut().unwrap() = y as u8;
                }
            });
            y
        } else {
            assume(x >= lo && x <= hi);
            x
        }
    }
    #[macro_export]
    macro_rules! witness {
        ($c:expr) => {
            let _ = $c;
        };
        () => {};
    }
    pub fn leak<T>(_t: T) {}
}
pub use imp::*;

/// Declares the contract harnesses of a module: Kani proofs with the given unwinding
/// bound, and a native dispatch table of the same functions.
#[macro_export]
macro_rules! harnesses {
    ($( $(#[$m:meta])* $name:ident [$unwind:literal] $body:block )*) => {
        $(
            $(#[$m])*
            #[cfg_attr(kani, kani::proof)]
            #[cfg_attr(kani, kani::unwind($unwind))]
            pub fn $name() { $body }
        )*
        pub const TABLE: &[(&str, fn())] = &[ $( (stringify!($name), $name as fn()) ),* ];
    };
}

/// the block once for every listed constant, without a loop
#[macro_export]
macro_rules! each {
    ($x:ident in [$($v:expr),* $(,)?] $b:block) => { $( { let $x = $v; $b } )* };
}
