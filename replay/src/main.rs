//! Native runner of the contract harnesses.
//!   wz_replay replay <harness> <hex|->      exit 1: the contract fails on this input
//!   wz_replay search <harness> <seed> <s>   exit 1 + FAILING-INPUT <hex>: found one
//! exit 0: contract held; exit 3: input rejected by the precondition / unknown harness
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};
use wz_contracts::rt::{Rejected, Source, SRC};

enum Out {
    Held,
    Rejected,
    Failed(String),
}
fn once(f: fn(), src: Source) -> (Out, Vec<u8>) {
    SRC.with(|s| *s.borrow_mut() = src);
    let r = catch_unwind(AssertUnwindSafe(f));
    let log = SRC.with(|s| match &*s.borrow() {
        Source::Random(_, l) => l.clone(),
        Source::Replay(b, _) => b.clone(),
    });
    let o = match r {
        Ok(()) => Out::Held,
        Err(e) if e.is::<Rejected>() => Out::Rejected,
        Err(e) => Out::Failed(
            e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_else(|| "panic".into()),
        ),
    };
    (o, log)
}
fn hex(b: &[u8]) -> String {
    if b.is_empty() {
        return "-".into();
    }
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let f = match wz_contracts::find(&a[2]) {
        Some(f) => f,
        None => std::process::exit(3),
    };
    std::panic::set_hook(Box::new(|i| {
        if i.payload().is::<Rejected>() {
            return;
        }
        use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
        static N: AtomicUsize = AtomicUsize::new(0);
        if N.fetch_add(1, Relaxed) < 3 {
            eprintln!("{i}");
        }
    }));
    if a[1] == "replay" {
        let h = if a[3] == "-" { "" } else { &a[3] };
        let b: Vec<u8> = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[i * 2..i * 2 + 2], 16).unwrap()).collect();
        match once(f, Source::Replay(b, 0)).0 {
            Out::Held => println!("contract holds on this input"),
            Out::Rejected => {
                println!("input outside the precondition");
                std::process::exit(3)
            }
            Out::Failed(m) => {
                println!("CONTRACT FAILS: {m}");
                std::process::exit(1)
            }
        }
        return;
    }
    let seed: u64 = a[3].parse().unwrap();
    let end = Instant::now() + Duration::from_secs(a[4].parse().unwrap());
    let (mut n, mut rej) = (0u64, 0u64);
    while Instant::now() < end && n < 400_000 {
        n += 1;
        let (o, log) = once(f, Source::Random(seed.wrapping_mul(1_000_003).wrapping_add(n), vec![]));
        match o {
            Out::Held => {}
            Out::Rejected => rej += 1,
            Out::Failed(m) => {
                println!("FAILING-INPUT {}\nCONTRACT FAILS: {m}", hex(&log));
                std::process::exit(1)
            }
        }
    }
    println!("searched {n} inputs, {rej} outside the precondition");
}
