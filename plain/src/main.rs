//! The library built the way an application without threads builds it: no default features, no debug assertions, full
//! optimisation. Answers each line (a choice tape) with the digests of the operations the tape stands for.
#[path = "../../engine/src/common.rs"]
mod common;
#[path = "../../engine/src/digest.rs"]
mod digest;
#[path = "../../engine/src/gen.rs"]
mod gen;
#[path = "../../engine/src/lat.rs"]
mod lat;
#[path = "../../engine/src/util.rs"]
mod util;
use std::io::{BufRead, Write};
use std::sync::atomic::{AtomicU64, Ordering};

static BUSY: AtomicU64 = AtomicU64::new(0);
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    // a case that does not end must not outlive the engine
    std::thread::spawn(|| { let (mut last, mut n) = (0, 0); loop {
        std::thread::sleep(std::time::Duration::from_secs(1));
        let b = BUSY.load(Ordering::Relaxed);
        n = if b != 0 && b == last { n + 1 } else { 0 };
        last = b;
        if n > 60 { std::process::exit(3); }
    } });
    let mut k = 0u64;
    for l in std::io::stdin().lock().lines() {
        let Ok(l) = l else { return };
        k += 1;
        BUSY.store(k, Ordering::Relaxed);
        let tape: Vec<u64> = l.split_whitespace().map(|w| w.parse().unwrap()).collect();
        let r = std::panic::catch_unwind(|| digest::digest(&mut kit::Src::replay(tape), &mut |_| ()).iter().map(|(n, h)| format!("{}={:016x}", n, h)).collect::<Vec<_>>().join(" "));
        BUSY.store(0, Ordering::Relaxed);
        let mut o = std::io::stdout().lock();
        if writeln!(o, "{}", r.unwrap_or_else(|_| "panic".into())).and_then(|_| o.flush()).is_err() { return; }
    }
}
