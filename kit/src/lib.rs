//! Choice-tape property-based testing: generators draw bounded integers from a `Src`; the drawn values form a
//! tape. A failing tape is shrunk (delete / zero / lower) and written out as the replay file.
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::fs;
use std::io::Write as _;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub mod geo;

// ---------------------------------------------------------------- choice source

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self { Rng(seed) }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
}
pub fn hash64(parts: &[&[u8]]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for p in parts {
        for b in p.iter() { h ^= *b as u64; h = h.wrapping_mul(0x100000001b3); }
        h ^= 0xff; h = h.wrapping_mul(0x100000001b3);
    }
    Rng::new(h).next()
}

pub struct Src {
    tape: Vec<u64>,
    pos: usize,
    rng: Option<Rng>,
}
impl Src {
    pub fn random(seed: u64) -> Self { Src { tape: vec![], pos: 0, rng: Some(Rng::new(seed)) } }
    pub fn replay(tape: Vec<u64>) -> Self { Src { tape, pos: 0, rng: None } }
    /// uniform in 0..n
    pub fn raw(&mut self, n: u64) -> u64 {
        debug_assert!(n > 0);
        let v = if self.pos < self.tape.len() {
            self.tape[self.pos] % n
        } else if let Some(r) = self.rng.as_mut() {
            let v = r.next() % n;
            self.tape.push(v);
            v
        } else {
            self.tape.push(0);
            0
        };
        self.pos += 1;
        v
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        debug_assert!(lo <= hi);
        lo + self.raw((hi - lo) as u64 + 1) as i64
    }
    /// like range, but zero-centred so that shrinking goes towards 0 when 0 is in range
    pub fn zrange(&mut self, lo: i64, hi: i64) -> i64 {
        if lo <= 0 && hi >= 0 {
            let v = self.raw((hi - lo) as u64 + 1) as i64;
            if v <= hi { v } else { hi - v }
        } else { self.range(lo, hi) }
    }
    pub fn usize(&mut self, lo: usize, hi: usize) -> usize { self.range(lo as i64, hi as i64) as usize }
    pub fn bool(&mut self) -> bool { self.raw(2) == 1 }
    /// true with probability num/den; shrinks to false
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.raw(den) >= den - num }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T { let i = self.raw(xs.len() as u64) as usize; &xs[i] }
    pub fn weighted(&mut self, ws: &[u64]) -> usize {
        let s: u64 = ws.iter().sum();
        let mut v = self.raw(s);
        for (i, w) in ws.iter().enumerate() { if v < *w { return i; } v -= w; }
        unreachable!()
    }
    /// small-biased value in lo..=hi
    pub fn small(&mut self, lo: usize, hi: usize) -> usize {
        let a = self.usize(lo, hi);
        let b = self.usize(lo, hi);
        a.min(b)
    }
    pub fn unit(&mut self) -> f64 { self.raw(1 << 20) as f64 / (1u64 << 20) as f64 }
    pub fn tape(&self) -> &[u64] { &self.tape[..self.pos.min(self.tape.len())] }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() { let j = i - self.raw(i as u64 + 1) as usize; xs.swap(i, j); }
    }
}

// ---------------------------------------------------------------- case context

pub struct Ctx {
    pub labels: Vec<&'static str>,
    pub nontrivial: bool,
    pub desc: String,
    pub want_desc: bool,
    pub thorough: bool,
    pub evals: u64,
}
impl Ctx {
    pub fn label(&mut self, l: &'static str) { if !self.labels.contains(&l) { self.labels.push(l); } }
    pub fn label_if(&mut self, c: bool, l: &'static str) { if c { self.label(l) } }
    pub fn nontrivial(&mut self, c: bool) { if c { self.nontrivial = true } }
    pub fn desc(&mut self, f: impl FnOnce() -> String) { if self.want_desc { let s = f(); if ECHO.load(Ordering::Relaxed) { println!("case: {}", s); let _ = std::io::stdout().flush(); } if !self.desc.is_empty() { self.desc.push_str("; "); } self.desc.push_str(&s); } }
}

pub type CaseFn = fn(&mut Src, &mut Ctx) -> Result<(), String>;

pub struct Component {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub run: CaseFn,
}
pub struct Property {
    pub id: &'static str,
    pub components: Vec<Component>,
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}

// ---------------------------------------------------------------- running one case

thread_local! { static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }

fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() }
            else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() } else { "?".into() };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("panic: {} at {}", msg, loc));
        // rayon workers have their own thread: keep a copy
        if let Ok(mut g) = ANY_PANIC.lock() { *g = format!("panic: {} at {}", msg, loc); }
    }));
}
static ANY_PANIC: Mutex<String> = Mutex::new(String::new());

pub struct Outcome { pub err: Option<String>, pub ctx: Ctx, pub tape: Vec<u64> }

fn exec(c: &Component, mut src: Src, want_desc: bool, thorough: bool) -> Outcome {
    let mut ctx = Ctx { labels: vec![], nontrivial: false, desc: String::new(), want_desc, thorough, evals: 0 };
    LAST_PANIC.with(|p| p.borrow_mut().clear());
    let r = catch_unwind(AssertUnwindSafe(|| (c.run)(&mut src, &mut ctx)));
    let err = match r {
        Ok(Ok(())) => None,
        Ok(Err(e)) => Some(e),
        Err(_) => {
            let m = LAST_PANIC.with(|p| p.borrow().clone());
            Some(if m.is_empty() { ANY_PANIC.lock().map(|g| g.clone()).unwrap_or_default() } else { m })
        }
    };
    let tape = src.tape().to_vec();
    Outcome { err, ctx, tape }
}

fn shrink(c: &Component, tape: Vec<u64>, err: String, thorough: bool, budget: Duration) -> (Vec<u64>, String, usize) {
    let start = Instant::now();
    let mut best = tape;
    let mut best_err = err;
    let mut runs = 0usize;
    let mut slow = false;
    let mut attempt = |cand: Vec<u64>, best: &mut Vec<u64>, best_err: &mut String| -> bool {
        if start.elapsed() > budget || runs > 20000 { slow = true; return false; }
        runs += 1;
        let o = exec(c, Src::replay(cand), false, thorough);
        if let Some(e) = o.err {
            let t = o.tape;
            if (t.len(), &t) < (best.len(), &*best) { *best = t; *best_err = e; return true; }
        }
        false
    };
    loop {
        let before = best.clone();
        // delete chunks
        let mut size = (best.len() / 2).max(1);
        while size >= 1 {
            let mut i = 0;
            while i + size <= best.len() {
                let mut cand = best.clone();
                cand.drain(i..i + size);
                if !attempt(cand.clone(), &mut best, &mut best_err) {
                    // also try deleting while lowering an earlier count
                    let mut ok = false;
                    if i > 0 && size <= 8 {
                        for back in 1..=6.min(i) {
                            if cand[i - back] > 0 {
                                let mut c2 = cand.clone();
                                c2[i - back] -= 1;
                                if attempt(c2, &mut best, &mut best_err) { ok = true; break; }
                            }
                        }
                    }
                    if !ok { i += size.max(1); }
                }
            }
            if size == 1 { break; }
            size /= 2;
        }
        // lower values
        let mut i = 0;
        while i < best.len() {
            let v = best[i];
            if v > 0 {
                let mut lo = 0u64; // smallest not known to fail
                let mut hi = v;
                let mut first = true;
                while lo < hi {
                    let mid = if first { lo } else { lo + (hi - lo) / 2 };
                    first = false;
                    if i >= best.len() { break; }
                    let mut cand = best.clone();
                    cand[i] = mid;
                    if attempt(cand, &mut best, &mut best_err) { hi = mid; } else { lo = mid + 1; }
                }
            }
            i += 1;
        }
        if best == before || start.elapsed() > budget { break; }
    }
    drop(attempt);
    let _ = slow;
    (best, best_err, runs)
}

// ---------------------------------------------------------------- the command line

fn case_seed(seed: u64, id: &str, comp: &str, idx: u64) -> u64 {
    hash64(&[&seed.to_le_bytes(), id.as_bytes(), comp.as_bytes(), &idx.to_le_bytes()])
}

fn rss_kb() -> u64 {
    fs::read_to_string("/proc/self/statm").ok()
        .and_then(|s| s.split_whitespace().nth(1).and_then(|x| x.parse::<u64>().ok())).unwrap_or(0) * 4
}

static ECHO: AtomicBool = AtomicBool::new(false);
static SHRINK_START: AtomicU64 = AtomicU64::new(0);
const HANG_S: u64 = 25;
const CONFIRM_S: u64 = 60;
/// termination (C14): a case of ordinary size may take this long, alone on the machine; they take milliseconds
const SLOW_S: u64 = 10;
const RSS_LIMIT_KB: u64 = 7_000_000;

struct Agg {
    evals: u64,
    nontrivial: u64,
    distinct: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
    samples: Vec<String>,
    slowest: (u64, u64),
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\t' => o.push_str("\\t"), '\r' => o.push_str("\\r"),
            c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn write_replay(dir: &str, id: &str, comp: &str, tape: &[u64], err: &str, desc: &str) -> String {
    let _ = fs::create_dir_all(dir);
    let h = hash64(&[id.as_bytes(), comp.as_bytes(), format!("{:?}", tape).as_bytes()]);
    let path = format!("{}/{}-{}-{:08x}.tape", dir, id, comp, h as u32);
    let tape_s: Vec<String> = tape.iter().map(|x| x.to_string()).collect();
    let body = format!("property {}\ncomponent {}\ntape {}\n# error: {}\n# case: {}\n", id, comp, tape_s.join(" "), err.replace('\n', " "), desc.replace('\n', " "));
    let _ = fs::write(&path, body);
    path
}

fn worker(p: &Property, tier_thorough: bool, seed: u64, slots_path: &str, out_path: &str, replay_dir: &str, only: Option<&str>, scale: f64, threads: usize, start_from: &str, budget: Option<f64>) -> i32 {
    install_panic_hook();
    let slots = fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(slots_path).expect("slots");
    let t0 = Instant::now();
    let epoch = Instant::now();
    let inflight: Vec<(AtomicU64, AtomicU64)> = (0..threads).map(|_| (AtomicU64::new(0), AtomicU64::new(0))).collect();
    let done = AtomicBool::new(false);
    let mut failures: Vec<(String, String, String)> = vec![];
    let mut comp_json: Vec<String> = vec![];
    let mut total_evals = 0u64;
    let mut total_distinct = 0u64;
    let mut total_cases = 0u64;
    let mut all_samples: Vec<String> = vec![];
    let skip: HashSet<&str> = start_from.split(',').filter(|s| !s.is_empty()).collect();
    std::thread::scope(|sc| {
        // watchdog
        sc.spawn(|| {
            while !done.load(Ordering::Relaxed) {
                std::thread::sleep(Duration::from_millis(250));
                let now = epoch.elapsed().as_secs();
                for (t, (st, ci)) in inflight.iter().enumerate() {
                    let s = st.load(Ordering::Relaxed);
                    if s > 0 && now.saturating_sub(s - 1) > HANG_S {
                        println!("WATCHDOG hang slot={} case={}", t, ci.load(Ordering::Relaxed));
                        std::process::exit(90);
                    }
                }
                let ss = SHRINK_START.load(Ordering::Relaxed);
                if ss > 0 && now.saturating_sub(ss - 1) > 30 + HANG_S { println!("WATCHDOG shrink"); std::process::exit(92); }
                if rss_kb() > RSS_LIMIT_KB { println!("WATCHDOG memory"); std::process::exit(91); }
            }
        });
        for (ci, c) in p.components.iter().enumerate() {
            if let Some(o) = only { if o != c.name { continue; } }
            if skip.contains(c.name) { continue; }
            let n = (((if tier_thorough { c.thorough } else { c.quick }) as f64) * scale).ceil() as u64;
            // time: a component gets at least an even share of what is left of the budget, and up to half of it
            let left = p.components.len() - ci;
            let end = budget.map(|b| t0 + Duration::from_secs_f64({ let r = (b - t0.elapsed().as_secs_f64()).max(0.0); t0.elapsed().as_secs_f64() + r * 2.0 / (left as f64 + 1.0) }));
            let next = AtomicU64::new(0);
            let stop = AtomicBool::new(false);
            let cut = AtomicBool::new(false);
            let watch_slow = p.id == "C14" && !c.name.contains("cloud");
            let slow_case: Mutex<Option<(u64, Vec<u64>, u64)>> = Mutex::new(None);
            let mut slow_note = String::new();
            let first_fail: Mutex<Option<(u64, Vec<u64>, String)>> = Mutex::new(None);
            let agg = Mutex::new(Agg { evals: 0, nontrivial: 0, distinct: HashSet::new(), labels: BTreeMap::new(), samples: vec![], slowest: (0, 0) });
            let tc = Instant::now();
            let sample_count = AtomicUsize::new(0);
            let mut confirm_slow = watch_slow;
            loop {
            std::thread::scope(|s2| {
                for t in 0..threads {
                    let (next, stop, first_fail, agg, inflight, slots, sample_count, cut, slow_case) = (&next, &stop, &first_fail, &agg, &inflight, &slots, &sample_count, &cut, &slow_case);
                    let builder = std::thread::Builder::new().stack_size(64 << 20);
                    builder.spawn_scoped(s2, move || {
                        let mut local = Agg { evals: 0, nontrivial: 0, distinct: HashSet::new(), labels: BTreeMap::new(), samples: vec![], slowest: (0, 0) };
                        loop {
                            if stop.load(Ordering::Relaxed) { break; }
                            if let Some(e) = end { if Instant::now() >= e { if next.load(Ordering::Relaxed) < n { cut.store(true, Ordering::Relaxed); } break; } }
                            let i = next.fetch_add(1, Ordering::Relaxed);
                            if i >= n { break; }
                            let mut b = [0u8; 24];
                            b[..8].copy_from_slice(&1u64.to_le_bytes());
                            b[8..16].copy_from_slice(&(ci as u64).to_le_bytes());
                            b[16..].copy_from_slice(&i.to_le_bytes());
                            let _ = slots.write_all_at(&b, (t * 24) as u64);
                            inflight[t].1.store(i, Ordering::Relaxed);
                            inflight[t].0.store(epoch.elapsed().as_secs() + 1, Ordering::Relaxed);
                            let t_case = Instant::now();
                            let want = sample_count.load(Ordering::Relaxed) < 3;
                            let o = exec(c, Src::random(case_seed(seed, p.id, c.name, i)), want, tier_thorough);
                            inflight[t].0.store(0, Ordering::Relaxed);
                            let ms = t_case.elapsed().as_millis() as u64;
                            if ms > local.slowest.0 { local.slowest = (ms, i); }
                            let _ = slots.write_all_at(&[0u8; 8], (t * 24) as u64);
                            local.evals += 1;
                            total_add(&mut local, &o);
                            if want && o.ctx.nontrivial && o.err.is_none() && o.ctx.desc.len() < 3000 && sample_count.fetch_add(1, Ordering::Relaxed) < 3 {
                                local.samples.push(format!("[{} #{}] {}", c.name, i, o.ctx.desc));
                            }
                            if confirm_slow && o.err.is_none() && ms > SLOW_S * 1000 {
                                let mut g = slow_case.lock().unwrap();
                                if g.as_ref().map(|x| ms > x.2).unwrap_or(true) { *g = Some((i, o.tape.clone(), ms)); }
                                stop.store(true, Ordering::Relaxed);
                            }
                            if let Some(e) = o.err {
                                let mut g = first_fail.lock().unwrap();
                                if g.as_ref().map(|x| i < x.0).unwrap_or(true) { *g = Some((i, o.tape, e)); }
                                stop.store(true, Ordering::Relaxed);
                            }
                        }
                        let mut g = agg.lock().unwrap();
                        g.evals += local.evals;
                        g.nontrivial += local.nontrivial;
                        g.distinct.extend(local.distinct);
                        for (k, v) in local.labels { *g.labels.entry(k).or_insert(0) += v; }
                        g.samples.extend(local.samples);
                        if local.slowest > g.slowest { g.slowest = local.slowest; }
                    }).unwrap();
                }
            });
            // a case that took very long is run again with nothing beside it
            let Some((i, tape, ms)) = slow_case.lock().unwrap().take() else { break };
            if first_fail.lock().unwrap().is_some() { break; }
            let raw = write_replay(replay_dir, p.id, c.name, &tape, "slow", "");
            let _ = fs::write(format!("{}.pending", out_path), format!("{}\n{}\nthe case takes over {} s\n", c.name, raw, SLOW_S));
            let t_case = Instant::now();
            SHRINK_START.store(epoch.elapsed().as_secs() + 1, Ordering::Relaxed);
            let o = exec(c, Src::replay(tape.clone()), true, tier_thorough);
            SHRINK_START.store(0, Ordering::Relaxed);
            let alone = t_case.elapsed().as_secs_f64();
            if alone > SLOW_S as f64 {
                let e = format!("the case takes {:.1} s, where cases of its size take milliseconds", alone);
                let path = write_replay(replay_dir, p.id, c.name, &tape, &e, &o.ctx.desc);
                println!("FAIL {} {} case #{}: {}\n  case: {}", p.id, c.name, i, e, trunc(&o.ctx.desc, 4000));
                slow_note = e.clone();
                failures.push((c.name.to_string(), path, e));
                break;
            }
            let _ = (fs::remove_file(&raw), fs::remove_file(format!("{}.pending", out_path)));
            println!("NOTE: {} {} case #{} took {:.1} s in the run and {:.1} s alone", p.id, c.name, i, ms as f64 / 1000.0, alone);
            confirm_slow = false;
            stop.store(false, Ordering::Relaxed);
            }
            let a = agg.into_inner().unwrap();
            let fail = first_fail.into_inner().unwrap();
            let mut fail_line = if slow_note.is_empty() { String::from("null") } else { json_str(&slow_note) };
            if cut.load(Ordering::Relaxed) { println!("NOTE: {} {}: the time budget ended it after {} of {} cases", p.id, c.name, a.evals, n); }
            if let Some((i, tape, err)) = fail {
                // should a shrink candidate hang or kill the process, the parent reports this unshrunk case
                let raw_path = write_replay(replay_dir, p.id, c.name, &tape, &err, "");
                let _ = fs::write(format!("{}.pending", out_path), format!("{}\n{}\n{}\n", c.name, raw_path, err.replace('\n', " ")));
                SHRINK_START.store(epoch.elapsed().as_secs() + 1, Ordering::Relaxed);
                let (t2, e2, runs) = shrink(c, tape, err.clone(), tier_thorough, Duration::from_secs(30));
                SHRINK_START.store(0, Ordering::Relaxed);
                let o = exec(c, Src::replay(t2.clone()), true, tier_thorough);
                let e3 = o.err.clone().unwrap_or(e2);
                let path = write_replay(replay_dir, p.id, c.name, &t2, &e3, &o.ctx.desc);
                if path != raw_path { let _ = fs::remove_file(&raw_path); }
                println!("FAIL {} {} case #{} (shrunk in {} runs): {}\n  original: {}\n  case: {}", p.id, c.name, i, runs, e3, err, trunc(&o.ctx.desc, 4000));
                fail_line = json_str(&e3);
                failures.push((c.name.to_string(), path, e3));
            }
            total_cases += a.evals;
            total_evals += a.evals;
            total_distinct += a.distinct.len() as u64;
            let labels: Vec<String> = a.labels.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect();
            eprintln!("  {} {}: {} cases, {} distinct non-trivial, {:.1}s, slowest {} ms (#{}) {:?}", p.id, c.name, a.evals, a.distinct.len(), tc.elapsed().as_secs_f64(), a.slowest.0, a.slowest.1, a.labels);
            comp_json.push(format!("{{\"component\": {}, \"cases\": {}, \"planned\": {}, \"distinct_nontrivial\": {}, \"rule\": {}, \"classes\": {{{}}}, \"wall_s\": {:.2}, \"failure\": {}}}",
                json_str(c.name), a.evals, n, a.distinct.len(), json_str(c.rule), labels.join(", "), tc.elapsed().as_secs_f64(), fail_line));
            all_samples.extend(a.samples);
        }
        done.store(true, Ordering::Relaxed);
    });
    let rule: Vec<String> = p.components.iter().filter(|c| !skip.contains(c.name)).map(|c| format!("{}: {}", c.name, c.rule)).collect();
    let frag = format!("{{\"evaluations\": {}, \"distinct_nontrivial\": {}, \"rule\": {}, \"samples\": [{}], \"components\": [{}], \"failures\": [{}], \"wall\": {:.2}}}",
        total_evals, total_distinct, json_str(&rule.join(" | ")),
        all_samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "),
        comp_json.join(", "),
        failures.iter().map(|(c, p, e)| format!("[{}, {}, {}]", json_str(c), json_str(p), json_str(e))).collect::<Vec<_>>().join(", "),
        t0.elapsed().as_secs_f64());
    fs::write(out_path, frag).expect("write out");
    let _ = total_cases;
    for (_, path, _) in &failures { println!("VIOLATION property={} replay={}", p.id, path); }
    let _ = std::io::stdout().flush();
    if failures.is_empty() { 0 } else { 1 }
}

fn total_add(local: &mut Agg, o: &Outcome) {
    if o.ctx.nontrivial {
        local.nontrivial += 1;
        let mut b = Vec::with_capacity(o.tape.len() * 8);
        for x in &o.tape { b.extend_from_slice(&x.to_le_bytes()); }
        local.distinct.insert(hash64(&[&b]));
    }
    for l in &o.ctx.labels { *local.labels.entry(l).or_insert(0) += 1; }
}

fn trunc(s: &str, n: usize) -> String { if s.len() <= n { s.to_string() } else { let mut k = n; while !s.is_char_boundary(k) { k -= 1; } format!("{}...", &s[..k]) } }

/// usage:
///   prog run ID --tier quick|thorough --seed N --out FRAG.json --replays DIR [--only COMP] [--scale X] [--skip A,B]
///   prog replay FILE
///   prog list
pub fn main(props: Vec<Property>) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let cmd = args.get(1).map(|s| s.as_str()).unwrap_or("");
    match cmd {
        "list" => { for p in &props { for c in &p.components { println!("{} {}", p.id, c.name); } } std::process::exit(0) }
        "run" | "worker" => {
            let id = &args[2];
            let Some(p) = props.iter().find(|p| p.id == id) else { println!("no such property {}", id); std::process::exit(3) };
            let thorough = get("--tier").map(|t| t == "thorough").unwrap_or(false);
            let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
            let out = get("--out").unwrap_or("/tmp/kit-out.json".into());
            let replays = get("--replays").unwrap_or("/tmp/kit-replays".into());
            let only = get("--only");
            let scale: f64 = get("--scale").and_then(|s| s.parse().ok()).unwrap_or(1.0);
            let threads: usize = get("--threads").and_then(|s| s.parse().ok()).unwrap_or(8);
            let skip = get("--skip").unwrap_or_default();
            let slots = format!("{}.slots", out);
            if cmd == "worker" {
                std::process::exit(worker(p, thorough, seed, &slots, &out, &replays, only.as_deref(), scale, threads, &skip, get("--budget").and_then(|s| s.parse().ok())));
            }
            let _ = fs::remove_file(&slots);
            let _ = fs::remove_file(&out);
            let pending = format!("{}.pending", out);
            let _ = fs::remove_file(&pending);
            let mut wargs: Vec<String> = args[1..].to_vec();
            wargs[0] = "worker".into();
            let st = Command::new(std::env::current_exe().unwrap()).args(&wargs).status().expect("worker");
            if let Some(code) = st.code() { if code == 0 || code == 1 { let _ = fs::remove_file(&slots); let _ = fs::remove_file(&pending); std::process::exit(code); } }
            println!("worker ended abnormally: {:?} (signal {:?})", st.code(), st.signal());
            if let Ok(pf) = fs::read_to_string(&pending) {
                let l: Vec<&str> = pf.lines().collect();
                let _ = (fs::remove_file(&slots), fs::remove_file(&pending));
                if l.len() >= 3 {
                    println!("FAIL {} {} (not shrunk): {}", p.id, l[0], l[2]);
                    println!("VIOLATION property={} replay={}", p.id, l[1]);
                    fs::write(&out, format!("{{\"evaluations\": 1, \"distinct_nontrivial\": 0, \"rule\": \"the worker process ended while shrinking\", \"samples\": [{}], \"components\": [], \"failures\": [[{}, {}, {}]], \"wall\": 0}}", json_str(l[2]), json_str(l[0]), json_str(l[1]), json_str(l[2]))).ok();
                    std::process::exit(1);
                }
            }
            // which case? try each in-flight one alone
            let b = fs::read(&slots).unwrap_or_default();
            let mut cands = vec![];
            for ch in b.chunks(24) {
                if ch.len() == 24 && u64::from_le_bytes(ch[..8].try_into().unwrap()) == 1 {
                    cands.push((u64::from_le_bytes(ch[8..16].try_into().unwrap()), u64::from_le_bytes(ch[16..24].try_into().unwrap())));
                }
            }
            let _ = fs::remove_file(&slots);
            let mut found = false;
            let t_alone = Instant::now();
            for (ci, i) in cands {
                if t_alone.elapsed() > Duration::from_secs(150) { break; }
                let c = &p.components[ci as usize];
                let cs = case_seed(seed, p.id, c.name, i);
                let tc = Instant::now();
                let alone = run_alone(p.id, c.name, &format!("seed {}", cs), thorough);
                println!("  {} #{} (seed {}) alone: {:.1}s", c.name, i, cs, tc.elapsed().as_secs_f64());
                if let Some(why) = alone { 
                    let _ = fs::create_dir_all(&replays);
                    let path = format!("{}/{}-{}-case{}.seed", replays, p.id, c.name, i);
                    let _ = fs::write(&path, format!("property {}\ncomponent {}\nseed {}\n# error: {}\n", p.id, c.name, cs, why));
                    println!("FAIL {} {} case #{}: {}", p.id, c.name, i, why);
                    println!("VIOLATION property={} replay={}", p.id, path);
                    fs::write(&out, format!("{{\"evaluations\": 1, \"distinct_nontrivial\": 0, \"rule\": \"the worker process was ended by a failing case\", \"samples\": [{}], \"components\": [], \"failures\": [[{}, {}, {}]], \"wall\": 0}}", json_str(&why), json_str(c.name), json_str(&path), json_str(&why))).ok();
                    found = true;
                    break;
                }
            }
            if found { std::process::exit(1) }
            println!("ERROR: the worker's end could not be reproduced by any case it was running");
            std::process::exit(4)
        }
        "one" | "replay" => {
            // replay FILE   |   one ID COMP seed N
            install_panic_hook();
            ECHO.store(true, Ordering::Relaxed);
            let (id, comp, src, thorough) = if cmd == "replay" {
                let s = fs::read_to_string(&args[2]).expect("replay file");
                let f = |k: &str| s.lines().find(|l| l.starts_with(k)).map(|l| l[k.len()..].trim().to_string());
                let id = f("property ").unwrap();
                let comp = f("component ").unwrap();
                let src = if let Some(t) = f("tape ") { Src::replay(t.split_whitespace().map(|x| x.parse().unwrap()).collect()) }
                    else if let Some(sd) = f("seed ") { Src::random(sd.parse().unwrap()) } else { Src::replay(vec![]) };
                (id, comp, src, get("--tier").map(|t| t == "thorough").unwrap_or(false))
            } else {
                (args[2].clone(), args[3].clone(), Src::random(args[5].parse().unwrap()), get("--tier").map(|t| t == "thorough").unwrap_or(false))
            };
            let Some(p) = props.iter().find(|p| p.id == id) else { println!("no such property here: {}", id); std::process::exit(3) };
            let Some(c) = p.components.iter().find(|c| c.name == comp) else { println!("no such component here: {}", comp); std::process::exit(3) };
            let h = std::thread::Builder::new().stack_size(64 << 20);
            let o = std::thread::scope(|s| h.spawn_scoped(s, || exec(c, src, true, thorough)).unwrap().join().unwrap());
            match o.err {
                None => { println!("holds"); std::process::exit(0) }
                Some(e) => { println!("error: {}", e); println!("VIOLATION property={} replay={}", id, args[2]); std::process::exit(1) }
            }
        }
        _ => { println!("usage: run ID | replay FILE | list"); std::process::exit(3) }
    }
}

/// Runs one case in a process of its own; Some(reason) if it fails, dies or does not end.
fn run_alone(id: &str, comp: &str, seed: &str, thorough: bool) -> Option<String> {
    let mut a: Vec<String> = vec!["one".into(), id.into(), comp.into()];
    a.extend(seed.split(' ').map(|s| s.to_string()));
    a.push("--tier".into());
    a.push(if thorough { "thorough".into() } else { "quick".into() });
    let mut ch = Command::new(std::env::current_exe().unwrap()).args(&a).stdout(Stdio::null()).stderr(Stdio::null()).spawn().ok()?;
    let t = Instant::now();
    loop {
        match ch.try_wait() {
            Ok(Some(st)) => {
                return match st.code() {
                    Some(0) => None,
                    Some(c) => Some(format!("case fails alone with exit code {}", c)),
                    None => Some(format!("process killed by signal {:?}", st.signal())),
                };
            }
            Ok(None) => {
                let rss = fs::read_to_string(format!("/proc/{}/statm", ch.id())).ok().and_then(|s| s.split_whitespace().nth(1).and_then(|x| x.parse::<u64>().ok())).unwrap_or(0) * 4;
                if rss > RSS_LIMIT_KB { let _ = ch.kill(); let _ = ch.wait(); return Some("case exhausts memory (over 7 GB)".into()); }
                if t.elapsed() > Duration::from_secs(CONFIRM_S) { let _ = ch.kill(); let _ = ch.wait(); return Some(format!("case does not end within {} s", CONFIRM_S)); }
                std::thread::sleep(Duration::from_millis(100));
            }
            Err(_) => return None,
        }
    }
}
