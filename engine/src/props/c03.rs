use crate::common::*;
use crate::lat::*;
use crate::util::*;
use i_overlay::core::fill_rule::FillRule;
use i_overlay::core::overlay::{ContourDirection, Overlay};
use i_overlay::core::overlay_rule::OverlayRule;
use i_overlay::core::simplify::Simplify;
use i_overlay::core::solver::{MultithreadOptions, Precision, Solver, Strategy};
use i_overlay::i_shape::int::shape::{IntContour, IntShapes};
use i_overlay::string::clip::{ClipRule, IntClip};
use i_overlay::string::overlay::StringOverlay;
use i_overlay::string::rule::StringRule;
use i_overlay::string::slice::IntSlice;
use kit::{ensure, Component, Ctx, Property, Src};

fn sol(strategy: Strategy, mt: Option<usize>) -> Solver { Solver { strategy, precision: Precision::HIGH, multithreading: mt.map(|n| MultithreadOptions { par_sort_min_size: n }) } }
fn differ(what: &str, a: &IntShapes, b: &IntShapes) -> Result<(), String> {
    if a == b { return Ok(()); }
    let (ca, cb) = (canon(a), canon(b));
    let k = if ca == cb { "same contours in another order or from another start" } else { "different contours" };
    if a.iter().flatten().map(|c| c.len()).sum::<usize>() > 400 { return Err(format!("{}: {} ({} and {} shapes)", what, k, a.len(), b.len())); }
    Err(format!("{}: {}: {} versus {}", what, k, show_shapes(a), show_shapes(b)))
}
#[allow(clippy::too_many_arguments)]
fn run(is: &[IntContour], ic: &[IntContour], rule: OverlayRule, fill: FillRule, dir: ContourDirection, simp: bool, min: usize, s: Solver, graph: bool) -> IntShapes {
    let o = build(is, ic);
    if graph { o.into_graph_with_solver(fill, s).extract_shapes_custom(rule, dir, simp, min) } else { o.overlay_custom(rule, fill, dir, simp, min, s) }
}

fn lattice(s: &mut Src, cx: &mut Ctx, c: LatCase, exhaustive: bool) -> Result<(), String> {
    let fill = *s.pick(&FILLS);
    let rule = *s.pick(&RULES);
    let dir = if s.bool() { CCW } else { CW };
    let simp = s.bool();
    let min = if s.chance(1, 4) { s.usize(1, 50) } else { 0 };
    cx.desc(|| format!("{} {:?} {:?} {:?} simplify {} min_area {}", c.show(), rule, fill, dir, simp, min));
    let base = run(&c.is, &c.ic, rule, fill, dir, simp, min, sol(Strategy::List, None), false);
    cx.nontrivial(!base.is_empty());
    let n = c.edges();
    cx.label_if(n > 4000, "over 4000 edges");
    cx.label_if(n > 8000, "over 8000 edges");
    cx.label_if(n > 16000, "over 16000 edges");
    let all = exhaustive;
    for st in STRATEGIES {
        for mt in [None, Some(1), Some(32768)] {
            for graph in [false, true] {
                // every strategy always; the other dimensions in full for small inputs and sampled for large ones
                if !all && s.chance(2, 3) && !(graph && mt == Some(1)) { continue; }
                let got = run(&c.is, &c.ic, rule, fill, dir, simp, min, sol(st, mt), graph);
                differ(&format!("{:?}, threads from {:?}, {} against List, no threads, direct", st, mt, if graph { "graph" } else { "direct" }), &got, &base)?;
            }
        }
    }
    // coarser precision has nothing to snap here
    let p = *s.pick(&PRECISIONS);
    let st = *s.pick(&STRATEGIES);
    let got = run(&c.is, &c.ic, rule, fill, dir, simp, min, Solver { strategy: st, precision: p, multithreading: None }, false);
    differ(&format!("precision {:?} {:?}", p, st), &got, &base)?;
    // short calls
    let short = run(&c.is, &c.ic, rule, fill, CCW, true, 0, sol(Strategy::List, None), false);
    differ("overlay() against overlay_custom with its defaults", &build(&c.is, &c.ic).overlay(rule, fill), &short)?;
    differ("into_graph().extract_shapes() against overlay_custom", &build(&c.is, &c.ic).into_graph(fill).extract_shapes(rule), &short)?;
    differ("Overlay::with_contours against add_contours", &Overlay::with_contours(&c.is, &c.ic).overlay(rule, fill), &short)?;
    if !all { return Ok(()); }
    let subj = run(&c.is, &[], OverlayRule::Subject, fill, dir, simp, min, sol(Strategy::List, None), false);
    differ("Simplify against the Subject rule", &c.is[..].simplify(fill, dir, simp, min), &subj)?;
    // vectors
    let v0 = build(&c.is, &c.ic).into_separate_vectors(fill, sol(Strategy::List, None));
    let w0 = build(&c.is, &c.ic).into_shape_vectors(fill, rule, sol(Strategy::List, None));
    for st in STRATEGIES {
        let mt = *s.pick(&[None, Some(1)]);
        let v = build(&c.is, &c.ic).into_separate_vectors(fill, sol(st, mt));
        ensure!(v == v0, "separate vectors differ between {:?} and List", st);
        let w = build(&c.is, &c.ic).into_shape_vectors(fill, rule, sol(st, mt));
        ensure!(w == w0, "shape vectors differ between {:?} and List", st);
    }
    Ok(())
}
fn lattice_small(s: &mut Src, cx: &mut Ctx) -> Result<(), String> { let c = LatCase::small(s); lattice(s, cx, c, true) }
fn lattice_medium(s: &mut Src, cx: &mut Ctx) -> Result<(), String> { let c = LatCase::medium(s); lattice(s, cx, c, true) }
fn lattice_large(s: &mut Src, cx: &mut Ctx) -> Result<(), String> { let c = LatCase::large(s, 3200); lattice(s, cx, c, false) }

fn steps(c: &LatCase, paths: &[IntContour]) -> Result<std::collections::BTreeMap<(Unit, bool), usize>, String> {
    let d: Result<Vec<LPath>, String> = paths.iter().map(|p| decode(&c.q, p)).collect();
    unit_steps(c.w, c.h, &d?)
}
fn strings(s: &mut Src, cx: &mut Ctx, c: LatCase) -> Result<(), String> {
    let fill = *s.pick(&FILLS);
    let rule = ClipRule { invert: s.bool(), boundary_included: s.bool() };
    let (dir, min) = (if s.bool() { CCW } else { CW }, if s.chance(1, 3) { s.usize(1, 40) } else { 0 });
    cx.desc(|| format!("{} {:?} {:?} invert {} boundary {} min_area {}; clip contours used as strings", c.show(), fill, dir, rule.invert, rule.boundary_included, min));
    let mk = || { let mut o = StringOverlay::with_shape_contours(&c.is); for p in &c.ic { o.add_string_path(p); } o };
    let (a0, l0) = (mk().into_graph_with_solver(fill, sol(Strategy::List, None)).extract_shapes_custom(StringRule::Slice, dir, min), mk().clip_string_lines_with_solver(fill, rule, sol(Strategy::List, None)));
    cx.nontrivial(!a0.is_empty() && !l0.is_empty());
    for st in STRATEGIES { for mt in [None, Some(1)] {
        let a = mk().into_graph_with_solver(fill, sol(st, mt)).extract_shapes_custom(StringRule::Slice, dir, min);
        differ(&format!("slice {:?} {:?} against List", st, mt), &a, &a0)?;
        let l = mk().clip_string_lines_with_solver(fill, rule, sol(st, mt));
        // how portions are chained into paths is not promised; the directed steps are
        ensure!(steps(&c, &l)? == steps(&c, &l0)?, "clip {:?} {:?} against List: {} versus {}", st, mt, show_i(&l), show_i(&l0));
    } }
    let shape = c.is.clone();
    let a = shape.slice_by_paths(&c.ic, fill);
    let b = mk().into_graph(fill).extract_shapes(StringRule::Slice);
    differ("slice_by_paths against the string graph", &a, &b)?;
    let l = shape.clip_paths(&c.ic, fill, rule);
    ensure!(steps(&c, &l)? == steps(&c, &l0)?, "clip_paths against StringOverlay: {} versus {}", show_i(&l), show_i(&l0));
    Ok(())
}
fn strings_small(s: &mut Src, cx: &mut Ctx) -> Result<(), String> { let c = LatCase::small(s); strings(s, cx, c) }
fn strings_medium(s: &mut Src, cx: &mut Ctx) -> Result<(), String> { let c = LatCase::medium(s); strings(s, cx, c) }

/// with rounding: the same strategy gives the same output every time, whatever the threading and the route
fn repeat(s: &mut Src, cx: &mut Ctx, c: GenCase, big: bool) -> Result<(), String> {
    let fill = *s.pick(&FILLS);
    let rule = *s.pick(&RULES);
    let simp = s.bool();
    let solver = if big { gen_solver_big(s) } else { gen_solver_prog(s) };
    cx.desc(|| format!("{} {:?} {:?} {} simplify {}", c.show(), rule, fill, show_solver(&solver), simp));
    let mut none = solver;
    none.multithreading = None;
    let a = run(&c.is, &c.ic, rule, fill, CCW, simp, 0, none, false);
    cx.nontrivial(!a.is_empty());
    cx.label_if(c.is.iter().chain(&c.ic).map(|c| c.len()).sum::<usize>() > 4000, "over 4000 edges");
    for (mt, graph, what) in [(None, false, "repeated call"), (Some(1), false, "threads"), (Some(32768), true, "graph")] {
        let mut v = solver;
        v.multithreading = mt.map(|n| MultithreadOptions { par_sort_min_size: n });
        let b = run(&c.is, &c.ic, rule, fill, CCW, simp, 0, v, graph);
        differ(what, &b, &a)?;
    }
    Ok(())
}
fn repeat_small(s: &mut Src, cx: &mut Ctx) -> Result<(), String> { let c = GenCase::small(s, 4); repeat(s, cx, c, false) }
fn repeat_cloud(s: &mut Src, cx: &mut Ctx) -> Result<(), String> { let (lo, hi) = if s.chance(1, 20) { (500, 2500) } else { (10, 150) }; let c = GenCase::cloud(s, lo, hi); repeat(s, cx, c, lo == 500) }

/// /verif/plain: the library without its default features (no rayon), optimised, without debug assertions
struct Plain { child: std::process::Child, to: std::process::ChildStdin, from: std::io::BufReader<std::process::ChildStdout> }
impl Plain {
    fn path() -> std::path::PathBuf { std::env::var_os("VERIF_PLAIN").map(Into::into).unwrap_or_else(|| "/verif/target/plain/release/plain".into()) }
    fn start() -> Result<Plain, String> {
        let mut child = std::process::Command::new(Self::path()).stdin(std::process::Stdio::piped()).stdout(std::process::Stdio::piped()).spawn().map_err(|e| format!("{}: {}", Self::path().display(), e))?;
        let (to, from) = (child.stdin.take().unwrap(), std::io::BufReader::new(child.stdout.take().unwrap()));
        Ok(Plain { child, to, from })
    }
    fn ask(&mut self, tape: &[u64]) -> std::io::Result<String> {
        use std::io::{BufRead, Write};
        let mut l = tape.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(" ");
        l.push('\n');
        self.to.write_all(l.as_bytes())?;
        let mut r = String::new();
        self.from.read_line(&mut r)?;
        Ok(r.trim().to_string())
    }
}
impl Drop for Plain { fn drop(&mut self) { let _ = self.child.kill(); let _ = self.child.wait(); } }
thread_local! { static PLAIN: std::cell::RefCell<Option<Plain>> = const { std::cell::RefCell::new(None) }; }

fn other_build(s: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    // not built (check.py says so in the evidence): nothing is decided
    if !Plain::path().exists() { cx.label("no plain build"); return Ok(()); }
    let d = crate::digest::digest(s, &mut |d| cx.desc(|| d));
    cx.nontrivial(d[0].1 != crate::digest::empty());
    let mine: Vec<String> = d.iter().map(|(n, h)| format!("{}={:016x}", n, h)).collect();
    let got = PLAIN.with(|p| {
        let mut p = p.borrow_mut();
        if p.is_none() { *p = Some(Plain::start()?); }
        let r = p.as_mut().unwrap().ask(s.tape()).map_err(|e| e.to_string());
        if r.as_ref().map(|r| r.is_empty()).unwrap_or(true) { *p = None; }
        r
    })?;
    ensure!(!got.is_empty(), "the build without threads ended without an answer");
    ensure!(got != "panic", "the build without threads panics");
    let mine = mine.join(" ");
    if got != mine {
        let split = |t: &str| -> Vec<String> { t.split('=').flat_map(|x| x.splitn(2, ' ').map(String::from).collect::<Vec<_>>()).collect() };
        let (g, m) = (split(&got), split(&mine));
        let k = (0..g.len().max(m.len())).find(|&i| g.get(i) != m.get(i)).unwrap_or(1);
        return Err(format!("{} differs between the default build and the build without threads", m.get(k.saturating_sub(1)).cloned().unwrap_or_default()));
    }
    Ok(())
}

/// the documented presets of the solver, and what they compute
fn presets(s: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    let c = LatCase::small(s);
    let (fill, rule) = (*s.pick(&FILLS), *s.pick(&RULES));
    let (p, st) = (*s.pick(&PRECISIONS), *s.pick(&STRATEGIES));
    cx.desc(|| format!("{} {:?} {:?} precision {:?} strategy {:?}", c.show(), rule, fill, p, st));
    let base = run(&c.is, &c.ic, rule, fill, CCW, true, 0, sol(Strategy::List, None), false);
    cx.nontrivial(!base.is_empty());
    let is = |v: &Solver, st: Strategy, p: Precision, what: &str| -> Result<(), String> {
        ensure!(v.strategy == st && v.precision == p, "{} is {}, expected {:?} with precision {:?}", what, show_solver(v), st, p);
        ensure!(v.multithreading.map(|m| m.par_sort_min_size) == Some(MultithreadOptions::default().par_sort_min_size), "{} has multithreading {:?}", what, v.multithreading.map(|m| m.par_sort_min_size));
        Ok(())
    };
    let all: [(Solver, Strategy, Precision, &str); 7] = [
        (Solver::LIST, Strategy::List, Precision::HIGH, "Solver::LIST"),
        (Solver::TREE, Strategy::Tree, Precision::HIGH, "Solver::TREE"),
        (Solver::FRAG, Strategy::Frag, Precision::HIGH, "Solver::FRAG"),
        (Solver::AUTO, Strategy::Auto, Precision::HIGH, "Solver::AUTO"),
        (Solver::default(), Strategy::Auto, Precision::HIGH, "Solver::default()"),
        (Solver::with_precision(p), Strategy::Auto, p, "Solver::with_precision"),
        (Solver::with_strategy_and_precision(st, p), st, p, "Solver::with_strategy_and_precision"),
    ];
    for f in FILLS { ensure!(f.to_string() == format!("{:?}", f), "{:?} displays as {}", f, f); }
    for r in RULES { ensure!(r.to_string() == format!("{:?}", r), "{:?} displays as {}", r, r); }
    for (v, st, p, what) in all {
        is(&v, st, p, what)?;
        differ(what, &run(&c.is, &c.ic, rule, fill, CCW, true, 0, v, s.bool()), &base)?;
    }
    Ok(())
}

/// calls made at the same time on several threads, and one graph queried by all of them
fn concurrent(s: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    let n = s.usize(2, 5);
    type One = (Vec<IntContour>, Vec<IntContour>, OverlayRule, FillRule, bool, Solver);
    let jobs: Vec<One> = (0..n).map(|_| { let c = GenCase::small(s, 4); (c.is, c.ic, *s.pick(&RULES), *s.pick(&FILLS), s.bool(), gen_solver_prog(s)) }).collect();
    cx.desc(|| jobs.iter().map(|j| format!("subject {} clip {} {:?} {:?} simplify {} {}", show_i(&j.0), show_i(&j.1), j.2, j.3, j.4, show_solver(&j.5))).collect::<Vec<_>>().join(" | "));
    let shared = build(&jobs[0].0, &jobs[0].1).into_graph_with_solver(jobs[0].3, jobs[0].5);
    let own = |j: &One| run(&j.0, &j.1, j.2, j.3, CCW, j.4, 0, j.5, false);
    let ask = |j: &One| shared.extract_shapes_custom(j.2, CCW, j.4, 0);
    let alone: Vec<_> = jobs.iter().map(|j| (own(j), ask(j))).collect();
    cx.nontrivial(alone.iter().any(|a| !a.0.is_empty()));
    let together: Vec<_> = std::thread::scope(|sc| {
        let hs: Vec<_> = jobs.iter().map(|j| sc.spawn(|| (own(j), ask(j)))).collect();
        hs.into_iter().map(|h| h.join()).collect()
    });
    for (i, (t, a)) in together.into_iter().zip(&alone).enumerate() {
        let t = t.map_err(|_| format!("call {} panics when other threads call the library too", i))?;
        differ("a call made while other threads call the library", &t.0, &a.0)?;
        differ("a query of a graph that other threads query too", &t.1, &a.1)?;
    }
    Ok(())
}

pub fn property() -> Property {
    Property { id: "C03", components: vec![
        Component { name: "lattice_small", quick: 20_000, thorough: 1_000_000, rule: "1-4 + 0-4 lattice contours: every strategy x threading x direct/graph, short calls, Simplify and both vector extractions must return identical output; non-trivial: result not empty", run: lattice_small },
        Component { name: "lattice_medium", quick: 3_000, thorough: 150_000, rule: "as above with up to 16+16 contours; non-trivial: result not empty", run: lattice_medium },
        Component { name: "lattice_large", quick: 60, thorough: 2_000, rule: "400-6400 contours crossing the 4000/8000/16000 thresholds; non-trivial: result not empty", run: lattice_large },
        Component { name: "strings_small", quick: 15_000, thorough: 800_000, rule: "slicing and clipping under every strategy x threading and through the convenience calls, identical output; non-trivial: pieces and clipped paths not empty", run: strings_small },
        Component { name: "strings_medium", quick: 2_500, thorough: 100_000, rule: "as above with up to 16+16 contours; non-trivial: pieces and clipped paths not empty", run: strings_medium },
        Component { name: "repeat_small", quick: 40_000, thorough: 2_000_000, rule: "arbitrary coordinates: repeated call, other threading and the graph route give identical output under one strategy; non-trivial: result not empty", run: repeat_small },
        Component { name: "other_build", quick: 6_000, thorough: 150_000, rule: "every operation on arbitrary, lattice and large inputs, integer and float: identical output from the library built without default features (no threads, no debug assertions); non-trivial: the boolean result is not empty", run: other_build },
        Component { name: "presets", quick: 2_000, thorough: 60_000, rule: "the named solvers carry the documented strategy and precision and compute the same result; non-trivial: result not empty", run: presets },
        Component { name: "concurrent", quick: 2_000, thorough: 100_000, rule: "2-5 operations on arbitrary coordinates, alone and at the same time on several threads, which also query one graph: identical output; non-trivial: some result not empty", run: concurrent },
        Component { name: "repeat_cloud", quick: 500, thorough: 30_000, rule: "as above with 10-2500 polygons per side; non-trivial: result not empty", run: repeat_cloud },
    ] }
}
