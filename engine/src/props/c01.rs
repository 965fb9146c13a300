use crate::common::*;
use crate::gen;
use crate::lat::*;
use crate::util::*;
use i_overlay::core::fill_rule::FillRule;
use i_overlay::core::overlay_rule::OverlayRule;
use i_overlay::core::solver::Solver;
use i_overlay::i_shape::int::shape::IntShapes;
use kit::geo::*;
use kit::{ensure, Component, Ctx, Property, Src};

/// one of the routes an integer boolean can take
pub fn run_route(c_is: &[i_overlay::i_shape::int::shape::IntContour], c_ic: &[i_overlay::i_shape::int::shape::IntContour], rule: OverlayRule, fill: FillRule, solver: Solver, route: u64, simp: bool, dir: i_overlay::core::overlay::ContourDirection) -> IntShapes {
    match route {
        0 => build(c_is, c_ic).overlay_custom(rule, fill, dir, simp, 0, solver),
        1 => build(c_is, c_ic).into_graph_with_solver(fill, solver).extract_shapes_custom(rule, dir, simp, 0),
        _ => build(c_is, c_ic).overlay_custom(rule, fill, dir, simp, 0, solver),
    }
}

fn lattice_all_rules(s: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    let c = LatCase::small(s);
    let fill = *s.pick(&FILLS);
    let solver = gen_solver(s);
    let dir = if s.bool() { CCW } else { CW };
    let simp = !s.chance(1, 4);
    let route = s.raw(2);
    cx.desc(|| format!("{} {:?} all rules, {}, {:?}, simplify {}, {}; lattice {:?} {:?}", c.show(), fill, show_solver(&solver), dir, simp, if route == 1 { "graph" } else { "direct" }, c.subj, c.clip));
    let (fs, fc) = (c.fill_subj(fill), c.fill_clip(fill));
    let (ns, nc) = (count(&fs), count(&fc));
    cx.nontrivial(ns > 0);
    cx.label_if(ns > 0 && nc > 0 && count(&combine(&fs, &fc, OverlayRule::Intersect)) > 0, "subject and clip overlap");
    cx.label_if(c.q.det() < 0, "mirrored map");
    cx.label_if(c.q.a.abs().max(c.q.b.abs()) > 1_000_000, "coordinates above 10^6");
    cx.label_if(c.subj.iter().chain(&c.clip).any(|p| max_visits(p) > 1), "self-touching contour");
    let graph = if route == 1 { Some(build(&c.is, &c.ic).into_graph_with_solver(fill, solver)) } else { None };
    for rule in RULES {
        let want = combine(&fs, &fc, rule);
        let out = match &graph {
            Some(g) => g.extract_shapes_custom(rule, dir, simp, 0),
            None => build(&c.is, &c.ic).overlay_custom(rule, fill, dir, simp, 0, solver),
        };
        let r = decode_shapes(&c.q, &out).and_then(|d| check_boundary(c.w, c.h, &d, &want, c.ccw(dir)));
        if let Err(e) = r { return Err(format!("{:?}: {}; output {}", rule, e, show_shapes(&out))); }
    }
    Ok(())
}

fn lattice_one(s: &mut Src, cx: &mut Ctx, c: LatCase, route: u64, solver: Solver) -> Result<(), String> {
    let fill = *s.pick(&FILLS);
    let rule = *s.pick(&RULES);
    let simp = s.bool();
    cx.desc(|| format!("{} {:?} {:?} {} simplify {} {}", c.show(), rule, fill, show_solver(&solver), simp, if route == 1 { "graph" } else { "direct" }));
    let want = combine(&c.fill_subj(fill), &c.fill_clip(fill), rule);
    cx.nontrivial(count(&want) > 0);
    let n = c.edges();
    cx.label_if(n >= 4000, "4000 edges or more");
    cx.label_if(n >= 16000, "16000 edges or more");
    let out = run_route(&c.is, &c.ic, rule, fill, solver, route, simp, CCW);
    check_boundary(c.w, c.h, &decode_shapes(&c.q, &out)?, &want, c.ccw(CCW))
}
fn lattice_medium(s: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    let c = LatCase::medium(s);
    let (solver, route) = (gen_solver(s), s.raw(2));
    lattice_one(s, cx, c, route, solver)
}
fn lattice_large(s: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    let c = LatCase::large(s, 3200);
    let solver = if s.bool() { Solver::AUTO } else { gen_solver(s) };
    let route = s.raw(2);
    lattice_one(s, cx, c, route, solver)
}
fn lattice_huge(s: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    let c = LatCase::huge(s);
    let route = s.raw(2);
    lattice_one(s, cx, c, route, Solver::AUTO)
}
fn deep(s: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    let c = LatCase::deep(s);
    let (solver, route) = (gen_solver(s), s.raw(2));
    cx.label_if(c.is.len() + c.ic.len() > 32_000, "over 32000 contours");
    lattice_one(s, cx, c, route, solver)
}

fn general(s: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    let c = GenCase::small(s, 4);
    let fill = *s.pick(&FILLS);
    let solver = gen_solver_prog(s);
    let route = s.raw(2);
    let rule = *s.pick(&RULES);
    cx.desc(|| format!("{} {:?} {:?} {}", c.show(), rule, fill, show_solver(&solver)));
    let out = run_route(&c.is, &c.ic, rule, fill, solver, route, true, CCW);
    let cs = flat(&out);
    cx.nontrivial(!cs.is_empty());
    cx.label_if(c.e > 1_000_000, "extent above 10^6");
    let all = c.all();
    let tol = 8.0;
    for k in &cs { for &p in k { let d = dist_edges(&all, p, true); ensure!(d <= tol, "output point {:?} lies {:.1} units from every input edge", p, d); } }
    let refs: Vec<&Vec<Pt>> = all.iter().collect();
    let mut probes = 0;
    for _ in 0..24 {
        let p = gen::gen_probe(s, c.e, &refs, 10);
        if dist_edges(&all, p, true) < tol { continue; }
        let (Some(a), Some(b)) = (winding_all(&c.subj, p), winding_all(&c.clip, p)) else { continue };
        let want = ruled(filled(a, fill), filled(b, fill), rule);
        let got = winding_all(&cs, p);
        probes += 1;
        ensure!(got == Some(want as i32), "at {:?} (winding subject {} clip {}): result winding {:?}, expected {}", p, a, b, got, want as i32);
    }
    cx.label_if(probes > 0, "probed away from edges");
    Ok(())
}

fn cloud(s: &mut Src, cx: &mut Ctx, lo: usize, hi: usize) -> Result<(), String> {
    let c = GenCase::cloud(s, lo, hi);
    let fill = *s.pick(&FILLS);
    let rule = *s.pick(&RULES);
    let solver = if s.bool() { Solver::AUTO } else if hi > 500 { gen_solver_big(s) } else { gen_solver_prog(s) };
    let route = s.raw(2);
    cx.desc(|| format!("{} {:?} {:?} {}", c.show(), rule, fill, show_solver(&solver)));
    let out = run_route(&c.is, &c.ic, rule, fill, solver, route, true, CCW);
    let cs = flat(&out);
    cx.nontrivial(!cs.is_empty());
    let all = c.all();
    let (gs, gc, go, ga) = (EdgeGrid::new(&c.subj), EdgeGrid::new(&c.clip), EdgeGrid::new(&cs), EdgeGrid::new(&all));
    let tol = 12.0;
    for k in &cs { for &p in k { ensure!(ga.near(p, tol), "output point {:?} lies over {} units from every input edge", p, tol); } }
    let refs: Vec<&Vec<Pt>> = all.iter().collect();
    let mut k = 0;
    for _ in 0..400 {
        let p = gen::gen_probe(s, c.e, &refs, 20);
        if ga.near(p, tol) { continue; }
        let (Some(a), Some(b)) = (gs.winding(p), gc.winding(p)) else { continue };
        let want = ruled(filled(a, fill), filled(b, fill), rule);
        let got = go.winding(p);
        k += 1;
        ensure!(got == Some(want as i32), "at {:?} (winding subject {} clip {}): result winding {:?}, expected {}", p, a, b, got, want as i32);
    }
    cx.label_if(k > 50, "over 50 probes");
    Ok(())
}
fn cloud_mid(s: &mut Src, cx: &mut Ctx) -> Result<(), String> { cloud(s, cx, 10, 150) }
fn cloud_large(s: &mut Src, cx: &mut Ctx) -> Result<(), String> { cloud(s, cx, 500, 3500) }

pub fn property() -> Property {
    Property { id: "C01", components: vec![
        Component { name: "lattice_all_rules", quick: 60_000, thorough: 3_000_000, rule: "1-4 subject and 0-4 clip octilinear contours on a grid of at most 8x8 blocks under an integer affine map, all 7 rules, exact directed boundary compared; non-trivial: the subject fills something", run: lattice_all_rules },
        Component { name: "lattice_medium", quick: 12_000, thorough: 600_000, rule: "as above with up to 16+16 contours on up to 24x24 blocks, one rule; non-trivial: expected region not empty", run: lattice_medium },
        Component { name: "lattice_large", quick: 60, thorough: 2_000, rule: "400-6400 contours on 50-110 blocks (crosses the strategy thresholds), exact boundary; non-trivial: expected region not empty", run: lattice_large },
        Component { name: "lattice_huge", quick: 3, thorough: 60, rule: "15,000-60,000 small contours on 180-300 blocks, exact boundary; non-trivial: expected region not empty", run: lattice_huge },
        Component { name: "deep", quick: 160, thorough: 5_000, rule: "contours lying 127 to 65538 times over themselves, exact boundary; non-trivial: expected region not empty", run: deep },
        Component { name: "general", quick: 150_000, thorough: 6_000_000, rule: "stars, random polygons, slivers, rectangles and near copies at extents 2..2^30; result vertices within 8 units of input edges and exact winding numbers at probe points farther than that; non-trivial: result not empty", run: general },
        Component { name: "cloud_mid", quick: 4_000, thorough: 150_000, rule: "10-150 random small polygons per side, as general with 400 probes; non-trivial: result not empty", run: cloud_mid },
        Component { name: "cloud_large", quick: 40, thorough: 1_200, rule: "500-3500 random small polygons per side, as general with 400 probes; non-trivial: result not empty", run: cloud_large },
    ] }
}
