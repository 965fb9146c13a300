use crate::common::*;
use crate::lat::*;
use crate::structure::*;
use crate::util::*;
use i_overlay::core::solver::Solver;
use kit::{Component, Ctx, Property, Src};

fn lattice(s: &mut Src, cx: &mut Ctx, c: LatCase, rules: usize) -> Result<(), String> {
    let fill = *s.pick(&FILLS);
    let solver = gen_solver(s);
    let dir = if s.bool() { CCW } else { CW };
    let simp = !s.chance(1, 4);
    let (fs, fc) = (c.fill_subj(fill), c.fill_clip(fill));
    let first = s.usize(0, 6);
    cx.desc(|| format!("{} {:?} {:?} {} {:?} simplify {}", c.show(), RULES[first], fill, show_solver(&solver), dir, simp));
    let g = build(&c.is, &c.ic).into_graph_with_solver(fill, solver);
    for k in 0..rules {
        let rule = RULES[(first + k) % 7];
        let out = g.extract_shapes_custom(rule, dir, simp, 0);
        let want = combine(&fs, &fc, rule);
        cx.nontrivial(out.len() > 1 || out.iter().any(|s| s.len() > 1));
        cx.label_if(out.iter().any(|s| s.len() > 1), "result with a hole");
        cx.label_if(out.len() > 1, "several shapes");
        let (lab, n) = components(c.w as usize, c.h as usize, &want, None);
        let r = check_contours(&out, dir, simp).and_then(|_| decode_shapes(&c.q, &out)).and_then(|d| {
            if d.iter().flatten().any(|c| max_visits(c) > 1) { cx.label("contour touching itself"); }
            check_shapes(c.w, c.h, &d, &lab, n, c.ccw(dir)).and_then(|_| check_boundary(c.w, c.h, &d, &want, c.ccw(dir)))
        });
        if let Err(e) = r { return Err(format!("{:?}: {}; output {}", rule, e, show_shapes(&out))); }
    }
    Ok(())
}
fn lattice_small(s: &mut Src, cx: &mut Ctx) -> Result<(), String> { let c = LatCase::small(s); lattice(s, cx, c, 3) }
fn lattice_medium(s: &mut Src, cx: &mut Ctx) -> Result<(), String> { let c = LatCase::medium(s); lattice(s, cx, c, 1) }

fn general(s: &mut Src, cx: &mut Ctx, c: GenCase, probes: usize, big: bool) -> Result<(), String> {
    let fill = *s.pick(&FILLS);
    let solver = if s.chance(1, 3) { Solver::AUTO } else if big { gen_solver_big(s) } else { gen_solver_prog(s) };
    let dir = if s.bool() { CCW } else { CW };
    let simp = !s.chance(1, 3);
    let rule = *s.pick(&RULES);
    cx.desc(|| format!("{} {:?} {:?} {} {:?} simplify {}", c.show(), rule, fill, show_solver(&solver), dir, simp));
    let out = overlay(&c.is, &c.ic, rule, fill, dir, simp, 0, solver);
    cx.nontrivial(out.len() > 1 || out.iter().any(|s| s.len() > 1));
    cx.label_if(out.iter().any(|s| s.len() > 1), "result with a hole");
    cx.label_if(out.len() > 1, "several shapes");
    cx.label_if(c.e > 1_000_000, "extent above 10^6");
    check_contours(&out, dir, simp)?;
    check_planar(&out, simp)?;
    check_holes(&out)?;
    check_cover(s, &out, dir, probes)
}
fn general_small(s: &mut Src, cx: &mut Ctx) -> Result<(), String> { let c = GenCase::small(s, 4); general(s, cx, c, 12, false) }
fn cloud_mid(s: &mut Src, cx: &mut Ctx) -> Result<(), String> { let c = GenCase::cloud(s, 10, 80); general(s, cx, c, 20, false) }
fn cloud_large(s: &mut Src, cx: &mut Ctx) -> Result<(), String> { let c = GenCase::cloud(s, 500, 2500); general(s, cx, c, 20, true) }

pub fn property() -> Property {
    Property { id: "C02", components: vec![
        Component { name: "lattice_small", quick: 80_000, thorough: 4_000_000, rule: "1-4 subject and 0-4 clip lattice contours, 3 rules of one graph; each contour encloses one connected area, holes inside their own outer, no connected part of the region divided between shapes; non-trivial: several contours returned", run: lattice_small },
        Component { name: "lattice_medium", quick: 8_000, thorough: 400_000, rule: "as above, up to 16+16 contours on up to 24x24 blocks; non-trivial: several contours returned", run: lattice_medium },
        Component { name: "general_small", quick: 150_000, thorough: 6_000_000, rule: "1-4 + 0-4 contours at extents 2..2^30 with rounded crossings; exact planarity of all result edges, orientation, hole containment, winding 0/1 at quarter-unit probes next to edges; non-trivial: several contours returned", run: general_small },
        Component { name: "cloud_mid", quick: 2_500, thorough: 100_000, rule: "as general_small with 10-80 small polygons per side; non-trivial: several contours returned", run: cloud_mid },
        Component { name: "cloud_large", quick: 100, thorough: 4_000, rule: "as general_small with 500-2500 small polygons per side; non-trivial: several contours returned", run: cloud_large },
    ] }
}
