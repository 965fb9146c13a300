use crate::common::*;
use crate::lat::*;
use crate::structure::*;
use crate::util::*;
use i_overlay::core::fill_rule::FillRule;
use i_overlay::core::overlay_rule::OverlayRule;
use i_overlay::core::overlay::ContourDirection;
use i_overlay::core::simplify::Simplify;
use i_overlay::core::solver::Solver;
use i_overlay::i_shape::int::shape::{IntContour, IntShapes};
use kit::geo::*;
use kit::{ensure, Component, Ctx, Property, Src};
use std::collections::BTreeMap;

struct Q { is: Vec<IntContour>, ic: Vec<IntContour>, rule: OverlayRule, fill: FillRule, solver: Solver, desc: String }
impl Q {
    fn gen(s: &mut Src) -> Q {
        let (is, ic, desc) = match s.weighted(&[4, 3, 4, 1]) {
            0 => { let c = LatCase::small(s); let d = c.show(); (c.is, c.ic, d) }
            1 => { let c = LatCase::medium(s); let d = c.show(); (c.is, c.ic, d) }
            2 => { let c = GenCase::small(s, 4); let d = c.show(); (c.is, c.ic, d) }
            _ => { let c = GenCase::cloud(s, 5, 60); let d = c.show(); (c.is, c.ic, d) }
        };
        Q { is, ic, rule: *s.pick(&RULES), fill: *s.pick(&FILLS), solver: gen_solver_prog(s), desc }
    }
    fn show(&self) -> String { format!("{} {:?} {:?} {}", self.desc, self.rule, self.fill, show_solver(&self.solver)) }
    /// route 0 direct, 1 graph; 2 the simplify helper for the subject alone
    fn run(&self, route: u64, dir: ContourDirection, simp: bool, min: usize) -> IntShapes {
        match route {
            0 => build(&self.is, &self.ic).overlay_custom(self.rule, self.fill, dir, simp, min, self.solver),
            1 => build(&self.is, &self.ic).into_graph_with_solver(self.fill, self.solver).extract_shapes_custom(self.rule, dir, simp, min),
            2 => self.is[..].simplify(self.fill, dir, simp, min),
            _ => vec![self.is.clone(), vec![]].as_slice().simplify(self.fill, dir, simp, min),
        }
    }
}
fn a2(c: &IntContour) -> i128 { area2(&to_pts(c)) }
fn check_dirs(o: &IntShapes, dir: ContourDirection) -> Result<(), String> {
    for sh in o { for (k, c) in sh.iter().enumerate() {
        let a = a2(c);
        ensure!(if (k == 0) == (dir == CCW) { a > 0 } else { a < 0 }, "{} contour with signed area {}/2 under main direction {:?}: {:?}", if k == 0 { "outer" } else { "hole" }, a, dir, to_pts(c));
    } }
    Ok(())
}
fn directed(o: &IntShapes, rev: bool) -> BTreeMap<(Pt, Pt), usize> {
    let mut m = BTreeMap::new();
    for c in o.iter().flatten() { for i in 0..c.len() { let (a, b) = (pt(&c[i]), pt(&c[(i + 1) % c.len()])); *m.entry(if rev { (b, a) } else { (a, b) }).or_insert(0) += 1; } }
    m
}
fn direction(s: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    let q = Q::gen(s);
    let route = s.raw(4);
    let simp = s.bool();
    let min = if s.chance(1, 3) { s.usize(0, 200) } else { 0 };
    cx.desc(|| format!("{} route {} simplify {} min_area {}", q.show(), route, simp, min));
    let (a, b) = (q.run(route, CCW, simp, min), q.run(route, CW, simp, min));
    cx.nontrivial(a.iter().any(|s| s.len() > 1) || a.len() > 1);
    check_dirs(&a, CCW)?;
    check_dirs(&b, CW)?;
    if !simp && min == 0 { ensure!(directed(&a, false) == directed(&b, true), "the two main directions do not give the same edges reversed: {} versus {}", show_shapes(&a), show_shapes(&b)); }
    if min == 0 {
        let (x, y): (i128, i128) = (a.iter().flatten().map(a2).sum(), b.iter().flatten().map(a2).sum());
        ensure!(x == -y, "net area (doubled) {} counter-clockwise, {} clockwise", x, y);
    }
    if min == 0 && !touching(&a) { ensure!(a.len() == b.len() && a.iter().flatten().count() == b.iter().flatten().count(), "the number of shapes or contours depends on the main direction although nothing touches: {} versus {}", show_shapes(&a), show_shapes(&b)); }
    Ok(())
}
fn simplified(s: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    let q = Q::gen(s);
    let route = s.raw(4);
    let dir = if s.bool() { CCW } else { CW };
    let min = if s.chance(1, 3) { s.usize(0, 200) } else { 0 };
    cx.desc(|| format!("{} route {} {:?} min_area {}", q.show(), route, dir, min));
    let (raw, simple) = (q.run(route, dir, false, min), q.run(route, dir, true, min));
    let mut want: Vec<Vec<Pt>> = raw.iter().flatten().map(|c| rot(&reference_simple(&to_pts(c)))).collect();
    let mut got: Vec<Vec<Pt>> = simple.iter().flatten().map(|c| rot(&to_pts(c))).collect();
    cx.nontrivial(raw.iter().flatten().map(|c| c.len()).sum::<usize>() > simple.iter().flatten().map(|c| c.len()).sum::<usize>());
    want.sort();
    got.sort();
    ensure!(want == got, "simplified contours {:?} are not the plain contours without their straight points {:?}", got, want);
    ensure!(raw.len() == simple.len(), "{} shapes plain, {} simplified", raw.len(), simple.len());
    for c in raw.iter().flatten() { for i in 0..c.len() { ensure!(c[i] != c[(i + 1) % c.len()], "repeated point {:?} in {:?}", c[i], to_pts(c)); } }
    Ok(())
}
fn min_area(s: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    let q = Q::gen(s);
    let route = s.raw(4);
    let dir = if s.bool() { CCW } else { CW };
    let simp = s.bool();
    let base = q.run(route, dir, simp, 0);
    let areas: Vec<i128> = base.iter().flatten().map(|c| a2(c).abs() / 2).collect();
    let min = if areas.is_empty() || s.chance(1, 6) { s.usize(0, 1000) } else { (*s.pick(&areas) + s.zrange(-1, 1) as i128).max(0) as usize };
    cx.desc(|| format!("{} route {} {:?} simplify {} min_area {}", q.show(), route, dir, simp, min));
    let got = q.run(route, dir, simp, min);
    let keep = |c: &IntContour| a2(c).abs() / 2 >= min as i128;
    let want: IntShapes = base.iter().filter(|s| keep(&s[0])).map(|s| s.iter().filter(|c| keep(c)).cloned().collect()).collect();
    let (n0, n1) = (areas.len(), want.iter().flatten().count());
    cx.nontrivial(n1 < n0);
    cx.label_if(n1 < n0 && n1 > 0, "some kept, some left out");
    cx.label_if(areas.contains(&(min as i128)), "threshold equal to a contour's area");
    ensure!(canon(&got) == canon(&want), "min_area {}: got {}, expected {} (contour areas without threshold {:?})", min, show_shapes(&got), show_shapes(&want), areas);
    // the same threshold through another route
    if route < 2 { let other = q.run(1 - route, dir, simp, min); ensure!(canon(&other) == canon(&want), "min_area {} through route {}: got {}", min, 1 - route, show_shapes(&other)); }
    Ok(())
}
pub fn property() -> Property {
    Property { id: "C05", components: vec![
        Component { name: "direction", quick: 50_000, thorough: 2_500_000, rule: "both main directions of one query (direct, graph, simplify helpers; lattice and arbitrary coordinates): orientations as asked, the same edges reversed; non-trivial: several contours", run: direction },
        Component { name: "simplified", quick: 50_000, thorough: 2_500_000, rule: "contours with simplification against the plain ones reduced by a reference that drops straight points; non-trivial: some point was dropped", run: simplified },
        Component { name: "min_area", quick: 50_000, thorough: 2_500_000, rule: "thresholds at, just below and just above the area of some contour: exactly the contours below it are missing; non-trivial: some contour left out", run: min_area },
    ] }
}
