use i_overlay::core::fill_rule::FillRule;
use i_overlay::core::overlay::{ContourDirection, Overlay, ShapeType};
use i_overlay::core::overlay_rule::OverlayRule;
use i_overlay::core::solver::{MultithreadOptions, Precision, Solver, Strategy};
use i_overlay::i_float::int::point::IntPoint;
use i_overlay::i_shape::int::shape::{IntContour, IntShapes};
use kit::geo::Pt;
use kit::Src;

pub const PRECISIONS: [Precision; 6] = [Precision::HIGH, Precision::ABSOLUTE, Precision::MEDIUM_HIGH, Precision::MEDIUM, Precision::MEDIUM_LOW, Precision::LOW];
pub const STRATEGIES: [Strategy; 4] = [Strategy::Auto, Strategy::List, Strategy::Tree, Strategy::Frag];

pub fn gen_solver(s: &mut Src) -> Solver {
    let strategy = *s.pick(&STRATEGIES);
    let precision = *s.pick(&PRECISIONS);
    let multithreading = match s.raw(3) {
        0 => Some(MultithreadOptions { par_sort_min_size: 32768 }),
        1 => None,
        _ => Some(MultithreadOptions { par_sort_min_size: s.usize(1, 40) }),
    };
    Solver { strategy, precision, multithreading }
}
pub fn gen_solver_high(s: &mut Src) -> Solver { let mut v = gen_solver(s); v.precision = Precision::HIGH; v }
pub fn show_solver(s: &Solver) -> String { format!("{:?}/p{}+{}/mt{:?}", s.strategy, s.precision.start, s.precision.progression, s.multithreading.map(|m| m.par_sort_min_size)) }

pub fn pt(p: &IntPoint) -> Pt { (p.x as i64, p.y as i64) }
pub fn ip(p: Pt) -> IntPoint { IntPoint::new(p.0 as i32, p.1 as i32) }
pub fn to_pts(c: &[IntPoint]) -> Vec<Pt> { c.iter().map(pt).collect() }
pub fn to_int(c: &[Pt]) -> IntContour { c.iter().map(|&p| ip(p)).collect() }
pub fn to_ints(cs: &[Vec<Pt>]) -> Vec<IntContour> { cs.iter().map(|c| to_int(c)).collect() }
pub fn flat(shapes: &IntShapes) -> Vec<Vec<Pt>> { shapes.iter().flat_map(|s| s.iter().map(|c| to_pts(c))).collect() }
pub fn shapes_pts(shapes: &IntShapes) -> Vec<Vec<Vec<Pt>>> { shapes.iter().map(|s| s.iter().map(|c| to_pts(c)).collect()).collect() }

pub fn build(subj: &[IntContour], clip: &[IntContour]) -> Overlay {
    let mut o = Overlay::new(subj.iter().chain(clip).map(|c| c.len()).sum());
    o.add_contours(subj, ShapeType::Subject);
    o.add_contours(clip, ShapeType::Clip);
    o
}
#[allow(clippy::too_many_arguments)]
pub fn overlay(subj: &[IntContour], clip: &[IntContour], rule: OverlayRule, fill: FillRule, dir: ContourDirection, simp: bool, min_area: usize, solver: Solver) -> IntShapes {
    build(subj, clip).overlay_custom(rule, fill, dir, simp, min_area, solver)
}
pub const CCW: ContourDirection = ContourDirection::CounterClockwise;
pub const CW: ContourDirection = ContourDirection::Clockwise;

pub fn show_i(cs: &[IntContour]) -> String {
    let mut s = String::from("[");
    for c in cs { s.push('['); for p in c { s.push_str(&format!("({},{})", p.x, p.y)); } s.push(']'); }
    s.push(']');
    s
}
pub fn show_shapes(cs: &IntShapes) -> String { cs.iter().map(|s| show_i(s)).collect::<Vec<_>>().join(" ") }
/// canonical form: each contour starts at its least point; contours and shapes sorted (first contour kept first)
pub fn canon(shapes: &IntShapes) -> Vec<Vec<Vec<Pt>>> {
    let mut v: Vec<Vec<Vec<Pt>>> = shapes.iter().map(|s| {
        let mut cs: Vec<Vec<Pt>> = s.iter().map(|c| rot(&to_pts(c))).collect();
        if cs.len() > 1 { cs[1..].sort(); }
        cs
    }).collect();
    v.sort();
    v
}
pub fn rot(c: &[Pt]) -> Vec<Pt> {
    if c.is_empty() { return vec![]; }
    // least rotation (contours may visit a point twice)
    let n = c.len();
    let m = c.iter().min().unwrap();
    let mut best: Option<Vec<Pt>> = None;
    for k in (0..n).filter(|&k| c[k] == *m) {
        let r: Vec<Pt> = (0..n).map(|i| c[(k + i) % n]).collect();
        if best.as_ref().map(|b| r < *b).unwrap_or(true) { best = Some(r); }
    }
    best.unwrap()
}
