use crate::segs::*;
use i_overlay::verif_near::nearest;
use kit::geo::Pt;
use kit::{ensure, Component, Ctx, Src};

fn half(d: Pt) -> i32 { if d.1 > 0 || d.1 == 0 && d.0 > 0 { 0 } else { 1 } }
fn cr(a: Pt, b: Pt) -> i128 { a.0 as i128 * b.1 as i128 - a.1 as i128 * b.0 as i128 }
/// counterclockwise order of directions
fn cmp(a: Pt, b: Pt) -> std::cmp::Ordering { half(a).cmp(&half(b)).then(0i128.cmp(&cr(a, b))) }
fn run(s: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    let e = extent(s);
    let c = rp(s, e);
    let n = s.usize(2, 12);
    let mut dirs: Vec<Pt> = vec![];
    for _ in 0..n * 3 {
        if dirs.len() > n { break; }
        let d = if !dirs.is_empty() && s.chance(1, 2) {
            let b = *s.pick(&dirs);
            match s.raw(4) {
                0 => (-b.0, -b.1),
                1 => { let r = *s.pick(&[1i64, 3]); (b.0 + s.zrange(-r, r), b.1 + s.zrange(-r, r)) }
                2 => { let r = *s.pick(&[1i64, 3]); (-b.0 + s.zrange(-r, r), -b.1 + s.zrange(-r, r)) }
                _ => (-b.1, b.0),
            }
        } else { let p = rp(s, e); (p.0 - c.0, p.1 - c.1) };
        let p = (c.0 + d.0, c.1 + d.1);
        if d == (0, 0) || p.0.abs() > MAXC || p.1.abs() > MAXC { continue; }
        if dirs.iter().any(|&b| cmp(b, d) == std::cmp::Ordering::Equal) { continue; }
        dirs.push(d);
    }
    if dirs.len() < 2 { return Ok(()); }
    cx.nontrivial(dirs.len() > 3);
    let a = dirs[0];
    let clockwise = s.bool();
    let pts: Vec<_> = dirs.iter().map(|d| ip((c.0 + d.0, c.1 + d.1))).collect();
    cx.desc(|| format!("centre {:?} from {:?} clockwise {} among {:?}", c, a, clockwise, &dirs[1..]));
    let got = nearest(ip(c), pts[0], &pts[1..], clockwise) + 1;
    let mut order = dirs.clone();
    order.sort_by(|x, y| cmp(*x, *y));
    let k = order.iter().position(|d| *d == a).unwrap();
    let m = order.len();
    let want = order[if clockwise { (k + m - 1) % m } else { (k + 1) % m }];
    ensure!(dirs[got] == want, "chose {:?}, the first direction is {:?}", dirs[got], want);
    Ok(())
}
pub fn components() -> Vec<Component> {
    vec![Component { name: "nearest", quick: 2_000_000, thorough: 150_000_000, rule: "2 to 13 different directions around a node (opposite, perpendicular, nearly equal, extents 1..2^30), turning either way, against an exact angular sort; non-trivial: at least four directions", run }]
}
