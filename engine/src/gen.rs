//! Contours at arbitrary integer coordinates (crossings need rounding).
use crate::lat::MAXC;
use kit::geo::Pt;
use kit::{Rng, Src};

/// magnitude classes: tiny grids (dense coincidences) up to the full coordinate range
pub fn gen_extent(s: &mut Src) -> i64 {
    match s.weighted(&[2, 3, 3, 3, 2, 2]) {
        0 => s.range(2, 12),
        1 => s.range(10, 200),
        2 => s.range(100, 20_000),
        3 => s.range(10_000, 10_000_000),
        4 => s.range(10_000_000, MAXC - 1),
        _ => MAXC - 1,
    }
}
pub fn rp(s: &mut Src, e: i64) -> Pt { (s.zrange(-e, e), s.zrange(-e, e)) }
fn clampp(p: Pt, e: i64) -> Pt { (p.0.clamp(-e, e), p.1.clamp(-e, e)) }

/// star-shaped polygon around a centre
pub fn gen_star(s: &mut Src, e: i64) -> Vec<Pt> {
    let c = rp(s, e * 3 / 4);
    let n = s.usize(3, 9);
    let rmax = (e - c.0.abs().max(c.1.abs())).max(1) as f64;
    let r0 = rmax * (0.05 + 0.95 * s.unit());
    let ph = s.unit() * 6.283185;
    let mut v: Vec<Pt> = (0..n).map(|i| {
        let a = ph + 6.283185307 * (i as f64 + 0.8 * s.unit()) / n as f64;
        let r = r0 * (0.2 + 0.8 * s.unit());
        clampp(((c.0 as f64 + r * a.cos()).round() as i64, (c.1 as f64 + r * a.sin()).round() as i64), e)
    }).collect();
    if s.bool() { v.reverse(); }
    v
}
pub fn gen_random_poly(s: &mut Src, e: i64) -> Vec<Pt> { let n = s.usize(3, 7); (0..n).map(|_| rp(s, e)).collect() }
/// thin quadrilateral: long edges at a tiny angle to one another
pub fn gen_sliver(s: &mut Src, e: i64) -> Vec<Pt> {
    let a = rp(s, e);
    let b = rp(s, e);
    let j = 1i64 << s.range(0, 6);
    let d = |s: &mut Src, p: Pt| clampp((p.0 + s.zrange(-j, j), p.1 + s.zrange(-j, j)), e);
    let (c, f) = (d(s, b), d(s, a));
    vec![a, b, c, f]
}
pub fn gen_rect(s: &mut Src, e: i64) -> Vec<Pt> {
    let (a, b) = (rp(s, e), rp(s, e));
    let mut v = vec![a, (b.0, a.1), b, (a.0, b.1)];
    if s.bool() { v.reverse(); }
    v
}
/// a copy of an earlier contour moved by a few units, or exactly coincident, or sharing points
pub fn gen_near_copy(s: &mut Src, e: i64, prev: &[Vec<Pt>]) -> Vec<Pt> {
    let mut c = s.pick(prev).clone();
    if c.is_empty() { return c; }
    let j = *s.pick(&[0i64, 1, 1, 2, 5]);
    match s.raw(4) {
        0 => { let d = (s.zrange(-j, j), s.zrange(-j, j)); for p in c.iter_mut() { *p = clampp((p.0 + d.0, p.1 + d.1), e); } }
        1 => for p in c.iter_mut() { *p = clampp((p.0 + s.zrange(-j, j), p.1 + s.zrange(-j, j)), e); },
        2 => { let k = s.usize(0, c.len() - 1); c[k] = rp(s, e); }
        _ => {
            // points of the earlier contour joined to new ones on its edges
            let n = c.len();
            let k = s.usize(0, n - 1);
            let (a, b) = (c[k], c[(k + 1) % n]);
            let t = s.range(0, 16);
            let m = (a.0 + (b.0 - a.0) * t / 16, a.1 + (b.1 - a.1) * t / 16);
            let m = clampp((m.0 + s.zrange(-j, j), m.1 + s.zrange(-j, j)), e);
            c = vec![m, rp(s, e), c[s.usize(0, n - 1)], rp(s, e)];
        }
    }
    if s.chance(1, 3) { c.reverse(); }
    c
}
pub fn gen_contour(s: &mut Src, e: i64, prev: &[Vec<Pt>]) -> Vec<Pt> {
    let e = e.max(2);
    // Stacks of long edges a unit apart make the splitter's work grow explosively (DESIGN.md, "slow inputs"): at large extents
    // only the first few contours may be slivers or close copies.
    let near = e < 1_000_000 || prev.len() < 3;
    match s.weighted(&[4, 3, if near { 2 } else { 0 }, 2, if prev.is_empty() || !near { 0 } else { 4 }]) {
        0 => gen_star(s, e),
        1 => gen_random_poly(s, e),
        2 => gen_sliver(s, e),
        3 => gen_rect(s, e),
        _ => gen_near_copy(s, e, prev),
    }
}
pub fn gen_pair(s: &mut Src, e: i64, max: usize) -> (Vec<Vec<Pt>>, Vec<Vec<Pt>>) {
    let mut all: Vec<Vec<Pt>> = vec![];
    let ns = s.usize(1, max);
    let nc = s.usize(0, max);
    for _ in 0..ns + nc { let c = gen_contour(s, e, &all); all.push(c); }
    let clip = all.split_off(ns);
    (all, clip)
}
/// many stars/slivers from single draws
pub fn gen_cloud(s: &mut Src, e: i64, n: usize, size: i64) -> Vec<Vec<Pt>> {
    (0..n).map(|_| {
        let mut k = Rng::new(s.raw(1 << 60));
        let mut r = |m: i64| (k.next() % (2 * m as u64 + 1)) as i64 - m;
        let c = (r(e - size), r(e - size));
        let m = 3 + (r(1000) + 1000) as usize % 4;
        (0..m).map(|_| (c.0 + r(size), c.1 + r(size))).collect()
    }).collect()
}
/// point for testing: near a vertex, near an edge, or anywhere in the extent
pub fn gen_probe(s: &mut Src, e: i64, cs: &[&Vec<Pt>], off: i64) -> Pt {
    match s.raw(3) {
        0 => rp(s, e),
        k => {
            let c = s.pick(cs);
            if c.is_empty() { return rp(s, e); }
            let i = s.usize(0, c.len() - 1);
            let (a, b) = (c[i], c[(i + 1) % c.len()]);
            let p = if k == 1 { a } else { let t = s.range(0, 1 << 10); (a.0 + ((b.0 - a.0) as i128 * t as i128 >> 10) as i64, a.1 + ((b.1 - a.1) as i128 * t as i128 >> 10) as i64) };
            let o = off * (1 << s.range(0, 4));
            (p.0 + s.zrange(-o, o), p.1 + s.zrange(-o, o))
        }
    }
}
