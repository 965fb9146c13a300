//! Pairs of segments in every position to one another, at every magnitude.
use i_overlay::i_float::int::point::IntPoint;
use kit::geo::Pt;
use kit::Src;

pub const MAXC: i64 = (1 << 30) - 1;
pub fn ip(p: Pt) -> IntPoint { IntPoint::new(p.0 as i32, p.1 as i32) }
pub fn seg(s: (Pt, Pt)) -> [IntPoint; 2] { [ip(s.0), ip(s.1)] }
pub fn extent(s: &mut Src) -> i64 {
    match s.weighted(&[3, 3, 2, 2, 3]) {
        0 => s.range(1, 6),
        1 => s.range(5, 300),
        2 => s.range(100, 1_000_000),
        3 => s.range(1_000_000, MAXC),
        _ => MAXC,
    }
}
pub fn rp(s: &mut Src, e: i64) -> Pt { (s.zrange(-e, e), s.zrange(-e, e)) }
fn ok(p: Pt) -> bool { p.0.abs() <= MAXC && p.1.abs() <= MAXC }
pub fn cl(p: Pt) -> Pt { (p.0.clamp(-MAXC, MAXC), p.1.clamp(-MAXC, MAXC)) }
pub fn ord(a: Pt, b: Pt) -> (Pt, Pt) { if a < b { (a, b) } else { (b, a) } }
/// a segment, never of zero length, ends in order
pub fn gen_seg(s: &mut Src, e: i64) -> (Pt, Pt) {
    let a = rp(s, e);
    let b = match s.weighted(&[5, 1, 1, 1]) {
        0 => rp(s, e),
        1 => (a.0, s.zrange(-e, e)),
        2 => (s.zrange(-e, e), a.1),
        _ => { let k = s.zrange(-e, e); cl((a.0 + k, a.1 + if s.bool() { k } else { -k })) }
    };
    let b = if a == b { if b.0 < MAXC { (b.0 + 1, b.1) } else { (b.0 - 1, b.1) } } else { b };
    ord(a, b)
}
/// a segment with grid points inside: anchor + direction * k, all within range; returns the grid points' parametrisation
fn gen_rich(s: &mut Src, e: i64) -> Option<(Pt, Pt, i64)> {
    let o = rp(s, e);
    let m = (e / 2).max(1);
    let lim = *s.pick(&[1i64, 3, 50, m]);
    let d = (s.zrange(-lim.min(m), lim.min(m)), s.zrange(-lim.min(m), lim.min(m)));
    if d == (0, 0) { return None; }
    let k = (MAXC - o.0.abs().max(o.1.abs())) / d.0.abs().max(d.1.abs());
    if k < 2 { return None; }
    let k = *s.pick(&[2i64, 3, 7, k]);
    Some((o, d, k.min((MAXC - o.0.abs().max(o.1.abs())) / d.0.abs().max(d.1.abs()))))
}
fn at(o: Pt, d: Pt, k: i64) -> Pt { (o.0 + d.0 * k, o.1 + d.1 * k) }
pub fn gen_pair(s: &mut Src) -> ((Pt, Pt), (Pt, Pt)) {
    let e = extent(s);
    let j = |s: &mut Src, p: Pt| { let r = *s.pick(&[1i64, 1, 2, 9]); cl((p.0 + s.zrange(-r, r), p.1 + s.zrange(-r, r))) };
    let pair = match s.weighted(&[4, 2, 2, 2, 2, 2, 2]) {
        // any
        0 => Some((gen_seg(s, e), gen_seg(s, e))),
        // long and nearly on top of one another
        1 => { let a = gen_seg(s, e); let b = (j(s, a.0), j(s, a.1)); Some((a, if b.0 == b.1 { a } else { ord(b.0, b.1) })) }
        // an end of one exactly inside the other
        2 => gen_rich(s, e).map(|(o, d, k)| { let m = at(o, d, s.range(0, k)); let x = rp(s, e); (ord(o, at(o, d, k)), if x == m { ord(m, j1(m)) } else { ord(m, x) }) }),
        // an end of one nearly on the other
        3 => gen_rich(s, e).map(|(o, d, k)| { let m = at(o, d, s.range(0, k)); let m = j(s, m); let x = rp(s, e); (ord(o, at(o, d, k)), if x == m { ord(m, j1(m)) } else { ord(m, x) }) }),
        // on one line
        4 => gen_rich(s, e).map(|(o, d, k)| { let mut v: Vec<i64> = (0..4).map(|_| s.range(0, k)).collect(); if v[0] == v[1] { v[0] = (v[1] + 1) % (k + 1); } if v[2] == v[3] { v[2] = (v[3] + 1) % (k + 1); } (ord(at(o, d, v[0]), at(o, d, v[1])), ord(at(o, d, v[2]), at(o, d, v[3]))) }),
        // crossing in a grid point
        5 => {
            let o = rp(s, e);
            let m = (MAXC - o.0.abs().max(o.1.abs())).min(e).max(1);
            let dir = |s: &mut Src| { let l = *s.pick(&[2i64, 40, m]); let l = l.min(m); let d = (s.zrange(-l, l), s.zrange(-l, l)); if d == (0, 0) { return None; } let k = m / d.0.abs().max(d.1.abs()); if k < 1 { return None; } let (x, y) = (s.range(1, k), s.range(1, k)); Some(ord(at(o, d, -x), at(o, d, y))) };
            match (dir(s), dir(s)) { (Some(a), Some(b)) => Some((a, b)), _ => None }
        }
        // crossing near an end
        _ => {
            let a = gen_seg(s, e);
            let p = if s.bool() { a.0 } else { a.1 };
            let (x, y) = (j(s, p), rp(s, e));
            let y2 = cl((2 * p.0 - y.0, 2 * p.1 - y.1));
            let b = if s.bool() { (x, y) } else { (y, j(s, y2)) };
            if b.0 == b.1 { None } else { Some((a, ord(b.0, b.1))) }
        }
    };
    let (a, b) = pair.unwrap_or_else(|| (gen_seg(s, e), gen_seg(s, e)));
    debug_assert!(ok(a.0) && ok(a.1) && ok(b.0) && ok(b.1) && a.0 < a.1 && b.0 < b.1);
    (a, b)
}
fn j1(p: Pt) -> Pt { if p.0 < MAXC { (p.0 + 1, p.1) } else { (p.0 - 1, p.1) } }
