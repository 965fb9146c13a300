//! Well-formedness of a result at any coordinates, by exact integer geometry.
use crate::util::*;
use i_overlay::core::overlay::ContourDirection;
use i_overlay::i_shape::int::shape::IntShapes;
use kit::geo::*;
use kit::{ensure, Src};

pub fn edges_of(cs: &[Vec<Pt>]) -> Vec<(Pt, Pt)> { cs.iter().flat_map(|c| (0..c.len()).map(move |i| (c[i], c[(i + 1) % c.len()]))).collect() }

/// every contour: at least three points, no repeated neighbours, area of the sign its place demands; with `simp` no point
/// between collinear neighbours
pub fn check_contours(shapes: &IntShapes, dir: ContourDirection, simp: bool) -> Result<(), String> {
    for sh in shapes {
        ensure!(!sh.is_empty(), "a shape without contours");
        for (k, c) in sh.iter().enumerate() {
            let c = to_pts(c);
            let n = c.len();
            ensure!(n >= 3, "contour with {} points: {:?}", n, c);
            for i in 0..n {
                let (a, b, d) = (c[i], c[(i + 1) % n], c[(i + 2) % n]);
                ensure!(a != b, "repeated consecutive point {:?} in {:?}", a, c);
                if simp { ensure!(cross(a, b, d) != 0, "point {:?} lies on the line of its neighbours {:?} {:?} although simplification was asked for", b, a, d); }
            }
            let want_pos = (k == 0) == (dir == CCW);
            let a = area2(&c);
            ensure!(if want_pos { a > 0 } else { a < 0 }, "{} contour {:?} has signed area {}/2 but the main direction is {:?}", if k == 0 { "outer" } else { "hole" }, c, a, dir);
        }
    }
    Ok(())
}
/// no two edges cross or overlap (nor, unless `tee`, does a vertex lie inside another edge)
pub fn check_planar(shapes: &IntShapes, tee_allowed: bool) -> Result<(), String> {
    let e = edges_of(&flat(shapes));
    if let Some((i, j, m)) = first_conflict(&e, !tee_allowed) { return Err(format!("result edges {:?} and {:?} meet: {:?}", e[i], e[j], m)); }
    Ok(())
}
fn x4(c: &[Pt]) -> Vec<Pt> { c.iter().map(|p| (4 * p.0, 4 * p.1)).collect() }
/// holes lie inside their own outer contour
pub fn check_holes(shapes: &IntShapes) -> Result<(), String> {
    for sh in shapes {
        if sh.len() < 2 { continue; }
        let outer = x4(&to_pts(&sh[0]));
        for hole in &sh[1..] {
            let h = x4(&to_pts(hole));
            for i in 0..h.len() {
                let (a, b) = (h[i], h[(i + 1) % h.len()]);
                let m = ((a.0 + b.0) / 2, (a.1 + b.1) / 2);
                if let Some(w) = winding(&outer, m) { ensure!(w != 0, "hole edge {:?} lies outside the shape's outer contour; hole {:?}; outer {:?}; edges near the hole's left end: {:?}", (hole[i], hole[(i + 1) % hole.len()]), to_pts(hole), if sh[0].len() < 60 { to_pts(&sh[0]) } else { vec![] }, near(shapes, hole.iter().map(pt).min().unwrap())); }
            }
        }
    }
    Ok(())
}
/// at quarter-unit points near vertices, near edges and anywhere: total winding 0 or 1 (in the main direction), same for every shape
pub fn check_cover(s: &mut Src, shapes: &IntShapes, dir: ContourDirection, probes: usize) -> Result<(), String> {
    let sh: Vec<Vec<Vec<Pt>>> = shapes.iter().map(|x| x.iter().map(|c| x4(&to_pts(c))).collect()).collect();
    let all: Vec<&Vec<Pt>> = sh.iter().flatten().collect();
    if all.is_empty() { return Ok(()); }
    let sign = if dir == CCW { 1 } else { -1 };
    for _ in 0..probes {
        let c = *s.pick(&all);
        let i = s.usize(0, c.len() - 1);
        let (a, b) = (c[i], c[(i + 1) % c.len()]);
        let t = s.range(0, 64);
        let r = *s.pick(&[1i64, 2, 4, 40]);
        let p = (a.0 + ((b.0 - a.0) as i128 * t as i128 / 64) as i64 + s.zrange(-r, r), a.1 + ((b.1 - a.1) as i128 * t as i128 / 64) as i64 + s.zrange(-r, r));
        let mut total = 0;
        let mut on = false;
        for x in &sh {
            match winding_all(x, p) {
                None => { on = true; break; }
                Some(w) => { ensure!(w == 0 || w == sign, "one shape winds {} times around ({}/4, {}/4)", w, p.0, p.1); total += w; }
            }
        }
        if !on { ensure!(total == 0 || total == sign, "shapes overlap: winding {} at ({}/4, {}/4)", total, p.0, p.1); }
    }
    Ok(())
}

fn near(shapes: &IntShapes, p: Pt) -> Vec<(usize, usize, Pt, Pt)> {
    let mut v = vec![];
    for (i, sh) in shapes.iter().enumerate() { for (j, c) in sh.iter().enumerate() { let c = to_pts(c); for k in 0..c.len() { let (a, b) = (c[k], c[(k + 1) % c.len()]); if dist_seg(p, a, b) < 3.0 { v.push((i, j, a, b)); } } } }
    v
}

/// The signed boundary independent of how it is cut into edges and contours: for every line, the stretches passed and how often
/// (positive in the direction of increasing x, then y).
pub type Normal = std::collections::BTreeMap<(Pt, i128), Vec<(Pt, Pt, i64)>>;
pub fn normal(cs: &[Vec<Pt>]) -> Normal {
    let mut ev: std::collections::BTreeMap<(Pt, i128), Vec<(Pt, i64)>> = Default::default();
    for (a, b) in edges_of(cs) {
        if a == b { continue; }
        let (p, q, s) = if a < b { (a, b, 1) } else { (b, a, -1) };
        let d = (q.0 - p.0, q.1 - p.1);
        let g = gcd(d.0.abs(), d.1.abs());
        let d = (d.0 / g, d.1 / g);
        let key = (d, d.0 as i128 * p.1 as i128 - d.1 as i128 * p.0 as i128);
        let v = ev.entry(key).or_default();
        v.push((p, s));
        v.push((q, -s));
    }
    let mut out = Normal::new();
    for (k, mut v) in ev {
        v.sort();
        let mut r: Vec<(Pt, Pt, i64)> = vec![];
        let (mut cur, mut i) = (0i64, 0);
        let mut start = v[0].0;
        while i < v.len() {
            let p = v[i].0;
            let mut n = cur;
            while i < v.len() && v[i].0 == p { n += v[i].1; i += 1; }
            if n != cur { if cur != 0 { r.push((start, p, cur)); } start = p; cur = n; }
        }
        if !r.is_empty() { out.insert(k, r); }
    }
    out
}
pub fn gcd(a: i64, b: i64) -> i64 { if b == 0 { a } else { gcd(b, a % b) } }
pub fn same_boundary(what: &str, a: &[Vec<Pt>], b: &[Vec<Pt>]) -> Result<(), String> {
    let (x, y) = (normal(a), normal(b));
    if x == y { return Ok(()); }
    let d: Vec<String> = x.iter().filter(|(k, v)| y.get(k) != Some(v)).map(|(_, v)| format!("only in the first {:?}", v)).chain(y.iter().filter(|(k, v)| x.get(k) != Some(v)).map(|(_, v)| format!("only in the second {:?}", v))).take(6).collect();
    Err(format!("{}: boundaries differ: {}", what, d.join("; ")))
}
/// does any vertex of the result coincide with another or lie on an edge?
pub fn touching(shapes: &IntShapes) -> bool {
    let f = flat(shapes);
    let mut p: Vec<Pt> = f.iter().flatten().copied().collect();
    p.sort();
    p.windows(2).any(|w| w[0] == w[1]) || first_conflict(&edges_of(&f), true).is_some()
}
/// drops every point on the line of its neighbours until none is left
pub fn reference_simple(c: &[Pt]) -> Vec<Pt> {
    let mut v = c.to_vec();
    loop {
        let n = v.len();
        if n < 3 { return vec![]; }
        match (0..n).find(|&i| cross(v[(i + n - 1) % n], v[i], v[(i + 1) % n]) == 0) { Some(i) => { v.remove(i); } None => return v }
    }
}
