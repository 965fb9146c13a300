//! Exact plane geometry on i64 points (coordinates below 2^40), independent of the code under test.
pub type Pt = (i64, i64);

pub fn cross(a: Pt, b: Pt, c: Pt) -> i128 {
    (b.0 - a.0) as i128 * (c.1 - a.1) as i128 - (b.1 - a.1) as i128 * (c.0 - a.0) as i128
}
pub fn sgn(v: i128) -> i32 { if v > 0 { 1 } else if v < 0 { -1 } else { 0 } }

/// twice the signed area; positive when counter-clockwise
pub fn area2(c: &[Pt]) -> i128 {
    let mut s = 0i128;
    for i in 0..c.len() {
        let (a, b) = (c[i], c[(i + 1) % c.len()]);
        s += a.0 as i128 * b.1 as i128 - a.1 as i128 * b.0 as i128;
    }
    s
}

pub fn on_segment(p: Pt, a: Pt, b: Pt) -> bool {
    cross(a, b, p) == 0 && p.0 >= a.0.min(b.0) && p.0 <= a.0.max(b.0) && p.1 >= a.1.min(b.1) && p.1 <= a.1.max(b.1)
}

/// winding number of p; None when p is on an edge. Counter-clockwise contours count +1.
pub fn winding(c: &[Pt], p: Pt) -> Option<i32> {
    let mut w = 0;
    let n = c.len();
    for i in 0..n {
        let (a, b) = (c[i], c[(i + 1) % n]);
        if a == b { if a == p { return None; } continue; }
        if on_segment(p, a, b) { return None; }
        if a.1 <= p.1 {
            if b.1 > p.1 && cross(a, b, p) > 0 { w += 1; }
        } else if b.1 <= p.1 && cross(a, b, p) < 0 { w -= 1; }
    }
    Some(w)
}
pub fn winding_all<'a>(cs: impl IntoIterator<Item = &'a Vec<Pt>>, p: Pt) -> Option<i32> {
    let mut s = 0;
    for c in cs { s += winding(c, p)?; }
    Some(s)
}

/// f64 winding for float contours (p assumed off the edges)
pub fn winding_f(c: &[[f64; 2]], p: [f64; 2]) -> i32 {
    let mut w = 0;
    let n = c.len();
    for i in 0..n {
        let (a, b) = (c[i], c[(i + 1) % n]);
        let cr = (b[0] - a[0]) * (p[1] - a[1]) - (b[1] - a[1]) * (p[0] - a[0]);
        if a[1] <= p[1] { if b[1] > p[1] && cr > 0.0 { w += 1; } } else if b[1] <= p[1] && cr < 0.0 { w -= 1; }
    }
    w
}
pub fn area_f(c: &[[f64; 2]]) -> f64 {
    if c.is_empty() { return 0.0; }
    let o = c[0];
    let mut s = 0.0;
    for i in 0..c.len() {
        let (a, b) = (c[i], c[(i + 1) % c.len()]);
        s += (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0]);
    }
    s * 0.5
}

pub fn dist_seg_f(p: [f64; 2], a: [f64; 2], b: [f64; 2]) -> f64 {
    let (dx, dy) = (b[0] - a[0], b[1] - a[1]);
    let l2 = dx * dx + dy * dy;
    let (px, py) = (p[0] - a[0], p[1] - a[1]);
    let t = if l2 > 0.0 { ((px * dx + py * dy) / l2).clamp(0.0, 1.0) } else { 0.0 };
    let (ex, ey) = (px - t * dx, py - t * dy);
    (ex * ex + ey * ey).sqrt()
}
pub fn f(p: Pt) -> [f64; 2] { [p.0 as f64, p.1 as f64] }
pub fn dist_seg(p: Pt, a: Pt, b: Pt) -> f64 {
    // translate first so that f64 keeps precision
    dist_seg_f([0.0, 0.0], [(a.0 - p.0) as f64, (a.1 - p.1) as f64], [(b.0 - p.0) as f64, (b.1 - p.1) as f64])
}
pub fn dist_edges(cs: &[Vec<Pt>], p: Pt, closed: bool) -> f64 {
    let mut m = f64::INFINITY;
    for c in cs {
        let n = c.len();
        if n == 0 { continue; }
        if n == 1 { m = m.min(dist_seg(p, c[0], c[0])); continue; }
        let e = if closed { n } else { n - 1 };
        for i in 0..e { m = m.min(dist_seg(p, c[i], c[(i + 1) % n])); }
    }
    m
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Meet {
    None,
    /// share only an end point of both
    Ends,
    /// an end of one lies in the interior of the other
    Tee,
    /// interiors cross
    Cross,
    /// collinear with a common stretch
    Overlap,
}
/// how closed segments ab and cd (both of positive length) meet
pub fn meet(a: Pt, b: Pt, c: Pt, d: Pt) -> Meet {
    if a.0.max(b.0) < c.0.min(d.0) || c.0.max(d.0) < a.0.min(b.0) || a.1.max(b.1) < c.1.min(d.1) || c.1.max(d.1) < a.1.min(b.1) { return Meet::None; }
    let (o1, o2, o3, o4) = (sgn(cross(a, b, c)), sgn(cross(a, b, d)), sgn(cross(c, d, a)), sgn(cross(c, d, b)));
    if o1 == 0 && o2 == 0 {
        // collinear: project on the longer axis
        let key = |p: Pt| if (a.0 - b.0).abs() >= (a.1 - b.1).abs() { p.0 } else { p.1 };
        let (l1, h1) = (key(a).min(key(b)), key(a).max(key(b)));
        let (l2, h2) = (key(c).min(key(d)), key(c).max(key(d)));
        let (l, h) = (l1.max(l2), h1.min(h2));
        return if l < h { Meet::Overlap } else if l == h { Meet::Ends } else { Meet::None };
    }
    if o1 * o2 < 0 && o3 * o4 < 0 { return Meet::Cross; }
    if a == c || a == d || b == c || b == d { return Meet::Ends; }
    if (o1 == 0 && on_segment(c, a, b)) || (o2 == 0 && on_segment(d, a, b)) || (o3 == 0 && on_segment(a, c, d)) || (o4 == 0 && on_segment(b, c, d)) { return Meet::Tee; }
    Meet::None
}

/// First pair of edges that cross, overlap, or (when `tee`) touch an interior. Sweep over x, active edges kept per y band.
pub fn first_conflict(edges: &[(Pt, Pt)], tee: bool) -> Option<(usize, usize, Meet)> {
    if edges.is_empty() { return None; }
    let lo = |i: usize| edges[i].0 .0.min(edges[i].1 .0);
    let hi = |i: usize| edges[i].0 .0.max(edges[i].1 .0);
    let ylo = |i: usize| edges[i].0 .1.min(edges[i].1 .1);
    let yhi = |i: usize| edges[i].0 .1.max(edges[i].1 .1);
    let y0 = (0..edges.len()).map(ylo).min().unwrap();
    let y1 = (0..edges.len()).map(yhi).max().unwrap();
    let bands = ((edges.len() as f64).sqrt() as i64).max(1);
    let bh = (y1 - y0) / bands + 1;
    let mut idx: Vec<usize> = (0..edges.len()).collect();
    idx.sort_by_key(|&i| lo(i));
    let mut active: Vec<Vec<usize>> = vec![vec![]; bands as usize + 1];
    for &i in &idx {
        let x = lo(i);
        for b in (ylo(i) - y0) / bh..=(yhi(i) - y0) / bh {
            let act = &mut active[b as usize];
            let mut k = 0;
            while k < act.len() {
                let j = act[k];
                if hi(j) < x { act.swap_remove(k); continue; }
                let m = meet(edges[i].0, edges[i].1, edges[j].0, edges[j].1);
                match m {
                    Meet::Cross | Meet::Overlap => return Some((i, j, m)),
                    Meet::Tee if tee => return Some((i, j, m)),
                    _ => {}
                }
                k += 1;
            }
            act.push(i);
        }
    }
    None
}
