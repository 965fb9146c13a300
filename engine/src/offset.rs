//! Geometry of offsets, written down from the definition: a stroke is the union of one rectangle per segment, one wedge per
//! turn and the caps; an outline adds (or removes) one band per edge and one wedge per corner.
use std::f64::consts::PI;
pub type V = [f64; 2];
pub fn add(a: V, b: V) -> V { [a[0] + b[0], a[1] + b[1]] }
pub fn sub(a: V, b: V) -> V { [a[0] - b[0], a[1] - b[1]] }
pub fn mul(a: V, k: f64) -> V { [a[0] * k, a[1] * k] }
pub fn dot(a: V, b: V) -> f64 { a[0] * b[0] + a[1] * b[1] }
pub fn crs(a: V, b: V) -> f64 { a[0] * b[1] - a[1] * b[0] }
pub fn len(a: V) -> f64 { dot(a, a).sqrt() }
pub fn unit(a: V) -> V { let l = len(a); mul(a, 1.0 / l) }
/// left normal
pub fn left(d: V) -> V { [-d[1], d[0]] }
pub fn rot(v: V, a: f64) -> V { let (s, c) = a.sin_cos(); [c * v[0] - s * v[1], s * v[0] + c * v[1]] }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Join { Bevel, Miter(f64), Round(f64) }
#[derive(Clone, Debug, PartialEq)]
pub enum Cap { Butt, Round(f64), Square, Custom(Vec<V>) }

/// A piece of the plane: everything in `inner` belongs to it, nothing outside `outer` does. `exact`: both are the same polygon,
/// which may wind in any way (custom caps) and counts with its winding number.
pub struct Prim { pub inner: Vec<V>, pub outer: Option<Vec<V>>, pub signed: bool, pub tol: f64, bb: [f64; 4] }
impl Prim {
    pub fn new(inner: Vec<V>, outer: Option<Vec<V>>, signed: bool, tol: f64) -> Prim {
        let o = outer.as_ref().unwrap_or(&inner);
        let mut bb = [f64::MAX, f64::MAX, f64::MIN, f64::MIN];
        for p in inner.iter().chain(o) { bb = [bb[0].min(p[0]), bb[1].min(p[1]), bb[2].max(p[0]), bb[3].max(p[1])]; }
        Prim { inner, outer, signed, tol, bb }
    }
    /// least and greatest winding this piece may contribute at p
    fn range(&self, p: V) -> (i32, i32) {
        let t = self.tol;
        if p[0] < self.bb[0] - t || p[0] > self.bb[2] + t || p[1] < self.bb[1] - t || p[1] > self.bb[3] + t { return (0, 0); }
        if self.signed {
            if dist(&self.inner, p) <= t { return (-9, 9); }
            let w = kit::geo::winding_f(&self.inner, p);
            return (w, w);
        }
        let ins = |c: &[V]| kit::geo::winding_f(c, p) != 0;
        let lo = if dist(&self.inner, p) > t && ins(&self.inner) { 1 } else { 0 };
        let o = self.outer.as_ref().unwrap_or(&self.inner);
        let hi = if lo == 1 || dist(o, p) <= t || ins(o) { 1 } else { 0 };
        (lo, hi)
    }
}
pub fn dist(c: &[V], p: V) -> f64 { (0..c.len()).map(|i| kit::geo::dist_seg_f(p, c[i], c[(i + 1) % c.len()])).fold(f64::MAX, f64::min) }
/// sum over pieces
pub fn range(ps: &[Prim], p: V) -> (i32, i32) { ps.iter().map(|q| q.range(p)).fold((0, 0), |a, b| (a.0 + b.0, a.1 + b.1)) }

/// sector about c from direction u (unit) turning by angle a (signed, at most pi): inscribed and circumscribed polygons
fn sector(c: V, u: V, a: f64, r: f64, circum: bool) -> Vec<V> {
    let n = ((a.abs() / 0.02).ceil() as usize).max(1);
    let st = a / n as f64;
    let mut v = vec![c];
    if circum {
        let k = r / (0.5 * st).cos();
        v.push(add(c, mul(u, r)));
        for i in 0..n { v.push(add(c, mul(rot(u, st * (i as f64 + 0.5)), k))); }
        v.push(add(c, mul(rot(u, a), r)));
    } else { for i in 0..=n { v.push(add(c, mul(rot(u, st * i as f64), r))); } }
    v
}
pub struct Env { pub grid: f64, pub eps: f64 }
impl Env {
    pub fn tol(&self, c: &[V], r: f64) -> f64 {
        let m = c.iter().map(|p| p[0].abs().max(p[1].abs())).fold(r.abs(), f64::max);
        16.0 * self.grid + 16.0 * self.eps * m
    }
    fn prim(&self, inner: Vec<V>, outer: Option<Vec<V>>, r: f64, k: f64) -> Prim {
        let t = self.tol(outer.as_ref().unwrap_or(&inner), r) + k * self.eps * r;
        Prim::new(inner, outer, false, t)
    }
}
/// The wedge a join adds beyond vertex v, between the directions d0 and d1, on the outer side of the turn. None: no turn.
pub fn wedge(e: &Env, v: V, d0: V, d1: V, r: f64, join: Join, right: Option<bool>, stroke: bool) -> Option<Prim> {
    let c = crs(d0, d1);
    let d = dot(d0, d1).clamp(-1.0, 1.0);
    let phi = c.abs().atan2(d);
    if phi < 1e-12 { return None; }
    // a left turn opens on the right
    let on_right = c > 0.0;
    if let Some(r) = right { if r != on_right { return None; } }
    let side = |d: V| if on_right { mul(left(d), -1.0) } else { left(d) };
    let (u0, u1) = (side(d0), side(d1));
    let (a, b) = (add(v, mul(u0, r)), add(v, mul(u1, r)));
    let tri = vec![v, a, b];
    Some(match join {
        Join::Bevel => e.prim(tri, None, r, 8.0),
        Join::Miter(t) => {
            let t = t.clamp(0.01 * PI, 0.99 * PI);
            let l = r / (0.5 * t).tan();
            let full = if PI - phi < t {
                vec![v, a, add(a, mul(d0, l)), sub(b, mul(d1, l)), b]
            } else {
                vec![v, a, add(a, mul(d0, r * (0.5 * phi).tan())), b]
            };
            // the error of the tip grows with its sharpness
            let m = v[0].abs().max(v[1].abs()) / r + 1.0;
            let k = 8.0 + if phi > 0.01 { 2.0 * m * l / r } else { 0.0 };
            // turns that count as straight (or as reversals) are bevelled
            if stroke && c.abs() < 2e-4 { e.prim(tri, Some(full), r, k) } else { e.prim(full, None, r, k) }
        }
        Join::Round(t) => {
            let t = t.clamp(0.01 * PI, 0.25 * PI);
            let ang = if on_right { phi } else { -phi };
            // segments of the arc are at most 1.5 times as long as asked (the count is rounded)
            let mut inner = sector(v, u0, ang, r * (0.5 * (1.5 * t).min(phi)).cos() * (1.0 - 1e-4), false);
            if phi < 1.5 * t { inner = tri; }
            e.prim(inner, Some(sector(v, u0, ang, r, true)), r, 8.0 * (2.0 + phi / t))
        }
    })
}
fn dedup(path: &[V], closed: bool) -> Vec<V> {
    let mut v: Vec<V> = path.to_vec();
    v.dedup();
    if closed { while v.len() > 1 && v[0] == v[v.len() - 1] { v.pop(); } }
    v
}
/// pieces of the stroke of one path
pub fn stroke_prims(e: &Env, path: &[V], closed: bool, r: f64, join: Join, caps: [&Cap; 2], out: &mut Vec<Prim>) {
    let p = dedup(path, closed);
    let n = p.len();
    if n < 2 { return; }
    let m = if closed { n } else { n - 1 };
    let dirs: Vec<V> = (0..m).map(|i| unit(sub(p[(i + 1) % n], p[i]))).collect();
    for i in 0..m {
        let (a, b, t) = (p[i], p[(i + 1) % n], mul(left(dirs[i]), r));
        out.push(e.prim(vec![add(a, t), add(b, t), sub(b, t), sub(a, t)], None, r, 8.0));
        if i + 1 < m || closed { out.extend(wedge(e, b, dirs[i], dirs[(i + 1) % m], r, join, None, true)); }
    }
    if !closed {
        for (cap, at, d) in [(caps[0], p[0], mul(dirs[0], -1.0)), (caps[1], p[n - 1], dirs[m - 1])] {
            let t = left(d);
            let (bot, top) = (sub(at, mul(t, r)), add(at, mul(t, r)));
            let f = |q: V| add(at, add(mul(d, q[0] * r), mul(t, q[1] * r)));
            match cap {
                Cap::Butt => {}
                Cap::Square => out.push(e.prim(vec![bot, f([1.0, -1.0]), f([1.0, 1.0]), top], None, r, 8.0)),
                Cap::Round(a) => {
                    let a = a.clamp(0.01 * PI, 0.25 * PI);
                    let steps = (PI / a - 0.001).floor();
                    let u = mul(t, -1.0);
                    out.push(e.prim(sector(at, u, PI, r * (0.5 * PI / steps).cos() * (1.0 - 1e-4), false), Some(sector(at, u, PI, r, true)), r, 8.0 * (2.0 + steps)));
                }
                Cap::Custom(q) => {
                    let mut c = vec![bot];
                    c.extend(q.iter().map(|&q| f(q)));
                    c.push(top);
                    let t = e.tol(&c, r) + 16.0 * e.eps * r;
                    out.push(Prim::new(c, None, true, t));
                }
            }
        }
    }
}
/// one contour of a polygon, oriented counterclockwise, moved outwards by o (inwards when negative)
pub struct Offset { pub body: Prim, pub prims: Vec<Prim>, pub grow: bool }
impl Offset {
    pub fn new(e: &Env, c: &[V], o: f64, join: Join) -> Offset {
        let p = dedup(c, true);
        let n = p.len();
        let r = o.abs();
        let grow = o >= 0.0;
        let dirs: Vec<V> = (0..n).map(|i| unit(sub(p[(i + 1) % n], p[i]))).collect();
        let mut prims = vec![];
        if r > 0.0 { for i in 0..n {
            let (a, b) = (p[i], p[(i + 1) % n]);
            let t = mul(left(dirs[i]), if grow { -r } else { r });
            prims.push(e.prim(vec![a, b, add(b, t), add(a, t)], None, r, 8.0));
            prims.extend(wedge(e, b, dirs[i], dirs[(i + 1) % n], r, join, Some(grow), false));
        } }
        let tol = e.tol(&p, r);
        Offset { body: Prim::new(p, None, false, tol), prims, grow }
    }
    /// Some(inside), or None: too close to a boundary
    pub fn at(&self, p: V) -> Option<bool> {
        let (b0, b1) = self.body.range(p);
        let (q0, q1) = range(&self.prims, p);
        if self.grow {
            if b0 + q0 > 0 { Some(true) } else if b1 + q1 == 0 { Some(false) } else { None }
        } else if b1 == 0 || q0 > 0 { Some(false) } else if b0 == 1 && q1 == 0 { Some(true) } else { None }
    }
}
