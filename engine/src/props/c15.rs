use crate::common::*;
use crate::gen;
use crate::lat::*;
use crate::structure::*;
use crate::util::*;
use i_overlay::core::fill_rule::FillRule;
use i_overlay::core::overlay::Overlay;
use i_overlay::core::overlay_rule::OverlayRule;
use i_overlay::core::simplify::Simplify;
use i_overlay::i_shape::int::shape::IntContour;
use i_overlay::vector::edge::ToPath;
use kit::geo::*;
use kit::{ensure, Component, Ctx, Property, Rng, Src};

/// a contour and the number of the contour around it
struct Node { c: Vec<Pt>, parent: Option<usize>, depth: usize }
struct Nest { nodes: Vec<Node>, max: usize, deep: usize, r: Rng }
impl Nest {
    fn rnd(&mut self, lo: i64, hi: i64) -> i64 { if hi <= lo { return lo; } lo + (self.r.next() % (hi - lo + 1) as u64) as i64 }
    /// fills the open box x0..x1, y0..y1 with contours inside `parent`
    fn fill(&mut self, x0: i64, y0: i64, x1: i64, y1: i64, parent: Option<usize>, depth: usize) {
        if self.nodes.len() >= self.max || depth > self.deep || x1 - x0 < 6 || y1 - y0 < 6 { return; }
        // rows or columns of boxes, or one contour around
        let (w, h) = (x1 - x0, y1 - y0);
        match self.r.next() % 8 {
            0 | 1 if w > 14 => { let m = self.rnd(x0 + 6, x1 - 6); self.fill(x0, y0, m, y1, parent, depth); self.fill(m, y0, x1, y1, parent, depth); }
            2 | 3 if h > 14 => { let m = self.rnd(y0 + 6, y1 - 6); self.fill(x0, y0, x1, m, parent, depth); self.fill(x0, m, x1, y1, parent, depth); }
            _ => self.contour(x0 + 1, y0 + 1, x1 - 1, y1 - 1, parent, depth),
        }
    }
    fn put(&mut self, c: Vec<Pt>, parent: Option<usize>, depth: usize) -> usize { self.nodes.push(Node { c, parent, depth }); self.nodes.len() - 1 }
    /// one contour inside the closed box, others in its inside and in its notches
    fn contour(&mut self, x0: i64, y0: i64, x1: i64, y1: i64, parent: Option<usize>, depth: usize) {
        let (w, h) = (x1 - x0, y1 - y0);
        match self.r.next() % 10 {
            0..=2 => {
                let k = self.put(vec![(x0, y0), (x1, y0), (x1, y1), (x0, y1)], parent, depth);
                // keep the order in which the box borders shrink random
                let d = self.rnd(0, w.min(h) / 8);
                self.fill(x0 + d, y0 + d, x1 - d, y1 - d, Some(k), depth + 1);
            }
            3 | 4 => {
                // diamond on the middles of the sides
                let (mx, my) = ((x0 + x1) / 2, (y0 + y1) / 2);
                let k = self.put(vec![(mx, y0), (x1, my), (mx, y1), (x0, my)], parent, depth);
                self.fill(mx - w / 4 + 2, my - h / 4 + 2, mx + w / 4 - 2, my + h / 4 - 2, Some(k), depth + 1);
            }
            5 => {
                // triangle, and others beside its slope
                let k = self.put(vec![(x0, y0), (x1, y0), (x0, y1)], parent, depth);
                self.fill(x0, y0, x0 + w / 2 - 1, y0 + h / 2 - 1, Some(k), depth + 1);
                self.fill(x0 + w / 2 + 2, y0 + h / 2 + 2, x1, y1, parent, depth);
            }
            6..=8 if w > 40 && h > 16 => {
                // comb: teeth down or up; contours inside the teeth, others in the slots between
                let teeth = self.rnd(2, (w / 18).min(6));
                let bw = w / (2 * teeth - 1);
                let up = self.r.next() % 2 == 0;
                let back = self.rnd(3, h / 3);
                let mut c: Vec<Pt> = vec![(x0, y1), (x0, y0)];
                for t in 0..teeth {
                    let a = x0 + 2 * t * bw;
                    if t > 0 { c.push((a, y1 - back)); c.push((a, y0)); }
                    let e = if t + 1 == teeth { x1 } else { a + bw };
                    c.push((e, y0));
                    c.push((e, if t + 1 == teeth { y1 } else { y1 - back }));
                }
                let fy = |y: i64| if up { y } else { y0 + y1 - y };
                let mut d: Vec<Pt> = c.iter().map(|p| (p.0, fy(p.1))).collect();
                if !up { d.reverse(); }
                let k = self.put(d, parent, depth);
                for t in 0..teeth {
                    let a = x0 + 2 * t * bw;
                    let e = if t + 1 == teeth { x1 } else { a + bw };
                    let (l, m) = (fy(y0), fy(y1 - back));
                    self.fill(a, l.min(m), e, l.max(m), Some(k), depth + 1);
                    if t + 1 < teeth { self.fill(e, l.min(m), x0 + 2 * (t + 1) * bw, l.max(m), parent, depth); }
                }
                let (l, m) = (fy(y1 - back), fy(y1));
                self.fill(x0, l.min(m), x1, l.max(m), Some(k), depth + 1);
            }
            _ => {
                // octagon with uneven corners
                let (a, b, c, d) = (self.rnd(1, w / 4), self.rnd(1, h / 4), self.rnd(1, w / 4), self.rnd(1, h / 4));
                let k = self.put(vec![(x0 + a, y0), (x1 - c, y0), (x1, y0 + b), (x1, y1 - d), (x1 - c, y1), (x0 + a, y1), (x0, y1 - d), (x0, y0 + b)], parent, depth);
                self.fill(x0 + w / 4, y0 + h / 4, x1 - w / 4, y1 - h / 4, Some(k), depth + 1);
            }
        }
    }
}
fn nest(s: &mut Src, cx: &mut Ctx, max: usize, deep: usize) -> Result<(), String> {
    // box coordinates 0..m; an affine map with room brings them anywhere
    let m = *s.pick(&[60i64, 300, 3_000, 40_000, 1_000_000]);
    let mut t = Nest { nodes: vec![], max, deep, r: Rng::new(s.raw(1 << 60)) };
    let h = *s.pick(&[m, m / 3 + 10, 20]);
    t.fill(0, 0, m, h.min(m), None, 0);
    if t.nodes.is_empty() { return Ok(()); }
    // a long stack of frames around it all
    let q = gen_affine(s, m);
    let map = |c: &Vec<Pt>| -> Vec<Pt> { c.iter().map(|p| (q.a * p.0 + q.b * p.1 + q.tx, q.c * p.0 + q.d * p.1 + q.ty)).collect() };
    let (mut is, mut ic): (Vec<IntContour>, Vec<IntContour>) = (vec![], vec![]);
    let mut r = Rng::new(s.raw(1 << 60));
    let both = s.bool();
    let mut order: Vec<usize> = (0..t.nodes.len()).collect();
    for i in (1..order.len()).rev() { let j = (r.next() % (i as u64 + 1)) as usize; order.swap(i, j); }
    let mut ccw: Vec<Vec<Pt>> = t.nodes.iter().map(|n| { let mut c = map(&n.c); if area2(&c) < 0 { c.reverse(); } c }).collect();
    for &k in &order {
        let mut c = ccw[k].clone();
        let n = c.len();
        c.rotate_left((r.next() % n as u64) as usize);
        if r.next() % 2 == 0 { c.reverse(); }
        if both && r.next() % 2 == 0 { ic.push(to_int(&c)) } else { is.push(to_int(&c)) }
    }
    let dir = if s.bool() { CCW } else { CW };
    let (simp, solver) = (s.bool(), gen_solver(s));
    let route = s.raw(4);
    let (holes, outers): (usize, usize) = (t.nodes.iter().filter(|n| n.depth % 2 == 1).count(), t.nodes.iter().filter(|n| n.depth % 2 == 0).count());
    let depth = t.nodes.iter().map(|n| n.depth).max().unwrap();
    cx.desc(|| if t.nodes.len() < 30 { format!("subject {} clip {} {:?} simplify {} {} route {}", show_i(&is), show_i(&ic), dir, simp, show_solver(&solver), route) } else { format!("{} outer contours and {} holes, depth {}, map {:?} {:?} simplify {} {} route {}", outers, holes, depth, q, dir, simp, show_solver(&solver), route) });
    cx.nontrivial(holes > 1 && outers > 1);
    cx.label_if(outers >= 32 && holes > 0, "32 shapes or more");
    cx.label_if(depth >= 6, "nested six deep or more");
    // expected shapes
    let mut slot = vec![usize::MAX; t.nodes.len()];
    let mut want: Vec<Vec<Vec<Pt>>> = vec![];
    let cww = |c: &mut Vec<Pt>, ccw: bool| if !ccw { c.reverse() };
    for (k, n) in t.nodes.iter().enumerate() { if n.depth % 2 == 0 { slot[k] = want.len(); cww(&mut ccw[k], dir == CCW); want.push(vec![rot(&ccw[k])]); } }
    for (k, n) in t.nodes.iter().enumerate() { if n.depth % 2 == 1 { cww(&mut ccw[k], dir != CCW); let p = slot[n.parent.unwrap()]; want[p].push(rot(&ccw[k])); } }
    for w in want.iter_mut() { w[1..].sort(); }
    want.sort();
    let (rule, fill) = (OverlayRule::Xor, FillRule::EvenOdd);
    let out = match route {
        0 => overlay(&is, &ic, rule, fill, dir, simp, 0, solver),
        1 => build(&is, &ic).into_graph_with_solver(fill, solver).extract_shapes_custom(rule, dir, simp, 0),
        2 if ic.is_empty() => is.simplify(fill, dir, true, 0),
        _ => {
            let v = build(&is, &ic).into_shape_vectors(fill, rule, solver);
            v.iter().map(|sh| sh.iter().map(|c| { let mut c = c.to_path(); if dir == CCW { c.reverse(); } c }).collect()).collect()
        }
    };
    let got = canon(&out);
    if got == want { return Ok(()); }
    let d = got.iter().zip(&want).find(|(a, b)| a != b);
    Err(format!("{} shapes with {} holes instead of {} with {}; first difference {}", got.len(), got.iter().map(|s| s.len() - 1).sum::<usize>(), want.len(), holes, d.map(|(a, b)| if a.len() + b.len() < 12 { format!("{:?} expected {:?}", a, b) } else { format!("outer {:?} with {} holes, expected outer {:?} with {}", a[0], a.len() - 1, b[0], b.len() - 1) }).unwrap_or_default()))
}
fn nest_small(s: &mut Src, cx: &mut Ctx) -> Result<(), String> { let n = s.usize(2, 40); nest(s, cx, n, 30) }
fn nest_large(s: &mut Src, cx: &mut Ctx) -> Result<(), String> { let n = s.usize(100, 3000); let d = *s.pick(&[1usize, 2, 6, 400]); nest(s, cx, n, d) }

/// frames inside frames, each a shape of its own, beside one another
fn stack(s: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    let n = s.usize(2, 120);
    let cols = s.usize(1, 40);
    let mut t = Nest { nodes: vec![], max: usize::MAX, deep: 0, r: Rng::new(s.raw(1 << 60)) };
    let mut x = 0i64;
    let mut used = 0i64;
    for _ in 0..cols {
        let d = t.rnd(1, n as i64);
        let mut p = None;
        for k in 0..d {
            let (a, b) = (x + 2 * k, 2 * k);
            let e = 4 * d;
            p = Some(t.put(vec![(a, b), (x + e - 2 * k, b), (x + e - 2 * k, e - 2 * k), (a, e - 2 * k)], p, k as usize));
        }
        x += 4 * d + 2;
        used = used.max(4 * d);
        if x > 4000 { break; }
    }
    let m = x.max(used);
    let q = gen_affine(s, m);
    let map = |c: &Vec<Pt>| -> Vec<Pt> { c.iter().map(|p| (q.a * p.0 + q.b * p.1 + q.tx, q.c * p.0 + q.d * p.1 + q.ty)).collect() };
    let cs: Vec<Vec<Pt>> = t.nodes.iter().map(|n| { let mut c = map(&n.c); if area2(&c) < 0 { c.reverse(); } c }).collect();
    let mut is = to_ints(&cs);
    let mut r = Rng::new(s.raw(1 << 60));
    for i in (1..is.len()).rev() { let j = (r.next() % (i as u64 + 1)) as usize; is.swap(i, j); }
    let solver = gen_solver(s);
    cx.desc(|| format!("{} columns of frames, {} contours, map {:?} {}", cols, cs.len(), q, show_solver(&solver)));
    cx.nontrivial(cs.len() > 4);
    cx.label_if(cs.len() > 500, "more than 500 contours");
    let mut want: Vec<Vec<Vec<Pt>>> = vec![];
    for (k, n) in t.nodes.iter().enumerate() {
        if n.depth % 2 == 1 { continue; }
        let mut v = vec![rot(&cs[k])];
        if k + 1 < t.nodes.len() && t.nodes[k + 1].parent == Some(k) { let mut h = cs[k + 1].clone(); h.reverse(); v.push(rot(&h)); }
        want.push(v);
    }
    want.sort();
    let out = overlay(&is, &[], OverlayRule::Subject, FillRule::EvenOdd, CCW, true, 0, solver);
    ensure!(canon(&out) == want, "{} shapes with {} holes instead of {} frames; or holes in the wrong frame", out.len(), out.iter().map(|s| s.len() - 1).sum::<usize>(), want.len());
    Ok(())
}

/// random cells of a lattice, or rings of cells with flaws: holes and islands that touch at corners in every way
fn cells(s: &mut Src, cx: &mut Ctx, g: i64) -> Result<(), String> {
    let (w, h) = (s.range(2, g) as i32, s.range(2, g) as i32);
    let mut r = Rng::new(s.raw(1 << 60));
    let style = s.raw(3);
    let p = s.range(5, 95) as u64;
    let step = s.range(1, 2) as i32;
    let mut subj: Vec<LPath> = vec![];
    let flaw = *s.pick(&[0u64, 3, 15]);
    for j in 0..h { for i in 0..w {
        let mut on = match style {
            0 => r.next() % 100 < p,
            1 => { let d = i.min(j).min(w - 1 - i).min(h - 1 - j); (d / step) % 2 == 0 }
            _ => { let d = (2 * i - w + 1).abs() / 2 + (2 * j - h + 1).abs() / 2; (d / step) % 2 == 0 }
        };
        if r.next() % 100 < flaw { on = !on; }
        if on { subj.push(vec![(2 * i, 2 * j), (2 * i + 2, 2 * j), (2 * i + 2, 2 * j + 2), (2 * i, 2 * j + 2)]); }
        // some blocks only half: diagonal neighbours
        else if style == 0 && r.next() % 4 == 0 { let k = (r.next() % 4) as usize; let c = [(2 * i, 2 * j), (2 * i + 2, 2 * j), (2 * i + 2, 2 * j + 2), (2 * i, 2 * j + 2)]; subj.push(vec![c[k], c[(k + 1) % 4], (2 * i + 1, 2 * j + 1)]); }
    } }
    let q = gen_affine(s, 2 * w.max(h) as i64);
    let c = LatCase::new(w, h, subj, vec![], q);
    let (dir, simp, solver) = (if s.bool() { CCW } else { CW }, !s.chance(1, 4), gen_solver(s));
    let frame = s.bool();
    let fill = FillRule::NonZero;
    cx.desc(|| format!("{} {:?} simplify {} {} {}", c.show(), dir, simp, show_solver(&solver), if frame { "frame" } else { "" }));
    let fs = c.fill_subj(fill);
    let (want, out) = if frame {
        // what is left of the whole rectangle
        let all: LPath = vec![(0, 0), (2 * w, 0), (2 * w, 2 * h), (0, 2 * h)];
        let want: Fill = fs.iter().map(|t| [!t[0], !t[1], !t[2], !t[3]]).collect();
        (want, overlay(&[c.q.contour(&all)], &c.is, OverlayRule::Difference, fill, dir, simp, 0, solver))
    } else { (fs, overlay(&c.is, &[], OverlayRule::Subject, fill, dir, simp, 0, solver)) };
    let holes: usize = out.iter().map(|s| s.len() - 1).sum();
    cx.nontrivial(out.len() > 1 && holes > 0);
    cx.label_if(out.len() >= 32 && holes > 0, "32 shapes or more");
    let d = decode_shapes(&c.q, &out)?;
    cx.label_if(d.iter().any(|s| s[1..].iter().any(|h| max_visits(h) > 1)), "hole touching itself");
    let (lab, n) = components(w as usize, h as usize, &want, None);
    check_shapes(w, h, &d, &lab, n, c.ccw(dir)).and_then(|_| check_boundary(w, h, &d, &want, c.ccw(dir))).map_err(|e| format!("{}; output {}", e, if out.iter().map(|s| s.len()).sum::<usize>() < 40 { show_shapes(&out) } else { String::new() }))
}
fn cells_small(s: &mut Src, cx: &mut Ctx) -> Result<(), String> { cells(s, cx, 9) }
fn cells_large(s: &mut Src, cx: &mut Ctx) -> Result<(), String> { cells(s, cx, 34) }

/// arbitrary coordinates: a frame without a cloud of small polygons, some of them hollow
fn cloud(s: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    let e = *s.pick(&[3_000i64, 100_000, 10_000_000, MAXC - 2]);
    let n = s.usize(20, 250);
    let size = ((e as f64 / (n as f64).sqrt()) * (0.3 + s.unit())) as i64;
    let cs = gen::gen_cloud(s, e, n, size.max(2));
    let m = s.usize(0, n);
    let ds = gen::gen_cloud(s, e, m, size.max(2));
    let fill = *s.pick(&FILLS);
    let rule = *s.pick(&[OverlayRule::Xor, OverlayRule::Union, OverlayRule::Difference]);
    let dir = if s.bool() { CCW } else { CW };
    let solver = gen_solver_big(s);
    cx.desc(|| format!("{} + {} polygons, extent {}, {:?} {:?} {:?} {}", n, m, e, rule, fill, dir, show_solver(&solver)));
    let mut o: Overlay = build(&to_ints(&cs), &to_ints(&ds));
    if s.bool() { o.add_contour(&to_int(&[(-e - 1, -e - 1), (e + 1, -e - 1), (e + 1, e + 1), (-e - 1, e + 1)]), i_overlay::core::overlay::ShapeType::Subject); cx.label("frame around"); }
    let out = o.overlay_custom(rule, fill, dir, true, 0, solver);
    let holes: usize = out.iter().map(|s| s.len() - 1).sum();
    cx.nontrivial(out.len() > 1 && holes > 0);
    cx.label_if(out.len() >= 32 && holes > 0, "32 shapes or more");
    check_contours(&out, dir, true)?;
    check_holes(&out)?;
    // every hole's shape is the one right around it: beside its edges one shape covers exactly one side
    check_cover(s, &out, dir, 40)
}
/// several rectangles, each without fans of triangles that share their vertex; triangles inside the triangles
fn fan(s: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    let e = *s.pick(&[24i64, 60, 400, 10_000, 1_000_000]);
    let blocks = s.usize(1, 5) as i64;
    let far = s.usize(0, 40) as i64;
    let side = 4 * e + 4;
    let mut r = Rng::new(s.raw(1 << 60));
    let mut rnd = |lo: i64, hi: i64| if hi <= lo { lo } else { lo + (r.next() % (hi - lo + 1) as u64) as i64 };
    // outer contour, and its holes; islands are shapes of their own
    let mut want: Vec<(Vec<Pt>, Vec<Vec<Pt>>)> = vec![];
    let mut n = 0;
    let mut most = 0;
    for b in 0..blocks {
        let (bx, by) = (b * side, if rnd(0, 1) == 0 { 0 } else { rnd(-e, e) });
        let fans = rnd(1, 2);
        let mut holes: Vec<Vec<Pt>> = vec![];
        let mut islands = vec![];
        for f in 0..fans {
            // fans one above the other, often at the same x; each in its own square
            let c = (bx + e + 1 + if rnd(0, 2) == 0 { rnd(-e / 3, e / 3) } else { 0 }, by + 2 * e * f + e + 1);
            let half_only = rnd(0, 2) > 0;
            let mut dirs: Vec<Pt> = vec![];
            for _ in 0..rnd(4, 40) {
                let d = if !dirs.is_empty() && rnd(0, 2) == 0 { let b = dirs[rnd(0, dirs.len() as i64 - 1) as usize]; (b.0 + rnd(-2, 2), b.1 + rnd(-2, 2)) } else { (rnd(if half_only { 1 } else { -e * 2 / 3 }, 2 * e), rnd(-e + 1, e - 1)) };
                let d = (if half_only { d.0.max(1) } else { d.0 }.clamp(-e * 2 / 3, 2 * e), d.1.clamp(-e + 1, e - 1));
                let same = |a: Pt| a.0 as i128 * d.1 as i128 == a.1 as i128 * d.0 as i128 && a.0 * d.0 >= 0 && a.1 * d.1 >= 0;
                if d == (0, 0) || dirs.iter().any(|a| same(*a)) { continue; }
                dirs.push(d);
            }
            let h = |d: Pt| d.1 < 0 || d.1 == 0 && d.0 < 0;
            dirs.sort_by(|a, b| h(*a).cmp(&h(*b)).then_with(|| (b.0 as i128 * a.1 as i128).cmp(&(a.0 as i128 * b.1 as i128))));
            let mut i = 0;
            let mut k = 0;
            while i + 1 < dirs.len() {
                let (a, b) = (dirs[i], dirs[i + 1]);
                if a.0 as i128 * b.1 as i128 - a.1 as i128 * b.0 as i128 <= 0 { i += 1; continue; }
                let mut t = vec![c, (c.0 + a.0, c.1 + a.1), (c.0 + b.0, c.1 + b.1)];
                k += 1;
                holes.push(t.clone());
                i += if rnd(0, 3) == 0 { 3 } else { 2 };
                // nested: hole, island, hole, island
                for _ in 0..rnd(0, 4) {
                    let g = (t[0].0 + t[1].0 + t[2].0, t[0].1 + t[1].1 + t[2].1);
                    let u: Vec<Pt> = t.iter().map(|p| ((p.0 * 3 + g.0).div_euclid(6), (p.1 * 3 + g.1).div_euclid(6))).collect();
                    if area2(&u) <= 0 || u.iter().any(|p| (0..3).any(|i| cross(t[i], t[(i + 1) % 3], *p) <= 0)) { break; }
                    islands.push((t.clone(), u.clone()));
                    t = u;
                }
            }
            most = most.max(k);
        }
        n += holes.len();
        let mut m = vec![];
        // islands in order of depth: the first is a shape, the next a hole in it
        let mut at: Option<(usize, bool)> = None;
        for (i, (o, u)) in islands.iter().enumerate() {
            let solid = if i > 0 && islands[i - 1].1 == *o { !at.unwrap().1 } else { true };
            if solid { m.push((u.clone(), vec![])); at = Some((m.len() - 1, true)); }
            else { let k = at.unwrap().0; let v: &mut (Vec<Pt>, Vec<Vec<Pt>>) = &mut m[k]; v.1.push(u.clone()); at = Some((k, false)); }
        }
        want.push((vec![(bx, by), (bx + side - 2, by), (bx + side - 2, by + 2 * e * fans + 2), (bx, by + 2 * e * fans + 2)], holes));
        want.extend(m);
    }
    // others far away, so that there are more shapes
    for i in 0..far { let y = -3 * e - 10 - 4 * (i / 8); let x = (i % 8) * 4; want.push((vec![(x, y), (x + 2, y), (x + 2, y + 2), (x, y + 2)], vec![])); }
    let q = gen_affine(s, side * (blocks + 1));
    let map = |c: &Vec<Pt>| -> Vec<Pt> { let mut v: Vec<Pt> = c.iter().map(|p| (q.a * p.0 + q.b * p.1 + q.tx, q.c * p.0 + q.d * p.1 + q.ty)).collect(); if area2(&v) < 0 { v.reverse(); } v };
    let want: Vec<(Vec<Pt>, Vec<Vec<Pt>>)> = want.iter().map(|w| (map(&w.0), w.1.iter().map(map).collect())).collect();
    let mut all: Vec<Vec<Pt>> = want.iter().flat_map(|w| std::iter::once(w.0.clone()).chain(w.1.iter().cloned())).collect();
    let mut r = Rng::new(s.raw(1 << 60));
    for i in (1..all.len()).rev() { let j = (r.next() % (i as u64 + 1)) as usize; all.swap(i, j); }
    for c in all.iter_mut() { if r.next() % 2 == 0 { c.reverse(); } }
    let at = s.usize(0, all.len() - 1);
    let at = if s.bool() { at } else { 0 };
    let (ic, is) = (to_ints(&all[..at]), to_ints(&all[at..]));
    let dir = if s.bool() { CCW } else { CW };
    let (simp, solver, route) = (s.bool(), gen_solver(s), s.raw(3));
    cx.desc(|| if all.len() < 30 { format!("subject {} clip {} {:?} simplify {} {} route {}", show_i(&is), show_i(&ic), dir, simp, show_solver(&solver), route) } else { format!("{} rectangles with fans of {} triangles, {} contours, {:?} simplify {} {} route {}", blocks, n, all.len(), dir, simp, show_solver(&solver), route) });
    cx.nontrivial(n > 1 && want.len() > 1);
    cx.label_if(most > 2, "three holes at one vertex");
    cx.label_if(want.len() >= 32, "32 shapes or more");
    let out = match route {
        0 => overlay(&is, &ic, OverlayRule::Xor, FillRule::EvenOdd, dir, simp, 0, solver),
        1 => build(&is, &ic).into_graph_with_solver(FillRule::EvenOdd, solver).extract_shapes_custom(OverlayRule::Xor, dir, simp, 0),
        _ => build(&is, &ic).into_shape_vectors(FillRule::EvenOdd, OverlayRule::Xor, solver).iter().map(|sh| sh.iter().map(|c| { let mut c = c.to_path(); if dir == CCW { c.reverse(); } c }).collect()).collect(),
    };
    ensure!(out.len() == want.len(), "{} shapes instead of {}", out.len(), want.len());
    let ccw = |c: &IntContour| -> Vec<Pt> { let mut v = to_pts(c); if area2(&v) < 0 { v.reverse(); } v };
    for sh in &out {
        let o = rot(&ccw(&sh[0]));
        let Some(w) = want.iter().find(|w| rot(&w.0) == o) else { return Err(format!("outer contour {:?} is none of those given", o)) };
        // holes that meet in a vertex may be one contour or several: compare their edges
        let mut have: Vec<(Pt, Pt)> = edges_of(&sh[1..].iter().map(ccw).collect::<Vec<_>>());
        let mut need = edges_of(&w.1);
        have.sort();
        need.sort();
        ensure!(have == need, "the shape with the outer contour {:?} has holes {} instead of {:?}", o, show_i(&sh[1..]), w.1);
    }
    Ok(())
}
pub fn property() -> Property {
    Property { id: "C15", components: vec![
        Component { name: "nest_small", quick: 200_000, thorough: 10_000_000, rule: "2 to 40 nested contours (rectangles, diamonds, triangles, octagons, combs with others in their slots) under an affine map up to 2^30, in any order, start and direction, four routes: shapes and holes exactly as nested; non-trivial: two shapes and two holes", run: nest_small },
        Component { name: "nest_large", quick: 4_000, thorough: 200_000, rule: "as above with 100 to 3000 contours, up to 400 deep; non-trivial: two shapes and two holes", run: nest_large },
        Component { name: "stack", quick: 3_000, thorough: 150_000, rule: "up to 40 columns of up to 120 frames in frames; non-trivial: more than 4 contours", run: stack },
        Component { name: "fan", quick: 60_000, thorough: 3_000_000, rule: "1-5 rectangles without fans of up to 20 triangles that share a vertex, triangles nested inside, up to 40 squares elsewhere, three routes: every shape has exactly the edges of its holes; non-trivial: two shapes and two holes", run: fan },
        Component { name: "cells_small", quick: 400_000, thorough: 20_000_000, rule: "random cells and rings of cells on up to 9x9 blocks, touching at corners, or the rectangle without them: boundary exact, holes in their own shape, no connected part divided; non-trivial: two shapes and a hole", run: cells_small },
        Component { name: "cells_large", quick: 12_000, thorough: 600_000, rule: "as above on up to 34x34 blocks; non-trivial: two shapes and a hole", run: cells_large },
        Component { name: "cloud", quick: 5_000, thorough: 200_000, rule: "20-500 random polygons at extents up to 2^30, often in a frame: orientation, every hole inside its outer, each shape winds 0 or 1 times around points beside the edges; non-trivial: two shapes and a hole", run: cloud },
    ] }
}
