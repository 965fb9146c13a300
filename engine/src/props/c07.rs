use crate::common::*;
use crate::gen;
use crate::lat::*;
use crate::structure::*;
use crate::util::*;
use i_overlay::core::overlay::ContourDirection;
use i_overlay::i_shape::int::shape::{IntContour, IntShapes};
use i_overlay::string::overlay::StringOverlay;
use i_overlay::string::rule::StringRule;
use i_overlay::string::slice::IntSlice;
use kit::geo::*;
use kit::{ensure, Component, Ctx, Property, Src};
use std::collections::HashSet;

/// cutting lines on the lattice: (points, closed)
pub fn gen_strings(s: &mut Src, w: i32, h: i32, shape: &[LPath], max: usize) -> Vec<(LPath, bool)> {
    let n = s.usize(0, max);
    (0..n).map(|_| {
        let closed = s.chance(1, 4);
        let p = match s.weighted(&[4, 2, 3, 2, 1]) {
            // a straight line
            0 => { let a = rpt(s, w, h); let mut v = vec![a]; let b = rpt(s, w, h); connect(s, a, b, &mut v); v.truncate(2); v }
            // across the whole grid
            1 => if s.bool() { let x = 2 * s.range(0, w as i64) as i32; vec![(x, 0), (x, 2 * h)] } else { let y = 2 * s.range(0, h as i64) as i32; vec![(2 * w, y), (0, y)] },
            // an octilinear walk
            2 => {
                let a = rpt(s, w, h);
                let mut v = vec![a];
                for _ in 0..s.usize(1, 6) { let b = if s.chance(1, 5) { *s.pick(&v[..]) } else { rpt(s, w, h) }; let c = *v.last().unwrap(); connect(s, c, b, &mut v); }
                v
            }
            // part of a shape's outline
            3 => if shape.is_empty() { vec![] } else { let c = s.pick(shape).clone(); let k = s.usize(0, c.len().max(1) - 1); let mut c = c; if !c.is_empty() { c.rotate_left(k); } if s.bool() { c.reverse(); } let n = s.usize(0, c.len()); c.truncate(n); c },
            // a block outline
            _ => gen_block(s, w, h),
        };
        // a closed string must return along lattice lines
        let closed = closed && p.len() > 1 && { let (a, b) = (p[p.len() - 1], p[0]); let d = ((b.0 - a.0).abs(), (b.1 - a.1).abs()); d.0 == 0 || d.1 == 0 || d.0 == d.1 };
        (p, closed)
    }).collect()
}
pub struct Strings { pub list: Vec<(LPath, bool)>, pub int: Vec<IntContour> }
impl Strings {
    pub fn gen(s: &mut Src, c: &LatCase, max: usize) -> Strings {
        let list = gen_strings(s, c.w, c.h, &c.subj, max);
        let int = list.iter().map(|(p, _)| c.q.contour(p)).collect();
        Strings { list, int }
    }
    pub fn show(&self) -> String { self.list.iter().zip(&self.int).map(|((_, cl), p)| format!("{}{}", if *cl { "closed " } else { "" }, show_i(std::slice::from_ref(p)))).collect::<Vec<_>>().join(" ") }
    pub fn add(&self, s: &mut Src, o: &mut StringOverlay) {
        for ((p, closed), ip) in self.list.iter().zip(&self.int) {
            if *closed { if s.bool() { o.add_string_contour(ip); } else { o.add_string_contours(std::slice::from_ref(ip)); } }
            else if p.len() == 2 && s.bool() { if s.bool() { o.add_string_line([ip[0], ip[1]]); } else { o.add_string_lines(&[[ip[0], ip[1]]]); } }
            else if s.bool() { o.add_string_path(ip); } else { o.add_string_paths(std::slice::from_ref(ip)); }
        }
    }
    /// the same cuts as open paths
    pub fn open(&self) -> Vec<IntContour> { self.int.iter().zip(&self.list).map(|(p, (_, c))| { let mut p = p.clone(); if *c && !p.is_empty() { p.push(p[0]); } p }).collect() }
    pub fn lattice_open(&self) -> Vec<LPath> { self.list.iter().map(|(p, c)| { let mut p = p.clone(); if *c && !p.is_empty() { p.push(p[0]); } p }).collect() }
}
pub fn string_overlay(s: &mut Src, is: &[IntContour]) -> StringOverlay {
    match s.raw(5) {
        0 => StringOverlay::with_shape_contours(is),
        1 => StringOverlay::with_shape(is),
        2 => { let mut o = StringOverlay::new(4); for c in is { o.add_shape_contour(c); } o }
        3 => { let n = s.usize(0, is.len()); let v = vec![is[..n].to_vec(), is[n..].to_vec()]; if s.bool() { StringOverlay::with_shapes(&v) } else { let mut o = StringOverlay::new(1); o.add_shapes(&v); o } }
        _ => { let mut o = match is.first() { Some(c) => StringOverlay::with_shape_contour(c), None => StringOverlay::new(0) }; if is.len() > 1 { o.add_shape_contours(&is[1..]); } o }
    }
}

fn lattice(s: &mut Src, cx: &mut Ctx, c: LatCase, max: usize) -> Result<(), String> {
    let st = Strings::gen(s, &c, max);
    let (fill, solver, dir) = (*s.pick(&FILLS), gen_solver(s), if s.bool() { CCW } else { CW });
    let route = s.raw(6);
    cx.desc(|| format!("shapes {} cuts {} {:?} {} {:?} route {}", show_i(&c.is), st.show(), fill, show_solver(&solver), dir, route));
    let (mut dir_used, mut lines) = (CCW, None);
    let out: IntShapes = match route {
        0..=2 => {
            let mut o = string_overlay(s, &c.is);
            st.add(s, &mut o);
            let g = if s.chance(1, 4) { o.into_graph(fill) } else { o.into_graph_with_solver(fill, solver) };
            dir_used = dir;
            g.extract_shapes_custom(StringRule::Slice, dir, 0)
        }
        _ => {
            let open = st.open();
            let all2 = open.iter().all(|p| p.len() == 2);
            let l: Vec<[_; 2]> = open.iter().filter(|p| p.len() == 2).map(|p| [p[0], p[1]]).collect();
            let by_line = all2 && s.bool();
            lines = Some(by_line);
            let call = |r: &dyn IntSlice| if by_line && l.len() == 1 { r.slice_by_line(l[0], fill) } else if by_line { r.slice_by_lines(&l, fill) } else if open.len() == 1 { r.slice_by_path(&open[0], fill) } else { r.slice_by_paths(&open, fill) };
            match route {
                3 => { let n = s.usize(0, c.is.len()); let v: IntShapes = vec![c.is[..n].to_vec(), c.is[n..].to_vec()]; call(&v) }
                4 => call(&c.is),
                _ if c.is.len() == 1 => { if by_line { c.is[0][..].slice_by_lines(&l, fill) } else { c.is[0][..].slice_by_paths(&open, fill) } }
                _ => call(&c.is),
            }
        }
    };
    let _ = lines;
    let want = c.fill_subj(fill);
    // the cuts
    let mut cut = HashSet::new();
    let f = Field::new(c.w, c.h);
    for p in st.lattice_open() { for k in p.windows(2) { f.trace(k[0], k[1], |u, _| { cut.insert(u); })?; } }
    let is_cut = |u: Unit| cut.contains(&u);
    let (lab, n) = components(c.w as usize, c.h as usize, &want, Some(&is_cut));
    let (_, n0) = components(c.w as usize, c.h as usize, &want, None);
    cx.nontrivial(n > n0);
    cx.label_if(n > n0 + 3, "more than three extra pieces");
    cx.label_if(n == n0 && !cut.is_empty() && n > 0, "cuts that separate nothing");
    check_pieces(&c, &out, &want, &lab, n, dir_used).map_err(|e| format!("{}; pieces {}", e, show_shapes(&out)))
}
/// every piece is one component and every component one piece; contours are simple, oriented, holes inside
pub fn check_pieces(c: &LatCase, out: &IntShapes, want: &Fill, lab: &[[usize; 4]], n: usize, dir: ContourDirection) -> Result<(), String> {
    check_contours(out, dir, false)?;
    let d = decode_shapes(&c.q, out)?;
    let ccw = c.ccw(dir);
    let mut seen = vec![false; n];
    let mut total = vec![[0; 4]; want.len()];
    for sh in &d {
        for k in sh { ensure!(max_visits(k) == 1, "a contour of a piece visits a point twice: {:?}", k); }
        let wd = Field::from_contours(c.w, c.h, sh).windings();
        let mut id = usize::MAX;
        for (b, t) in wd.iter().enumerate() { for q in 0..4 {
            if t[q] == 0 { continue; }
            ensure!(t[q] == if ccw { 1 } else { -1 }, "a piece winds {} times around a point: {:?}", t[q], sh);
            let l = lab[b][q];
            ensure!(l != usize::MAX, "a piece covers a point outside the region: {:?}", sh);
            if id == usize::MAX { id = l; ensure!(!seen[l], "two pieces share a connected part"); seen[l] = true; }
            ensure!(l == id, "one piece covers two parts that the cuts separate: {:?}", sh);
            total[b][q] += 1;
        } }
    }
    for (b, t) in total.iter().enumerate() { for q in 0..4 {
        ensure!(t[q] == want[b][q] as i32, "triangle {} of block ({},{}) is covered {} times but {} in the region", q, b % c.w as usize, b / c.w as usize, t[q], if want[b][q] { "is" } else { "is not" });
    } }
    Ok(())
}
fn lattice_small(s: &mut Src, cx: &mut Ctx) -> Result<(), String> { let c = LatCase::small(s); lattice(s, cx, c, 5) }
fn lattice_medium(s: &mut Src, cx: &mut Ctx) -> Result<(), String> { let c = LatCase::medium(s); lattice(s, cx, c, 14) }

fn min_area(s: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    let c = if s.chance(1, 8) { LatCase::medium(s) } else { LatCase::small(s) };
    let st = Strings::gen(s, &c, 6);
    let (fill, solver, dir) = (*s.pick(&FILLS), gen_solver(s), if s.bool() { CCW } else { CW });
    let mut o = StringOverlay::with_shape_contours(&c.is);
    st.add(s, &mut o);
    let g = o.into_graph_with_solver(fill, solver);
    let base = g.extract_shapes_custom(StringRule::Slice, dir, 0);
    let area = |c: &IntContour| area2(&to_pts(c)).abs() / 2;
    let areas: Vec<i128> = base.iter().flatten().map(area).collect();
    let min = if areas.is_empty() || s.chance(1, 8) { s.usize(0, 100) } else { (*s.pick(&areas) + s.zrange(-1, 1) as i128).max(0) as usize };
    cx.desc(|| format!("shapes {} cuts {} {:?} {} {:?} min_area {}", show_i(&c.is), st.show(), fill, show_solver(&solver), dir, min));
    let got = g.extract_shapes_custom(StringRule::Slice, dir, min);
    let want: IntShapes = base.iter().filter(|s| area(&s[0]) >= min as i128).map(|s| s.iter().filter(|c| area(c) >= min as i128).cloned().collect()).collect();
    cx.nontrivial(want.iter().flatten().count() < areas.len());
    cx.label_if(want.iter().flatten().count() < areas.len() && !want.is_empty(), "some kept, some left out");
    ensure!(canon(&got) == canon(&want), "min_area {}: got {}, expected {} (areas {:?})", min, show_shapes(&got), show_shapes(&want), areas);
    Ok(())
}

/// arbitrary coordinates; every cut runs across the whole extent, so points on different sides are separated
fn general(s: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    let c = GenCase::small(s, 4);
    let e = c.e;
    let n = s.usize(1, 5);
    let r = |s: &mut Src| s.zrange(-e, e);
    let cuts: Vec<(Pt, Pt)> = (0..n).map(|_| {
        let (a, b) = if s.bool() { ((-e - 1, r(s)), (e + 1, r(s))) } else { ((r(s), -e - 1), (r(s), e + 1)) };
        if s.bool() { (b, a) } else { (a, b) }
    }).collect();
    let (fill, solver, dir) = (*s.pick(&FILLS), gen_solver_prog(s), if s.bool() { CCW } else { CW });
    cx.desc(|| format!("shapes {} cuts {:?} {:?} {} {:?}", show_i(&c.is), cuts, fill, show_solver(&solver), dir));
    let mut o = StringOverlay::with_shape_contours(&c.is);
    for &(a, b) in &cuts { o.add_string_line([ip(a), ip(b)]); }
    let out = o.into_graph_with_solver(fill, solver).extract_shapes_custom(StringRule::Slice, dir, 0);
    cx.nontrivial(out.len() > 1);
    check_contours(&out, dir, false)?;
    check_planar_pieces(&out)?;
    check_cover(s, &out, dir, 12)?;
    let sh = shapes_pts(&out);
    let tol = 14.0;
    let near_cut = |p: Pt| cuts.iter().map(|&(a, b)| dist_seg(p, a, b)).fold(f64::INFINITY, f64::min);
    for (k, x) in sh.iter().enumerate() { for &(a, b) in &cuts {
        let len = (((b.0 - a.0) as f64).powi(2) + ((b.1 - a.1) as f64).powi(2)).sqrt();
        let (mut pos, mut neg) = (0f64, 0f64);
        for p in x.iter().flatten() { let d = cross(a, b, *p) as f64 / len; pos = pos.max(d); neg = neg.min(d); }
        ensure!(pos < tol || -neg < tol, "piece {} reaches {:.1} left and {:.1} right of the cut {:?}: {:?}", k, pos, -neg, (a, b), x);
    } }
    for p in sh.iter().flatten().flatten() { ensure!(dist_edges(&c.subj, *p, true) < tol || near_cut(*p) < tol, "vertex {:?} is far from every edge and cut", p); }
    let refs: Vec<&Vec<Pt>> = c.subj.iter().collect();
    let mut prev: Option<(Pt, usize)> = None;
    for _ in 0..16 {
        let p = gen::gen_probe(s, e, &refs, 20);
        if dist_edges(&c.subj, p, true) < tol || near_cut(p) < tol || p.0.abs() > e || p.1.abs() > e { continue; }
        let Some(w) = winding_all(&c.subj, p) else { continue };
        let inside: Vec<usize> = (0..sh.len()).filter(|&k| winding_all(&sh[k], p) != Some(0)).collect();
        ensure!(inside.len() == filled(w, fill) as usize, "{:?} (winding {}) lies in {} pieces", p, w, inside.len());
        if inside.len() == 1 {
            // another point joined to it by a straight segment that comes near nothing
            if let Some((q, k)) = prev {
                let clear = |a: Pt, b: Pt| c.subj.iter().all(|x| (0..x.len()).all(|i| apart(a, b, x[i], x[(i + 1) % x.len()], tol))) && cuts.iter().all(|&(u, v)| apart(a, b, u, v, tol));
                if clear(p, q) { cx.label("joined probes"); ensure!(inside[0] == k, "{:?} and {:?} see each other inside the region but lie in pieces {} and {}", p, q, inside[0], k); }
            }
            prev = Some((p, inside[0]));
        }
    }
    Ok(())
}
/// pieces share cut edges, but no two edges cross or overlap only in part
fn check_planar_pieces(out: &IntShapes) -> Result<(), String> {
    let mut e: Vec<(Pt, Pt)> = edges_of(&flat(out)).into_iter().map(|(a, b)| if a < b { (a, b) } else { (b, a) }).collect();
    e.sort();
    e.dedup();
    if let Some((i, j, m)) = first_conflict(&e, true) { return Err(format!("edges {:?} and {:?} of the pieces meet: {:?}", e[i], e[j], m)); }
    Ok(())
}
fn apart(a: Pt, b: Pt, c: Pt, d: Pt, tol: f64) -> bool {
    if a != b && c != d && meet(a, b, c, d) != Meet::None { return false; }
    dist_seg(a, c, d) > tol && dist_seg(b, c, d) > tol && dist_seg(c, a, b) > tol && dist_seg(d, a, b) > tol
}
pub fn property() -> Property {
    Property { id: "C07", components: vec![
        Component { name: "lattice_small", quick: 480_000, thorough: 4_000_000, rule: "1-4 lattice contours cut by 0-5 lines, walks, loops and stretches of the outline, through the graph and every IntSlice route: pieces are exactly the components of the region minus the cuts; non-trivial: the cuts separate something", run: lattice_small },
        Component { name: "lattice_medium", quick: 60_000, thorough: 500_000, rule: "as above with up to 16 contours and 14 cuts on up to 24x24 blocks; non-trivial: the cuts separate something", run: lattice_medium },
        Component { name: "min_area", quick: 240_000, thorough: 2_000_000, rule: "thresholds at and next to the area of some contour: exactly the contours below are missing; non-trivial: some contour left out", run: min_area },
        Component { name: "general", quick: 240_000, thorough: 2_000_000, rule: "arbitrary coordinates, 1-5 cuts across the whole extent: each piece on one side of each cut, probes covered once, mutually visible probes in one piece; non-trivial: several pieces", run: general },
    ] }
}
