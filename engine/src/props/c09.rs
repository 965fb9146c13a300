use crate::common::*;
use crate::gen;
use crate::lat::*;
use crate::structure::*;
use crate::util::*;
use i_overlay::vector::edge::{ToPath, VectorEdge, VectorShape, CLIP_LEFT, CLIP_RIGHT, SUBJ_LEFT, SUBJ_RIGHT};
use kit::geo::*;
use kit::{ensure, Component, Ctx, Property, Src};
use std::collections::HashMap;

/// (subject left, subject right, clip left, clip right)
fn flags(f: u8) -> [bool; 4] { [f & SUBJ_LEFT != 0, f & SUBJ_RIGHT != 0, f & CLIP_LEFT != 0, f & CLIP_RIGHT != 0] }
/// labels of an edge in lattice direction (a mirroring map exchanges left and right)
fn lat_flags(f: u8, mirrored: bool) -> [bool; 4] { let [a, b, c, d] = flags(f); if mirrored { [b, a, d, c] } else { [a, b, c, d] } }
fn oriented(f: [bool; 4], forward: bool) -> [bool; 4] { if forward { f } else { [f[1], f[0], f[3], f[2]] } }

fn lattice(s: &mut Src, cx: &mut Ctx, c: LatCase) -> Result<(), String> {
    let (fill, rule, solver) = (*s.pick(&FILLS), *s.pick(&RULES), gen_solver(s));
    let graph = s.bool();
    cx.desc(|| format!("{} {:?} {:?} {} {}", c.show(), fill, rule, show_solver(&solver), if graph { "graph" } else { "direct" }));
    let o = || build(&c.is, &c.ic);
    let (sep, shp) = if graph { let g = o().into_graph_with_solver(fill, solver); (g.extract_separate_vectors(), g.extract_shape_vectors(rule)) } else { (o().into_separate_vectors(fill, solver), o().into_shape_vectors(fill, rule, solver)) };
    let (fs, fc) = (c.fill_subj(fill), c.fill_clip(fill));
    let (w, wu) = (c.w, c.w as usize);
    let f = Field::new(c.w, c.h);
    let mirrored = c.q.det() < 0;
    let truth = |u: Unit| { let (l, r) = f.sides(u); [fill_at(wu, &fs, l), fill_at(wu, &fs, r), fill_at(wu, &fc, l), fill_at(wu, &fc, r)] };
    let given: std::collections::HashSet<Unit> = { let mut h = std::collections::HashSet::new(); for p in c.subj.iter().chain(&c.clip) { for i in 0..p.len() { f.trace(p[i], p[(i + 1) % p.len()], |u, _| { h.insert(u); })?; } } h };
    let mut seen: HashMap<Unit, usize> = HashMap::new();
    for e in &sep {
        ensure!(e.a != e.b, "an edge of no length at {:?}", e.a);
        let d = decode(&c.q, &[e.a, e.b])?;
        let lab = lat_flags(e.fill, mirrored);
        let mut us = vec![];
        f.trace(d[0], d[1], |u, k| us.push((u, k)))?;
        for (u, k) in us {
            *seen.entry(u).or_insert(0) += 1;
            ensure!(given.contains(&u), "separate edge {:?} covers {:?}, where no input edge runs", (pt(&e.a), pt(&e.b)), unit_ends(u));
            let t = oriented(truth(u), k > 0);
            ensure!(lab == t, "separate edge {:?}: labels (subject left, right, clip left, right) {:?}, true fill {:?}", (pt(&e.a), pt(&e.b)), oriented(lab, true), t);
        }
    }
    let mut bounds = 0;
    for u in f.units() {
        let t = truth(u);
        let b = t[0] != t[1] || t[2] != t[3];
        bounds += b as usize;
        let n = seen.get(&u).copied().unwrap_or(0);
        ensure!(n <= 1, "{:?} is covered by {} separate edges", unit_ends(u), n);
        ensure!(n == 1 || !b, "{:?} bounds a fill but no separate edge covers it", unit_ends(u));
    }
    cx.nontrivial(bounds > 0);
    // shape vectors
    let want = combine(&fs, &fc, rule);
    check_closed(&shp)?;
    let mut shapes: Vec<Vec<LPath>> = vec![];
    for sh in &shp {
        let mut v = vec![];
        for p in sh {
            for e in p {
                let d = decode(&c.q, &[e.a, e.b])?;
                let lab = lat_flags(e.fill, mirrored);
                let mut us = vec![];
                f.trace(d[0], d[1], |u, k| us.push((u, k)))?;
                for (u, k) in us {
                    let t = oriented(truth(u), k > 0);
                    ensure!(lab == t, "shape vector edge {:?}: labels {:?}, true fill {:?}", (pt(&e.a), pt(&e.b)), lab, t);
                }
            }
            v.push(decode(&c.q, &p.to_path())?);
        }
        shapes.push(v);
    }
    cx.label_if(shp.len() > 1, "several vector shapes");
    cx.label_if(shp.iter().any(|s| s.len() > 1), "vector shape with a hole");
    // outer contours run clockwise here
    let ccw = mirrored;
    check_boundary(w, c.h, &shapes, &want, ccw)?;
    let (lab, n) = components(wu, c.h as usize, &want, None);
    check_shapes(w, c.h, &shapes, &lab, n, ccw)
}
/// each path is a chain that ends where it starts
fn check_closed(v: &[VectorShape]) -> Result<(), String> {
    for p in v.iter().flatten() {
        ensure!(p.len() >= 3, "a vector contour of {} edges: {:?}", p.len(), p);
        for i in 0..p.len() { ensure!(p[i].b == p[(i + 1) % p.len()].a, "vector contour is not closed between {:?} and {:?}", p[i], p[(i + 1) % p.len()]); ensure!(p[i].a != p[i].b, "vector edge of no length"); }
    }
    Ok(())
}
fn lattice_small(s: &mut Src, cx: &mut Ctx) -> Result<(), String> { let c = LatCase::small(s); lattice(s, cx, c) }
fn lattice_medium(s: &mut Src, cx: &mut Ctx) -> Result<(), String> { let c = LatCase::medium(s); lattice(s, cx, c) }

/// arbitrary coordinates: the edges are planar, and each label agrees with the windings the labelled edges themselves make
fn general(s: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    let c = if s.chance(1, 20) { GenCase::cloud(s, 5, 60) } else { GenCase::small(s, 4) };
    let (fill, solver) = (*s.pick(&FILLS), gen_solver_prog(s));
    let rule = *s.pick(&RULES);
    cx.desc(|| format!("{} {:?} {:?} {}", c.show(), fill, rule, show_solver(&solver)));
    let g = build(&c.is, &c.ic).into_graph_with_solver(fill, solver);
    let sep = if s.bool() { g.extract_separate_vectors() } else { build(&c.is, &c.ic).into_separate_vectors(fill, solver) };
    cx.nontrivial(sep.len() > 3);
    let ed: Vec<(Pt, Pt)> = sep.iter().map(|e| (pt(&e.a), pt(&e.b))).collect();
    if let Some((i, j, m)) = first_conflict(&ed, true) { return Err(format!("separate edges {:?} and {:?} meet: {:?}", ed[i], ed[j], m)); }
    // boundary edges of subject and clip, filled side on the left
    let side = |k: usize| -> Vec<(Pt, Pt)> { sep.iter().filter(|e| flags(e.fill)[2 * k] != flags(e.fill)[2 * k + 1]).map(|e| if flags(e.fill)[2 * k] { (pt(&e.a), pt(&e.b)) } else { (pt(&e.b), pt(&e.a)) }).collect() };
    let (bs, bc) = (side(0), side(1));
    for (b, n) in [(&bs, "subject"), (&bc, "clip")] {
        let mut deg: HashMap<Pt, i64> = HashMap::new();
        for e in b { *deg.entry(e.0).or_insert(0) += 1; *deg.entry(e.1).or_insert(0) -= 1; }
        if let Some(p) = deg.iter().find(|x| *x.1 != 0) { return Err(format!("the {} boundary made of the labelled edges is not closed at {:?}", n, p.0)); }
    }
    let wind = |b: &[(Pt, Pt)], p: Pt| -> Option<i32> {
        let mut w = 0;
        for &(a, q) in b {
            let (a, q) = ((8 * a.0, 8 * a.1), (8 * q.0, 8 * q.1));
            if on_segment(p, a, q) { return None; }
            if a.1 <= p.1 { if q.1 > p.1 && cross(a, q, p) > 0 { w += 1; } } else if q.1 <= p.1 && cross(a, q, p) < 0 { w -= 1; }
        }
        Some(w)
    };
    for _ in 0..10 {
        if sep.is_empty() { break; }
        let e: &VectorEdge = s.pick(&sep);
        let (a, b) = (pt(&e.a), pt(&e.b));
        // a point an eighth of a unit or so beside the middle; skip when another edge passes between
        let m = (4 * (a.0 + b.0), 4 * (a.1 + b.1));
        let d = (b.0 - a.0, b.1 - a.1);
        let n = (-d.1.signum(), d.0.signum());
        for (k, p) in [(0usize, (m.0 + n.0, m.1 + n.1)), (1, (m.0 - n.0, m.1 - n.1))] {
            if ed.iter().any(|&(x, y)| (x, y) != (a, b) && (on_segment(p, (8 * x.0, 8 * x.1), (8 * y.0, 8 * y.1)) || meet(m, p, (8 * x.0, 8 * x.1), (8 * y.0, 8 * y.1)) != Meet::None)) { continue; }
            if on_segment(p, (8 * a.0, 8 * a.1), (8 * b.0, 8 * b.1)) { continue; }
            let (Some(ws), Some(wc)) = (wind(&bs, p), wind(&bc, p)) else { continue };
            ensure!((0..=1).contains(&ws) && (0..=1).contains(&wc), "labelled edges wind {} and {} times around a point beside {:?}", ws, wc, (a, b));
            let l = flags(e.fill);
            ensure!(l[k] == (ws == 1) && l[2 + k] == (wc == 1), "edge {:?}: labels (subject left, right, clip left, right) {:?}, but on its {} the labelled edges give subject {} clip {}", (a, b), l, if k == 0 { "left" } else { "right" }, ws, wc);
        }
    }
    // far from edges the fill is the input's
    let all = c.all();
    let refs: Vec<&Vec<Pt>> = all.iter().collect();
    for _ in 0..6 {
        let p = gen::gen_probe(s, c.e, &refs, 20);
        if dist_edges(&all, p, true) < 12.0 { continue; }
        let (Some(x), Some(y)) = (winding_all(&c.subj, p), winding_all(&c.clip, p)) else { continue };
        let q = (8 * p.0, 8 * p.1);
        let (Some(ws), Some(wc)) = (wind(&bs, q), wind(&bc, q)) else { continue };
        ensure!(ws == filled(x, fill) as i32 && wc == filled(y, fill) as i32, "at {:?} (windings {} {}) the labelled edges give {} {}", p, x, y, ws, wc);
    }
    // shape vectors trace the region the plain extraction returns
    let shp = g.extract_shape_vectors(rule);
    check_closed(&shp)?;
    let vec_contours: Vec<Vec<Pt>> = shp.iter().flatten().map(|p| to_pts(&p.to_path())).collect();
    let plain = flat(&g.extract_shapes_custom(rule, CW, false, 0));
    same_boundary("shape vectors and shapes", &vec_contours, &plain)?;
    for sh in &shp { for (k, p) in sh.iter().enumerate() {
        let a = area2(&to_pts(&p.to_path()));
        ensure!(if k == 0 { a < 0 } else { a > 0 }, "contour {} of a vector shape has signed area {}/2", k, a);
        for e in p { let [sl, sr, cl, cr] = flags(e.fill); ensure!(!ruled(sl, cl, rule) && ruled(sr, cr, rule), "edge {:?} of a vector shape is labelled {:?}, which does not bound the region on its right", (pt(&e.a), pt(&e.b)), flags(e.fill)); }
    } }
    Ok(())
}
pub fn property() -> Property {
    Property { id: "C09", components: vec![
        Component { name: "lattice_small", quick: 240_000, thorough: 4_000_000, rule: "1-4 + 0-4 lattice contours, direct and through the graph: every separate edge labelled with the true fill, every bounding unit edge covered once, shape vectors trace the exact boundary with true labels and right nesting; non-trivial: something is filled", run: lattice_small },
        Component { name: "lattice_medium", quick: 30_000, thorough: 500_000, rule: "as above with up to 16+16 contours; non-trivial: something is filled", run: lattice_medium },
        Component { name: "general", quick: 120_000, thorough: 2_000_000, rule: "arbitrary coordinates: planar edges, labels consistent with the windings of the labelled edges beside sampled edges, fill as the input's away from edges, shape vectors trace the plain extraction; non-trivial: more than 3 edges", run: general },
    ] }
}
