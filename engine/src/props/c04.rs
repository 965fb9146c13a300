use crate::common::*;
use crate::lat::*;
use crate::structure::*;
use crate::util::*;
use i_overlay::core::fill_rule::FillRule;
use i_overlay::core::overlay_rule::OverlayRule;
use i_overlay::core::solver::Solver;
use i_overlay::i_shape::int::shape::{IntContour, IntShapes};
use kit::geo::Pt;
use kit::{ensure, Component, Ctx, Property, Src};
use std::collections::BTreeMap;

type Chain = BTreeMap<(Pt, Pt), i64>;
/// signed edges of a result: each edge stored from its lesser end, counted +1 forwards and -1 backwards
fn chain(o: &IntShapes) -> Chain {
    let mut m = Chain::new();
    for c in o.iter().flatten() {
        for i in 0..c.len() {
            let (a, b) = (pt(&c[i]), pt(&c[(i + 1) % c.len()]));
            if a < b { *m.entry((a, b)).or_insert(0) += 1; } else { *m.entry((b, a)).or_insert(0) -= 1; }
        }
    }
    m.retain(|_, v| *v != 0);
    m
}
fn lin(terms: &[(i64, &Chain)]) -> Chain {
    let mut m = Chain::new();
    for (k, c) in terms { for (e, v) in c.iter() { *m.entry(*e).or_insert(0) += k * v; } }
    m.retain(|_, v| *v != 0);
    m
}
fn area2s(o: &IntShapes) -> i128 { flat(o).iter().map(|c| kit::geo::area2(c)).sum() }
fn same(what: &str, a: &Chain, b: &Chain) -> Result<(), String> {
    if a == b { return Ok(()); }
    let d = lin(&[(1, a), (-1, b)]);
    Err(format!("{}: boundaries differ by {:?}", what, d.iter().take(12).collect::<Vec<_>>()))
}
fn swapped(r: FillRule) -> FillRule { match r { FillRule::Positive => FillRule::Negative, FillRule::Negative => FillRule::Positive, r => r } }
fn mirror_rule(r: OverlayRule) -> OverlayRule {
    match r { OverlayRule::Difference => OverlayRule::InverseDifference, OverlayRule::InverseDifference => OverlayRule::Difference, OverlayRule::Subject => OverlayRule::Clip, OverlayRule::Clip => OverlayRule::Subject, r => r }
}

/// the seven regions of one graph are one algebra, down to the edges
fn algebra(cx: &mut Ctx, is: &[IntContour], ic: &[IntContour], fill: FillRule, solver: Solver, direct: bool) -> Result<(), String> {
    let g = build(is, ic).into_graph_with_solver(fill, solver);
    let get = |r: OverlayRule| if direct { build(is, ic).overlay_custom(r, fill, CCW, false, 0, solver) } else { g.extract_shapes_custom(r, CCW, false, 0) };
    let [u, i, d, v, x, s, c] = RULES.map(get);
    cx.nontrivial(!i.is_empty() && !d.is_empty());
    cx.label_if(!i.is_empty() && !d.is_empty() && !v.is_empty(), "all of intersection and both differences not empty");
    let (cu, ci, cd, cv, cxr, cs, cc) = (chain(&u), chain(&i), chain(&d), chain(&v), chain(&x), chain(&s), chain(&c));
    // the boundary of a sum is the sum of the boundaries
    same("union = subject + clip - intersection", &cu, &lin(&[(1, &cs), (1, &cc), (-1, &ci)]))?;
    same("difference = subject - intersection", &cd, &lin(&[(1, &cs), (-1, &ci)]))?;
    same("inverse difference = clip - intersection", &cv, &lin(&[(1, &cc), (-1, &ci)]))?;
    same("xor = both differences", &cxr, &lin(&[(1, &cd), (1, &cv)]))?;
    let a = [&u, &i, &d, &v, &x, &s, &c].map(|o| area2s(o));
    ensure!(a[0] == a[1] + a[4] && a[4] == a[2] + a[3] && a[5] == a[1] + a[2] && a[6] == a[1] + a[3], "areas (doubled) union, intersection, difference, inverse, xor, subject, clip: {:?}", a);
    // simplified contours enclose the same areas
    for (k, r) in RULES.iter().enumerate() {
        let o = g.extract_shapes(*r);
        ensure!(area2s(&o) == a[k], "{:?}: area (doubled) {} with simplified contours, {} without", r, area2s(&o), a[k]);
    }
    Ok(())
}
fn algebra_lattice(s: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    let c = LatCase::medium(s);
    let (fill, solver, direct) = (*s.pick(&FILLS), gen_solver(s), s.chance(1, 4));
    cx.desc(|| format!("{} {:?} {}", c.show(), fill, show_solver(&solver)));
    algebra(cx, &c.is, &c.ic, fill, solver, direct)
}
fn algebra_general(s: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    let c = GenCase::small(s, 4);
    let (fill, solver, direct) = (*s.pick(&FILLS), gen_solver_prog(s), s.chance(1, 4));
    cx.desc(|| format!("{} {:?} {}", c.show(), fill, show_solver(&solver)));
    algebra(cx, &c.is, &c.ic, fill, solver, direct)
}
fn algebra_cloud(s: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    let big = s.chance(1, 20);
    let c = if big { GenCase::cloud(s, 400, 1500) } else { GenCase::cloud(s, 10, 120) };
    let (fill, solver) = (*s.pick(&FILLS), if big { gen_solver_big(s) } else { gen_solver_prog(s) });
    cx.desc(|| format!("{} {:?} {}", c.show(), fill, show_solver(&solver)));
    algebra(cx, &c.is, &c.ic, fill, solver, false)
}

/// transformations that keep the set of edges: exact at any coordinates
fn same_edges(s: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    let (is, ic, desc) = match s.weighted(&[6, 12, 1]) {
        0 => { let c = LatCase::medium(s); let d = c.show(); (c.is, c.ic, d) }
        1 => { let c = GenCase::small(s, 5); let d = c.show(); (c.is, c.ic, d) }
        _ => { let c = GenCase::cloud(s, 5, 60); let d = c.show(); (c.is, c.ic, d) }
    };
    // points on straight stretches may be dropped from or kept in the input depending on where the contour starts: leave none
    let (is, ic) = { let f = |v: Vec<IntContour>| -> Vec<IntContour> { v.iter().map(|c| to_int(&reference_simple(&to_pts(c)))).collect() }; (f(is), f(ic)) };
    let (fill, rule, solver, simp) = (*s.pick(&FILLS), *s.pick(&RULES), gen_solver_prog(s), s.bool());
    cx.desc(|| format!("{} {:?} {:?} {} simplify {}", desc, rule, fill, show_solver(&solver), simp));
    let go = |a: &[IntContour], b: &[IntContour], r: OverlayRule, f: FillRule| flat(&build(a, b).overlay_custom(r, f, CCW, simp, 0, solver));
    let base = go(&is, &ic, rule, fill);
    cx.nontrivial(!base.is_empty());
    same_boundary("subject and clip exchanged", &go(&ic, &is, mirror_rule(rule), fill), &base)?;
    let rev = |v: &[IntContour]| -> Vec<IntContour> { v.iter().map(|c| c.iter().rev().copied().collect()).collect() };
    same_boundary("every contour reversed", &go(&rev(&is), &rev(&ic), rule, swapped(fill)), &base)?;
    let mut p = (is.clone(), ic.clone());
    s.shuffle(&mut p.0);
    s.shuffle(&mut p.1);
    for c in p.0.iter_mut().chain(p.1.iter_mut()) { if !c.is_empty() { let k = s.usize(0, c.len() - 1); c.rotate_left(k); } }
    // additions may also be interleaved
    let mut o = i_overlay::core::overlay::Overlay::new(8);
    let (mut i, mut j) = (0, 0);
    while i < p.0.len() || j < p.1.len() {
        if j >= p.1.len() || (i < p.0.len() && s.bool()) { o.add_contour(&p.0[i], i_overlay::core::overlay::ShapeType::Subject); i += 1; }
        else { o.add_contour(&p.1[j], i_overlay::core::overlay::ShapeType::Clip); j += 1; }
    }
    same_boundary("contours reordered and rotated", &flat(&o.overlay_custom(rule, fill, CCW, simp, 0, solver)), &base)
}

fn boundary(w: i32, h: i32, q: &Affine, out: &IntShapes) -> Result<Field, String> {
    let mut f = Field::new(w, h);
    let sg = q.det() > 0;
    for c in out.iter().flatten() { let mut d = decode(q, c)?; if !sg { d.reverse(); } f.add_path(&d, true)?; }
    Ok(f)
}
/// affine symmetries, collinear points, all at once, compared on the lattice
fn moved(s: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    let c = if s.chance(1, 8) { LatCase::medium(s) } else { LatCase::small(s) };
    let (fill, rule, solver) = (*s.pick(&FILLS), *s.pick(&RULES), gen_solver(s));
    // fill rule meant in lattice orientation, so that a mirrored map asks for the exchanged rule
    let f1 = fill_dir(fill, &c.q);
    let simp = s.bool();
    let q2 = gen_affine(s, 2 * c.w.max(c.h) as i64);
    let f2 = fill_dir(fill, &q2);
    let thicken = |s: &mut Src, v: &[LPath]| -> Vec<LPath> { v.iter().map(|p| {
        let mut o = vec![];
        for i in 0..p.len() {
            let (a, b) = (p[i], p[(i + 1) % p.len()]);
            o.push(a);
            let n = (b.0 - a.0).abs().max((b.1 - a.1).abs()) / 2;
            if n < 2 { continue; }
            let d = ((b.0 - a.0) / n, (b.1 - a.1) / n);
            for k in 1..n { if s.chance(1, 3) { o.push((a.0 + d.0 * k, a.1 + d.1 * k)); } }
        }
        if !o.is_empty() { let k = s.usize(0, o.len() - 1); o.rotate_left(k); }
        o
    }).collect() };
    let (mut s2, mut c2) = (thicken(s, &c.subj), thicken(s, &c.clip));
    // a contour together with its reverse cancels under the winding rules
    if fill != FillRule::EvenOdd || s.bool() {
        for _ in 0..s.usize(0, 2) {
            let mut p = if s.bool() { s.pick(&s2).clone() } else { gen_contour(s, c.w, c.h, &s2) };
            let to = if s.bool() { &mut s2 } else { &mut c2 };
            to.push(p.clone());
            p.reverse();
            to.push(p);
        }
    }
    s.shuffle(&mut s2);
    s.shuffle(&mut c2);
    let d = LatCase::new(c.w, c.h, s2, c2, q2);
    cx.desc(|| format!("{} {:?} {:?} {} simplify {}; against {}", c.show(), rule, fill, show_solver(&solver), simp, d.show()));
    let a = build(&c.is, &c.ic).overlay_custom(rule, f1, CCW, simp, 0, solver);
    let b = build(&d.is, &d.ic).overlay_custom(rule, f2, CCW, simp, 0, solver);
    cx.nontrivial(!a.is_empty());
    cx.label_if(c.q.det().signum() != d.q.det().signum(), "mirrored");
    let (fa, fb) = (boundary(c.w, c.h, &c.q, &a)?, boundary(d.w, d.h, &d.q, &b)?);
    for u in fa.units() { ensure!(fa.get(u) == fb.get(u), "moved input: lattice edge {:?} is bounded {} times in one result and {} in the other; {} versus {}", unit_ends(u), fa.get(u), fb.get(u), show_shapes(&a), show_shapes(&b)); }
    Ok(())
}

pub fn property() -> Property {
    Property { id: "C04", components: vec![
        Component { name: "algebra_lattice", quick: 12_000, thorough: 600_000, rule: "the seven rules of one graph (or of fresh overlays): signed edge identities and exact areas; lattice contours; non-trivial: intersection and difference not empty", run: algebra_lattice },
        Component { name: "algebra_general", quick: 60_000, thorough: 3_000_000, rule: "the same identities at arbitrary coordinates with rounded crossings; non-trivial: intersection and difference not empty", run: algebra_general },
        Component { name: "algebra_cloud", quick: 800, thorough: 40_000, rule: "the same identities for 10-1500 polygons per side; non-trivial: intersection and difference not empty", run: algebra_cloud },
        Component { name: "same_edges", quick: 30_000, thorough: 1_500_000, rule: "exchange of subject and clip, reversal, reordering, rotation, interleaved additions: identical signed boundary, at any coordinates (contours without straight points); non-trivial: result not empty", run: same_edges },
        Component { name: "moved", quick: 50_000, thorough: 2_500_000, rule: "one lattice figure under two random affine maps (shift, mirror, scale, shear), one of them with collinear points inserted, cancelling pairs added, contours reordered and rotated: same region; non-trivial: result not empty", run: moved },
    ] }
}
