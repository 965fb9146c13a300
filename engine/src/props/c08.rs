use super::c07::{string_overlay, Strings};
use crate::common::*;
use crate::gen;
use crate::lat::*;
use crate::util::*;
use i_overlay::core::fill_rule::FillRule;
use i_overlay::i_shape::int::shape::IntContour;
use i_overlay::string::clip::{ClipRule, IntClip};
use i_overlay::string::overlay::StringOverlay;
use kit::geo::*;
use kit::{ensure, Component, Ctx, Property, Src};

/// is a portion with `n` filled sides returned?
pub fn kept(n: usize, r: ClipRule) -> bool {
    // inside: both sides filled; boundary: one; inversion swaps inside and outside
    match n { 0 => r.invert, 2 => !r.invert, _ => r.boundary_included != r.invert }
}
fn lattice(s: &mut Src, cx: &mut Ctx, c: LatCase, max: usize) -> Result<(), String> {
    let st = Strings::gen(s, &c, max);
    let (fill, solver) = (*s.pick(&FILLS), gen_solver(s));
    let rule = ClipRule { invert: s.bool(), boundary_included: s.bool() };
    let route = s.raw(6);
    cx.desc(|| format!("shapes {} lines {} {:?} {} {:?} route {}", show_i(&c.is), st.show(), fill, show_solver(&solver), rule, route));
    let out: Vec<IntContour> = match route {
        0..=2 => {
            let mut o = string_overlay(s, &c.is);
            st.add(s, &mut o);
            if s.chance(1, 4) { o.clip_string_lines(fill, rule) } else { o.clip_string_lines_with_solver(fill, rule, solver) }
        }
        _ => {
            let open = st.open();
            let l: Vec<[_; 2]> = open.iter().filter(|p| p.len() == 2).map(|p| [p[0], p[1]]).collect();
            let by_line = open.iter().all(|p| p.len() == 2) && s.bool();
            let call = |r: &dyn IntClip| if by_line && l.len() == 1 { r.clip_line(l[0], fill, rule) } else if by_line { r.clip_lines(&l, fill, rule) } else if open.len() == 1 { r.clip_path(&open[0], fill, rule) } else { r.clip_paths(&open, fill, rule) };
            match route {
                3 => { let n = s.usize(0, c.is.len()); let v = vec![c.is[..n].to_vec(), c.is[n..].to_vec()]; call(&v) }
                5 if c.is.len() == 1 => if by_line { c.is[0][..].clip_lines(&l, fill, rule) } else { c.is[0][..].clip_paths(&open, fill, rule) },
                _ => call(&c.is),
            }
        }
    };
    let region = c.fill_subj(fill);
    let wu = c.w as usize;
    let f = Field::new(c.w, c.h);
    let given = unit_steps(c.w, c.h, &st.lattice_open())?;
    let mut want = std::collections::BTreeSet::new();
    let (mut all, mut on) = (0, 0);
    for (&(u, d), _) in &given {
        let (l, r) = f.sides(u);
        let n = fill_at(wu, &region, l) as usize + fill_at(wu, &region, r) as usize;
        all += 1;
        on += (n == 1) as usize;
        if kept(n, rule) { want.insert((u, d)); }
    }
    cx.nontrivial(!want.is_empty() && want.len() < all);
    cx.label_if(on > 0, "line along the boundary");
    cx.label_if(given.values().any(|&k| k > 1), "line passed twice in one direction");
    for p in &out { ensure!(p.len() >= 2, "a returned path has {} points", p.len()); for k in p.windows(2) { ensure!(k[0] != k[1], "repeated point {:?} in a returned path", k[0]); } }
    let d: Result<Vec<LPath>, String> = out.iter().map(|p| decode(&c.q, p)).collect();
    let got = unit_steps(c.w, c.h, &d?)?;
    for (k, &m) in &got {
        ensure!(m == 1, "the step {:?} {} is returned {} times; output {}", unit_ends(k.0), if k.1 { "forwards" } else { "backwards" }, m, show_i(&out));
        ensure!(want.contains(k), "the step {:?} {} is returned although {}; output {}", unit_ends(k.0), if k.1 { "forwards" } else { "backwards" }, if given.contains_key(k) { "it lies on the wrong side" } else { "no line passes there in that direction" }, show_i(&out));
    }
    for k in &want { ensure!(got.contains_key(k), "the step {:?} {} is lost; output {}", unit_ends(k.0), if k.1 { "forwards" } else { "backwards" }, show_i(&out)); }
    Ok(())
}
fn lattice_small(s: &mut Src, cx: &mut Ctx) -> Result<(), String> { let c = LatCase::small(s); lattice(s, cx, c, 5) }
fn lattice_medium(s: &mut Src, cx: &mut Ctx) -> Result<(), String> { let c = LatCase::medium(s); lattice(s, cx, c, 14) }

fn general(s: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    let c = GenCase::small(s, 4);
    let e = c.e;
    let n = s.usize(1, 4);
    let lines: Vec<Vec<Pt>> = (0..n).map(|_| { let k = s.usize(2, 5); (0..k).map(|_| gen::rp(s, e)).collect() }).collect();
    let (fill, solver): (FillRule, _) = (*s.pick(&FILLS), gen_solver_prog(s));
    let rule = ClipRule { invert: s.bool(), boundary_included: s.bool() };
    cx.desc(|| format!("shapes {} lines {:?} {:?} {} {:?}", show_i(&c.is), lines, fill, show_solver(&solver), rule));
    let mut o = StringOverlay::with_shape_contours(&c.is);
    for l in &lines { o.add_string_path(&to_int(l)); }
    let out: Vec<Vec<Pt>> = o.clip_string_lines_with_solver(fill, rule, solver).iter().map(|p| to_pts(p)).collect();
    let tol = 12.0;
    let side = |p: Pt| -> Option<bool> { if dist_edges(&c.subj, p, true) < tol { None } else { winding_all(&c.subj, p).map(|w| filled(w, fill) != rule.invert) } };
    let on = |a: Pt, b: Pt, t: i64| (a.0 + ((b.0 - a.0) as i128 * t as i128 / 64) as i64, a.1 + ((b.1 - a.1) as i128 * t as i128 / 64) as i64);
    let (mut ins, mut outs) = (0, 0);
    for l in &lines { for k in l.windows(2).filter(|k| k[0] != k[1]) { for _ in 0..6 {
        let p = on(k[0], k[1], s.range(0, 64));
        match side(p) {
            Some(true) => { ins += 1; ensure!(dist_edges(&out, p, false) < tol, "the point {:?} of line {:?} should be kept but no returned path passes there", p, k); }
            Some(false) => outs += 1,
            None => {}
        }
    } } }
    cx.nontrivial(ins > 0 && outs > 0);
    for l in &out {
        ensure!(l.len() >= 2, "a returned path has {} points", l.len());
        for k in l.windows(2) {
            ensure!(k[0] != k[1], "repeated point {:?}", k[0]);
            for t in [0, s.range(0, 64), 64] {
                let p = on(k[0], k[1], t);
                ensure!(dist_edges(&lines, p, false) < tol, "returned point {:?} lies on no line", p);
                ensure!(side(p) != Some(false), "returned point {:?} lies on the wrong side", p);
            }
        }
    }
    // nothing twice: total length not above the input's, and no directed edge repeated
    let mut dir: Vec<(Pt, Pt)> = out.iter().flat_map(|l| l.windows(2).map(|k| (k[0], k[1]))).collect();
    dir.sort();
    if let Some(k) = dir.windows(2).find(|k| k[0] == k[1]) { return Err(format!("the step {:?} is returned twice", k[0])); }
    Ok(())
}
/// a rule and its inverse with the other boundary setting share the lines out between them, at any coordinates
fn complement(s: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    let c = GenCase::small(s, 4);
    let n = s.usize(1, 4);
    let lines: Vec<IntContour> = (0..n).map(|_| { let k = s.usize(2, 5); (0..k).map(|_| ip(gen::rp(s, c.e))).collect() }).collect();
    let (fill, solver) = (*s.pick(&FILLS), gen_solver_prog(s));
    let b = s.bool();
    cx.desc(|| format!("shapes {} lines {} {:?} {} boundary {}", show_i(&c.is), show_i(&lines), fill, show_solver(&solver), b));
    let get = |invert: bool, boundary_included: bool| {
        let mut o = StringOverlay::with_shape_contours(&c.is);
        for l in &lines { o.add_string_path(l); }
        let mut v: Vec<(Pt, Pt)> = o.clip_string_lines_with_solver(fill, ClipRule { invert, boundary_included }, solver).iter().flat_map(|l| l.windows(2).map(|k| (pt(&k[0]), pt(&k[1]))).collect::<Vec<_>>()).collect();
        v.sort();
        v
    };
    // invert with the same boundary setting is the exact complement
    let (x, y) = (get(false, b), get(true, b));
    cx.nontrivial(!x.is_empty() && !y.is_empty());
    let mut o = StringOverlay::with_shape_contours(&c.is);
    for l in &lines { o.add_string_path(l); }
    let mut sum: Vec<(Pt, Pt)> = x.iter().chain(&y).copied().collect();
    sum.sort();
    if let Some(k) = sum.windows(2).find(|k| k[0] == k[1]) { return Err(format!("step {:?} is returned both by a rule and by its inverse", k[0])); }
    let (u, v) = (get(false, !b), get(true, !b));
    let mut sum2: Vec<(Pt, Pt)> = u.iter().chain(&v).copied().collect();
    sum2.sort();
    ensure!(sum == sum2, "the portions of a rule and its inverse do not make up the same whole for both boundary settings");
    let (small, large) = if b { (&u, &x) } else { (&x, &u) };
    ensure!(small.iter().all(|k| large.binary_search(k).is_ok()), "leaving the boundary out adds portions");
    Ok(())
}
pub fn property() -> Property {
    Property { id: "C08", components: vec![
        Component { name: "lattice_small", quick: 400_000, thorough: 4_000_000, rule: "1-4 lattice contours, 0-5 lines, walks, loops and stretches of the outline, all four clip rules, through StringOverlay and every IntClip route: the directed unit steps returned are exactly those expected, each once; non-trivial: some steps kept and some not", run: lattice_small },
        Component { name: "lattice_medium", quick: 50_000, thorough: 500_000, rule: "as above with up to 16 contours and 14 lines; non-trivial: some steps kept and some not", run: lattice_medium },
        Component { name: "general", quick: 300_000, thorough: 3_000_000, rule: "arbitrary coordinates: sample points of the lines kept or not according to the winding number, returned paths on the lines and on the right side, no step twice; non-trivial: samples on both sides", run: general },
        Component { name: "complement", quick: 150_000, thorough: 1_500_000, rule: "arbitrary coordinates: a rule and its inverse share the steps out between them exactly; non-trivial: both not empty", run: complement },
    ] }
}
