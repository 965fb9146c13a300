use crate::common::*;
use crate::lat::*;
use crate::structure::*;
use crate::util::*;
use i_overlay::core::fill_rule::FillRule;
use i_overlay::core::overlay::ContourDirection;
use i_overlay::core::overlay_rule::OverlayRule;
use i_overlay::core::simplify::Simplify;
use i_overlay::float::simplify::SimplifyShape;
use i_overlay::i_shape::int::shape::{IntContour, IntShape, IntShapes};
use kit::geo::*;
use kit::{ensure, Component, Ctx, Property, Src};

/// one of the receivers of Simplify
fn simplify(kind: u64, is: &[IntContour], cuts: &[usize], f: FillRule, d: ContourDirection, simp: bool, min: usize) -> IntShapes {
    match kind {
        0 if is.len() == 1 => is[0].simplify(f, d, simp, min),
        0 | 1 => is.simplify(f, d, simp, min),
        2 => { let sh: IntShape = is.to_vec(); sh.simplify(f, d, simp, min) }
        _ => group(is, cuts).as_slice().simplify(f, d, simp, min),
    }
}
/// contours dealt out to shapes (some empty)
pub fn group(is: &[IntContour], cuts: &[usize]) -> Vec<IntShape> {
    let n = cuts.iter().copied().max().unwrap_or(0) + 1;
    let mut v: Vec<IntShape> = vec![vec![]; n];
    for (c, &k) in is.iter().zip(cuts) { v[k].push(c.clone()); }
    v
}
fn gen_cuts(s: &mut Src, n: usize) -> Vec<usize> { (0..n).map(|_| s.usize(0, 3)).collect() }
const SAME: [FillRule; 3] = [FillRule::EvenOdd, FillRule::NonZero, FillRule::Positive];
/// one more pass: the same region always; the same contours unless some vertex touches (then contours may be split there in another way)
fn again(s: &mut Src, cx: &mut Ctx, out: &IntShapes, dir: ContourDirection, simp: bool) -> Result<(), String> {
    // outer contours run counter-clockwise, holes against them: winding 1 inside; reversed for the other main direction
    let f2 = match (*s.pick(&SAME), dir == CCW) { (FillRule::Positive, false) => FillRule::Negative, (f, _) => f };
    let twice = if s.bool() { out.as_slice().simplify(f2, dir, simp, 0) } else {
        let loose: Vec<IntContour> = out.iter().flatten().cloned().collect();
        loose.as_slice().simplify(f2, dir, simp, 0)
    };
    same(cx, &format!("simplified again under {:?}", f2), out, &twice, simp)
}
fn same(cx: &mut Ctx, what: &str, out: &IntShapes, twice: &IntShapes, simp: bool) -> Result<(), String> {
    same_boundary(what, &flat(out), &flat(twice)).map_err(|e| format!("{}; {} after {}", e, show_shapes(twice), show_shapes(out)))?;
    if simp && !touching(out) {
        cx.label_if(!out.is_empty(), "contours compared point by point");
        ensure!(canon(twice) == canon(out), "{}: {} from {}", what, show_shapes(twice), show_shapes(out));
    }
    Ok(())
}
fn lattice(s: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    let mut c = if s.chance(1, 6) { LatCase::medium(s) } else { LatCase::small(s) };
    let kind = s.raw(4);
    if kind == 0 { c.subj.truncate(1); c.is.truncate(1); }
    let (fill, dir, simp) = (*s.pick(&FILLS), if s.bool() { CCW } else { CW }, !s.chance(1, 3));
    let cuts = gen_cuts(s, c.is.len());
    cx.desc(|| format!("{} {:?} {:?} simplify {} receiver {} {:?}", show_i(&c.is), fill, dir, simp, kind, cuts));
    let out = simplify(kind, &c.is, &cuts, fill, dir, simp, 0);
    let want = c.fill_subj(fill);
    cx.nontrivial(count(&want) > 0);
    cx.label_if(out.iter().any(|s| s.len() > 1), "holes");
    check_boundary(c.w, c.h, &decode_shapes(&c.q, &out)?, &want, c.ccw(dir))?;
    again(s, cx, &out, dir, simp)
}
fn general(s: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    let mut c = if s.chance(1, 12) { GenCase::cloud(s, 5, 60) } else { GenCase::small(s, 4) };
    let kind = s.raw(4);
    if kind == 0 { c.subj.truncate(1); c.is.truncate(1); }
    let (fill, dir, simp) = (*s.pick(&FILLS), if s.bool() { CCW } else { CW }, !s.chance(1, 3));
    let cuts = gen_cuts(s, c.is.len());
    cx.desc(|| format!("{} {:?} {:?} simplify {} receiver {}", show_i(&c.is), fill, dir, simp, kind));
    let out = simplify(kind, &c.is, &cuts, fill, dir, simp, 0);
    cx.nontrivial(!out.is_empty());
    let same = build(&c.is, &[]).overlay_custom(OverlayRule::Subject, fill, dir, simp, 0, Default::default());
    ensure!(canon(&same) == canon(&out), "helper {} versus the Subject rule {}", show_shapes(&out), show_shapes(&same));
    let refs: Vec<&Vec<Pt>> = c.subj.iter().collect();
    let cs = flat(&out);
    let sg = if dir == CCW { 1 } else { -1 };
    for _ in 0..12 {
        let p = crate::gen::gen_probe(s, c.e, &refs, 10);
        if dist_edges(&c.subj, p, true) < 12.0 { continue; }
        let Some(a) = winding_all(&c.subj, p) else { continue };
        ensure!(winding_all(&cs, p) == Some(sg * filled(a, fill) as i32), "at {:?} (winding {}): result winding {:?}", p, a, winding_all(&cs, p));
    }
    again(s, cx, &out, dir, simp)
}

/// lattice contours as floats: the adapter's power-of-two scaling keeps them exact in f64
fn float(s: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    let mut c = LatCase::narrow(s, 8, 4);
    let kind = s.raw(4);
    if kind == 0 { c.subj.truncate(1); c.is.truncate(1); }
    let k = s.zrange(-40, 40) as i32;
    let unit = 2f64.powi(k);
    let (fill, dir) = (*s.pick(&FILLS), if s.bool() { CCW } else { CW });
    let f: Vec<Vec<[f64; 2]>> = c.is.iter().map(|c| c.iter().map(|p| [p.x as f64 * unit, p.y as f64 * unit]).collect()).collect();
    cx.desc(|| format!("{} times 2^{} {:?} {:?} receiver {}", show_i(&c.is), k, fill, dir, kind));
    let cuts = gen_cuts(s, f.len());
    let call = |f: &[Vec<[f64; 2]>], fill: FillRule| -> Vec<Vec<Vec<[f64; 2]>>> { match kind {
        0 if f.len() == 1 => f[0].simplify_shape(fill, dir, 0.0),
        0 | 1 => f.to_vec().simplify_shape(fill, dir, 0.0),
        2 => [f.to_vec()].simplify_shape(fill, dir, 0.0),
        _ => {
            let mut v: Vec<Vec<Vec<[f64; 2]>>> = vec![vec![]; 4];
            for (c, &k) in f.iter().zip(&cuts) { v[k].push(c.clone()); }
            v.simplify_shape(fill, dir, 0.0)
        }
    } };
    let out = call(&f, fill);
    let want = c.fill_subj(fill);
    cx.nontrivial(count(&want) > 0);
    let back = to_lattice(&out, unit)?;
    check_boundary(c.w, c.h, &decode_shapes(&c.q, &back)?, &want, c.ccw(dir))?;
    let flatf: Vec<Vec<[f64; 2]>> = out.iter().flatten().cloned().collect();
    if !flatf.is_empty() {
        let f2 = if dir == CCW { FillRule::Positive } else { FillRule::Negative };
        let twice = to_lattice(&flatf.simplify_shape(f2, dir, 0.0), unit)?;
        same(cx, "simplified again", &back, &twice, true)?;
    }
    Ok(())
}
/// float shapes back to integers; error when a coordinate is not a multiple of the unit
pub fn to_lattice(out: &[Vec<Vec<[f64; 2]>>], unit: f64) -> Result<IntShapes, String> {
    out.iter().map(|s| s.iter().map(|c| c.iter().map(|p| {
        let (x, y) = (p[0] / unit, p[1] / unit);
        if x.fract() != 0.0 || y.fract() != 0.0 || x.abs() > 2e9 || y.abs() > 2e9 { return Err(format!("output point {:?} (in units {:?}) is not on the input's grid", p, (x, y))); }
        Ok(i_overlay::i_float::int::point::IntPoint::new(x as i32, y as i32))
    }).collect()).collect()).collect()
}
pub fn property() -> Property {
    Property { id: "C06", components: vec![
        Component { name: "lattice", quick: 240_000, thorough: 3_000_000, rule: "lattice contours through every receiver of Simplify (path, paths, shape, shapes with empty members): exact boundary, and simplifying the output again (as shapes and as loose contours) returns it; non-trivial: region not empty", run: lattice },
        Component { name: "general", quick: 240_000, thorough: 3_000_000, rule: "arbitrary coordinates: winding probes away from edges, equal to the Subject rule, simplifying again returns the same shapes; non-trivial: result not empty", run: general },
        Component { name: "float", quick: 160_000, thorough: 2_000_000, rule: "lattice contours times 2^k as f64 through every receiver of SimplifyShape: exact boundary and idempotence; non-trivial: region not empty", run: float },
    ] }
}
