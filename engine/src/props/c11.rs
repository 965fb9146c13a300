use super::c07::gen_strings;
use super::c10::Fl;
use crate::common::*;
use crate::gen;
use crate::lat::*;
use crate::util::*;
use i_overlay::core::fill_rule::FillRule;
use i_overlay::core::overlay::{ContourDirection, Overlay, ShapeType};
use i_overlay::core::simplify::Simplify;
use i_overlay::core::solver::Solver;
use i_overlay::float::clip::FloatClip;
use i_overlay::float::filter::ContourFilter;
use i_overlay::float::overlay::FloatOverlay;
use i_overlay::float::simplify::SimplifyShape;
use i_overlay::float::single::SingleFloatOverlay;
use i_overlay::float::slice::FloatSlice;
use i_overlay::float::source::resource::OverlayResource;
use i_overlay::float::string_overlay::FloatStringOverlay;
use i_overlay::i_float::adapter::FloatPointAdapter;
use i_overlay::i_float::float::compatible::FloatPointCompatible;
use i_overlay::i_float::float::number::FloatNumber;
use i_overlay::i_float::int::point::IntPoint;
use i_overlay::i_shape::int::shape::{IntContour, IntShape, IntShapes};
use i_overlay::mesh::outline::offset::OutlineOffset;
use i_overlay::mesh::stroke::offset::StrokeOffset;
use i_overlay::mesh::style::{LineJoin, OutlineStyle, StrokeStyle};
use i_overlay::string::clip::{ClipRule, IntClip};
use i_overlay::string::line::IntLine;
use i_overlay::string::overlay::StringOverlay;
use i_overlay::string::rule::StringRule;
use i_overlay::string::slice::IntSlice;
use kit::{ensure, Component, Ctx, Property, Src};

fn gen_input(s: &mut Src) -> (Vec<IntContour>, Vec<IntContour>, String) {
    let (mut a, mut b) = if s.bool() { let c = LatCase::small(s); (c.is, c.ic) } else { let e = if s.chance(1, 8) { gen::gen_extent(s) } else { gen::gen_extent(s).min(900_000) }; let (x, y) = gen::gen_pair(s, e, 4); (to_ints(&x), to_ints(&y)) };
    // degenerate contours are input too
    if s.chance(1, 4) {
        let p = a.iter().flatten().next().copied().unwrap_or(IntPoint::ZERO);
        let extra = match s.raw(4) { 0 => vec![], 1 => vec![p], 2 => vec![p, p], _ => vec![p, IntPoint::new(p.x / 2, 0), p] };
        let v = if s.bool() { &mut a } else { &mut b };
        let k = s.usize(0, v.len());
        v.insert(k, extra);
    }
    let t = format!("subject {} clip {}", show_i(&a), show_i(&b));
    (a, b, t)
}
/// the contours in order, cut into shapes at random places, with empty shapes in between
fn group(s: &mut Src, v: &[IntContour]) -> IntShapes {
    let mut out: IntShapes = vec![];
    let mut i = 0;
    while i < v.len() || s.chance(1, 4) {
        if out.len() > v.len() + 3 { break; }
        let k = s.usize(0, (v.len() - i).min(3));
        out.push(v[i..i + k].to_vec());
        i += k;
    }
    if i < v.len() { out.push(v[i..].to_vec()); }
    out
}
/// a random sequence of add calls that supplies every contour once, subject and clip interleaved
fn add_sequence(s: &mut Src, a: &[IntContour], b: &[IntContour], permute: bool) -> (Overlay, String) {
    let mut o = Overlay::new(s.usize(0, 40));
    let mut log = String::new();
    let mut left = [a.to_vec(), b.to_vec()];
    if permute { for v in left.iter_mut() { s.shuffle(v); } }
    while !left[0].is_empty() || !left[1].is_empty() {
        let k = if left[0].is_empty() { 1 } else if left[1].is_empty() { 0 } else { s.usize(0, 1) };
        let ty = if k == 0 { ShapeType::Subject } else { ShapeType::Clip };
        let n = s.usize(1, left[k].len().min(3));
        let part: Vec<IntContour> = left[k].drain(..n).collect();
        let how = s.raw(5);
        log.push_str(&format!("{}{}x{} ", if k == 0 { 's' } else { 'c' }, how, n));
        match how {
            0 => for c in &part { o.add_contour(c, ty) },
            1 => o.add_contours(&part, ty),
            2 => o.add_shape(&part, ty),
            3 => { let g = group(s, &part); o.add_shapes(&g, ty) }
            _ => for c in &part { o.add_path_iter(c.iter().copied(), ty) },
        }
    }
    (o, log)
}
fn int_routes(s: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    let (a, b, text) = gen_input(s);
    let (fill, rule, solver) = (*s.pick(&FILLS), *s.pick(&RULES), gen_solver_prog(s));
    let dir = if s.bool() { CCW } else { CW };
    let (simp, min) = (s.bool(), if s.bool() { 0 } else { s.usize(0, 1000) });
    cx.desc(|| format!("{} {:?} {:?} {:?} simplify {} min {} {}", text, fill, rule, dir, simp, min, show_solver(&solver)));
    // reference: one call per contour, subject first
    let mut base = Overlay::new(0);
    for c in &a { base.add_contour(c, ShapeType::Subject); }
    for c in &b { base.add_contour(c, ShapeType::Clip); }
    let want = base.clone().overlay_custom(rule, fill, dir, simp, min, solver);
    let want_v = base.clone().into_shape_vectors(fill, rule, solver);
    let want_s = base.clone().into_separate_vectors(fill, solver);
    cx.nontrivial(!want.is_empty() && a.len() + b.len() > 1);
    let check = |name: &str, o: Overlay| -> Result<(), String> {
        let got = o.clone().overlay_custom(rule, fill, dir, simp, min, solver);
        ensure!(got == want, "{} gives {} but one add_contour per contour gives {}", name, show_shapes(&got), show_shapes(&want));
        ensure!(o.clone().into_shape_vectors(fill, rule, solver) == want_v, "{}: shape vectors differ", name);
        ensure!(o.into_separate_vectors(fill, solver) == want_s, "{}: separate vectors differ", name);
        Ok(())
    };
    check("with_contours", Overlay::with_contours(&a, &b))?;
    let (ga, gb) = (group(s, &a), group(s, &b));
    check("with_shapes", Overlay::with_shapes(&ga, &gb))?;
    if a.len() == 1 && b.len() == 1 { check("with_contour", Overlay::with_contour(&a[0], &b[0]))?; cx.label("with_contour"); }
    let permute = s.bool();
    let (o, log) = add_sequence(s, &a, &b, permute);
    check(&format!("add sequence {}{}", log, if permute { "(permuted)" } else { "" }), o)?;
    // the default forms
    let def = base.clone().overlay_custom(rule, fill, CCW, true, 0, Solver::AUTO);
    ensure!(base.clone().overlay(rule, fill) == def, "overlay() differs from overlay_custom with its documented defaults");
    ensure!(base.clone().into_graph(fill).extract_shapes(rule) == def, "into_graph().extract_shapes() differs from overlay()");
    // Simplify for one contour, several, a shape, several shapes
    let auto = { let mut o = Overlay::new(0); o.add_contours(&a, ShapeType::Subject); o.overlay_custom(i_overlay::core::overlay_rule::OverlayRule::Subject, fill, dir, simp, min, Solver::AUTO) };
    let cmp = |name: &str, got: IntShapes| -> Result<(), String> { ensure!(got == auto, "{} gives {}, overlay of the subject gives {}", name, show_shapes(&got), show_shapes(&auto)); Ok(()) };
    cmp("[contour].simplify", a[..].simplify(fill, dir, simp, min))?;
    cmp("shape.simplify", Simplify::simplify(&a as &IntShape, fill, dir, simp, min))?;
    cmp("[shape].simplify", ga[..].simplify(fill, dir, simp, min))?;
    if a.len() == 1 { cmp("contour.simplify", a[0].simplify(fill, dir, simp, min))?; }
    Ok(())
}
fn graph_queries(s: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    let (a, b, text) = gen_input(s);
    let (fill, solver) = (*s.pick(&FILLS), gen_solver_prog(s));
    let o = build(&a, &b);
    let g = o.clone().into_graph_with_solver(fill, solver);
    let n = s.usize(2, 8);
    let mut log = vec![];
    let mut used = std::collections::HashSet::new();
    for _ in 0..n {
        let rule = *s.pick(&RULES);
        let dir = if s.bool() { CCW } else { CW };
        let (simp, min) = (s.bool(), if s.bool() { 0 } else { s.usize(0, 1000) });
        let q = s.raw(4);
        used.insert(format!("{:?}", rule));
        log.push(format!("{}:{:?}/{:?}/{}/{}", q, rule, dir, simp, min));
        let res: Result<(), String> = (|| {
            match q {
                0 => { let x = g.extract_shapes(rule); let y = o.clone().overlay_custom(rule, fill, CCW, true, 0, solver); ensure!(x == y, "extract_shapes gives {}, a fresh overlay {}", show_shapes(&x), show_shapes(&y)); }
                1 => { let x = g.extract_shapes_custom(rule, dir, simp, min); let y = o.clone().overlay_custom(rule, fill, dir, simp, min, solver); ensure!(x == y, "extract_shapes_custom gives {}, a fresh overlay {}", show_shapes(&x), show_shapes(&y)); }
                2 => { ensure!(g.extract_shape_vectors(rule) == o.clone().into_shape_vectors(fill, rule, solver), "extract_shape_vectors differs from a fresh computation"); }
                _ => { 
                    // a graph keeps the edges that bound the subject's or the clip's filled area; into_separate_vectors keeps all
                    let mut all = o.clone().into_separate_vectors(fill, solver);
                    all.retain(|e| (e.fill ^ (e.fill >> 1)) & 5 != 0);
                    ensure!(g.extract_separate_vectors() == all, "extract_separate_vectors differs from the boundary edges of a fresh computation"); }
            }
            Ok(())
        })();
        res.map_err(|m| format!("query {} of {}: {}", log.len(), log.join(" "), m))?;
    }
    cx.desc(|| format!("{} {:?} {} queries {}", text, fill, show_solver(&solver), log.join(" ")));
    cx.nontrivial(used.len() > 1);
    Ok(())
}
fn string_routes(s: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    let c = LatCase::sized(s, 8, 4);
    let paths: Vec<IntContour> = gen_strings(s, c.w, c.h, &c.subj, 5).into_iter().map(|(mut p, cl)| { if cl && !p.is_empty() { p.push(p[0]); } c.q.contour(&p) }).collect();
    let a = if s.chance(1, 3) { vec![c.is[0].clone()] } else { c.is.clone() };
    let (fill, solver) = (*s.pick(&FILLS), gen_solver_prog(s));
    let clip = ClipRule { invert: s.bool(), boundary_included: s.bool() };
    let paths = if s.chance(1, 3) { paths[..paths.len().min(1)].to_vec() } else { paths };
    cx.desc(|| format!("shape {} strings {} {:?} {:?} {}", show_i(&a), show_i(&paths), fill, clip, show_solver(&solver)));
    let lines: Vec<IntLine> = paths.iter().flat_map(|p| p.windows(2).map(|w| [w[0], w[1]])).collect();
    let mut base = StringOverlay::new(0);
    for x in &a { base.add_shape_contour(x); }
    for &l in &lines { base.add_string_line(l); }
    let slice = |o: StringOverlay, sv: Solver| o.into_graph_with_solver(fill, sv).extract_shapes(StringRule::Slice);
    let cut = |o: StringOverlay, sv: Solver| o.clip_string_lines_with_solver(fill, clip, sv);
    // StringOverlay is not Clone: rebuild
    let fresh = || { let mut o = StringOverlay::new(0); for x in &a { o.add_shape_contour(x); } for &l in &lines { o.add_string_line(l); } o };
    let (ws, wc) = (slice(base, solver), cut(fresh(), solver));
    cx.nontrivial(ws.len() > 1 && !wc.is_empty());
    let ga = group(s, &a);
    let shape = |k: u64| -> StringOverlay { match k {
        0 => StringOverlay::with_shape_contours(&a),
        1 => StringOverlay::with_shape(&a),
        2 => StringOverlay::with_shapes(&ga),
        3 => { let mut o = StringOverlay::new(3); o.add_shapes(&ga); o }
        4 => { let mut o = StringOverlay::new(3); for x in &a { o.add_shape_contour_iter(x.iter().copied()); } o }
        5 if a.len() == 1 => StringOverlay::with_shape_contour(&a[0]),
        _ => { let mut o = StringOverlay::new(3); o.add_shape_contours(&a); o }
    } };
    let add = |o: &mut StringOverlay, k: u64| match k {
        0 => o.add_string_lines(&lines),
        1 => o.add_string_paths(&paths),
        2 => for p in &paths { o.add_string_path(p) },
        3 => for p in &paths { if p.len() > 1 && p[0] == p[p.len() - 1] { o.add_string_contour(&p[..p.len() - 1]) } else { o.add_string_path(p) } },
        _ => { let (x, y): (Vec<_>, Vec<_>) = paths.iter().cloned().partition(|p| p.len() > 1 && p[0] == p[p.len() - 1]); o.add_string_contours(&x.into_iter().map(|mut p| { p.pop(); p }).collect::<Vec<_>>()); o.add_string_paths(&y); }
    };
    let (k, l) = (s.raw(7), s.raw(5));
    let mk = || if s_first(k + l) { let mut o = StringOverlay::new(0); add(&mut o, l); for x in &a { o.add_shape_contour(x); } o } else { let mut o = shape(k); add(&mut o, l); o };
    let gs = slice(mk(), solver);
    ensure!(gs == ws, "slicing, shapes by way {} strings by way {}: {} expected {}", k, l, show_shapes(&gs), show_shapes(&ws));
    let gc = cut(mk(), solver);
    ensure!(gc == wc, "clipping, shapes by way {} strings by way {}: {} expected {}", k, l, show_i(&gc), show_i(&wc));
    // graph queried twice
    let g = mk().into_graph_with_solver(fill, solver);
    let first = g.extract_shapes_custom(StringRule::Slice, CW, 5);
    ensure!(g.extract_shapes(StringRule::Slice) == ws, "the second query of a string graph differs from a fresh one");
    ensure!(g.extract_shapes_custom(StringRule::Slice, CW, 5) == first, "the third query of a string graph differs from the first");
    // the traits on contours, shapes, several shapes
    let (ws, wc) = (slice(fresh(), Solver::AUTO), cut(fresh(), Solver::AUTO));
    let t = |n: &str, x: IntShapes| -> Result<(), String> { ensure!(x == ws, "{} gives {}, StringOverlay gives {}", n, show_shapes(&x), show_shapes(&ws)); Ok(()) };
    let u = |n: &str, x: Vec<IntContour>| -> Result<(), String> { ensure!(x == wc, "{} gives {}, StringOverlay gives {}", n, show_i(&x), show_i(&wc)); Ok(()) };
    t("shape.slice_by_lines", IntSlice::slice_by_lines(&a as &IntShape, &lines, fill))?;
    t("shape.slice_by_paths", IntSlice::slice_by_paths(&a as &IntShape, &paths, fill))?;
    t("[shape].slice_by_lines", IntSlice::slice_by_lines(&ga, &lines, fill))?;
    t("[shape].slice_by_paths", IntSlice::slice_by_paths(&ga, &paths, fill))?;
    u("shape.clip_lines", IntClip::clip_lines(&a as &IntShape, &lines, fill, clip))?;
    u("shape.clip_paths", IntClip::clip_paths(&a as &IntShape, &paths, fill, clip))?;
    u("[shape].clip_lines", IntClip::clip_lines(&ga, &lines, fill, clip))?;
    u("[shape].clip_paths", IntClip::clip_paths(&ga, &paths, fill, clip))?;
    if a.len() == 1 {
        cx.label("one contour");
        t("contour.slice_by_lines", IntSlice::slice_by_lines(&a[0][..], &lines, fill))?;
        t("contour.slice_by_paths", IntSlice::slice_by_paths(&a[0][..], &paths, fill))?;
        u("contour.clip_lines", IntClip::clip_lines(&a[0][..], &lines, fill, clip))?;
        u("contour.clip_paths", IntClip::clip_paths(&a[0][..], &paths, fill, clip))?;
    }
    if paths.len() == 1 {
        cx.label("one path");
        t("shape.slice_by_path", IntSlice::slice_by_path(&a as &IntShape, &paths[0], fill))?;
        t("[shape].slice_by_path", IntSlice::slice_by_path(&ga, &paths[0], fill))?;
        u("shape.clip_path", IntClip::clip_path(&a as &IntShape, &paths[0], fill, clip))?;
        u("[shape].clip_path", IntClip::clip_path(&ga, &paths[0], fill, clip))?;
        if a.len() == 1 { t("contour.slice_by_path", IntSlice::slice_by_path(&a[0][..], &paths[0], fill))?; u("contour.clip_path", IntClip::clip_path(&a[0][..], &paths[0], fill, clip))?; }
    }
    if lines.len() == 1 {
        cx.label("one line");
        t("shape.slice_by_line", IntSlice::slice_by_line(&a as &IntShape, lines[0], fill))?;
        t("[shape].slice_by_line", IntSlice::slice_by_line(&ga, lines[0], fill))?;
        u("shape.clip_line", IntClip::clip_line(&a as &IntShape, lines[0], fill, clip))?;
        u("[shape].clip_line", IntClip::clip_line(&ga, lines[0], fill, clip))?;
        if a.len() == 1 { t("contour.slice_by_line", IntSlice::slice_by_line(&a[0][..], lines[0], fill))?; u("contour.clip_line", IntClip::clip_line(&a[0][..], lines[0], fill, clip))?; }
    }
    Ok(())
}
fn s_first(k: u64) -> bool { k % 4 == 3 }

#[derive(Clone, Copy, Debug, PartialEq)]
struct My<T> { y: T, tag: u8, x: T }
impl<T: FloatNumber> FloatPointCompatible<T> for My<T> {
    fn from_xy(x: T, y: T) -> Self { My { y, tag: 7, x } }
    fn x(&self) -> T { self.x }
    fn y(&self) -> T { self.y }
}
/// everything the float API computes for one pair of inputs
#[derive(PartialEq, Debug, Clone)]
struct All<T> { shapes: Vec<(&'static str, Vec<Vec<Vec<[T; 2]>>>)>, paths: Vec<Vec<[T; 2]>> }
fn back<P: FloatPointCompatible<T>, T: FloatNumber>(o: Vec<Vec<Vec<P>>>) -> Vec<Vec<Vec<[T; 2]>>> { o.iter().map(|s| s.iter().map(|c| c.iter().map(|p| [p.x(), p.y()]).collect()).collect()).collect() }
#[derive(Clone, Copy)]
struct Params<T> { fill: FillRule, rule: i_overlay::core::overlay_rule::OverlayRule, dir: ContourDirection, flt: ContourFilter<T>, solver: Solver, clip: ClipRule, width: T, closed: bool, join: u64 }
fn join<T: Fl>(k: u64) -> LineJoin<T> { match k { 0 => LineJoin::Bevel, 1 => LineJoin::Miter(T::of(0.6)), _ => LineJoin::Round(T::of(0.3)) } }
fn run_all<P, T, R0, R1>(a: &R0, b: &R1, p: &Params<T>) -> All<T>
where T: Fl, P: FloatPointCompatible<T> + 'static, R0: OverlayResource<P, T>, R1: OverlayResource<P, T> {
    let q = *p;
    let mut v = vec![];
    v.push(("overlay", back(a.overlay(b, q.rule, q.fill))));
    v.push(("with_subj_and_clip", back(FloatOverlay::with_subj_and_clip(a, b).overlay_custom(q.rule, q.fill, q.dir, q.flt, q.solver))));
    v.push(("with_subj", back(FloatOverlay::with_subj(a).overlay_custom(q.rule, q.fill, q.dir, q.flt, q.solver))));
    v.push(("simplify_shape", back(a.simplify_shape(q.fill, q.dir, q.flt.min_area))));
    v.push(("simplify_shape_with_solver", back(a.simplify_shape_with_solver(q.fill, q.dir, q.flt.min_area, q.solver))));
    v.push(("slice_by", back(a.slice_by(b, q.fill))));
    v.push(("slice_custom_by", back(a.slice_custom_by(b, q.fill, q.dir, q.flt, q.solver))));
    v.push(("stroke", back(a.stroke_custom(StrokeStyle::new(q.width).line_join(join(q.join)), q.closed, q.dir, q.flt))));
    v.push(("outline", back(a.outline_custom(OutlineStyle::new(q.width).line_join(join(q.join)), q.dir, q.flt))));
    let paths = b.clip_by_with_solver(a, q.fill, q.clip, q.solver).iter().map(|c| c.iter().map(|p| [p.x(), p.y()]).collect()).collect();
    All { shapes: v, paths }
}
fn same<T: Fl>(name: &str, want: &All<T>, got: &All<T>) -> Result<(), String> {
    for (x, y) in want.shapes.iter().zip(&got.shapes) { ensure!(x == y, "{} of {} differs: {:?}, expected {:?}", x.0, name, y.1, x.1); }
    ensure!(want.paths == got.paths, "clip_by of {} differs: {:?}, expected {:?}", name, got.paths, want.paths);
    Ok(())
}
fn arr<P: Copy, const N: usize>(v: &[P]) -> [P; N] { std::array::from_fn(|i| v[i]) }
fn float_routes<T: Fl>(s: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    let e = 1i64 << s.range(2, 20);
    let one = s.chance(1, 3);
    let (mut a, mut b) = gen::gen_pair(s, e, 3);
    if one { a.truncate(1); b.truncate(1); }
    if b.is_empty() && one { b.push(vec![(0, 0), (1, 0), (0, 1)]); }
    if s.chance(1, 6) && !one { a.insert(0, vec![]); }
    let u = 2f64.powi(s.zrange(-8, 8) as i32);
    let mk = |v: &[Vec<kit::geo::Pt>]| -> Vec<Vec<[T; 2]>> { v.iter().map(|c| c.iter().map(|p| [T::of(p.0 as f64 * u * 1.1), T::of(p.1 as f64 * u * 1.1)]).collect()).collect() };
    let (a, b) = (mk(&a), mk(&b));
    let p = Params { fill: *s.pick(&FILLS), rule: *s.pick(&RULES), dir: if s.bool() { CCW } else { CW }, flt: ContourFilter { min_area: T::of(if s.bool() { 0.0 } else { e as f64 * u * u }), simplify_contour: s.bool(), clean_result: s.bool() }, solver: gen_solver_prog(s), clip: ClipRule { invert: s.bool(), boundary_included: s.bool() }, width: T::of(e as f64 * u * (0.02 + s.unit() * 0.2)), closed: s.bool(), join: s.raw(3) };
    cx.desc(|| format!("subject {:?} clip {:?} {:?} {:?} {:?} {} width {:?} closed {} join {}", a, b, p.fill, p.rule, p.dir, show_solver(&p.solver), p.width, p.closed, p.join));
    let want = run_all(&a, &b, &p);
    cx.nontrivial(!want.shapes[0].1.is_empty());
    // nested shapes, grouped at random
    let nest = |s: &mut Src, v: &[Vec<[T; 2]>]| -> Vec<Vec<Vec<[T; 2]>>> {
        let mut out = vec![]; let mut i = 0;
        while i < v.len() { let k = s.usize(0, (v.len() - i).min(2)); out.push(v[i..i + k].to_vec()); i += k; if out.len() > 12 { out.push(v[i..].to_vec()); break; } }
        if s.bool() { out.push(vec![]); }
        out
    };
    let (na, nb) = (nest(s, &a), nest(s, &b));
    same("nested vectors", &want, &run_all(&na, &nb, &p))?;
    same("a flat and a nested vector", &want, &run_all(&a, &nb, &p))?;
    same("a nested and a flat vector", &want, &run_all(&na, &b, &p))?;
    same("slices of contours", &want, &run_all(&a.as_slice(), &b.as_slice(), &p))?;
    let my = |v: &[Vec<[T; 2]>]| -> Vec<Vec<My<T>>> { v.iter().map(|c| c.iter().map(|q| My { x: q[0], y: q[1], tag: 1 }).collect()).collect() };
    same("a point type of the caller's", &want, &run_all(&my(&a), &my(&b), &p))?;
    match na.len() {
        1 => same("[shape; 1]", &want, &run_all::<[T; 2], T, _, _>(&[na[0].clone()], &nb, &p))?,
        2 => same("[shape; 2]", &want, &run_all::<[T; 2], T, _, _>(&[na[0].clone(), na[1].clone()], &nb, &p))?,
        _ => {}
    }
    match a.len() {
        1 => same("[contour; 1]", &want, &run_all::<[T; 2], T, _, _>(&[a[0].clone()], &b, &p))?,
        2 => same("[contour; 2]", &want, &run_all::<[T; 2], T, _, _>(&[a[0].clone(), a[1].clone()], &b, &p))?,
        _ => {}
    }
    if a.len() == 1 && b.len() == 1 {
        cx.label("single contours");
        same("vectors of points", &want, &run_all(&a[0], &b[0], &p))?;
        same("slices of points", &want, &run_all(&a[0].as_slice(), &b[0].as_slice(), &p))?;
        same("a vector of points and nested vectors", &want, &run_all(&a[0], &nb, &p))?;
        match (a[0].len(), b[0].len()) {
            (3, _) => same("[point; 3]", &want, &run_all(&arr::<_, 3>(&a[0]), &b[0], &p))?,
            (4, _) => same("[point; 4]", &want, &run_all(&arr::<_, 4>(&a[0]), &b[0], &p))?,
            (5, _) => same("[point; 5]", &want, &run_all(&arr::<_, 5>(&a[0]), &b[0], &p))?,
            _ => {}
        }
    }
    // by hand, with the adapter of all points: unsized resources too
    let ad = || FloatPointAdapter::with_iter(a.iter().chain(&b).flatten());
    let ov = |k: u64| -> Vec<Vec<Vec<[T; 2]>>> {
        let o = FloatOverlay::with_adapter(ad(), k as usize);
        let o = match k {
            0 => o.unsafe_add_source(&a, ShapeType::Subject).unsafe_add_source(&b, ShapeType::Clip),
            1 => o.unsafe_add_source(nb.as_slice(), ShapeType::Clip).unsafe_add_source(a.as_slice(), ShapeType::Subject),
            2 => { let mut o = o; for c in &b { o = o.unsafe_add_source(c.as_slice(), ShapeType::Clip); } for c in &a { o = o.unsafe_add_contour(c, ShapeType::Subject); } o }
            _ => FloatOverlay::with_subj_and_clip(na.as_slice(), b.as_slice()),
        };
        if k % 2 == 0 { o.overlay_custom(p.rule, p.fill, p.dir, p.flt, p.solver) } else { let g = o.into_graph_with_solver(p.fill, p.solver); let _ = g.extract_shapes(RULES[0]); g.extract_shapes_custom(p.rule, p.dir, p.flt) }
    };
    for k in 0..4 { let g = ov(k); ensure!(g == want.shapes[1].1, "FloatOverlay built by way {} gives {:?}, with_subj_and_clip {:?}", k, g, want.shapes[1].1); }
    let st = |k: u64| -> FloatStringOverlay<[T; 2], T> {
        let o = FloatStringOverlay::with_adapter(ad(), 1);
        match k {
            0 => o.unsafe_add_shapes(&na).unsafe_add_string_lines(&nb),
            1 => { let mut o = o.unsafe_add_string_lines(&b); for c in &a { o = o.unsafe_add_shape_contour(c); } o }
            _ => { let mut o = o.unsafe_add_shapes(&a); for c in &b { o = o.unsafe_add_string_line(c); } o }
        }
    };
    for k in 0..3 {
        let g = st(k).into_graph_with_solver(p.fill, p.solver);
        let (x, y) = (g.extract_shapes_custom(StringRule::Slice, p.dir, p.flt), st(k).into_graph(p.fill).extract_shapes(StringRule::Slice));
        ensure!(x == want.shapes[6].1 && g.extract_shapes_custom(StringRule::Slice, p.dir, p.flt) == x, "FloatStringOverlay built by way {} slices to {:?}, slice_custom_by gives {:?}", k, x, want.shapes[6].1);
        ensure!(y == want.shapes[5].1, "FloatStringOverlay built by way {} slices to {:?}, slice_by gives {:?}", k, y, want.shapes[5].1);
        let z: Vec<Vec<[T; 2]>> = st(k).clip_string_lines_with_solver(p.fill, p.clip, p.solver);
        ensure!(z == want.paths, "FloatStringOverlay built by way {} clips to {:?}, clip_by gives {:?}", k, z, want.paths);
    }
    Ok(())
}
fn float_routes_f64(s: &mut Src, cx: &mut Ctx) -> Result<(), String> { float_routes::<f64>(s, cx) }
fn float_routes_f32(s: &mut Src, cx: &mut Ctx) -> Result<(), String> { float_routes::<f32>(s, cx) }
pub fn property() -> Property {
    Property { id: "C11", components: vec![
        Component { name: "int_routes", quick: 60_000, thorough: 3_000_000, rule: "Overlay built by every constructor, by random groupings into shapes (empty ones included) and by random interleaved, permuted sequences of all add calls; shapes and both vector extractions identical to one add_contour per contour; Simplify on contour(s)/shape(s); default forms; non-trivial: several contours, result not empty", run: int_routes },
        Component { name: "graph_queries", quick: 40_000, thorough: 2_000_000, rule: "2 to 8 queries of random kind, rule, direction, filter on one graph, each compared with a fresh computation; non-trivial: at least two different rules", run: graph_queries },
        Component { name: "string_routes", quick: 40_000, thorough: 2_000_000, rule: "every way of supplying shapes and strings for slice and clip, the IntSlice and IntClip forms, repeated queries of a string graph; non-trivial: several pieces and some kept line", run: string_routes },
        Component { name: "float_routes_f64", quick: 12_000, thorough: 800_000, rule: "overlay, simplify, slice, clip, stroke and outline with points, contours, shapes as arrays, vectors, slices, nested at random, own point type, adapter built by hand: identical results; non-trivial: union result not empty", run: float_routes_f64 },
        Component { name: "float_routes_f32", quick: 8_000, thorough: 500_000, rule: "the same in f32", run: float_routes_f32 },
    ] }
}
