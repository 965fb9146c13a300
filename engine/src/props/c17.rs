use crate::common::*;
use crate::gen;
use crate::lat::*;
use crate::util::*;
use i_overlay::core::fill_rule::FillRule;
use i_overlay::core::solver::{Precision, Solver, Strategy};
use kit::geo::*;
use kit::{ensure, Component, Ctx, Property, Src};
use std::collections::{HashMap, HashSet};

/// a critical point of the arrangement: an end, or a crossing (floor of its coordinates; exact: it is a grid point)
#[derive(Clone, Copy, Debug)]
struct Crit { p: Pt, exact: bool, end: bool }

fn crossing(a: Pt, b: Pt, c: Pt, d: Pt) -> Crit {
    let (u, v) = ((b.0 - a.0, b.1 - a.1), (d.0 - c.0, d.1 - c.1));
    let den = u.0 as i128 * v.1 as i128 - u.1 as i128 * v.0 as i128;
    let num = (c.0 - a.0) as i128 * v.1 as i128 - (c.1 - a.1) as i128 * v.0 as i128;
    let (nx, ny) = (u.0 as i128 * num, u.1 as i128 * num);
    let (x, y) = (a.0 + nx.div_euclid(den) as i64 - (den < 0 && nx.rem_euclid(den) != 0) as i64, a.1 + ny.div_euclid(den) as i64 - (den < 0 && ny.rem_euclid(den) != 0) as i64);
    Crit { p: (x, y), exact: nx % den == 0 && ny % den == 0, end: false }
}
const SEP: i64 = 64;
/// Every crossing that lies alone (no end, other edge's end or other crossing within 64 units) must be a vertex of the arrangement,
/// on the grid point itself or at most a unit (before later rounding: 2 units) away. When all points lie alone the arrangement is known completely.
pub fn arrangement(cx: &mut Ctx, subj: &[Vec<Pt>], clip: &[Vec<Pt>], solver: Solver) -> Result<(), String> {
    let ed: Vec<(Pt, Pt)> = subj.iter().chain(clip).flat_map(|c| (0..c.len()).map(move |i| (c[i], c[(i + 1) % c.len()]))).filter(|e| e.0 != e.1).collect();
    let mut crit: Vec<Crit> = ed.iter().map(|e| Crit { p: e.0, exact: true, end: true }).collect();
    crit.sort_by_key(|c| c.p);
    crit.dedup_by_key(|c| c.p);
    let ends = crit.len();
    let mut on: Vec<Vec<usize>> = vec![vec![]; ed.len()];
    // points on the line of their neighbours are dropped on input
    let mut special = subj.iter().chain(clip).any(|c| (0..c.len()).any(|i| cross(c[i], c[(i + 1) % c.len()], c[(i + 2) % c.len()]) == 0));
    for i in 0..ed.len() {
        for j in 0..i {
            match meet(ed[j].0, ed[j].1, ed[i].0, ed[i].1) {
                Meet::Cross => { on[i].push(crit.len()); on[j].push(crit.len()); crit.push(crossing(ed[j].0, ed[j].1, ed[i].0, ed[i].1)); }
                Meet::None | Meet::Ends => {}
                _ => special = true,
            }
        }
    }
    if crit.len() == ends { return Ok(()); }
    // near pairs by a grid of cells
    let mut cell: HashMap<(i64, i64), Vec<usize>> = HashMap::new();
    for (k, c) in crit.iter().enumerate() { cell.entry((c.p.0.div_euclid(SEP), c.p.1.div_euclid(SEP))).or_default().push(k); }
    let lonely = |k: usize| {
        let p = crit[k].p;
        for x in -1..=1 { for y in -1..=1 { if let Some(v) = cell.get(&(p.0.div_euclid(SEP) + x, p.1.div_euclid(SEP) + y)) { for &m in v { if m != k && (crit[m].p.0 - p.0).abs() < SEP && (crit[m].p.1 - p.1).abs() < SEP { return false; } } } } }
        true
    };
    let ok: Vec<bool> = (0..crit.len()).map(|k| lonely(k) && {
        // away from edges that do not pass through it
        let p = crit[k].p;
        ed.iter().enumerate().all(|(i, e)| on[i].contains(&k) || e.0 == p || e.1 == p || dist_seg(p, e.0, e.1) > 10.0)
    }).collect();
    // Rounding moves a point by up to a unit: left out are crossings so flat that another point of one edge lies next to the other edge,
    // and points whose order along a nearly vertical edge rounding may change.
    let mut ok = ok;
    loop {
    let before = ok.iter().filter(|v| **v).count();
    for i in 0..ed.len() {
        let (a, b) = ed[i];
        let mut v: Vec<(i64, usize)> = on[i].iter().map(|&k| (crit[k].p.0, k)).collect();
        v.sort();
        if a.0 != b.0 {
            let (l, r) = (a.0.min(b.0), a.0.max(b.0));
            for w in 0..v.len() {
                let x = v[w].0;
                if x - l < 12 || r - x < 12 || w > 0 && x - v[w - 1].0 < 12 || w + 1 < v.len() && v[w + 1].0 - x < 12 { ok[v[w].1] = false; }
            }
        } else if v.iter().any(|x| !ok[x.1]) {
            for x in &v { ok[x.1] = false; }
        }
        for w in 0..v.len() {
            let k = v[w].1;
            if !ok[k] { continue; }
            let (c, d) = { let j = (0..ed.len()).find(|&j| j != i && on[j].contains(&k)).unwrap(); ed[j] };
            if v.iter().any(|x| x.1 != k && dist_seg(crit[x.1].p, c, d) < 8.0) || dist_seg(a, c, d) < 8.0 || dist_seg(b, c, d) < 8.0 { ok[k] = false; }
        }
    }
    if before == ok.iter().filter(|v| **v).count() { break; }
    }
    let all_ok = !special && ok.iter().all(|v| *v);
    let n = (ends..crit.len()).filter(|&k| ok[k]).count();
    cx.nontrivial(n > 0);
    cx.label_if(all_ok, "arrangement known completely");
    cx.label_if((ends..crit.len()).any(|k| ok[k] && crit[k].exact), "crossing in a grid point");
    let sep = build(&to_ints(subj), &to_ints(clip)).into_separate_vectors(FillRule::EvenOdd, solver);
    let got: HashSet<Pt> = sep.iter().flat_map(|e| [pt(&e.a), pt(&e.b)]).collect();
    let mut vcell: HashMap<(i64, i64), Vec<Pt>> = HashMap::new();
    for p in &got { vcell.entry((p.0.div_euclid(8), p.1.div_euclid(8))).or_default().push(*p); }
    let mut at: HashMap<Pt, usize> = HashMap::new();
    for k in 0..crit.len() {
        if !ok[k] { continue; }
        let c = crit[k];
        let mut near = vec![];
        for x in -1..=1 { for y in -1..=1 { if let Some(v) = vcell.get(&(c.p.0.div_euclid(8) + x, c.p.1.div_euclid(8) + y)) { near.extend(v.iter().copied().filter(|q| if c.exact { *q == c.p } else { (-2..=3).contains(&(q.0 - c.p.0)) && (-2..=3).contains(&(q.1 - c.p.1)) })); } } }
        if c.end { if all_ok { ensure!(near.len() == 1, "the end {:?} is no vertex of the arrangement", c.p); } }
        else { ensure!(near.len() == 1, "the crossing at {:?}{} has {} vertices of the arrangement: {:?}", c.p, if c.exact { "" } else { " (rounded down)" }, near.len(), near); }
        for q in near { at.insert(q, k); }
    }
    if all_ok {
        let mut want: HashSet<(usize, usize)> = HashSet::new();
        for (i, e) in ed.iter().enumerate() {
            let id = |p: Pt| crit[..ends].binary_search_by_key(&p, |c| c.p).unwrap();
            let mut v = on[i].clone();
            let key = |k: usize| { let d = (e.1 .0 - e.0 .0, e.1 .1 - e.0 .1); let q = crit[k].p; (q.0 - e.0 .0) as i128 * d.0 as i128 + (q.1 - e.0 .1) as i128 * d.1 as i128 };
            v.sort_by_key(|k| key(*k));
            v.insert(0, id(e.0));
            v.push(id(e.1));
            for w in v.windows(2) { want.insert((w[0].min(w[1]), w[0].max(w[1]))); }
        }
        let mut have: HashSet<(usize, usize)> = HashSet::new();
        for e in &sep {
            let (Some(&x), Some(&y)) = (at.get(&pt(&e.a)), at.get(&pt(&e.b))) else { return Err(format!("edge {:?} ends where nothing meets", (pt(&e.a), pt(&e.b)))) };
            ensure!(have.insert((x.min(y), x.max(y))), "edge {:?} twice", (pt(&e.a), pt(&e.b)));
        }
        for w in &want { ensure!(have.contains(w), "no edge between {:?} and {:?}", crit[w.0], crit[w.1]); }
        for w in &have { ensure!(want.contains(w), "an edge between {:?} and {:?}, which no input edge joins", crit[w.0], crit[w.1]); }
    }
    Ok(())
}
fn small(s: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    let e = *s.pick(&[500i64, 5_000, 1_000_000, 300_000_000, MAXC - 1]);
    let mut mk = |s: &mut Src| match s.weighted(&[5, 2, 2, 2]) {
        0 => gen::gen_random_poly(s, e),
        1 => gen::gen_star(s, e),
        2 => gen::gen_rect(s, e),
        // coordinates on a coarse grid: crossings in grid points and right angles are common
        _ => { let g = (e / s.range(2, 9)).max(1); let k = e / g; (0..s.usize(3, 6)).map(|_| (s.zrange(-k, k) * g, s.zrange(-k, k) * g)).collect() }
    };
    let subj: Vec<Vec<Pt>> = (0..s.usize(1, 2)).map(|_| mk(s)).collect();
    let clip: Vec<Vec<Pt>> = (0..s.usize(0, 2)).map(|_| mk(s)).collect();
    let mut solver = gen_solver_prog(s);
    if s.chance(2, 3) { solver.precision = Precision::HIGH; }
    cx.desc(|| format!("subject {} clip {} {}", show_i(&to_ints(&subj)), show_i(&to_ints(&clip)), show_solver(&solver)));
    arrangement(cx, &subj, &clip, solver)
}
pub fn many(s: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    let e = *s.pick(&[20_000i64, 1_000_000, 300_000_000, MAXC - 1]);
    let n = s.usize(2, 40);
    let size = if s.bool() { e } else { (e as f64 * 3.0 / (n as f64).sqrt()).min(e as f64) as i64 };
    let subj = gen::gen_cloud(s, e, n, size);
    let m = s.usize(0, n / 2);
    let clip = gen::gen_cloud(s, e, m, size);
    let mut solver = gen_solver_prog(s);
    if s.bool() { solver.strategy = *s.pick(&[Strategy::Frag, Strategy::Tree]); }
    solver.precision = Precision::HIGH;
    cx.desc(|| if n + m < 12 { format!("subject {} clip {} {}", show_i(&to_ints(&subj)), show_i(&to_ints(&clip)), show_solver(&solver)) } else { format!("{} + {} contours, extent {}, size {}, {}", n, m, e, size, show_solver(&solver)) });
    arrangement(cx, &subj, &clip, solver)
}
pub fn property() -> Property {
    Property { id: "C17", components: vec![
        Component { name: "arrangement", quick: 300_000, thorough: 15_000_000, rule: "1-2 + 0-2 polygons at extents 500..2^30: every crossing alone within 64 units is a vertex of the separate vectors, exactly when it is a grid point, within 2 units otherwise; when all points lie alone the edges are the expected ones; non-trivial: a crossing lies alone", run: small },
    ] }
}
