use crate::segs::*;
use i_overlay::verif_grid::columns;
use kit::geo::{meet, Meet, Pt};
use kit::{ensure, Component, Ctx, Rng, Src};

fn is_cross(m: &Meet) -> bool { !matches!(m, Meet::None | Meet::Ends) }
/// floor and ceiling of the segment's y at x
fn y_at(s: (Pt, Pt), x: i64) -> (i64, i64) {
    let (dx, dy) = ((s.1 .0 - s.0 .0) as i128, (s.1 .1 - s.0 .1) as i128);
    let n = dy * (x - s.0 .0) as i128;
    let f = n.div_euclid(dx);
    (s.0 .1 + f as i64, s.0 .1 + if n.rem_euclid(dx) == 0 { f } else { f + 1 } as i64)
}
fn check(list: &[(Pt, Pt)], cx: &mut Ctx) -> Result<(), String> {
    let segs: Vec<_> = list.iter().map(|s| seg(*s)).collect();
    let cells = match columns(&segs) { Some(c) => c, None => {
        let w = list.iter().map(|s| s.1 .0).max().unwrap() - list.iter().map(|s| s.0 .0).min().unwrap();
        ensure!(w < 4, "no grid for a width of {}", w);
        cx.label("too narrow for a grid");
        return Ok(());
    } };
    cx.nontrivial(cells.len() > 1 && list.len() > 1);
    cx.label_if(cells.len() > 8, "more than 8 columns");
    let n = cells.len();
    let lo = |k: usize| cells[k].x as i64;
    for k in 1..n { ensure!(lo(k) > lo(k - 1), "column {} starts at {}, the one before at {}", k, lo(k), lo(k - 1)); }
    let mut parts: Vec<Vec<(usize, (i64, i64, i64, i64))>> = vec![vec![]; list.len()];
    for (k, c) in cells.iter().enumerate() {
        for (i, r) in &c.fragments {
            ensure!(*i < list.len(), "fragment of segment {} of {}", i, list.len());
            parts[*i].push((k, (r.min_x as i64, r.max_x as i64, r.min_y as i64, r.max_y as i64)));
        }
    }
    for (i, s) in list.iter().enumerate() {
        let p = &parts[i];
        ensure!(!p.is_empty(), "segment {:?} is in no column", s);
        cx.label_if(p.len() > 1, "segment over several columns");
        let (ylo, yhi) = (s.0 .1.min(s.1 .1), s.0 .1.max(s.1 .1));
        let mut x = s.0 .0;
        for (j, (k, r)) in p.iter().enumerate() {
            ensure!(r.0 == x, "parts of segment {:?}: part {} starts at {} but the one before ends at {}", s, j, r.0, x);
            x = r.1;
            ensure!(r.0 >= lo(*k) && (*k + 1 == n || r.1 <= lo(*k + 1)), "part {:?} of segment {:?} leaves column {}", r, s, k);
            let (mut a, mut b) = if s.0 .0 == s.1 .0 { (ylo, yhi) } else { let (p, q) = (y_at(*s, r.0), y_at(*s, r.1)); (p.0.min(q.0), p.1.max(q.1)) };
            a = a.max(ylo); b = b.min(yhi);
            ensure!(r.2 <= a && r.3 >= b, "part {:?} of segment {:?} does not hold y {}..{}", r, s, a, b);
        }
        ensure!(x == s.1 .0, "parts of segment {:?} end at {}", s, x);
    }
    // every pair that meets is compared in some column
    let mut found = 0;
    for i in 0..list.len() {
        for j in 0..i {
            let (a, b) = (list[j], list[i]);
            if !is_cross(&meet(a.0, a.1, b.0, b.1)) { continue; }
            found += 1;
            let mut ok = parts[i].iter().any(|(k, r)| parts[j].iter().any(|(l, q)| k == l && r.0 <= q.1 && q.0 <= r.1 && r.2 <= q.3 && q.2 <= r.3));
            if !ok {
                // a vertical segment on the left border of a column against the segments ending there in the column before
                for (v, w) in [(i, j), (j, i)] {
                    let s = list[v];
                    if s.0 .0 != s.1 .0 { continue; }
                    ok = ok || (1..n).any(|k| lo(k) == s.0 .0 && cells[k].on_border.iter().any(|b| b.0 == v && b.1 as i64 <= s.0 .1.min(s.1 .1) && b.2 as i64 >= s.0 .1.max(s.1 .1)) && parts[w].iter().any(|(l, q)| l + 1 == k && q.1 == lo(k)));
                }
            }
            ensure!(ok, "segments {:?} and {:?} meet but are compared in no column", a, b);
        }
    }
    cx.label_if(found > 0, "segments that meet");
    Ok(())
}
fn few(s: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    let n = s.usize(1, 12);
    let mut v: Vec<(Pt, Pt)> = vec![];
    while v.len() < n { let (a, b) = gen_pair(s); v.push(a); v.push(b); }
    // repetitions bring the grid to more columns
    let m = *s.pick(&[1usize, 1, 3, 20]);
    let k = v.len();
    for _ in 1..m { for i in 0..k { let x = v[i]; v.push(x); } }
    v.sort();
    cx.desc(|| format!("{} x {:?}", m, { let mut w = v.clone(); w.dedup(); w }));
    check(&v, cx)
}
fn aligned(s: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    // coordinates that often lie on column borders
    let p = s.range(1, 27) as u32;
    let lim = ((MAXC >> p) - 1).min(16).max(1);
    let x0 = s.zrange(-MAXC, MAXC - (lim << p));
    let n = s.usize(4, 60);
    let mut v: Vec<(Pt, Pt)> = vec![];
    for _ in 0..n {
        let mut q = |s: &mut Src| { let j = *s.pick(&[0i64, 0, 0, 1, -1]); let x = (x0 + (s.range(0, lim) << p) + j).clamp(x0, x0 + (lim << p)); (x, *s.pick(&[-2i64, -1, 0, 1, 2, 100, -100, 1 << 20]) * if s.bool() { 1 } else { 1 << (p.min(8)) }) };
        let (a, b) = (q(s), q(s));
        let b = if s.chance(1, 3) { (a.0, b.1) } else { b };
        if a != b { v.push(ord(a, b)); }
    }
    if v.is_empty() { return Ok(()); }
    v.sort();
    cx.desc(|| format!("{:?}", v));
    check(&v, cx)
}
fn many(s: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    let e = extent(s).max(3);
    let n = s.usize(50, 400);
    let mut r = Rng::new(s.raw(1 << 60));
    let mut c = |e: i64| (r.next() % (2 * e as u64 + 1)) as i64 - e;
    let size = *s.pick(&[e, (e / 10).max(1)]);
    let mut v: Vec<(Pt, Pt)> = vec![];
    for _ in 0..n { let a = (c(e), c(e)); let b = cl((a.0 + c(size), a.1 + c(size))); if a != b { v.push(ord(a, b)); } }
    if v.is_empty() { return Ok(()); }
    v.sort();
    cx.desc(|| format!("{} segments, extent {}, first {:?}", v.len(), e, &v[..v.len().min(5)]));
    check(&v, cx)
}
pub fn components() -> Vec<Component> {
    vec![
        Component { name: "grid_few", quick: 400_000, thorough: 20_000_000, rule: "2 to 12 segments in special position, repeated up to 20 times, extents 1..2^30: parts follow one another, stay in their column, hold the segment's exact y range; every pair that meets is compared in some column; non-trivial: several columns and segments", run: few },
        Component { name: "grid_aligned", quick: 100_000, thorough: 6_000_000, rule: "as above with ends and vertical segments on or next to column borders; non-trivial: several columns", run: aligned },
        Component { name: "grid_many", quick: 1_500, thorough: 100_000, rule: "as above with 50 to 400 segments; non-trivial: several columns", run: many },
    ]
}
