//! Near-vertical and near-horizontal edges: tilted by a few units in the last
//! place, so that a computed crossing cannot lie between the ends of its edge.
//! Everything else is well separated: all ends and crossings lie (up to the
//! tilt) on the nodes of a grid; the oracle works on the grid.
use crate::engine::*;
use crate::ex::*;
use crate::gen::*;
use crate::poly::*;
use crate::props::boolean::{opf, OPS};
use crate::props::cross::Cr;
use crate::props::scale::shuffle;
use crate::tape::Src;
use geo::line_intersection::{line_intersection, LineIntersection};
use geo::{Coordinate, Line, LineString, MultiPolygon, Polygon};
use geo_crossings::*;
use std::collections::{BTreeMap, BTreeSet};

struct Grid<T: Sc> { xs: Vec<f64>, ys: Vec<f64>, slope: f64, amp: i64, ulp: (f64, f64), tol: (f64, f64), memo: BTreeMap<P, Coordinate<T>> }
fn lines<T: Sc>(src: &mut Src, n: usize) -> (Vec<f64>, f64) {
    let (lo, hi) = *src.pick(&[(-1., 1.), (1., 2.), (-2., 2.), (0.3, 1.7), (-3., -1.), (0., 3.)]);
    let g: Vec<f64> = (0..=n).map(|_| 1. + src.range(0, 1 << 30) as f64 / 2f64.powi(30)).collect();
    let t: f64 = g.iter().sum();
    let mut c = 0.;
    let even = src.chance(1, 2);
    let v = (0..n).map(|i| { c += g[i]; T::of(lo + (hi - lo) * if even { (i + 1) as f64 / (n + 1) as f64 } else { c / t }).f() }).collect();
    (v, f64::max(f64::abs(lo), f64::abs(hi)))
}
impl<T: Sc> Grid<T> {
    fn gen(src: &mut Src, nx: usize, ny: usize) -> Self {
        let (mut xs, mut mx) = lines::<T>(src, nx);
        let (mut ys, mut my) = lines::<T>(src, ny);
        let small = T::EXT < 1000;
        let slope = if src.chance(1, 3) { (src.sym(1 << 20) as f64) / 2f64.powi(20 - src.sym(1) as i32) } else { 0. };
        let amp = if small { *src.pick(&[1, 1, 2, 3, 6]) } else { *src.pick(&[1, 1, 2, 3, 10, 100, 10_000]) };
        // scale (a power of two)
        let k = if src.chance(1, 2) { 1. } else { 2f64.powi(src.sym(if small { 15 } else { 100 }) as i32) };
        for v in xs.iter_mut().chain(ys.iter_mut()) { *v *= k; }
        mx *= k; my *= k;
        my += slope.abs() * mx;
        let eps = T::of(1.).up().f() - 1.;
        let t = (amp as f64 + 10.) * 16. * eps;
        Grid { xs, ys, slope, amp, ulp: (mx * eps, my * eps), tol: (mx * t, (my + slope.abs() * mx) * t), memo: BTreeMap::new() }
    }
    /// The (tilted) position of a grid node.
    fn at(&mut self, src: &mut Src, q: P) -> Coordinate<T> {
        if let Some(c) = self.memo.get(&q) { return *c; }
        let (x, y) = (self.xs[q.x as usize], self.ys[q.y as usize]);
        let y = y + self.slope * x;
        let a = self.amp;
        let mut n = |v: f64, u: f64| T::of(T::of(v).f() + u * src.sym(a) as f64 * if v.abs() < 0.25 { v.abs().max(1. / 256.).log2().floor().exp2() } else { 0.5 });
        let c = Coordinate { x: n(x, self.ulp.0), y: n(y, self.ulp.1) };
        self.memo.insert(q, c);
        c
    }
    /// The grid node near a position.
    fn snap(&self, c: Coordinate<T>) -> Option<P> {
        let (x, y) = (c.x.f(), c.y.f());
        let i = (0..self.xs.len()).find(|&i| (self.xs[i] - x).abs() <= self.tol.0)?;
        let y = y - self.slope * self.xs[i];
        let j = (0..self.ys.len()).find(|&j| (self.ys[j] - y).abs() <= self.tol.1)?;
        Some(p(i as i64, j as i64))
    }
}
fn crossings<T: Sc>(src: &mut Src, ctx: &mut Ctx) -> R {
    let m = if T::EXT < 1000 { 6 } else { 10 };
    let (nx, ny) = (3 + src.u(2 * m), 3 + src.u(2 * m));
    let mut g = Grid::<T>::gen(src, nx, ny);
    let mut segs: Vec<S> = vec![];
    let k = 1 + src.u(2 * m);
    let mut used: BTreeSet<(bool, i64, i64)> = BTreeSet::new();
    for _ in 0..k {
        // vertical ones on even lines between even lines, horizontal ones on odd
        let v = src.chance(1, 2);
        let (n, l) = if v { (nx, ny) } else { (ny, nx) };
        let o = !v as usize;
        let line = (src.u((n - o + 1) / 2) * 2 + o) as i64;
        let (c, d) = if src.chance(1, 2) { (0, (l - o + 1) / 2 - 1) } else { (src.u((l - o + 1) / 2), src.u((l - o + 1) / 2)) };
        let (c, d) = ((c.min(d) * 2 + o) as i64, (c.max(d) * 2 + o) as i64);
        if c == d || (c..d).any(|t| used.contains(&(v, line, t))) { continue; }
        for t in c..d { used.insert((v, line, t)); }
        segs.push(if v { s(p(line, c), p(line, d)) } else { s(p(c, line), p(d, line)) });
    }
    shuffle(src, &mut segs);
    let n = segs.len();
    let inp: Vec<Cr<T>> = segs.iter().enumerate().map(|(id, q)| { let (a, b) = (g.at(src, q.a), g.at(src, q.b)); Cr { id, l: if src.chance(1, 2) { Line::new(b, a) } else { Line::new(a, b) } } }).collect();
    ctx.input(&segs);
    ctx.input(&inp.iter().flat_map(|c| [c.l.start, c.l.end]).flat_map(|c| [c.x.f().to_bits(), c.y.f().to_bits()]).collect::<Vec<_>>());
    ctx.label("crossings");
    ctx.label(T::NAME);
    ctx.show(|| format!("{} segments {:?}", T::NAME, inp.iter().map(|c| c.l).collect::<Vec<_>>()));
    // what meets where
    let mut want: BTreeMap<(usize, usize), (P, bool)> = BTreeMap::new();
    for j in 0..n { for i in 0..j { if let Ix::Pt(q, proper) = intersect(segs[i], segs[j]) { want.insert((i, j), (q, proper)); } } }
    let mut inc: BTreeMap<P, BTreeSet<usize>> = BTreeMap::new();
    for (i, q) in segs.iter().enumerate() { for e in [q.a, q.b] { inc.entry(e).or_default().insert(i); } }
    for (k, w) in &want { inc.entry(w.0).or_default().extend([k.0, k.1]); }
    let nx = want.values().filter(|w| w.1).count();
    ctx.nontrivial = nx > 0;
    ctx.label_if(nx >= 10, "10+ crossings");
    ctx.work += want.len() as u64;
    let mut seen: BTreeSet<P> = BTreeSet::new();
    let mut last: Option<Coordinate<T>> = None;
    let mut it: CrossingsIter<&Cr<T>> = inp.iter().collect();
    while let Some(c) = it.next() {
        if let Some(l) = last { if !((l.x, l.y) < (c.x, c.y)) { return Err(format!("{c:?} yielded after {l:?}")); } }
        last = Some(c);
        let Some(q) = g.snap(c) else { return Err(format!("yielded {c:?}, which is no end point or crossing")) };
        let Some(ids) = inc.get(&q) else { return Err(format!("yielded {c:?}, where nothing ends or crosses")) };
        if !seen.insert(q) { return Err(format!("a point near {c:?} was yielded before")); }
        if segs.iter().any(|e| e.a == q || e.b == q) && g.memo[&q] != c { return Err(format!("yielded {c:?} instead of the end point {:?}", g.memo[&q])); }
        let got: BTreeSet<usize> = it.intersections().iter().map(|x| x.crossable.id).collect();
        if got != *ids { return Err(format!("at {c:?}: reported segments {got:?}, incident are {ids:?}")); }
        for x in it.intersections() {
            let l = x.line.line();
            if (if x.at_left { l.start } else { l.end }) != c { return Err(format!("at {c:?}: piece {x:?} neither starts nor ends here")); }
            for w in [l.start, l.end] { match g.snap(w) { Some(w) if on_seg(segs[x.crossable.id], w) => {} _ => return Err(format!("at {c:?}: piece {x:?} is not part of its input")) } }
        }
    }
    if let Some(q) = inc.keys().find(|q| !seen.contains(q)) { return Err(format!("nothing yielded near ({}, {})", g.xs[q.x as usize], g.ys[q.y as usize] + g.slope * g.xs[q.x as usize])); }
    let mut got: BTreeSet<(usize, usize)> = BTreeSet::new();
    for (x, y, l) in inp.iter().collect::<Intersections<&Cr<T>>>() {
        let key = (x.id.min(y.id), x.id.max(y.id));
        let Some(&(q, proper)) = want.get(&key) else { return Err(format!("pair {key:?} reported, but does not intersect")) };
        if !got.insert(key) { return Err(format!("pair {key:?} reported twice")); }
        let ok = match l {
            LineIntersection::SinglePoint { intersection: c, is_proper } => g.snap(c) == Some(q) && is_proper == proper,
            LineIntersection::Collinear { intersection: c } => !proper && c.start == c.end && g.snap(c.start) == Some(q),
        };
        if !ok || line_intersection(x.l, y.l) != Some(l) { return Err(format!("pair {key:?} reported as {l:?}")); }
    }
    if let Some((k, _)) = want.iter().find(|(k, w)| w.1 && !got.contains(k)) { return Err(format!("crossing pair {k:?} is missing: {:?} {:?}", inp[k.0].l, inp[k.1].l)); }
    Ok(())
}
fn cells(src: &mut Src, w: usize, h: usize) -> Vec<Vec<bool>> {
    let mut c = vec![vec![false; w]; h];
    match src.u(5) {
        0 => for row in c.iter_mut() { for (i, v) in row.iter_mut().enumerate() { *v = i % 2 == 0; } },
        1 => for (j, row) in c.iter_mut().enumerate() { for v in row.iter_mut() { *v = j % 2 == 0; } },
        2 => for row in c.iter_mut() { for v in row.iter_mut() { *v = true; } },
        _ => { let d = 2 + src.u(6) as u64; for row in c.iter_mut() { for v in row.iter_mut() { *v = src.chance(d, 9); } } }
    }
    c
}
fn boolean<T: Sc>(src: &mut Src, ctx: &mut Ctx) -> R {
    let m = if T::EXT < 1000 { 3 } else { 7 };
    let (w, h) = (1 + src.u(m), 1 + src.u(m));
    let mut g = Grid::<T>::gen(src, 2 * w + 2, 2 * h + 2);
    let cs = [cells(src, w, h), cells(src, w, h)];
    let mut rings: Vec<Vec<Ring>> = vec![];
    let keep = src.chance(1, 3);
    for (k, c) in cs.iter().enumerate() {
        // operand k uses the grid lines of parity k
        let mut rs = cell_rings(c);
        if !keep { rs = rs.iter().map(simplify_collinear).collect(); }
        for q in rs.iter_mut().flatten() { *q = p(2 * q.x + k as i64, 2 * q.y + k as i64); }
        for r in rs.iter_mut() { if src.chance(1, 2) { r.reverse(); } let i = src.u(r.len()); r.rotate_left(i); }
        shuffle(src, &mut rs);
        rings.push(rs);
    }
    let mut ops: Vec<MultiPolygon<T>> = vec![];
    for rs in &rings {
        let ls: Vec<LineString<T>> = rs.iter().map(|r| LineString(r.iter().chain([&r[0]]).map(|q| g.at(src, *q)).collect())).collect();
        // the linking of rings to polygons does not matter for an operand
        let mut ps: Vec<Polygon<T>> = vec![];
        for l in ls { if !ps.is_empty() && src.chance(1, 3) { ps.last_mut().unwrap().interiors_push(l); } else { ps.push(Polygon::new(l, vec![])); } }
        ops.push(MultiPolygon(ps));
    }
    let op = *src.pick(&OPS);
    ctx.input(&rings);
    ctx.input(&g.memo.values().flat_map(|c| [c.x.f().to_bits(), c.y.f().to_bits()]).collect::<Vec<_>>());
    ctx.input(&(op as u8));
    ctx.label("boolean");
    ctx.label(T::NAME);
    ctx.show(|| format!("{} {op:?} A = {:?} B = {:?}", T::NAME, ops[0], ops[1]));
    let (fw, fh) = (2 * w + 1, 2 * h + 1);
    // fine cell (i, j) lies between grid lines i and i + 1
    let inside = |k: usize, i: usize, j: usize| -> bool { if i < k || j < k { return false; } let (i, j) = ((i - k) / 2, (j - k) / 2); i < w && j < h && cs[k][j][i] };
    ctx.nontrivial = (0..fh).any(|j| (0..fw).any(|i| inside(0, i, j) && inside(1, i, j)));
    let out = ops[0].boolean_op(&ops[1], op);
    let mut got: Vec<Vec<Ring>> = vec![];
    for q in &out.0 {
        let mut v = vec![];
        for l in std::iter::once(q.exterior()).chain(q.interiors()) {
            if l.0.len() < 4 || l.0.first() != l.0.last() { return Err(format!("{op:?}: output ring is not closed or has no area: {l:?}")); }
            let mut r: Ring = vec![];
            for c in &l.0[1..] { match g.snap(*c) { Some(q) => r.push(q), None => return Err(format!("{op:?}: output vertex {c:?} is no vertex or crossing of the operands")) } }
            for i in 0..r.len() {
                let (a, b) = (r[i], r[(i + 1) % r.len()]);
                if a == b || (a.x != b.x && a.y != b.y) { return Err(format!("{op:?}: output edge {:?} {:?} is not part of an operand edge", l.0[1 + i], l.0[1 + (i + 1) % r.len()])); }
                if r[..i].contains(&a) { return Err(format!("{op:?}: output ring visits {:?} twice", l.0[1 + i])); }
            }
            v.push(r);
        }
        got.push(v);
    }
    ctx.work += (fw * fh) as u64;
    let within = |r: &Ring, i: usize, j: usize| (0..r.len()).filter(|&k| { let (a, b) = (r[k], r[(k + 1) % r.len()]); a.x == b.x && a.x <= i as i64 && a.y.min(b.y) <= j as i64 && (j as i64) < a.y.max(b.y) }).count() % 2 == 1;
    for j in 0..fh { for i in 0..fw {
        let want = opf(op, inside(0, i, j), inside(1, i, j));
        let n = got.iter().filter(|q| q.iter().filter(|r| within(r, i, j)).count() % 2 == 1).count();
        if (n > 0) != want || n > 1 { return Err(format!("{op:?}: the cell right of x = {} and above y = {} is {}in the result, covered by {n} output polygons", g.xs[i], g.ys[j], if want { "" } else { "not " })); }
    } }
    // no needless edges: between equal cells there is none
    for r in got.iter().flatten() { for k in 0..r.len() {
        let (a, b) = (r[k], r[(k + 1) % r.len()]);
        let f = |i: i64, j: i64| i >= 0 && j >= 0 && opf(op, inside(0, i as usize, j as usize), inside(1, i as usize, j as usize));
        let bad = if a.x == b.x { (a.y.min(b.y)..a.y.max(b.y)).any(|y| f(a.x - 1, y) == f(a.x, y)) } else { (a.x.min(b.x)..a.x.max(b.x)).any(|x| f(x, a.y - 1) == f(x, a.y)) };
        if bad { return Err(format!("{op:?}: an output edge near ({}, {}) does not separate the result from the rest", g.xs[a.x as usize], g.ys[a.y as usize])); }
    } }
    Ok(())
}
pub fn c32(src: &mut Src, ctx: &mut Ctx) -> R {
    match src.weighted(&[4, 1, 4, 1]) { 0 => boolean::<f64>(src, ctx), 1 => boolean::<f32>(src, ctx), 2 => crossings::<f64>(src, ctx), _ => crossings::<f32>(src, ctx) }
}
