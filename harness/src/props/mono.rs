//! Monotone decomposition and scans of monotone polygons.
use crate::engine::*;
use crate::ex::*;
use crate::gen::*;
use crate::poly::*;
use crate::polygen::*;
use crate::slab::*;
use crate::tape::Src;
use geo::prelude::BoundingRect;
use geo::{Coordinate, GeoNum, LineString, Polygon};
use geo_crossings::monotone::MonoPoly;
use geo_crossings::{monotone_chains, MonotoneSweep};
use std::collections::{BTreeMap, BTreeSet};

/// Scalars the decomposition runs on (nothing is computed but orientations, so
/// every representable coordinate is exact).
pub trait Num: GeoNum + Send + Sync + 'static {
    const NAME: &'static str;
    fn c(q: P, e: Emb, salt: usize) -> Coordinate<Self>;
    fn back(c: Coordinate<Self>, e: Emb) -> Option<P>;
}
impl Num for f64 { const NAME: &'static str = "f64"; fn c(q: P, e: Emb, s: usize) -> Coordinate<f64> { e.cs(q, s) } fn back(c: Coordinate<f64>, e: Emb) -> Option<P> { e.back(c) } }
impl Num for f32 { const NAME: &'static str = "f32"; fn c(q: P, e: Emb, s: usize) -> Coordinate<f32> { e.cs(q, s) } fn back(c: Coordinate<f32>, e: Emb) -> Option<P> { e.back(c) } }
macro_rules! int { ($t:ty, $n:expr) => { impl Num for $t { const NAME: &'static str = $n;
    fn c(q: P, _: Emb, _: usize) -> Coordinate<$t> { Coordinate { x: q.x as $t, y: q.y as $t } }
    fn back(c: Coordinate<$t>, _: Emb) -> Option<P> { Some(p(c.x as i64, c.y as i64)) } } } }
int!(i64, "i64"); int!(i32, "i32"); int!(i16, "i16");

fn to_poly<T: Num>(q: &Poly, e: Emb) -> Polygon<T> {
    let rs: Vec<LineString<T>> = q.iter().map(|r| LineString(r.iter().enumerate().map(|(i, c)| T::c(*c, e, i)).collect())).collect();
    Polygon::new(rs[0].clone(), rs[1..].to_vec())
}
fn show(q: &Poly) -> String {
    q.iter().map(|r| format!("({})", r.iter().map(|v| format!("{} {}", v.x, v.y)).collect::<Vec<_>>().join(", "))).collect::<Vec<_>>().join(" ")
}
/// A valid polygon, its scalar type and embedding.
fn case(src: &mut Src, ctx: &mut Ctx, lim: i64) -> (Poly, Emb, usize) {
    let maxv = match src.weighted(&[800, 800, 400, 5]) { 0 => 8, 1 => 24, 2 => 70, _ => 400 };
    let (mut q, fam) = valid_poly(src, maxv);
    ctx.label(fam);
    let size = |q: &Poly| q.iter().flatten().map(|v| v.x.abs().max(v.y.abs())).max().unwrap();
    let warp = src.weighted(&[12, 2, 2, 1]);
    if warp > 0 {
        let lim = (*src.pick(&[SKEW_F32, 1 << 29, i64::MAX])).min(lim);
        if warp >= 2 {
            let l = if warp == 2 { lim } else { lim >> (5 + src.u(12)) };
            let j = jitter(src, size(&q), l);
            for v in q.iter_mut().flatten() { *v = j.map(*v); }
            ctx.label("jittered");
        }
        if warp != 2 {
            let k = skew(src, size(&q), lim);
            for v in q.iter_mut().flatten() { *v = apply(k, *v); }
            ctx.label("needles");
        }
    }
    ctx.input(&q);
    let n: usize = q.iter().map(|r| r.len()).sum();
    let m = size(&q);
    let k = src.weighted(&[6, 2, 2, 2, 1]);
    let ty = match k { 1 if m < 1 << 22 => 1, 2 if m <= 1 << 29 => 2, 3 if m <= 10_000 => 3, 4 if m <= 60 => 4, _ => 0 };
    let e = match ty {
        0 => { let mut e = Emb::gen::<f64>(src); if m > 1 << 40 { e.ox = 0; e.oy = 0; } e }
        1 => { let mut e = Emb::gen::<f32>(src); e.ox = e.ox.clamp(-(1 << 22), 1 << 22); e.oy = e.oy.clamp(-(1 << 22), 1 << 22); e }
        _ => Emb::ID,
    };
    ctx.label(["f64", "f32", "i64", "i32", "i16"][ty]);
    ctx.label(match n { 0..=4 => "n<=4", 5..=12 => "n=5-12", 13..=40 => "n=13-40", 41..=150 => "n=41-150", _ => "n>150" });
    ctx.label_if(q.len() > 1, "has holes");
    ctx.nontrivial = n >= 5;
    // repeated consecutive vertices are no edges
    if src.chance(1, 6) { for r in q.iter_mut() { let i = src.u(r.len()); let v = r[i]; r.insert(i, v); } ctx.label("repeated vertices"); }
    ctx.show(|| format!("{} {e:?} polygon {}", ["f64", "f32", "i64", "i32", "i16"][ty], show(&q)));
    (q, e, ty)
}
macro_rules! dispatch { ($ty:expr, $f:ident($($a:expr),*)) => { match $ty { 0 => $f::<f64>($($a),*), 1 => $f::<f32>($($a),*), 2 => $f::<i64>($($a),*), 3 => $f::<i32>($($a),*), _ => $f::<i16>($($a),*) } } }

fn conv<T: Num>(l: &LineString<T>, e: Emb) -> Result<Vec<P>, String> {
    l.0.iter().map(|c| T::back(*c, e).ok_or_else(|| format!("a piece has the vertex {c:?}, which is no vertex of the polygon"))).collect()
}
fn partition<T: Num>(q: &Poly, e: Emb, ctx: &mut Ctx) -> R {
    let out = monotone_chains(&to_poly::<T>(q, e));
    let mut es: Vec<E> = edges(&vec![q.clone()]).into_iter().map(|s| E { s, layer: 0 }).collect();
    let mut layer = 1;
    for m in &out {
        for c in [conv(m.top(), e)?, conv(m.bot(), e)?] { for w in c.windows(2) { es.push(E { s: s(w[0], w[1]), layer }); } layer += 1; }
    }
    let n = out.len();
    ctx.label_if(n > 1, "several pieces");
    ctx.label_if(n > 10, "10+ pieces");
    let at = |x: (i128, (i128, i128), (i128, i128))| format!("x={} just above y={}", x.0 as f64 / 2., x.1.0 as f64 / x.1.1.max(1) as f64);
    let cells = walk(&es, layer as usize, false, |par, w| {
        let mut cnt = 0;
        for k in 0..n { if par[2 + 2 * k] && !par[1 + 2 * k] { cnt += 1; } else if par[1 + 2 * k] && !par[2 + 2 * k] { return Err(format!("piece {k} has its top below its bottom at {}", at(w))); } }
        if cnt != par[0] as usize { return Err(format!("at {}: the point is {}the polygon, and in {cnt} pieces", at(w), if par[0] { "in " } else { "outside " })); }
        Ok(())
    })?;
    ctx.work += cells as u64;
    Ok(())
}
pub fn c12(src: &mut Src, ctx: &mut Ctx) -> R { let (q, e, ty) = case(src, ctx, SKEW_SLAB); dispatch!(ty, partition(&q, e, ctx)) }

fn pieces<T: Num>(q: &Poly, e: Emb, ctx: &mut Ctx) -> R {
    let out = monotone_chains(&to_poly::<T>(q, e));
    let verts: BTreeSet<P> = q.iter().flatten().copied().collect();
    let bd: BTreeSet<(P, P)> = edges(&vec![q.clone()]).into_iter().map(|s| (s.lo(), s.hi())).collect();
    let mut uses: BTreeMap<(P, P), (u32, u32)> = BTreeMap::new();
    let mut seen = BTreeSet::new();
    for (k, m) in out.iter().enumerate() {
        let (t, b) = (conv(m.top(), e)?, conv(m.bot(), e)?);
        if t.len() < 2 || b.len() < 2 || t[0] != b[0] || t.last() != b.last() { return Err(format!("piece {k}: the chains do not share their ends: top {t:?} bottom {b:?}")); }
        for (c, top) in [(&t, true), (&b, false)] {
            for v in c.iter() { if !verts.contains(v) { return Err(format!("piece {k} has the vertex {v:?}, which is no vertex of the polygon")); } seen.insert(*v); }
            for w in c.windows(2) {
                if w[0] >= w[1] { return Err(format!("piece {k}: chain not monotone at {:?} {:?}", w[0], w[1])); }
                let u = uses.entry((w[0], w[1])).or_default();
                if top { u.0 += 1 } else { u.1 += 1 }
            }
        }
        let mut ring = b.clone();
        ring.extend(t[1..t.len() - 1].iter().rev());
        if area2(&ring) <= 0 { return Err(format!("piece {k} has no positive area: top {t:?} bottom {b:?}")); }
    }
    for (k, u) in &uses {
        ctx.work += 1;
        if bd.contains(k) { if u.0 + u.1 != 1 { return Err(format!("polygon edge {k:?} bounds {} pieces from above and {} from below", u.0, u.1)); } }
        else if *u != (1, 1) { return Err(format!("diagonal {k:?} bounds {} pieces from above and {} from below", u.0, u.1)); }
    }
    if let Some(k) = bd.iter().find(|k| !uses.contains_key(k)) { return Err(format!("polygon edge {k:?} bounds no piece")); }
    if let Some(v) = verts.difference(&seen).next() { return Err(format!("polygon vertex {v:?} is in no piece")); }
    ctx.label_if(uses.values().any(|u| *u == (1, 1)), "has diagonals");
    Ok(())
}
pub fn c13(src: &mut Src, ctx: &mut Ctx) -> R { let (q, e, ty) = case(src, ctx, SKEW_F64); dispatch!(ty, pieces(&q, e, ctx)) }

fn events<T: Num>(q: &Poly, e: Emb, ctx: &mut Ctx) -> R {
    let mut want: BTreeMap<P, &'static str> = BTreeMap::new();
    for (ri, r0) in q.iter().enumerate() {
        let mut r = r0.clone();
        r.dedup();
        let n = r.len();
        let ccw = (area2(&r) > 0) ^ (ri > 0);
        for i in 0..n {
            let (a, v, b) = (r[(i + n - 1) % n], r[i], r[(i + 1) % n]);
            // interior on the left of a->v->b iff ccw
            let convex = (orient(a, v, b) > 0) == ccw;
            let ty = match (a > v, b > v) {
                (true, true) => if convex { "Start" } else { "Split" },
                (false, false) => if convex { "End" } else { "Merge" },
                _ => "Continue",
            };
            want.insert(v, ty);
        }
    }
    let mut it = Box::pin(MonotoneSweep::from_polygon(&to_poly::<T>(q, e)));
    let mut got = vec![];
    while let Some(ev) = it.next() {
        let c = ev.pt.coord();
        got.push((T::back(c, e).ok_or_else(|| format!("event at {c:?}, which is no vertex"))?, format!("{:?}", ev.ty)));
        if got.len() > want.len() { break; }
    }
    ctx.work += got.len() as u64;
    for (i, (v, ty)) in got.iter().enumerate() {
        if i > 0 && got[i - 1].0 >= *v { return Err(format!("event at {v:?} after the one at {:?}", got[i - 1].0)); }
        match want.get(v) { None => return Err(format!("event at {v:?}, which is no vertex")), Some(w) if w != ty => return Err(format!("vertex {v:?} is a {w} vertex, reported as {ty}")), _ => {} }
    }
    if got.len() != want.len() { return Err(format!("{} events for {} vertices", got.len(), want.len())); }
    for _ in 0..2 { if it.next().is_some() { return Err("event after the end".into()); } }
    for t in ["Split", "Merge"] { ctx.label_if(want.values().any(|w| *w == t), if t == "Split" { "has split vertex" } else { "has merge vertex" }); }
    Ok(())
}
pub fn c14(src: &mut Src, ctx: &mut Ctx) -> R { let (q, e, ty) = case(src, ctx, SKEW_F64); dispatch!(ty, events(&q, e, ctx)) }

// ---- MonoPoly ----------------------------------------------------------

/// A monotone polygon: (top, bot) with integer vertices, top never below bot.
fn chains(src: &mut Src) -> (Vec<P>, Vec<P>) {
    let (mut top, mut bot) = chains0(src);
    let k = if src.chance(1, 2) { src.sym(3) } else { 0 };
    let m = if src.chance(1, 3) { *src.pick(&[2i64, 7, 60]) } else { 1 };
    for c in [&mut top, &mut bot] { for v in c.iter_mut() { *v = p(m * v.x, v.y + k * v.x); } }
    (top, bot)
}
/// The same with large coordinates using most of the mantissa (up to `lim`),
/// possibly a thin one on a slope.
fn wide_chains(src: &mut Src, lim: i64) -> (Vec<P>, Vec<P>) {
    let (mut top, mut bot) = chains0(src);
    let thin = src.chance(1, 3);
    let mut map = |vals: BTreeSet<i64>, lim: i64| -> BTreeMap<i64, i64> {
        // strictly increasing, gaps at random, the value for 0 (if any) is small
        let n = vals.len() as i64;
        let even = src.chance(1, 3);
        let g = lim / (n + 2);
        let mut c = -src.range(0, lim / 2);
        vals.into_iter().map(|v| { c += if even { 1 + src.range(g / 2, g / 2 + g / 16) } else { 1 + src.range(0, g / 2) >> src.u(12) }.max(1); (v, c) }).collect()
    };
    let fx = map(top.iter().chain(&bot).map(|q| q.x).collect(), lim);
    let fy = map(top.iter().chain(&bot).map(|q| q.y).chain([0]).collect(), if thin { *[60, 600, 1 << 13].iter().rev().find(|v| **v < lim).unwrap() } else { lim / 2 });
    let mx = fx.values().map(|v| v.abs()).max().unwrap().max(1);
    let k = lim / 2 / mx;
    let k = if thin || src.chance(1, 3) { src.sym(k) } else { 0 };
    for c in [&mut top, &mut bot] { for v in c.iter_mut() { let x = fx[&v.x]; *v = p(x, fy[&v.y] + k * x); } }
    (top, bot)
}
fn chains0(src: &mut Src) -> (Vec<P>, Vec<P>) {
    let cols = 1 + src.weighted(&[3, 3, 2, 2, 1, 1, 1, 1]) as i64 + if src.chance(1, 10) { src.range(0, 30) } else { 0 };
    let wide = *src.pick(&[1i64, 3, 16, 100]);
    let amp = *src.pick(&[3i64, 10, 100]);
    let mut x = 0;
    let mut top = vec![p(0, 0)];
    let mut bot = vec![p(0, 0)];
    let left = src.weighted(&[4, 2, 2]);
    if left == 1 { top.push(p(0, 1 + src.range(0, amp))); }
    if left == 2 { let y = -1 - src.range(0, amp); top[0].y = y; bot[0].y = y; top.push(p(0, src.range(0, amp))); }
    let touch = src.chance(1, 5);
    for i in 1..=cols {
        x += src.range(1, wide);
        let last = i == cols;
        if last { break; }
        let zero = touch && src.chance(1, 2);
        if src.chance(3, 4) {
            let y = if zero { 0 } else { src.range(0, amp) };
            top.push(p(x, y));
            if src.chance(1, 5) { top.push(p(x, y + 1 + src.range(0, amp))); }
        }
        if src.chance(3, 4) {
            let y = if zero { 0 } else { -src.range(0, amp) };
            bot.push(p(x, y));
            if y < 0 && src.chance(1, 5) { bot.push(p(x, y + 1 + src.range(0, -y - 1))); }
        }
    }
    // the right end
    let right = src.weighted(&[4, 2, 2]);
    let end = match right { 0 => p(x, 0), _ => p(x, src.range(0, amp)) };
    if right == 2 && end.y > 0 { bot.push(p(x, -src.range(0, amp))); if src.chance(1, 3) { let l = *bot.last().unwrap(); if l.y < 0 { bot.push(p(x, 0)); } } }
    if right == 1 && end.y > 0 { bot.push(p(x, 0)); }
    top.push(end);
    bot.push(end);
    (top, bot)
}
/// Exact-ish embedding for scans: offsets small relative to the extent.
#[derive(Clone, Copy, Debug)]
struct Em { ox: f64, oy: f64, k: f64 }
impl Em {
    fn gen<T: Sc>(src: &mut Src) -> Em {
        let ox = if src.chance(1, 2) { src.sym(50) as f64 } else { 0. };
        let oy = if src.chance(1, 2) { src.sym(50) as f64 } else { 0. };
        let far = if T::EXT < 1000 { 25 } else { 200 };
        Em { ox, oy, k: 2f64.powi(match src.weighted(&[6, 2, 1]) { 0 => 0, 1 => src.sym(12) as i32, _ => src.sym(far) as i32 }) }
    }
    fn x(&self, v: f64) -> f64 { (v + self.ox) * self.k }
    fn y(&self, v: f64) -> f64 { (v + self.oy) * self.k }
    fn ls<T: Sc>(&self, c: &[P]) -> LineString<T> { LineString(c.iter().map(|q| Coordinate { x: T::of(self.x(q.x as f64)), y: T::of(self.y(q.y as f64)) }).collect()) }
}
/// y of a chain at x (unembedded), as the limit from the left or from the right.
fn at(c: &[P], x: f64, from_right: bool) -> f64 {
    let n = c.len();
    if from_right {
        // last vertex with v.x <= x that has a vertex to the right
        let i = (0..n - 1).rev().find(|&i| c[i].x as f64 <= x && c[i + 1].x as f64 > x).unwrap();
        lerp(c[i], c[i + 1], x)
    } else {
        let i = (0..n - 1).find(|&i| (c[i].x as f64) < x && c[i + 1].x as f64 >= x).unwrap();
        lerp(c[i], c[i + 1], x)
    }
}
fn lerp(a: P, b: P, x: f64) -> f64 { a.y as f64 + (b.y - a.y) as f64 * (x - a.x as f64) / (b.x - a.x) as f64 }

struct Scan { top: Vec<P>, bot: Vec<P>, em: Em, x0: f64, x1: f64, tol: f64, wide: bool }
fn scan_case<T: Sc>(src: &mut Src, ctx: &mut Ctx) -> Option<(Scan, MonoPoly<T>)> {
    let wide = src.chance(1, 3);
    let (top, bot) = if wide { wide_chains(src, if T::EXT < 1000 { 1 << 20 } else { 1 << 40 }) } else { chains(src) };
    let em = Em::gen::<T>(src);
    ctx.label_if(wide, "long mantissas");
    ctx.input(&(&top, &bot));
    ctx.label(T::NAME);
    let (x0, x1) = (top[0].x as f64, top.last().unwrap().x as f64);
    let vert = |c: &[P]| c.windows(2).filter(|w| w[0].x == w[1].x).count();
    ctx.label_if(vert(&top) + vert(&bot) > 0, "vertical steps");
    ctx.label_if(top.len() + bot.len() > 12, "long chains");
    ctx.nontrivial = top.len() + bot.len() >= 6 && x1 > x0;
    ctx.show(|| format!("{} {em:?} top {top:?} bottom {bot:?}", T::NAME));
    let amp = top.iter().chain(&bot).map(|q| q.y.abs().max(q.x.abs())).max().unwrap() as f64 + 50.;
    let tol = amp * if T::EXT < 1000 { 1e-5 } else { 1e-12 };
    let m = MonoPoly::new(em.ls::<T>(&top), em.ls::<T>(&bot));
    if x0 == x1 { return None; }
    Some((Scan { top, bot, em, x0, x1, tol, wide }, m))
}
/// Slice positions (unembedded, dyadic, so exact when embedded).
fn cut(src: &mut Src, s: &Scan) -> f64 {
    match src.weighted(&[4, 4, 2, 1, 1]) {
        0 => { let c = if src.chance(1, 2) { &s.top } else { &s.bot }; src.pick(c).x as f64 }
        1 => s.x0 + src.range(0, 8 * (s.x1 - s.x0) as i64) as f64 / 8.,
        2 => s.x0 + src.range(0, (s.x1 - s.x0) as i64) as f64,
        3 => s.x1 + src.range(0, 5) as f64,
        _ => s.x0 - src.range(0, 5) as f64,
    }
}
fn scanner<T: Sc>(src: &mut Src, ctx: &mut Ctx) -> R {
    let Some((sc, m)) = scan_case::<T>(src, ctx) else { return Ok(()) };
    let em = sc.em;
    let start = if src.chance(1, 2) { None } else { Some(cut(src, &sc)) };
    let mut scan = m.scan_lines(start.map_or(T::neg_infinity(), |x| T::of(em.x(x))));
    let mut pos = start.unwrap_or(sc.x0).max(sc.x0).min(sc.x1);
    let xs: BTreeSet<i64> = sc.top.iter().chain(&sc.bot).map(|q| q.x).collect();
    let un = |v: T| v.f() / em.k - em.ox;
    let uy = |v: T| v.f() / em.k - em.oy;
    let check = |t: &geo_crossings::monotone::Trapz<T>, pos: &mut f64, until: f64| -> R {
        let (l, r) = (un(t.left.x), un(t.right.x));
        if l != *pos { return Err(format!("trapezoid starts at x={l}, the scan is at x={pos}")); }
        if !(l < r) { return Err(format!("empty trapezoid at x={l}")); }
        if r > until { return Err(format!("trapezoid [{l},{r}] passes the bound {until}")); }
        if let Some(v) = xs.range(l.floor() as i64..=r.ceil() as i64).find(|v| (**v as f64) > l && (**v as f64) < r) { return Err(format!("trapezoid [{l},{r}] spans the vertex at x={v}")); }
        for (got, want, w) in [(uy(t.left.top), at(&sc.top, l, true), "left top"), (uy(t.left.bot), at(&sc.bot, l, true), "left bottom"), (uy(t.right.top), at(&sc.top, r, false), "right top"), (uy(t.right.bot), at(&sc.bot, r, false), "right bottom")] {
            if !((got - want).abs() <= sc.tol) { return Err(format!("trapezoid [{l},{r}]: {w} is {got}, the chain is at {want}")); }
        }
        if t.left.top < t.left.bot || t.right.top < t.right.bot { return Err(format!("trapezoid [{l},{r}] has its top below its bottom: {t:?}")); }
        let area = (un(t.right.x) - l) * (uy(t.left.top) - uy(t.left.bot) + uy(t.right.top) - uy(t.right.bot)) / 2.;
        // of the corners as they are reported: all terms are non-negative
        let own = ((t.left.top.f() - t.left.bot.f()) + (t.right.top.f() - t.right.bot.f())) / 2. * (t.right.x.f() - t.left.x.f());
        if !((t.area().f() - own).abs() <= own * (if T::EXT < 1000 { 1. / (1 << 20) as f64 } else { 1. / (1u64 << 48) as f64 })) { return Err(format!("the area of the trapezoid {t:?} is given as {} instead of {own}", t.area().f())); }
        if !((t.area().f() / em.k / em.k - area).abs() <= sc.tol * (1. + r - l)) { return Err(format!("trapezoid area {} instead of {area}", t.area().f())); }
        *pos = r;
        Ok(())
    };
    let steps = 1 + src.u(7);
    for k in 0..=steps {
        let until = if k == steps { sc.x1 + 1. } else { cut(src, &sc) };
        let u = T::of(em.x(until));
        let to = until.min(sc.x1).max(pos);
        match if k == steps { 0 } else { src.u(4) } {
            0 => { for t in scan.advance_to(u) { check(&t, &mut pos, until)?; ctx.work += 1; } }
            1 => {
                let mut ts = vec![];
                scan.advance_upto(u, |t| ts.push(t));
                for t in ts { check(&t, &mut pos, until)?; ctx.work += 1; }
            }
            2 => {
                // stop in the middle, go on later
                let n = src.u(3);
                let mut it = scan.advance_to(u);
                for _ in 0..n { if let Some(t) = it.next() { check(&t, &mut pos, until)?; ctx.work += 1; } }
                drop(it);
                ctx.label("partial advance");
                continue;
            }
            _ => {
                while scan.curr().x < u {
                    match scan.advance_next(u) { Some(Some(t)) => { check(&t, &mut pos, until)?; ctx.work += 1; } Some(None) => {} None => break }
                }
            }
        }
        if pos != to { return Err(format!("the scan to {until} ends at x={pos} instead of {to}")); }
        let c = scan.curr();
        if un(c.x) != pos { return Err(format!("after the scan to {until} the scanner is at x={} instead of {pos}", un(c.x))); }
    }
    Ok(())
}
pub fn c16(src: &mut Src, ctx: &mut Ctx) -> R { if src.chance(1, 3) { scanner::<f32>(src, ctx) } else { scanner::<f64>(src, ctx) } }

// ---- MonoPoly::new and accessors ---------------------------------------

fn mono_new<T: Num>(src: &mut Src, ctx: &mut Ctx) -> R {
    let (mut top, mut bot) = chains(src);
    let mut fam = "valid";
    match src.weighted(&[6, 2, 2, 2, 1, 1, 1, 1, 1]) {
        1 => { let c = if src.chance(1, 2) { &mut top } else { &mut bot }; let i = src.u(c.len()); let v = p(c[i].x + src.sym(2), c[i].y + src.sym(2)); c[i] = v; fam = "vertex moved"; }
        2 => { let c = if src.chance(1, 2) { &mut top } else { &mut bot }; let i = src.u(c.len()); let j = src.u(c.len()); c.swap(i, j); fam = "vertices swapped"; }
        3 => { let c = if src.chance(1, 2) { &mut top } else { &mut bot }; let i = src.u(c.len()); let v = c[i]; c.insert(i, v); fam = "vertex repeated"; }
        4 => { let c = if src.chance(1, 2) { &mut top } else { &mut bot }; if src.chance(1, 2) { c.pop(); } else { c.remove(0); } fam = "end removed"; }
        5 => { top.truncate(src.u(2)); bot.truncate(src.u(2)); fam = "truncated"; }
        6 => { top.reverse(); bot.reverse(); fam = "reversed"; }
        7 => { let k = src.u(3); for c in [&mut top, &mut bot] { c.truncate(1); for _ in 0..k { let v = p(src.sym(2), src.sym(2)); c.push(v); } c.sort(); } fam = "random"; }
        8 => { std::mem::swap(&mut top, &mut bot); fam = "top below bottom"; }
        _ => {}
    }
    // anywhere in the plane, not only next to the origin
    let far = match src.weighted(&[2, 3, 1]) { 0 => 0, 1 => 40, _ => 1_000_000 };
    let (dx, dy) = (src.sym(far), src.sym(far));
    for q in top.iter_mut().chain(bot.iter_mut()) { *q = p(q.x + dx, q.y + dy); }
    ctx.label(fam);
    ctx.label(T::NAME);
    ctx.label_if(far > 0, "moved off the origin");
    ctx.input(&(&top, &bot));
    ctx.nontrivial = top.len() + bot.len() > 4;
    ctx.show(|| format!("{} top {top:?} bottom {bot:?}", T::NAME));
    let valid = !top.is_empty() && top.first() == bot.first() && top.last() == bot.last() && top.first() != top.last()
        && top.windows(2).chain(bot.windows(2)).all(|w| w[0] < w[1]);
    ctx.label(if valid { "accepted" } else { "rejected" });
    let e = Emb::ID;
    let ls = |c: &Vec<P>| -> LineString<T> { LineString(c.iter().enumerate().map(|(i, q)| T::c(*q, e, i)).collect()) };
    let (lt, lb) = (ls(&top), ls(&bot));
    let m = match guard("MonoPoly::new", || MonoPoly::new(lt.clone(), lb.clone())) {
        Ok(m) if valid => m,
        Ok(_) => return Err("MonoPoly::new accepts chains that are not monotone or do not share their ends".into()),
        Err(_) if !valid => return Ok(()),
        Err(m) => return Err(format!("MonoPoly::new rejects monotone chains: {m}")),
    };
    ctx.work += 1;
    if *m.top() != lt || *m.bot() != lb { return Err("the chains given to MonoPoly::new are not the ones it holds".into()); }
    let m2 = m.clone();
    if m2.clone().into_ls_pair() != (lt, lb) { return Err("into_ls_pair returns other chains".into()); }
    let pg = m2.into_polygon();
    let mut want: Vec<P> = top.clone();
    want.extend(bot.iter().rev().skip(1));
    if !pg.interiors().is_empty() { return Err("into_polygon has holes".into()); }
    let got = conv::<T>(pg.exterior(), e)?;
    if got != want { return Err(format!("into_polygon is {got:?} instead of {want:?}")); }
    if fam == "valid" && top[0].x < top[top.len() - 1].x {
        let all: Vec<P> = top.iter().chain(&bot).copied().collect();
        let (lx, hx, ly, hy) = (all.iter().map(|q| q.x).min().unwrap(), all.iter().map(|q| q.x).max().unwrap(), all.iter().map(|q| q.y).min().unwrap(), all.iter().map(|q| q.y).max().unwrap());
        if ly < hy {
            let r = m.bounding_rect();
            let got = (T::back(r.min(), e), T::back(r.max(), e));
            if got != (Some(p(lx, ly)), Some(p(hx, hy))) { return Err(format!("bounding_rect is {got:?} instead of ({lx} {ly}) ({hx} {hy})")); }
            ctx.label("bounding box");
        }
    }
    Ok(())
}
pub fn c15(src: &mut Src, ctx: &mut Ctx) -> R { match src.u(3) { 0 => mono_new::<f64>(src, ctx), 1 => mono_new::<i32>(src, ctx), _ => mono_new::<f32>(src, ctx) } }

// ---- Rasterisation -----------------------------------------------------

fn pow2(v: i64) -> bool { v > 0 && v & (v - 1) == 0 }
/// All interpolations at dyadic positions are exact.
fn exact(c: &[P]) -> bool { c.windows(2).all(|w| w[1].x == w[0].x || pow2(w[1].x - w[0].x)) }
/// Integral over [0, w] of the linear function y0..y1 clamped to [lo, hi].
fn clamped(y0: f64, y1: f64, w: f64, lo: f64, hi: f64) -> f64 {
    let mut ts = vec![0., 1.];
    for c in [lo, hi] { if (y0 < c) != (y1 < c) { ts.push((c - y0) / (y1 - y0)); } }
    ts.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let f = |t: f64| (y0 + (y1 - y0) * t).clamp(lo, hi);
    ts.windows(2).map(|v| (f(v[0]) + f(v[1])) / 2. * (v[1] - v[0]) * w).sum()
}
/// Columns between consecutive vertex positions within [l, r].
fn columns(sc: &Scan, l: f64, r: f64) -> Vec<[f64; 6]> {
    let mut xs: Vec<f64> = sc.top.iter().chain(&sc.bot).map(|q| q.x as f64).filter(|x| *x > l && *x < r).collect();
    xs.push(l); xs.push(r);
    xs.sort_by(|a, b| a.partial_cmp(b).unwrap());
    xs.dedup();
    xs.windows(2).map(|w| [w[0], w[1], at(&sc.bot, w[0], true), at(&sc.bot, w[1], false), at(&sc.top, w[0], true), at(&sc.top, w[1], false)]).collect()
}
/// A random window for the cells: lower and upper bound, number of cells.
fn window(src: &mut Src, sc: &Scan) -> (f64, f64, usize) {
    let ys: Vec<i64> = sc.top.iter().chain(&sc.bot).map(|q| q.y).collect();
    let (lo, hi) = (*ys.iter().min().unwrap(), *ys.iter().max().unwrap());
    let (mut a, mut b) = match src.weighted(&[3, 3, 3, 1]) {
        0 => (lo, hi),
        1 => (lo - src.range(0, 3), hi + src.range(0, 3)),
        2 => { let a = *src.pick(&ys); (a, a + src.range(1, (hi - lo).max(1))) }
        _ => { let a = src.range(lo - 5, hi + 5); (a, a + src.range(1, 9)) }
    };
    if src.chance(1, 2) { let mut w = 1; while w < b - a { w *= 2; } if src.chance(1, 2) { b = a + w } else { a = b - w } }
    if b <= a { b = a + 1; }
    let h = match src.weighted(&[3, 3, 2, 1]) { 0 => 1 << src.u(4), 1 => 1 + src.u(6), 2 => (b - a).min(64) as usize, _ => 1 + src.u(40) };
    (a as f64, b as f64, h)
}
fn raster_area<T: Sc>(src: &mut Src, ctx: &mut Ctx) -> R {
    let Some((sc, m)) = scan_case::<T>(src, ctx) else { return Ok(()) };
    let em = sc.em;
    let (lo, hi, h) = window(src, &sc);
    let x0 = if src.chance(3, 4) { None } else { Some(cut(src, &sc)) };
    let mut scan = m.scan_lines(x0.map_or(T::neg_infinity(), |x| T::of(em.x(x))));
    let mut pos = x0.unwrap_or(sc.x0).clamp(sc.x0, sc.x1);
    let init: Vec<T> = (0..h).map(|j| if src.chance(1, 4) { T::of((j + 1) as f64 * em.k * em.k) } else { T::zero() }).collect();
    let mut arr = init.clone();
    let mut want: Vec<f64> = init.iter().map(|v| v.f() / em.k / em.k).collect();
    ctx.label(match h { 1 => "1 cell", 2..=8 => "2-8 cells", _ => "9+ cells" });
    let n = 1 + src.u(5);
    ctx.label_if(n > 1, "several slices");
    ctx.show(|| format!("window [{lo},{hi}] in {h} cells"));
    let ext = (sc.x1 - sc.x0 + 1. + if sc.wide { sc.x0.abs().max(sc.x1.abs()) } else { 0. }) * (hi - lo + 100. + sc.top.iter().chain(&sc.bot).map(|q| q.y.abs()).max().unwrap() as f64);
    let tol = ext * if T::EXT < 1000 { 2e-5 } else { 1e-12 };
    for k in 0..n {
        let until = if k + 1 == n && src.chance(2, 3) { sc.x1 + src.range(0, 2) as f64 } else { cut(src, &sc) };
        let to = until.clamp(pos, sc.x1);
        scan.cross_area(T::of(em.x(until)), T::of(em.y(lo)), T::of(em.y(hi)), &mut arr);
        for c in columns(&sc, pos, to) {
            if c[0] >= c[1] { continue; }
            let w = c[1] - c[0];
            ctx.work += 1;
            for (j, v) in want.iter_mut().enumerate() {
                let (a, b) = (lo + (hi - lo) * j as f64 / h as f64, lo + (hi - lo) * (j + 1) as f64 / h as f64);
                *v += clamped(c[4], c[5], w, a, b) - clamped(c[2], c[3], w, a, b);
            }
        }
        for j in 0..h {
            let g = arr[j].f() / em.k / em.k;
            if !((g - want[j]).abs() <= tol) { return Err(format!("after the slice [{pos},{to}]: the area in cell {j} is {g} instead of {}", want[j])); }
        }
        pos = to;
        let c = scan.curr().x.f() / em.k - em.ox;
        if c != pos { return Err(format!("after the slice to {until} the scanner is at x={c} instead of {pos}")); }
    }
    Ok(())
}
pub fn c17(src: &mut Src, ctx: &mut Ctx) -> R { if src.chance(1, 4) { raster_area::<f32>(src, ctx) } else { raster_area::<f64>(src, ctx) } }

fn raster_bounds<T: Sc>(src: &mut Src, ctx: &mut Ctx) -> R {
    let Some((sc, m)) = scan_case::<T>(src, ctx) else { return Ok(()) };
    let em = sc.em;
    let strict = !sc.wide && exact(&sc.top) && exact(&sc.bot);
    ctx.label(if strict { "exact values" } else { "rounded values" });
    let x0 = if src.chance(3, 4) { None } else { Some(cut(src, &sc)) };
    let mut scan = m.scan_lines(x0.map_or(T::neg_infinity(), |x| T::of(em.x(x))));
    let mut pos = x0.unwrap_or(sc.x0).clamp(sc.x0, sc.x1);
    let n = 1 + src.u(6);
    for k in 0..n {
        let (lo, hi, h) = window(src, &sc);
        let until = if k + 1 == n && src.chance(2, 3) { sc.x1 + src.range(0, 2) as f64 } else { cut(src, &sc) };
        let to = until.clamp(pos, sc.x1);
        let (mut bmin, mut bmax, mut tmin, mut tmax) = (f64::INFINITY, f64::NEG_INFINITY, f64::INFINITY, f64::NEG_INFINITY);
        for c in columns(&sc, pos, to) {
            if c[0] >= c[1] { continue; }
            ctx.work += 1;
            for i in 2..4 { bmin = bmin.min(c[i]); bmax = bmax.max(c[i]); }
            for i in 4..6 { tmin = tmin.min(c[i]); tmax = tmax.max(c[i]); }
        }
        let tol = if strict { 0. } else { sc.tol };
        let args = (T::of(em.x(until)), T::of(em.y(lo)), T::of(em.y(hi)), h);
        let upper = src.chance(1, 2);
        ctx.label(if upper { "upper bounds" } else { "both bounds" });
        let got = if upper {
            match scan.cross_ubounds(args.0, args.1, args.2, args.3) {
                (a, 0) if a == h => None,
                (a, b) => Some((a, b, None)),
            }
        } else { scan.cross_bounds(args.0, args.1, args.2, args.3).map(|(a, b, c, d)| (a, b, Some((c.f() / em.k - em.oy, d.f() / em.k - em.oy)))) };
        let what = format!("slice [{pos},{to}] window [{lo},{hi}] in {h} cells, bottom {bmin}..{bmax}, top {tmin}..{tmax}");
        let gap = (tmax - bmin).min(tmax - lo).min(hi - bmin);
        let some = gap > 0.;
        pos = to;
        let c = scan.curr().x.f() / em.k - em.ox;
        if c != pos { return Err(format!("{what}: the scanner is at x={c} afterwards")); }
        match got {
            None => { if some && gap > tol { return Err(format!("{what}: reported as outside")); } ctx.label("outside"); }
            Some((j0, j1, v)) => {
                if !some && gap.abs() > tol || gap == f64::NEG_INFINITY || (strict && !some) { return Err(format!("{what}: reported as cells {j0}..={j1}")); }
                // the transform to cells is exact for powers of two
                let ct = if strict && pow2((hi - lo) as i64) && h.is_power_of_two() { 0. } else { (sc.tol + tol) * h as f64 / (hi - lo) + h as f64 * if T::EXT < 1000 { 1e-5 } else { 1e-12 } };
                for (j, y, w) in [(j0, bmin.max(lo), "first"), (j1, tmax.min(hi), "last")] {
                    let f = (y - lo) * h as f64 / (hi - lo);
                    let cell = |v: f64| v.floor().clamp(0., h as f64 - 1.) as usize;
                    if j < cell(f - ct) || j > cell(f + ct) { return Err(format!("{what}: {w} cell is {j} instead of {}", cell(f))); }
                }
                if let Some((b, t)) = v { if !((b - bmax).abs() <= tol && (t - tmin).abs() <= tol) { return Err(format!("{what}: inner bounds ({b},{t})")); } }
                ctx.label("inside");
            }
        }
    }
    Ok(())
}
pub fn c18(src: &mut Src, ctx: &mut Ctx) -> R { if src.chance(1, 4) { raster_bounds::<f32>(src, ctx) } else { raster_bounds::<f64>(src, ctx) } }

// ---- rasterising a polygon through its pieces ---------------------------

/// Area of the polygon (exterior counter-clockwise, holes clockwise) within
/// the column [l, r] and the row [lo, hi].
fn cell_area(q: &Poly, l: f64, r: f64, lo: f64, hi: f64) -> f64 {
    let mut sum = 0.;
    for (i, ring) in q.iter().enumerate() {
        let flip = (area2(ring) > 0) != (i == 0);
        for s in ring_edges(ring) {
            let (a, b) = (s.lo(), s.hi());
            if a.x == b.x { continue; }
            let (x0, x1) = (l.max(a.x as f64), r.min(b.x as f64));
            if x0 >= x1 { continue; }
            let v = clamped(lerp(a, b, x0) - lo, lerp(a, b, x1) - lo, x1 - x0, 0., hi - lo);
            // an edge running left to right has the region above
            if (s.a == a) != flip { sum -= v } else { sum += v }
        }
    }
    sum
}
fn raster_poly<T: Sc + Num>(q: &Poly, src: &mut Src, ctx: &mut Ctx) -> R {
    let em = Em::gen::<T>(src);
    let all: Vec<P> = q.iter().flatten().copied().collect();
    let (lx, hx) = (all.iter().map(|v| v.x).min().unwrap(), all.iter().map(|v| v.x).max().unwrap());
    let (ly, hy) = (all.iter().map(|v| v.y).min().unwrap(), all.iter().map(|v| v.y).max().unwrap());
    let n = all.len();
    // the grid: the bounding box, or a window of it with a margin
    let span = |src: &mut Src, a: i64, b: i64| -> (f64, f64) { match src.weighted(&[4, 2, 2]) {
        0 => (a as f64, b as f64),
        1 => (a as f64 - src.range(1, 4) as f64, b as f64 + src.range(1, 4) as f64),
        _ => { let w = (b - a).max(1); let s = a - w / 4 + src.range(0, w); (s as f64, s as f64 + 1. + src.range(0, w) as f64) }
    } };
    let (gx0, gx1) = span(src, lx, hx);
    let (gy0, gy1) = span(src, ly, hy);
    let (w, h) = (1 + src.u(20), 1 + src.u(20));
    let ms: Vec<MonoPoly<T>> = monotone_chains(&Polygon::new(em.ls::<T>(&q[0]), q[1..].iter().map(|r| em.ls::<T>(r)).collect()));
    ctx.label_if(ms.len() > 1, "several pieces");
    ctx.show(|| format!("{em:?} grid of {w}x{h} cells on [{gx0},{gx1}]x[{gy0},{gy1}]"));
    // columns as a user computes them, in T
    let col = |i: usize| -> T { let (a, b) = (T::of(em.x(gx0)), T::of(em.x(gx1))); a + (b - a) * T::of(i as f64) / T::of(w as f64) };
    let (tlo, thi) = (T::of(em.y(gy0)), T::of(em.y(gy1)));
    let ux = |v: T| v.f() / em.k - em.ox;
    let mut arr = vec![vec![T::zero(); h]; w];
    let mut cover = vec![vec![false; h]; w];
    let mode = src.u(3);
    ctx.label(["areas", "bounds", "outer bounds"][mode]);
    for m in &ms {
        let mut scan = m.scan_lines(col(0));
        for i in 0..w {
            let r = col(i + 1);
            match mode {
                0 => scan.cross_area(r, tlo, thi, &mut arr[i]),
                1 => if let Some((a, b, _, _)) = scan.cross_bounds(r, tlo, thi, h) { for c in &mut cover[i][a..=b] { *c = true; } },
                _ => { let (a, b) = scan.cross_ubounds(r, tlo, thi, h); if a <= b { for c in &mut cover[i][a..=b] { *c = true; } } }
            }
            ctx.work += 1;
        }
    }
    let mag = all.iter().map(|v| v.x.abs().max(v.y.abs())).max().unwrap() as f64 + 60. + gx0.abs().max(gx1.abs()).max(gy0.abs()).max(gy1.abs());
    let eps = if T::EXT < 1000 { 1.2e-7 } else { 2.3e-16 };
    let tol = mag * mag * eps * (20. + 4. * n as f64);
    let mut total = 0.;
    for i in 0..w {
        let (l, r) = (ux(col(i)), ux(col(i + 1)));
        for j in 0..h {
            let (lo, hi) = (gy0 + (gy1 - gy0) * j as f64 / h as f64, gy0 + (gy1 - gy0) * (j + 1) as f64 / h as f64);
            let want = cell_area(q, l, r, lo, hi);
            total += want;
            if mode == 0 {
                let g = arr[i][j].f() / em.k / em.k;
                if !((g - want).abs() <= tol) { return Err(format!("the pieces have the area {g} in the cell [{l},{r}]x[{lo},{hi}], the polygon {want}")); }
            } else {
                // parts touching the next row within rounding may go there
                if want > tol && !cover[i][j] { return Err(format!("the cell [{l},{r}]x[{lo},{hi}] holds {want} of the polygon and is within the bounds of no piece")); }
            }
        }
    }
    ctx.label_if(total > tol, "polygon meets the grid");
    ctx.nontrivial &= total > tol && w * h > 1;
    Ok(())
}
pub fn c27(src: &mut Src, ctx: &mut Ctx) -> R {
    let maxv = match src.weighted(&[800, 800, 400, 5]) { 0 => 8, 1 => 24, 2 => 70, _ => 400 };
    let (q, fam) = valid_poly(src, maxv);
    ctx.label(fam);
    ctx.label_if(q.len() > 1, "has holes");
    ctx.input(&q);
    let n: usize = q.iter().map(|r| r.len()).sum();
    ctx.label(match n { 0..=4 => "n<=4", 5..=12 => "n=5-12", 13..=40 => "n=13-40", _ => "n>40" });
    ctx.nontrivial = n >= 5;
    ctx.show(|| format!("polygon {}", show(&q)));
    let m = q.iter().flatten().map(|v| v.x.abs().max(v.y.abs())).max().unwrap();
    if m < 1 << 12 && src.chance(1, 4) { ctx.label("f32"); raster_poly::<f32>(&q, src, ctx) } else { ctx.label("f64"); raster_poly::<f64>(&q, src, ctx) }
}
/// A valid polygon over f64.
pub fn big_case(src: &mut Src, ctx: &mut Ctx) -> Polygon<f64> {
    let m = if src.chance(1, 2) { 10 } else { 50 };
    let (q, fam) = valid_poly(src, m);
    ctx.label(fam);
    ctx.input(&q);
    ctx.show(|| format!("polygon {}", show(&q)));
    to_poly::<f64>(&q, Emb::ID)
}
