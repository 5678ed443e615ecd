//! Inputs without any restriction: near-degenerate, self-intersecting, huge,
//! tiny, not finite. Nothing is claimed about the results (the code may
//! panic); only that memory is not accessed wrongly. Runs on a scalar that
//! bounds the work, as the sweep need not end on such inputs.
use crate::engine::*;
use crate::tape::Src;
use crate::w::{self, W};
use geo::{Coordinate, Line, LineString, MultiPolygon, Polygon};
use geo_crossings::monotone::MonoPoly;
use geo_crossings::*;

/// A line whose uses count as work (the sweep may clone one without end).
#[derive(Debug)]
struct L(Line<W>);
impl Clone for L { fn clone(&self) -> L { w::tick(); L(self.0) } }
impl Crossable for L { type Scalar = W; fn line(&self) -> Line<W> { w::tick(); self.0 } }
extern "C" { fn alarm(s: u32) -> u32; }
/// The process running the inputs: one that does not end without using the
/// scalar is stopped by its use of memory (exit code 77) or time.
pub fn child(seeds: &[u64]) -> i32 {
    unsafe { alarm(10); }
    crate::alloc::reset();
    crate::alloc::limit(128 << 20);
    for s in seeds { one(&mut Src::random(*s), &mut Ctx::default(), true); }
    0
}

struct Pal { v: Vec<f64>, free: bool }
fn palette(src: &mut Src) -> Pal {
    let k = 2 + src.u(9);
    let kind = src.weighted(&[4, 3, 3, 1, 1, 2]);
    let v = (0..k).map(|i| match kind {
        0 => i as f64 / 10.,
        1 => { let b = *src.pick(&[1f64, 0.1, 3., -1., 0.7]); f64::from_bits((b.to_bits() as i64 + src.sym(2)) as u64) }
        2 => src.sym(4) as f64,
        3 => *src.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0., -0., 1., 2.]),
        4 => *src.pick(&[f64::MAX, f64::MIN, 1e300, -1e300, 5e-324, 1e-310, -5e-324, 0., 1.]),
        _ => f64::from_bits(src.bits()),
    }).collect();
    Pal { v, free: src.chance(1, 4) }
}
fn num(src: &mut Src, p: &Pal) -> f64 {
    if p.free && src.chance(1, 2) { return src.range(0, 1 << 40) as f64 / (1u64 << 40) as f64; }
    *src.pick(&p.v)
}
fn pt(src: &mut Src, p: &Pal) -> Coordinate<W> { let x = num(src, p); Coordinate { x: W(x), y: W(num(src, p)) } }
fn ring(src: &mut Src, p: &Pal) -> LineString<W> {
    let n = src.weighted(&[1, 1, 1, 4, 6, 6, 5, 4, 3, 3, 2, 2, 2, 1, 1, 1]);
    let mut v: Vec<Coordinate<W>> = (0..n).map(|_| pt(src, p)).collect();
    if !v.is_empty() { v.push(v[0]); }
    LineString(v)
}
fn poly(src: &mut Src, p: &Pal) -> Polygon<W> {
    let e = ring(src, p);
    let h = src.weighted(&[6, 2, 1]);
    Polygon::new(e, (0..h).map(|_| ring(src, p)).collect())
}
fn multi(src: &mut Src, p: &Pal) -> MultiPolygon<W> { let n = src.weighted(&[1, 5, 3, 1]); MultiPolygon((0..n).map(|_| poly(src, p)).collect()) }
/// A chain that is increasing (mostly).
fn chain(src: &mut Src, p: &Pal) -> Vec<Coordinate<W>> {
    let n = 2 + src.u(6);
    let mut v: Vec<Coordinate<W>> = (0..n).map(|_| pt(src, p)).collect();
    if src.chance(9, 10) { v.sort_by(|a, b| (a.x.0, a.y.0).partial_cmp(&(b.x.0, b.y.0)).unwrap_or(std::cmp::Ordering::Equal)); v.dedup(); }
    v
}
fn scan(src: &mut Src, p: &Pal, m: &MonoPoly<W>) {
    let start = if src.chance(1, 2) { f64::NEG_INFINITY } else { num(src, p) };
    let mut s = m.scan_lines(W(start));
    for _ in 0..1 + src.u(6) {
        let until = W(if src.chance(1, 8) { f64::INFINITY } else { num(src, p) });
        let (lo, hi) = (W(num(src, p)), W(num(src, p)));
        let h = src.u(9);
        let r = guard("", || match src.u(6) {
            0 => { for t in s.advance_to(until).take(1000) { std::hint::black_box(t.area()); } }
            1 => s.advance_upto(until, |t| { std::hint::black_box(t); }),
            2 => { std::hint::black_box(s.advance_next(until)); }
            3 => { let mut a = vec![W(0.); h]; s.cross_area(until, lo, hi, &mut a); }
            4 => { std::hint::black_box(s.cross_bounds(until, lo, hi, h)); }
            _ => { std::hint::black_box(s.cross_ubounds(until, lo, hi, h)); }
        });
        if r.is_err() && src.chance(1, 2) { return; }
    }
}
fn one(src: &mut Src, ctx: &mut Ctx, run: bool) {
    let p = palette(src);
    let go = |name: &'static str, f: &mut dyn FnMut()| if run { w::start(20_000); let _ = guard(name, f); w::start(u64::MAX); };
    let k = src.weighted(&[3, 3, 3, 3, 3]);
    ctx.label(["wild points", "wild pairs", "wild operations", "wild decompositions", "wild scans"][k]);
    match k {
        0 | 1 => {
            let n = 1 + src.u(14);
            let ls: Vec<L> = (0..n).map(|_| { let a = pt(src, &p); L(Line { start: a, end: if src.chance(1, 12) { a } else { pt(src, &p) } }) }).collect();
            ctx.input(&ls.iter().flat_map(|l| [l.0.start, l.0.end]).flat_map(|c| [c.x.0.to_bits(), c.y.0.to_bits()]).collect::<Vec<_>>());
            ctx.show(|| format!("lines {ls:?}"));
            ctx.nontrivial |= n > 2;
            go("points", &mut || if k == 0 { let mut it: CrossingsIter<_> = ls.iter().cloned().collect(); while it.next().is_some() { std::hint::black_box(it.intersections()); } it.next(); });
            go("pairs", &mut || if k == 1 { let mut it: Intersections<_> = ls.iter().cloned().collect(); while it.next().is_some() {} it.next(); });
        }
        2 => {
            let (a, b, op) = (multi(src, &p), multi(src, &p), *src.pick(&crate::props::boolean::OPS));
            ctx.input(&format!("{a:?}{b:?}{op:?}"));
            ctx.show(|| format!("{op:?} A = {a:?} B = {b:?}"));
            ctx.nontrivial |= !a.0.is_empty() && !b.0.is_empty();
            go("operation", &mut || { std::hint::black_box(a.boolean_op(&b, op)); });
        }
        3 => {
            let a = poly(src, &p);
            ctx.input(&format!("{a:?}"));
            ctx.show(|| format!("polygon {a:?}"));
            ctx.nontrivial |= a.exterior().0.len() > 3;
            go("monotone sweep", &mut || { let mut it = Box::pin(MonotoneSweep::from_polygon(&a)); while it.next().is_some() {} });
            let mut ps = vec![];
            go("decomposition", &mut || ps = monotone_chains(&a));
            for m in &ps { go("scan", &mut || scan(src, &p, m)); }
        }
        _ => {
            let (mut t, mut b) = (chain(src, &p), chain(src, &p));
            if src.chance(9, 10) { t.insert(0, b[0]); t.sort_by(|a, b| (a.x.0, a.y.0).partial_cmp(&(b.x.0, b.y.0)).unwrap_or(std::cmp::Ordering::Equal)); t.dedup(); b[0] = t[0]; let e = *t.last().unwrap(); if b[b.len() - 1].x.0 < e.x.0 { b.push(e); } else { *b.last_mut().unwrap() = e; } }
            ctx.input(&format!("{t:?}{b:?}"));
            ctx.show(|| format!("chains {t:?} {b:?}"));
            ctx.nontrivial |= t.len() + b.len() > 4;
            let mut m = None;
            go("chains", &mut || m = Some(MonoPoly::new(LineString(t.clone()), LineString(b.clone()))));
            if let Some(m) = m { go("scan", &mut || scan(src, &p, &m)); }
        }
    }
}
/// Up to 60 inputs at once, run in a process of their own.
pub fn wild(src: &mut Src, ctx: &mut Ctx) -> R {
    let n = 1 + src.u(60);
    let seeds: Vec<u64> = (0..n).map(|_| src.bits()).collect();
    w::start(u64::MAX);
    let mut c = Ctx { describe: ctx.describe, ..Default::default() };
    for s in &seeds { one(&mut Src::random(*s), &mut c, false); }
    ctx.input(&c.fp);
    for l in c.labels { ctx.label(l); }
    ctx.nontrivial = c.nontrivial;
    ctx.show(|| format!("wild input: {}", c.desc));
    use std::os::unix::process::ExitStatusExt;
    let r = std::process::Command::new("/proc/self/exe").arg("wild").args(seeds.iter().map(|s| s.to_string())).stdin(std::process::Stdio::null()).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::piped()).output().map_err(|e| e.to_string())?;
    let s = r.status.into_raw();
    match (s & 127, s >> 8 & 255) {
        (0, 0) => ctx.work += n as u64,
        (0, 77) | (14, _) => ctx.label("does not end"),
        _ => return Err(format!("memory error or abort (status {s:#x}): {}", String::from_utf8_lossy(&r.stderr).lines().filter(|l| l.contains("ERROR") || l.contains("panicked") || l.contains("unsafe")).take(3).collect::<Vec<_>>().join(" / "))),
    }
    Ok(())
}
