//! Structured inputs of every size: results known in closed form, and the
//! number of comparisons bounded as documented.
use crate::engine::*;
use crate::ex::*;
use crate::gen::*;
use crate::tape::Src;
use crate::w::{self, W};
use geo::Line;
use geo_crossings::*;

pub fn shuffle<T>(src: &mut Src, v: &mut [T]) {
    // one draw per case: the tape stays short for large inputs
    let mut r = crate::tape::Rng::new(src.bits());
    for i in (1..v.len()).rev() { let j = (r.next() % (i as u64 + 1)) as usize; v.swap(i, j); }
}
/// Log-uniform size up to 2^hi, most cases small.
pub fn lsize(src: &mut Src, hi: u64, rare: u64) -> usize {
    let b = if src.chance(1, rare) { hi } else { 1 + src.below(hi * 3 / 4) };
    let lo = 1usize << (b - 1);
    lo + src.u(lo)
}
struct Fam { segs: Vec<S>, points: u64, inc: u64, pairs: Option<u64>, name: &'static str }
/// Primitive directions in the right half plane, ordered by size.
fn dirs(n: usize) -> Vec<(i64, i64)> {
    let mut v: Vec<(i64, i64)> = vec![];
    let mut m = 1i64;
    while v.len() < n {
        for a in 0..=m { for b in [m, -m] { for (x, y) in [(a, b), (m, b.signum() * a)] {
            if x.max(y.abs()) == m && gcd(x as i128, y.abs() as i128) == 1 && (x > 0 || y > 0) { v.push((x, y)); }
        } } }
        v.sort(); v.dedup();
        m += 1;
    }
    // keep the ones of the smaller extent first
    v.sort_by_key(|d| (d.0.max(d.1.abs()), *d));
    v.truncate(n);
    v
}
fn family(src: &mut Src) -> Fam {
    let n = if src.chance(1, 200) { (1 << 16) + src.u(1 << 16) } else { lsize(src, 15, 12) };
    let u = n as u64;
    let k = n as i64;
    let f = |segs, points, inc, pairs, name| Fam { segs, points, inc, pairs, name };
    match src.u(13) {
        0 => {
            let g = (n as f64).sqrt().ceil() as i64;
            let segs = (0..k).map(|i| { let o = p(i % g * 8, i / g * 8); let d = DIRS[(i * 7 % 12) as usize]; s(p(o.x, o.y + 3), p(o.x + 2 * d.0, o.y + 3 + d.1)) }).collect();
            f(segs, 2 * u, 2 * u, Some(0), "cells")
        }
        1 => f((0..k).map(|i| s(p(i % 7, i), p(100 + i % 5, i))).collect(), 2 * u, 2 * u, Some(0), "parallel"),
        2 => {
            let a = 1 + src.u((n as f64).sqrt() as usize + 1) as i64;
            let b = (k / a).clamp(1, 2000);
            let a = a.min(2000);
            let mut v: Vec<S> = (0..a).map(|i| s(p(-1, i), p(b, i))).collect();
            v.extend((0..b).map(|j| s(p(j, -1), p(j, a))));
            let (a, b) = (a as u64, b as u64);
            f(v, 2 * (a + b) + a * b, 2 * (a + b) + 4 * a * b, Some(a * b), "grid")
        }
        3 => {
            let n = n.clamp(2, 600); let u = n as u64;
            f(dirs(n).into_iter().map(|d| s(p(-d.0, -d.1), p(d.0, d.1))).collect(), 2 * u + 1, 4 * u, Some(u * (u - 1) / 2), "star")
        }
        4 => {
            let n = n.min(600); let u = n as u64;
            f(dirs(n).into_iter().map(|d| s(p(0, 0), p(d.0, d.1))).collect(), u + 1, 2 * u, None, "fan")
        }
        5 => f((0..k).map(|i| s(p(i, i % 2 * 3), p(i + 1, (i + 1) % 2 * 3))).collect(), u + 1, 2 * u, None, "zigzag"),
        6 => {
            // intervals of a line, each overlapping its next w-1
            let w = (1 + src.range(0, 6)).min(k);
            let pts = u + w as u64;
            f((0..k).map(|i| s(p(i, 0), p(i + w, 0))).collect(), pts, 2 * u * w as u64, None, "intervals")
        }
        7 => {
            let n = n.min(300); let u = n as u64;
            f((0..n).map(|_| s(p(0, 0), p(3, 1))).collect(), 2, 2 * u, None, "copies")
        }
        8 => {
            // long lines and many short probes crossing one of them
            let b = 1 + src.range(0, 300);
            let mut v: Vec<S> = (0..b).map(|i| s(p(-1, 4 * i), p(2 * k, 4 * i))).collect();
            v.extend((0..k).map(|j| { let y = 4 * (j * 31 % b); s(p(2 * j, y - 1), p(2 * j + j % 2, y + 1 + (j + 1) % 2)) }));
            // probes of the shape (0,2),(0,..): the crossing must be integral
            for q in v[b as usize..].iter_mut() { if q.a.x != q.b.x { q.b = p(q.a.x, q.b.y); } }
            let (b, m) = (b as u64, u);
            f(v, 2 * b + 3 * m, 2 * b + 2 * m + 4 * m, Some(m), "probes")
        }
        9 => {
            let g = (n as f64).sqrt().ceil() as i64;
            f((0..k).map(|i| s(p(i % g, i / g), p(i % g, i / g))).collect(), u, u, Some(0), "points")
        }
        10 => {
            let mut v = vec![s(p(-1, 0), p(k, 0))];
            v.extend((0..k).map(|i| s(p(i, 0), p(i, 0))));
            f(v, u + 2, 3 * u + 2, None, "beads")
        }
        11 => {
            // nested angles: all active until the middle
            let mut v = vec![];
            for i in 1..=k { v.push(s(p(-i, 0), p(0, i))); v.push(s(p(0, i), p(i, 0))); }
            f(v, 3 * u, 4 * u, None, "nested")
        }
        _ => {
            // closed rings next to each other
            let mut v = vec![];
            let g = (n as f64).sqrt().ceil() as i64;
            for i in 0..k { let o = p(i % g * 4, i / g * 4); let c = [o, p(o.x + 2, o.y), p(o.x + 3, o.y + 2), p(o.x, o.y + 3)]; for j in 0..4 { v.push(s(c[j], c[(j + 1) % 4])); } }
            f(v, 4 * u, 8 * u, None, "rings")
        }
    }
}
fn in_w(segs: &[S], e: Emb) -> Vec<Line<W>> {
    segs.iter().map(|q| { let f = |c: P| { let (x, y) = e.to(c); geo::Coordinate { x: W(x), y: W(y) } }; Line::new(f(q.a), f(q.b)) }).collect()
}
/// Comparisons allowed for n items and an output of k entries.
fn allowed(n: usize, k: u64, c: u64) -> u64 { let l = 64 - (n as u64 + 2).leading_zeros() as u64; c * (n as u64 + k + 2) * (l + 1) }
/// Processor time of this thread in nanoseconds.
fn cpu() -> u64 {
    extern "C" { fn clock_gettime(c: i32, t: *mut [i64; 2]) -> i32; }
    let mut t = [0i64; 2];
    unsafe { clock_gettime(3, &mut t); }
    t[0] as u64 * 1_000_000_000 + t[1] as u64
}
/// Runs `f`, an operation on n items with an output of k entries: it may request
/// a number of bytes and take a processor time in proportion to (n + k) log n.
/// Time counts if it is over the limit twice in a row: that is more than twelve
/// times the usual one on a busy machine.
fn metered<T>(name: &str, n: usize, k: u64, limit: (u64, u64), mut f: impl FnMut() -> Result<T, String>) -> Result<T, String> {
    let units = allowed(n, k, 1);
    let most = limit.1 * units + 100_000_000;
    let mut again = true;
    loop {
        let (b, t) = (crate::alloc::used(), cpu());
        let r = f()?;
        let (b, t) = (crate::alloc::used() - b, cpu() - t);
        if std::env::var_os("GX_STAT").is_some() { eprintln!("METER {name} {n} {:.2} {:.2}", b as f64 / units as f64, t as f64 / units as f64); }
        if b > limit.0 * units + (1 << 20) { return Err(format!("{name} of {n} items: requests {b} bytes of memory, more than {} for each of the (n + k) log n steps", limit.0)); }
        if t <= most { return Ok(r); }
        if !again || t > 3 * most { return Err(format!("{name} of {n} items: takes {} ms of processor time, more than {} ns for each of the (n + k) log n steps", t / 1_000_000, limit.1)); }
        again = false;
    }
}
/// Bytes and nanoseconds per step; about six and twelve times the largest observed.
const LIM_SWEEP: (u64, u64) = (1000, 1500);
pub const C_SWEEP: u64 = 110;
pub fn c26(src: &mut Src, ctx: &mut Ctx) -> R {
    let (mut segs, points, inc, pairs, name);
    let e;
    if src.chance(1, 3) {
        let (sg, nm) = segments(src, 250, EXTENT_F64);
        let pr = crate::props::cross::pairs(&sg);
        let pts = crate::props::cross::event_points(&sg, &pr);
        // pieces: every item is listed twice at inner event points
        let mut k = 0;
        for q in &pts { for x in &sg { if on_seg(*x, *q) { k += if x.is_pt() || x.lo() == *q || x.hi() == *q { 1 } else { 2 }; } } }
        points = pts.len() as u64; inc = k; pairs = None; name = nm;
        segs = sg;
        e = Emb::gen::<f64>(src);
    } else {
        let f = family(src);
        (points, inc, pairs, name) = (f.points, f.inc, f.pairs, f.name);
        segs = f.segs;
        let m = affine(src);
        let id = segs.clone();
        map_segs(&mut segs, |q| apply(m, q));
        if extent(&segs) > EXTENT_F64 { segs = id; } // still exact: all crossings are of axis-parallel lines
        shuffle(src, &mut segs);
        if src.chance(1, 2) { for (i, q) in segs.iter_mut().enumerate() { if i % 3 == 0 { *q = s(q.b, q.a); } } }
        e = Emb { ox: src.sym(1000), oy: src.sym(1000), exp: { let m = if src.chance(1, 6) { 200 } else { 30 }; src.sym(m) as i32 }, neg: false };
    }
    let n = segs.len();
    ctx.label(name);
    ctx.label(match n { 0..=9 => "n<10", 10..=99 => "n=10-99", 100..=999 => "n=100-999", 1000..=9999 => "n=1000-9999", 10000..=65536 => "n=10000-65536", _ => "n>65536" });
    ctx.input(&segs);
    ctx.nontrivial = n >= 10;
    ctx.show(|| format!("{name} {n} items, {points} event points, {inc} listed pieces: {}", crate::props::cross::show_segs(&segs[..n.min(6)])));
    let v = in_w(&segs, e);
    let bound = allowed(n, inc, C_SWEEP);
    let (np, ni) = metered(name, n, inc, LIM_SWEEP, || {
        w::start(bound);
        let (mut np, mut ni, mut last) = (0u64, 0u64, None);
        let mut it: CrossingsIter<&Line<W>> = v.iter().collect();
        while let Some(c) = it.next() {
            np += 1;
            ni += it.intersections().len() as u64;
            let q = (c.x.0, c.y.0);
            if last.map_or(false, |l| l >= q) { return Err(format!("{name}: event points are out of order: {last:?}, {q:?}")); }
            last = Some(q);
        }
        Ok((np, ni))
    })?;
    ctx.work += w::count();
    if std::env::var_os("GX_STAT").is_some() { let l = (n as f64 + 2.).log2() + 1.; eprintln!("STAT {name} {n} {:.2} {:.2}", w::count() as f64 / ((n as u64 + inc + 2) as f64 * l), w::count() as f64 / (n as u64 + inc + 2) as f64); }
    if (np, ni) != (points, inc) { return Err(format!("{name} of {n} items: {np} points with {ni} pieces instead of {points} with {inc}")); }
    if let Some(k) = pairs { if k < 2_000_000 {
        let got = metered(name, n, inc + 2 * k, LIM_SWEEP, || {
            w::start(allowed(n, inc + 2 * k, C_SWEEP));
            Ok(v.iter().collect::<Intersections<&Line<W>>>().count() as u64)
        })?;
        if got != k { return Err(format!("{name} of {n} items: Intersections reports {got} pairs instead of {k}")); }
    } }
    w::start(u64::MAX);
    Ok(())
}

// ---- boolean operations -------------------------------------------------
use crate::poly::*;
use geo::{LineString, MultiPolygon, Polygon};
use geo_crossings::bops::OpType;

fn rect(x0: i64, y0: i64, x1: i64, y1: i64) -> Ring { vec![p(x0, y0), p(x1, y0), p(x1, y1), p(x0, y1)] }
/// (polygons, holes, twice the area); None where it depends on the linking.
type Exp = (Option<u64>, Option<u64>, i64);
struct Bf { a: MPoly, b: MPoly, exp: [Exp; 4], inc: u64, name: &'static str }
fn bfamily(src: &mut Src) -> Bf {
    let n = if src.chance(1, 60) { (1 << 14) + src.u(1 << 14) } else { lsize(src, 12, 12) } as i64;
    let e = |a: i64, b: i64, c: i64| (Some(a as u64), Some(b as u64), 2 * c);
    let x = |c: i64| (None, None, 2 * c);
    let huge = src.chance(1, 1500);
    let n = if huge { 66_000 + src.range(0, 4000) } else { n };
    match if huge { *src.pick(&[2, 2, 5]) } else { src.u(7) } {
        0 => {
            // a vertical bars and b horizontal bars
            let a = 1 + src.range(0, (n as f64).sqrt() as i64);
            let b = (n / a).clamp(1, 400);
            let a = a.min(400);
            let va: MPoly = (0..a).map(|i| vec![rect(3 * i, -1, 3 * i + 2, 3 * b)]).collect();
            let vb: MPoly = (0..b).map(|j| vec![rect(-1, 3 * j, 3 * a, 3 * j + 1)]).collect();
            let (sa, sb, i) = (a * 2 * (3 * b + 1), b * (3 * a + 1), a * b * 2);
            Bf { a: va, b: vb, exp: [e(a * b, 0, i), e(1, (a - 1) * (b - 1), sa + sb - i), e(a * (b + 1), 0, sa - i), x(sa + sb - 2 * i)], inc: (8 * (a + b) + 16 * a * b) as u64, name: "bars" }
        }
        1 => {
            // annuli cut by a half plane
            let k = n.min(6000);
            let r = 2 * k + 1;
            let mut va: MPoly = vec![];
            for i in 0..k { va.push(vec![rect(-2 * i - 2, -2 * i - 2, 2 * i + 2, 2 * i + 2), rect(-2 * i - 1, -2 * i - 1, 2 * i + 1, 2 * i + 1)]); }
            let vb = vec![vec![rect(-r - 2, -r - 2, r + 2, 0)]];
            let sa: i64 = (0..k).map(|i| { let (o, q) = (4 * i + 4, 4 * i + 2); o * o - q * q }).sum();
            let sb = (2 * r + 4) * (r + 2);
            Bf { a: va, b: vb, exp: [e(k, 0, sa / 2), e(1, k, sa / 2 + sb), e(k, 0, sa / 2), x(sa / 2 + sb - sa / 2)], inc: (16 * k + 8 + 16 * k) as u64, name: "annuli" }
        }
        2 => {
            // a box with holes, and the box
            let g = ((n as f64).sqrt() as i64).max(1);
            let bx = rect(0, 0, 4 * g, 4 * g);
            let mut po = vec![bx.clone()];
            for i in 0..g { for j in 0..g { po.push(rect(4 * i + 1, 4 * j + 1, 4 * i + 3, 4 * j + 2)); } }
            let (s, h) = (16 * g * g, 2 * g * g);
            Bf { a: vec![vec![bx]], b: vec![po], exp: [e(1, g * g, s - h), e(1, 0, s), e(g * g, 0, h), e(g * g, 0, h)], inc: (16 + 8 * g * g) as u64, name: "sieve" }
        }
        3 => {
            // teeth cut off by a line
            let k = n;
            let mut r = vec![p(0, -1)];
            r.push(p(4 * k, -1)); r.push(p(4 * k, 0));
            for i in (0..k).rev() { r.push(p(4 * i + 2, 4)); r.push(p(4 * i, 0)); }
            let vb = vec![vec![rect(-1, 2, 4 * k + 1, 6)]];
            let sa = 4 * k + 8 * k; let sb = (4 * k + 2) * 4; let i = 2 * k;
            // A - B: one polygon; B - A: one polygon below whose upper border teeth leave holes open to the outside
            Bf { a: vec![vec![r]], b: vb, exp: [e(k, 0, i), e(1, k - 1, sa + sb - i), e(1, 0, sa - i), x(sa + sb - 2 * i)], inc: (2 * (2 * k + 7) + 8 * k) as u64, name: "teeth" }
        }
        4 => {
            // cells sharing edges, alternating between the operands
            let k = n.max(2);
            let (mut va, mut vb): (MPoly, MPoly) = (vec![], vec![]);
            for i in 0..k { let q = vec![rect(i, 0, i + 1, 2)]; if i % 2 == 0 { va.push(q) } else { vb.push(q) } }
            Bf { a: va, b: vb, exp: [e(0, 0, 0), e(1, 0, 2 * k), e((k + 1) / 2, 0, 2 * ((k + 1) / 2)), e(1, 0, 2 * k)], inc: (8 * k) as u64, name: "row" }
        }
        5 => {
            // the same on both sides
            let g = ((n as f64).sqrt() as i64).max(1);
            let va: MPoly = (0..g * g).map(|i| { let (x, y) = (i % g * 5, i / g * 5); vec![vec![p(x, y), p(x + 3, y + 1), p(x + 4, y + 4), p(x + 1, y + 3)]] }).collect();
            let s = 8 * g * g;
            Bf { a: va.clone(), b: va, exp: [e(g * g, 0, s), e(g * g, 0, s), e(0, 0, 0), e(0, 0, 0)], inc: (16 * g * g) as u64, name: "copies" }
        }
        _ => {
            // nested boxes as one self-overlapping operand: even-odd
            let k = n.min(6000);
            let va: MPoly = (1..=k).map(|i| vec![rect(-i, -i, i, i)]).collect();
            // area of alternate annuli, outermost filled
            let s: i64 = (1..=k).rev().enumerate().map(|(j, i)| if j % 2 == 0 { 4 * i * i } else { -4 * i * i }).sum();
            let f = ((k + 1) / 2, k / 2);
            Bf { a: va, b: vec![], exp: [e(0, 0, 0), e(f.0, f.1, s), e(f.0, f.1, s), e(f.0, f.1, s)], inc: (8 * k) as u64, name: "nested" }
        }
    }
}
const OPS: [OpType; 4] = [OpType::Intersection, OpType::Union, OpType::Difference, OpType::Xor];
const LIM_BOOL: (u64, u64) = (1800, 2500);
pub const C_BOOL: u64 = 200;
pub fn c28(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut f = bfamily(src);
    let m = affine(src);
    let det = (m[0] * m[3] - m[1] * m[2]).abs();
    let mut q = [f.a.clone(), f.b.clone()];
    for r in q.iter_mut().flatten().flatten().flatten() { *r = apply(m, *r); }
    let ext = q.iter().flatten().flatten().flatten().map(|v| v.x.abs().max(v.y.abs())).max().unwrap_or(0);
    let det = if ext * 2 > EXTENT_F64 { 1 } else { let [a, b] = q; f.a = a; f.b = b; det };
    for o in [&mut f.a, &mut f.b] {
        if src.chance(1, 2) { for po in o.iter_mut() { for r in po.iter_mut() { r.reverse(); } } }
        shuffle(src, o);
    }
    let e = Emb { ox: src.sym(1000), oy: src.sym(1000), exp: { let m = if src.chance(1, 6) { 200 } else { 30 }; src.sym(m) as i32 }, neg: false };
    let k = src.u(4);
    let (a, b, ex) = if k != 2 && src.chance(1, 3) { (&f.b, &f.a, f.exp[k]) } else { (&f.a, &f.b, f.exp[k]) };
    let n: usize = f.a.iter().chain(&f.b).flatten().map(|r| r.len()).sum();
    ctx.label(f.name);
    ctx.label(["intersection", "union", "difference", "xor"][k]);
    ctx.label(match n { 0..=9 => "n<10", 10..=99 => "n=10-99", 100..=999 => "n=100-999", 1000..=9999 => "n=1000-9999", 10000..=199_999 => "n=10000-199999", _ => "n>=200000" });
    ctx.input(&(&f.a, &f.b));
    ctx.nontrivial = n >= 10;
    ctx.show(|| format!("{} with {n} edges, {:?}: expect (polygons, holes, 2 x area) {ex:?}", f.name, OPS[k]));
    let conv = |o: &MPoly| -> MultiPolygon<W> {
        let ls = |r: &Ring| LineString(r.iter().map(|c| { let (x, y) = e.to(*c); geo::Coordinate { x: W(x), y: W(y) } }).collect());
        MultiPolygon(o.iter().map(|po| Polygon::new(ls(&po[0]), po[1..].iter().map(ls).collect())).collect())
    };
    let (ga, gb) = (conv(a), conv(b));
    let out = metered(f.name, n, f.inc, LIM_BOOL, || {
        w::start(allowed(n, f.inc, C_BOOL));
        Ok(ga.boolean_op(&gb, OPS[k]))
    })?;
    ctx.work += w::count();
    if std::env::var_os("GX_STAT").is_some() { let l = (n as f64 + 2.).log2() + 1.; eprintln!("STAT {} {n} {:.2} {:.2}", f.name, w::count() as f64 / ((n as u64 + f.inc + 2) as f64 * l), w::count() as f64 / (n as u64 + f.inc + 2) as f64); }
    w::start(u64::MAX);
    let (np, nh) = (out.0.len() as u64, out.0.iter().map(|q| q.interiors().len() as u64).sum::<u64>());
    let mut area = 0i128;
    let inv = 2f64.powi(-e.exp);
    let ring = |l: &LineString<W>| -> Result<i128, String> {
        let mut v = vec![];
        for c in &l.0 { let (x, y) = (c.x.0 * inv, c.y.0 * inv); if x.fract() != 0. || y.fract() != 0. { return Err(format!("result vertex {c:?} is no vertex or crossing of the operands")); } v.push(p(x as i64, y as i64)); }
        v.pop();
        Ok(crate::ex::area2(&v).abs())
    };
    for po in &out.0 { area += ring(po.exterior())?; for h in po.interiors() { area -= ring(h)?; } }
    let want = (ex.0.unwrap_or(np), ex.1.unwrap_or(nh), ex.2 as i128 * det as i128);
    if (np, nh, area) != want { return Err(format!("{} with {n} edges, {:?}: {np} polygons with {nh} holes and twice the area {area} instead of {want:?}", f.name, OPS[k])); }
    Ok(())
}

// ---- monotone decomposition ---------------------------------------------
use crate::polygen::valid_poly;
use geo_crossings::{monotone_chains, MonotoneSweep};
use std::collections::{BTreeMap, HashMap};

/// Valid polygons of any size.
fn big_poly(src: &mut Src) -> (Poly, &'static str) {
    let n = if src.chance(1, 40) { (1 << 12) + src.u(1 << 12) } else { lsize(src, 11, 10) } as i64;
    match src.u(8) {
        0 => {
            // saw teeth above and below
            let k = n.max(1);
            let mut r: Ring = (0..=k).map(|i| p(2 * i, -1 - i % 2 * (2 + i % 3))).collect();
            r.extend((0..=k).rev().map(|i| p(2 * i, 1 + (i + 1) % 2 * (3 + i % 5))));
            (vec![r], "saw")
        }
        1 => {
            // a band moved sideways
            let k = n.max(1);
            let x = |i: i64| if i % 2 == 0 { 0 } else { 30 };
            let mut dn: Ring = (0..=k).map(|i| p(x(i) + 5 + i % 3, 6 * i)).collect();
            dn.extend((0..=k).rev().map(|i| p(x(i), 6 * i)));
            (vec![dn], "zigzag")
        }
        2 => {
            let k = n.max(1);
            let mut r = vec![p(0, 0)];
            for i in 0..k { r.push(p(2 * i + 2, 3 * i)); r.push(p(2 * i + 2, 3 * i + 3)); }
            r.push(p(-1, 3 * k + 1));
            (vec![r], "stairs")
        }
        3 => {
            // a box with a grid of holes
            let g = ((n as f64).sqrt() as i64).max(1);
            let mut v = vec![rect(0, 0, 10 * g, 10 * g)];
            for i in 0..g { for j in 0..g { let o = p(10 * i + (j * 3) % 4, 10 * j + (i * 5) % 3);
                let t = [p(o.x + 1, o.y + 2), p(o.x + 4, o.y + 1 + (i + j) % 2), p(o.x + 5, o.y + 5), p(o.x + 2, o.y + 6)];
                v.push(t[..3 + ((i + 2 * j) % 2) as usize].to_vec()); } }
            (v, "holes")
        }
        4 => {
            // comb: teeth point left from a spine
            let k = n.max(1);
            let mut r = vec![p(20, -1), p(21, -1), p(21, 4 * k), p(20, 4 * k)];
            for i in (0..k).rev() { r.push(p(1 + i % 7, 4 * i + 2)); r.push(p(19 - i % 2, 4 * i)); }
            (vec![r], "comb")
        }
        5 => {
            // a convex-like arc: points on a parabola
            let k = n.max(2).min(4000);
            let mut r: Ring = (-k..=k).map(|i| p(i, i * i)).collect();
            if src.chance(1, 2) { r.push(p(0, k * k + 5)); }
            (vec![r], "parabola")
        }
        6 => {
            // vertical strips: teeth with vertical sides
            let k = n.max(1);
            let mut r = vec![p(0, -2), p(4 * k, -2)];
            for i in (0..k).rev() { let h = 5 + i % 9; r.extend([p(4 * i + 4, 0), p(4 * i + 3, 0), p(4 * i + 3, h), p(4 * i + 1, h), p(4 * i + 1, 0)]); }
            r.push(p(0, 0));
            (vec![r], "battlements")
        }
        _ => {
            let k = n.max(1).min(3000);
            let (mut a, mut b) = (vec![], vec![]);
            for i in 1..=k { let q = 10 * i; a.extend([p(q, -q), p(q, q), p(-q, q), p(-q, -q - 10)]); b.extend([p(q + 4, -q - 4), p(q + 4, q + 4), p(-q - 4, q + 4), p(-q - 4, -q - 14)]); }
            b.reverse();
            a.extend(b);
            (vec![a], "spiral")
        }
    }
}
fn classify(q: &Poly) -> (BTreeMap<&'static str, u64>, u64) {
    let mut c = BTreeMap::new();
    let mut nv = 0;
    for (ri, r) in q.iter().enumerate() {
        let n = r.len();
        let ccw = (area2(r) > 0) ^ (ri > 0);
        for i in 0..n {
            let (a, v, b) = (r[(i + n - 1) % n], r[i], r[(i + 1) % n]);
            let convex = (orient(a, v, b) > 0) == ccw;
            let ty = match (a > v, b > v) { (true, true) => if convex { "Start" } else { "Split" }, (false, false) => if convex { "End" } else { "Merge" }, _ => "Continue" };
            *c.entry(ty).or_default() += 1;
            nv += 1;
        }
    }
    (c, nv)
}
fn n_of(q: &Poly) -> usize { q.iter().map(|r| r.len()).sum() }
const LIM_MONO: (u64, u64) = (1000, 1000);
pub const C_MONO: u64 = 250;
pub fn c29(src: &mut Src, ctx: &mut Ctx) -> R {
    let (mut q, name) = if src.chance(1, 3) { let m = 10 + src.u(60); valid_poly(src, m) } else {
        let (mut q, nm) = big_poly(src);
        let m = affine(src);
        let id = q.clone();
        for v in q.iter_mut().flatten() { *v = apply(m, *v); }
        if q.iter().flatten().any(|v| v.x.abs().max(v.y.abs()) > 1 << 26) { q = id; }
        for r in q.iter_mut() { if src.chance(1, 2) { r.reverse(); } let k = src.u(r.len()); r.rotate_left(k); }
        (q, nm)
    };
    if n_of(&q) <= 40 && !crate::polygen::is_valid(&q) { panic!("the generator made an invalid polygon {name} {q:?}"); }
    if q.len() > 2 { let mut h = q.split_off(1); shuffle(src, &mut h); q.extend(h); }
    let n: usize = q.iter().map(|r| r.len()).sum();
    ctx.label(name);
    ctx.label(match n { 0..=9 => "n<10", 10..=99 => "n=10-99", 100..=999 => "n=100-999", 1000..=9999 => "n=1000-9999", _ => "n>=10000" });
    ctx.input(&q);
    ctx.nontrivial = n >= 10;
    let (types, nv) = classify(&q);
    let get = |k: &str| types.get(k).copied().unwrap_or(0);
    let holes = q.len() as u64 - 1;
    ctx.show(|| format!("{name} with {n} vertices, {holes} holes, {types:?}: {}", q.iter().take(3).map(|r| format!("{:?}", &r[..r.len().min(12)])).collect::<Vec<_>>().join(" ")));
    let e = Emb { ox: src.sym(1000), oy: src.sym(1000), exp: { let m = if src.chance(1, 6) { 200 } else { 30 }; src.sym(m) as i32 }, neg: false };
    let ls = |r: &Ring| LineString(r.iter().map(|c| { let (x, y) = e.to(*c); geo::Coordinate { x: W(x), y: W(y) } }).collect());
    let poly = Polygon::new(ls(&q[0]), q[1..].iter().map(ls).collect());
    // the sweep
    let tys = metered(name, n, 0, LIM_MONO, || {
        w::start(allowed(n, 0, C_MONO));
        let mut sweep = Box::pin(MonotoneSweep::from_polygon(&poly));
        let mut v = Vec::with_capacity(n);
        while let Some(ev) = sweep.next() { v.push(ev.ty); }
        Ok(v)
    })?;
    let mut got: BTreeMap<String, u64> = BTreeMap::new();
    for t in tys { *got.entry(format!("{t:?}")).or_default() += 1; }
    ctx.work += w::count();
    if std::env::var_os("GX_STAT").is_some() { let l = (n as f64 + 2.).log2() + 1.; eprintln!("STAT {name} {n} {:.2}", w::count() as f64 / ((n as u64 + 2) as f64 * l)); }
    w::start(u64::MAX);
    let want: BTreeMap<String, u64> = types.iter().map(|(k, v)| (k.to_string(), *v)).collect();
    if got != want { return Err(format!("{name} with {nv} vertices: the sweep reports {got:?} instead of {want:?}")); }
    // the pieces
    let out = metered(name, n, 0, (LIM_MONO.0, u64::MAX >> 32), || Ok(monotone_chains(&poly)))?;
    let inv = 2f64.powi(-e.exp);
    let mut ids: HashMap<(u64, u64), P> = HashMap::new();
    for v in q.iter().flatten() { let (x, y) = e.to(*v); ids.insert((x.to_bits(), y.to_bits()), *v); }
    let mut area = 0i128;
    let mut uses: HashMap<(P, P), (u32, u32)> = HashMap::new();
    for m in &out {
        let mut ring = vec![];
        for (top, l) in [(true, m.top()), (false, m.bot())] {
            let mut c = vec![];
            for v in &l.0 { match ids.get(&(v.x.0.to_bits(), v.y.0.to_bits())) { Some(v) => c.push(*v), None => return Err(format!("{name}: a piece has the vertex ({},{}), which is no vertex of the polygon", v.x.0 * inv, v.y.0 * inv)) } }
            for w in c.windows(2) { if w[0] >= w[1] { return Err(format!("{name}: a chain is not monotone at {:?} {:?}", w[0], w[1])); } let u = uses.entry((w[0], w[1])).or_default(); if top { u.0 += 1 } else { u.1 += 1 } }
            if top { c.reverse(); ring = c; c = vec![]; } else { c.pop(); c.extend(&ring); c.pop(); ring = c.clone(); }
            let _ = c;
        }
        let a = area2(&ring);
        if a <= 0 { return Err(format!("{name}: a piece has no positive area")); }
        area += a;
        ctx.work += ring.len() as u64;
    }
    let full: i128 = q.iter().enumerate().map(|(i, r)| { let a = area2(r).abs(); if i == 0 { a } else { -a } }).sum();
    if area != full { return Err(format!("{name} with {nv} vertices: the pieces have twice the area {area}, the polygon {full}")); }
    let edges: HashMap<(P, P), ()> = q.iter().flat_map(ring_edges).map(|s| ((s.lo(), s.hi()), ())).collect();
    let mut diag = 0u64;
    for (k, u) in &uses {
        if edges.contains_key(k) { if u.0 + u.1 != 1 { return Err(format!("{name}: the polygon edge {k:?} bounds {} pieces from above and {} from below", u.0, u.1)); } }
        else if *u != (1, 1) { return Err(format!("{name}: the diagonal {k:?} bounds {} pieces from above and {} from below", u.0, u.1)); } else { diag += 1; }
    }
    if uses.len() as u64 != diag + edges.len() as u64 { return Err(format!("{name}: {} polygon edges bound no piece", edges.len() as u64 + diag - uses.len() as u64)); }
    let most = 1 + get("Split") + get("Merge") - holes;
    if out.len() as u64 > most { return Err(format!("{name} with {nv} vertices: {} pieces, more than the {} splits and {} merges and {holes} holes require ({most})", out.len(), get("Split"), get("Merge"))); }
    if out.len() as u64 != 1 + diag - holes { return Err(format!("{name}: {} pieces with {diag} diagonals and {holes} holes", out.len())); }
    ctx.label_if(out.len() > 100, "100+ pieces");
    Ok(())
}
