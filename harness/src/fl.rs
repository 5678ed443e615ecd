//! General position: segments with arbitrary (multiples of 2^-40 of the
//! extent) coordinates, whose crossings are computed with rounding, but which
//! are well separated compared to the rounding.
use crate::ex::*;
use crate::gen::*;
use crate::tape::Src;

#[derive(Clone, Copy, Debug)]
pub struct Par { pub bits: u32, pub delta: f64, pub smin: f64 }
pub fn par<T: Sc>() -> Par {
    // delta, the least distance between features, relative to the extent
    if T::EXT < 1000 { Par { bits: 18, delta: 1. / 512., smin: 0.02 } } else { Par { bits: 40, delta: 2f64.powi(-30), smin: 1e-4 } }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Rel { Apart, Cross(f64, f64), End, Dup, Bad }
fn ff(q: P) -> (f64, f64) { (q.x as f64, q.y as f64) }
/// The exact crossing point, rounded.
pub fn crossing(u: S, v: S) -> (f64, f64) {
    let (ul, uh, vl, vh) = (u.lo(), u.hi(), v.lo(), v.hi());
    let (dx, dy) = ((uh.x - ul.x) as i128, (uh.y - ul.y) as i128);
    let (ex, ey) = ((vh.x - vl.x) as i128, (vh.y - vl.y) as i128);
    let den = dx * ey - dy * ex;
    let num = (vl.x - ul.x) as i128 * ey - (vl.y - ul.y) as i128 * ex;
    let at = |o: i64, d: i128| { let t = d * num; let q = t.div_euclid(den); let r = t.rem_euclid(den); (o as i128 + q) as f64 + r as f64 / den as f64 };
    (at(ul.x, dx), at(ul.y, dy))
}
pub fn dist(s: S, q: (f64, f64)) -> f64 {
    let (a, b) = (ff(s.a), ff(s.b));
    let (dx, dy) = (b.0 - a.0, b.1 - a.1);
    let l2 = dx * dx + dy * dy;
    let t = if l2 == 0. { 0. } else { (((q.0 - a.0) * dx + (q.1 - a.1) * dy) / l2).clamp(0., 1.) };
    (a.0 + t * dx - q.0).hypot(a.1 + t * dy - q.1)
}
fn sin(u: S, v: S) -> f64 {
    let (d, e) = ((ff(u.b).0 - ff(u.a).0, ff(u.b).1 - ff(u.a).1), (ff(v.b).0 - ff(v.a).0, ff(v.b).1 - ff(v.a).1));
    (d.0 * e.1 - d.1 * e.0).abs() / (d.0.hypot(d.1) * e.0.hypot(e.1))
}
/// Direction from the shared end differs enough (also not opposite/equal).
fn angle_ok(u: S, v: S, smin: f64) -> bool {
    if sin(u, v) >= smin { return true; }
    // nearly opposite directions at a shared end are fine: a straight joint
    let (q, uo, vo) = if u.a == v.a { (u.a, u.b, v.b) } else if u.a == v.b { (u.a, u.b, v.a) } else if u.b == v.a { (u.b, u.a, v.b) } else { (u.b, u.a, v.a) };
    let (d, e) = ((ff(uo).0 - ff(q).0, ff(uo).1 - ff(q).1), (ff(vo).0 - ff(q).0, ff(vo).1 - ff(q).1));
    d.0 * e.0 + d.1 * e.1 < 0.
}
pub struct Arr { pub segs: Vec<S>, pub cross: Vec<(usize, usize, f64, f64)>, pub delta: f64, pub par: Par, pub allow_dup: bool }
impl Arr {
    pub fn new(par: Par) -> Arr { Arr { segs: vec![], cross: vec![], delta: par.delta * 2f64.powi(par.bits as i32), par, allow_dup: true } }
    fn rel(&self, c: S, o: S) -> Rel {
        if c.is_pt() || o.is_pt() {
            let (p, s) = if c.is_pt() { (c, o) } else { (o, c) };
            if s.a == p.a || s.b == p.a { return Rel::End; }
            return if dist(s, ff(p.a)) > self.delta { Rel::Apart } else { Rel::Bad };
        }
        if (c.lo(), c.hi()) == (o.lo(), o.hi()) { return if self.allow_dup { Rel::Dup } else { Rel::Bad }; }
        let shared = c.a == o.a || c.a == o.b || c.b == o.a || c.b == o.b;
        let sep = |s: S, q: P| q == s.a || q == s.b || dist(s, ff(q)) > self.delta;
        if !(sep(o, c.a) && sep(o, c.b) && sep(c, o.a) && sep(c, o.b)) { return Rel::Bad; }
        if shared { return if angle_ok(c, o, self.par.smin) { Rel::End } else { Rel::Bad }; }
        match intersect(c, o) {
            Ix::None => Rel::Apart,
            Ix::Pt(_, true) | Ix::Frac => if sin(c, o) >= self.par.smin { let q = crossing(c, o); Rel::Cross(q.0, q.1) } else { Rel::Bad },
            _ => Rel::Bad,
        }
    }
    /// Add a segment if everything stays well separated.
    pub fn add(&mut self, c: S) -> bool {
        let (dx, dy) = ((c.b.x - c.a.x).abs() as f64, (c.b.y - c.a.y).abs() as f64);
        if !c.is_pt() && dx.hypot(dy) < 2. * self.delta { return false; }
        let n = self.segs.len();
        let mut new: Vec<(usize, usize, f64, f64)> = vec![];
        let mut dup_of = usize::MAX;
        let mut rels = vec![];
        for (i, o) in self.segs.iter().enumerate() {
            let r = self.rel(c, *o);
            match r {
                Rel::Bad => return false,
                Rel::Cross(x, y) => new.push((i, n, x, y)),
                Rel::Dup => dup_of = i,
                _ => {}
            }
            rels.push(r);
        }
        // a segment that is cut at a rounded point no longer overlaps its copies
        let same = |i: usize, j: usize| (self.segs[i].lo(), self.segs[i].hi()) == (self.segs[j].lo(), self.segs[j].hi());
        if dup_of != usize::MAX && self.cross.iter().any(|&(i, j, ..)| same(i, dup_of) || same(j, dup_of)) { return false; }
        if new.iter().any(|&(i, ..)| (0..n).any(|j| j != i && same(i, j))) { return false; }
        // all crossings away from all other segments
        if dup_of == usize::MAX {
            let _same = |i: usize, j: usize| (self.segs[i].lo(), self.segs[i].hi()) == (self.segs[j].lo(), self.segs[j].hi());
            for (k, &(i, _, x, y)) in new.iter().enumerate() {
                for (j, o) in self.segs.iter().enumerate() { if j != i && !same(i, j) && dist(*o, (x, y)) <= self.delta { return false; } }
                for e in [c.a, c.b] { if (ff(e).0 - x).hypot(ff(e).1 - y) <= self.delta { return false; } }
                for &(j, _, u, v) in &new[..k] { if !same(i, j) && (x - u).hypot(y - v) <= self.delta { return false; } }
            }
            for &(_, _, x, y) in &self.cross { if dist(c, (x, y)) <= self.delta { return false; } }
        }
        self.segs.push(c);
        self.cross.extend(new);
        true
    }
    pub fn add_all(&mut self, cs: &[S]) -> bool {
        let (n, k) = (self.segs.len(), self.cross.len());
        for c in cs { if !self.add(*c) { self.segs.truncate(n); self.cross.truncate(k); return false; } }
        true
    }
}
/// A point with a random mantissa.
pub fn rpt(src: &mut Src, bits: u32) -> P { let m = 1i64 << bits; p(src.range(0, m), src.range(0, m)) }
pub fn clampp(q: (f64, f64), bits: u32) -> P { let m = 2f64.powi(bits as i32); p(q.0.clamp(0., m) as i64, q.1.clamp(0., m) as i64) }
/// A jittered grid of points: (w+1) x (h+1).
pub fn jittered(src: &mut Src, w: usize, h: usize, bits: u32, amount: f64) -> Vec<Vec<P>> {
    let m = 2f64.powi(bits as i32);
    let (cw, ch) = (m / (w + 1) as f64, m / (h + 1) as f64);
    (0..=h).map(|j| (0..=w).map(|i| {
        let (u, v) = (src.range(0, 1 << 30) as f64 / 2f64.powi(30), src.range(0, 1 << 30) as f64 / 2f64.powi(30));
        clampp((cw * (i as f64 + 0.5 + amount * (u - 0.5)), ch * (j as f64 + 0.5 + amount * (v - 0.5))), bits)
    }).collect()).collect()
}
/// Triangles of a jittered grid.
pub fn triangles(src: &mut Src, g: &[Vec<P>]) -> Vec<[P; 3]> {
    let mut out = vec![];
    for j in 0..g.len() - 1 { for i in 0..g[0].len() - 1 {
        let (a, b, c, d) = (g[j][i], g[j][i + 1], g[j + 1][i + 1], g[j + 1][i]);
        if src.chance(1, 2) { out.push([a, b, c]); out.push([a, c, d]); } else { out.push([a, b, d]); out.push([b, c, d]); }
    } }
    out.retain(|t| cross(t[0], t[1], t[2]) > 0);
    out
}
fn frac(src: &mut Src) -> f64 { src.range(0, 1 << 40) as f64 / 2f64.powi(40) }
/// Rings of the shapes used in practice (and in the benchmarks).
pub fn ring(src: &mut Src, bits: u32, maxv: usize) -> Vec<P> {
    let m = 2f64.powi(bits as i32);
    let (cx, cy) = (m * (0.2 + 0.6 * frac(src)), m * (0.2 + 0.6 * frac(src)));
    let r = m * *src.pick(&[0.05, 0.15, 0.3, 0.5]);
    // sometimes parallel to the axes, or nearly so
    let rot = match src.u(8) { 0 => 0., 1 => src.sym(4) as f64 * 2f64.powi(2 - bits as i32), _ => frac(src) * std::f64::consts::TAU };
    let at = |x: f64, y: f64| { let (s, c) = rot.sin_cos(); clampp((cx + r * (c * x - s * y), cy + r * (s * x + c * y)), bits) };
    let v: Vec<P> = match src.u(5) {
        0 => { let n = 3 + src.u(maxv.max(4) - 3); (0..n).map(|i| { let a = i as f64 / n as f64 * std::f64::consts::TAU; let q = 0.2 + 0.8 * frac(src); at(q * a.cos(), q * a.sin()) }).collect() }
        1 => { let n = 3 + src.u(4.min(maxv)); (0..n).map(|_| rpt(src, bits)).collect() }
        2 => { let (w, h) = (0.1 + frac(src), 0.1 + frac(src)); vec![at(-w, -h), at(w, -h), at(w, h), at(-w, h)] }
        3 => {
            // steps, as in the rasterisation benchmark
            let k = 1 + src.u((maxv / 2).max(2));
            let mut v = vec![];
            for i in 0..=k { v.push(at(-1. + 0.9 * frac(src), -1. + 2. * i as f64 / k as f64)); }
            for i in (0..=k).rev() { v.push(at(0.1 + 0.9 * frac(src), -1. + 2. * i as f64 / k as f64)); }
            v
        }
        _ => { let n = 3 + src.u(maxv.max(4) - 3); (0..n).map(|i| { let a = i as f64 / n as f64 * std::f64::consts::TAU; at(a.cos(), a.sin()) }).collect() }
    };
    v
}
