//! Exact integer geometry: the reference model.  Nothing in here uses code of
//! the crate under test.
use std::cmp::Ordering;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct P { pub x: i64, pub y: i64 }
pub fn p(x: i64, y: i64) -> P { P { x, y } }

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct S { pub a: P, pub b: P }
pub fn s(a: P, b: P) -> S { S { a, b } }
impl S {
    pub fn lo(&self) -> P { self.a.min(self.b) }
    pub fn hi(&self) -> P { self.a.max(self.b) }
    pub fn is_pt(&self) -> bool { self.a == self.b }
}

pub fn cross(o: P, a: P, b: P) -> i128 {
    (a.x as i128 - o.x as i128) * (b.y as i128 - o.y as i128)
        - (a.y as i128 - o.y as i128) * (b.x as i128 - o.x as i128)
}
pub fn orient(o: P, a: P, b: P) -> i32 {
    match cross(o, a, b).cmp(&0) { Ordering::Less => -1, Ordering::Equal => 0, Ordering::Greater => 1 }
}
pub fn on_seg(sg: S, r: P) -> bool {
    orient(sg.a, sg.b, r) == 0
        && r.x >= sg.a.x.min(sg.b.x) && r.x <= sg.a.x.max(sg.b.x)
        && r.y >= sg.a.y.min(sg.b.y) && r.y <= sg.a.y.max(sg.b.y)
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ix { None, Pt(P, bool), Seg(P, P), Frac }

/// Exact intersection of two closed segments (possibly degenerate).
/// `Pt(_, proper)`; `Frac` when the intersection is a single non-integer point.
pub fn intersect(u: S, v: S) -> Ix {
    if u.is_pt() {
        return if on_seg(v, u.a) { Ix::Pt(u.a, false) } else { Ix::None };
    }
    if v.is_pt() {
        return if on_seg(u, v.a) { Ix::Pt(v.a, false) } else { Ix::None };
    }
    let (ul, uh, vl, vh) = (u.lo(), u.hi(), v.lo(), v.hi());
    let a = orient(ul, uh, vl);
    let b = orient(ul, uh, vh);
    if a == 0 && b == 0 {
        let l = ul.max(vl);
        let h = uh.min(vh);
        return match l.cmp(&h) {
            Ordering::Less => Ix::Seg(l, h),
            Ordering::Equal => Ix::Pt(l, false),
            Ordering::Greater => Ix::None,
        };
    }
    let c = orient(vl, vh, ul);
    let d = orient(vl, vh, uh);
    if a == 0 { return if on_seg(u, vl) { Ix::Pt(vl, false) } else { Ix::None }; }
    if b == 0 { return if on_seg(u, vh) { Ix::Pt(vh, false) } else { Ix::None }; }
    if c == 0 { return if on_seg(v, ul) { Ix::Pt(ul, false) } else { Ix::None }; }
    if d == 0 { return if on_seg(v, uh) { Ix::Pt(uh, false) } else { Ix::None }; }
    if a == b || c == d { return Ix::None; }
    let (num, den) = param(u, v);
    // point = ul + (uh-ul) * num/den
    let dx = (uh.x - ul.x) as i128 * num;
    let dy = (uh.y - ul.y) as i128 * num;
    if dx % den != 0 || dy % den != 0 { return Ix::Frac; }
    Ix::Pt(p(ul.x + (dx / den) as i64, ul.y + (dy / den) as i64), true)
}
fn param(u: S, v: S) -> (i128, i128) {
    let (ul, uh, vl, vh) = (u.lo(), u.hi(), v.lo(), v.hi());
    let d1 = p(uh.x - ul.x, uh.y - ul.y);
    let d2 = p(vh.x - vl.x, vh.y - vl.y);
    let den = d1.x as i128 * d2.y as i128 - d1.y as i128 * d2.x as i128;
    let w = p(vl.x - ul.x, vl.y - ul.y);
    let num = w.x as i128 * d2.y as i128 - w.y as i128 * d2.x as i128;
    (num, den)
}
/// Smallest k such that scaling both segments by k makes their proper
/// intersection integral (1 if it already is, or there is none).
pub fn denom(u: S, v: S) -> i128 {
    if intersect(u, v) != Ix::Frac { return 1; }
    let (num, den) = param(u, v);
    let (ul, uh) = (u.lo(), u.hi());
    let f = |d: i64| { let n = d as i128 * num; den.abs() / gcd(n.abs(), den.abs()) };
    lcm(f(uh.x - ul.x), f(uh.y - ul.y))
}
pub fn gcd(a: i128, b: i128) -> i128 { if b == 0 { a } else { gcd(b, a % b) } }
pub fn lcm(a: i128, b: i128) -> i128 { a / gcd(a, b) * b }

/// y of segment (lo.x < hi.x) at x = xn/2, as a fraction (n, d) with d > 0.
pub fn y_at2(sg: S, xn: i128) -> (i128, i128) {
    let (l, h) = (sg.lo(), sg.hi());
    let d = 2 * (h.x as i128 - l.x as i128);
    let n = l.y as i128 * d + (h.y as i128 - l.y as i128) * (xn - 2 * l.x as i128);
    (n, d)
}
pub fn cmp_frac(a: (i128, i128), b: (i128, i128)) -> Ordering {
    (a.0 * b.1).cmp(&(b.0 * a.1))
}
/// Twice the signed area of a ring (closed or not).
pub fn area2(r: &[P]) -> i128 {
    let n = r.len();
    let mut t = 0i128;
    for i in 0..n {
        let (a, b) = (r[i], r[(i + 1) % n]);
        t += a.x as i128 * b.y as i128 - a.y as i128 * b.x as i128;
    }
    t
}
