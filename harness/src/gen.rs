//! Generators of exact-arithmetic segment arrangements.
use crate::ex::*;
use crate::tape::Src;

/// Largest coordinate extent for which every intersection the crate computes
/// (through geo's `line_intersection`) is exact in f64: 16*E^3 < 2^53.
pub const EXTENT_F64: i64 = 60_000;
/// The same for f32: 16*E^3 < 2^24.
pub const EXTENT_F32: i64 = 100;

pub const DIRS: [(i64, i64); 12] = [
    (1, 0), (0, 1), (1, 1), (1, -1), (1, 2), (2, 1), (1, -2), (2, -1), (1, 3), (3, 1), (1, -3), (3, -1),
];

pub fn extent(segs: &[S]) -> i64 {
    let it = || segs.iter().flat_map(|s| [s.a, s.b]);
    let f = |v: Vec<i64>| v.iter().max().copied().unwrap_or(0) - v.iter().min().copied().unwrap_or(0);
    f(it().map(|q| q.x).collect()).max(f(it().map(|q| q.y).collect()))
}

/// lcm of the denominators of all pairwise intersections, None if above cap.
pub fn common_denom(segs: &[S], cap: i128) -> Option<i128> {
    let mut l = 1;
    for i in 0..segs.len() {
        for j in 0..i {
            l = lcm(l, denom(segs[i], segs[j]));
            if l > cap { return None; }
        }
    }
    Some(l)
}

pub fn map_segs(segs: &mut [S], f: impl Fn(P) -> P) {
    for s in segs.iter_mut() { s.a = f(s.a); s.b = f(s.b); }
}

/// A small integer matrix (det != 0) as a composition of elementary maps.
pub fn affine(src: &mut Src) -> [i64; 4] {
    let mut m = [1i64, 0, 0, 1];
    let n = src.weighted(&[6, 3, 2, 1]);
    for _ in 0..n {
        let e = match src.u(6) {
            0 => [1, 1, 0, 1],
            1 => [1, 0, 1, 1],
            2 => [1, -1, 0, 1],
            3 => [1, 0, -1, 1],
            4 => [1, 1, -1, 1],
            _ => [2, 1, 1, -1],
        };
        m = mul(m, e);
    }
    // orientation / axis symmetries
    let s = src.u(8);
    if s & 1 != 0 { m = mul(m, [0, 1, 1, 0]); }
    if s & 2 != 0 { m = mul(m, [-1, 0, 0, 1]); }
    if s & 4 != 0 { m = mul(m, [1, 0, 0, -1]); }
    m
}
fn mul(a: [i64; 4], b: [i64; 4]) -> [i64; 4] {
    [b[0] * a[0] + b[1] * a[2], b[0] * a[1] + b[1] * a[3], b[2] * a[0] + b[3] * a[2], b[2] * a[1] + b[3] * a[3]]
}
pub fn apply(m: [i64; 4], q: P) -> P { p(m[0] * q.x + m[1] * q.y, m[2] * q.x + m[3] * q.y) }

/// A unimodular matrix with entries so large that coordinates up to `m` come
/// close to `lim`: orientations, contacts and validity stay exactly as they
/// are, while everything becomes a bundle of needles that naive (rounded)
/// arithmetic cannot tell apart.
pub fn skew(src: &mut Src, m: i64, lim: i64) -> [i64; 4] {
    let mut a = [1i64, 0, 0, 1];
    let big = *src.pick(&[3i64, 100, 1 << 10, 1 << 20, 1 << 26]);
    let mut flip = src.chance(1, 2);
    for _ in 0..10 {
        let k = src.range(1, big) * if src.chance(1, 2) { -1 } else { 1 };
        let f = |u: i64, v: i64| u as i128 + v as i128 * k as i128;
        let b = if flip { [f(a[0], a[2]), f(a[1], a[3]), a[2] as i128, a[3] as i128] } else { [a[0] as i128, a[1] as i128, f(a[2], a[0]), f(a[3], a[1])] };
        if (b[0].abs() + b[1].abs()).max(b[2].abs() + b[3].abs()) * m.max(1) as i128 > lim as i128 { break; }
        a = [b[0] as i64, b[1] as i64, b[2] as i64, b[3] as i64];
        flip = !flip;
    }
    a
}
/// Break segments at (integral) proper crossings until there are none: one of
/// the two at each, so that the others are met inside.
pub fn unknot(src: &mut Src, segs: &[S], maxn: usize) -> Vec<S> {
    let mut out: Vec<S> = vec![];
    for &sg in segs {
        let mut cuts: Vec<P> = vec![];
        let mut ok = true;
        for o in &out { match intersect(*o, sg) { Ix::Pt(q, true) => cuts.push(q), Ix::Frac => ok = false, _ => {} } }
        if !ok { continue; }
        cuts.push(sg.hi());
        cuts.sort();
        cuts.dedup();
        let mut q = sg.lo();
        for c in cuts { if out.len() < maxn && (c == q || src.chance(7, 8)) { out.push(if src.chance(1, 2) { s(q, c) } else { s(c, q) }); } q = c; }
    }
    out
}
/// Cut every segment at all points where it meets another one: the pieces meet
/// at common ends only, or are equal.
pub fn shatter(src: &mut Src, segs: &[S], maxn: usize) -> Vec<S> {
    let mut out = vec![];
    for &sg in segs {
        let mut cuts = vec![sg.lo(), sg.hi()];
        for o in segs { match intersect(*o, sg) { Ix::Pt(q, _) => cuts.push(q), Ix::Seg(a, b) => { cuts.push(a); cuts.push(b); } _ => {} } }
        cuts.sort();
        cuts.dedup();
        if cuts.len() == 1 { cuts.push(cuts[0]); }
        for w in cuts.windows(2) { if out.len() < maxn && src.chance(15, 16) { out.push(if src.chance(1, 2) { s(w[0], w[1]) } else { s(w[1], w[0]) }); } }
    }
    out
}
/// Moves points of a lattice arrangement whose segments meet at common ends
/// only, after enlarging it: too little to change what meets what, but so that
/// nothing is on a lattice any more (`m`: largest coordinate, `lim`: largest
/// one afterwards).
pub struct Jitter { k: i64, j: i64, one_in: u64, axes: u64, seed: u64 }
pub fn jitter(src: &mut Src, m: i64, lim: i64) -> Jitter {
    let m = m.max(1);
    // a lattice point is at least 1/(2 sqrt2 m) off a segment it is not on
    let k = (lim / (2 * m)).max(1);
    let most = k / (16 * m);
    let j = if most < 1 { 0 } else { (1i64 << src.below(64 - most.leading_zeros() as u64)).min(most) };
    Jitter { k, j, one_in: *src.pick(&[1, 2, 6]), axes: src.below(3), seed: src.bits() }
}
impl Jitter {
    pub fn map(&self, q: P) -> P {
        let h = crate::tape::splitmix_mix(crate::tape::splitmix_mix(self.seed ^ q.x as u64) ^ q.y as u64);
        let d = |h: u64| (h % (2 * self.j as u64 + 1)) as i64 - self.j;
        let (mut dx, mut dy) = (d(h >> 8), d(crate::tape::splitmix_mix(h)));
        if h % self.one_in != 0 || self.axes == 1 { dx = 0; }
        if h % self.one_in != 0 || self.axes == 2 { dy = 0; }
        p(q.x * self.k + dx, q.y * self.k + dy)
    }
}
/// Largest coordinates of skewed inputs: differences and sums stay exact, and
/// the reference model's products stay within i128.
pub const SKEW_F64: i64 = 1 << 51;
pub const SKEW_SLAB: i64 = 1 << 40;
pub const SKEW_F32: i64 = 1 << 22;

/// Heavy tailed case size.
pub fn size(src: &mut Src, maxn: usize) -> usize {
    let n = match src.weighted(&[1500, 625, 250, 100, 25, if maxn > 300 { 1 } else { 0 }]) {
        0 => 1 + src.u(8),
        1 => 1 + src.u(24),
        2 => 10 + src.u(50),
        3 => 40 + src.u(80),
        4 => (100 + src.u(200)).min(250),
        _ => 300 + src.u(1700),
    };
    n.min(maxn)
}

/// Keep the segments (in order) for which all pairwise intersections can be
/// made integral by one scale factor within the extent `cap`; apply it.
pub fn make_exact(cand: Vec<S>, cap: i64) -> Vec<S> {
    let mut out: Vec<S> = vec![];
    let mut l: i128 = 1;
    let (mut lo, mut hi) = (p(i64::MAX, i64::MAX), p(i64::MIN, i64::MIN));
    for c in cand {
        let nlo = p(lo.x.min(c.a.x).min(c.b.x), lo.y.min(c.a.y).min(c.b.y));
        let nhi = p(hi.x.max(c.a.x).max(c.b.x), hi.y.max(c.a.y).max(c.b.y));
        let e = (nhi.x - nlo.x).max(nhi.y - nlo.y).max(1) as i128;
        if e * l > cap as i128 { continue; }
        let mut nl = l;
        let mut ok = true;
        for o in &out {
            let d = denom(*o, c);
            if nl % d != 0 { nl = lcm(nl, d); }
            if nl * e > cap as i128 { ok = false; break; }
        }
        if ok { l = nl; lo = nlo; hi = nhi; out.push(c); }
    }
    let l = l as i64;
    map_segs(&mut out, |q| p(q.x * l, q.y * l));
    out
}

/// Segments whose pairwise intersections are all integral, extent <= `cap`.
/// Returns the mode name for the distribution counters.
pub fn segments(src: &mut Src, maxn: usize, cap: i64) -> (Vec<S>, &'static str) {
    let n = size(src, maxn);
    let mut out: Vec<S> = vec![];
    // the largest ones: sparse families only, as otherwise everything meets everything
    let mode = if n > 300 { *src.pick(&[0, 1, 3, 9]) } else { src.weighted(&[4, 4, 2, 3, 3, 2, 2, 2, 2, 2]) };
    let wide = if n > 300 { 5 + n as i64 / 100 } else if n > 20 { 3 } else { 1 };
    let least = if n > 300 { n as i64 / 30 } else { 1 };
    let name;
    match mode {
        0 => {
            name = "octilinear";
            let g = (1 + src.range(least, 8 * wide)).min(cap / 8).max(1);
            for _ in 0..n {
                let a = p(src.range(0, g), src.range(0, g));
                let d = *src.pick(&[(1, 0), (0, 1), (1, 1), (1, -1)]);
                let l = src.range(0, g);
                out.push(s(a, p(a.x + d.0 * l, a.y + d.1 * l)));
            }
        }
        1 => {
            name = "dirs12";
            let g = src.range(least, 8 * wide);
            for _ in 0..n {
                let a = p(src.range(0, g), src.range(0, g));
                let d = *src.pick(&DIRS);
                let l = src.range(0, 1 + g / 2);
                out.push(s(a, p(a.x + d.0 * l, a.y + d.1 * l)));
            }
        }
        2 => {
            name = "freegrid";
            let g = src.range(1, 6 * wide);
            for _ in 0..n {
                out.push(s(p(src.range(0, g), src.range(0, g)), p(src.range(0, g), src.range(0, g))));
            }
        }
        3 => {
            name = "axis";
            let g = src.range(least, 10 * wide);
            for _ in 0..n {
                let a = p(src.range(0, g), src.range(0, g));
                let l = src.range(0, g);
                let b = if src.chance(1, 2) { p(a.x + l, a.y) } else { p(a.x, a.y + l) };
                out.push(s(a, b));
            }
        }
        4 => {
            // few carrier lines, many collinear overlapping segments
            name = "carriers";
            let k = 1 + src.u(3);
            let carriers: Vec<(P, (i64, i64))> = (0..k)
                .map(|_| (p(src.range(0, 4), src.range(0, 4)), *src.pick(&DIRS[..8])))
                .collect();
            let r = if src.chance(1, 3) { 20 } else { 7 };
            for _ in 0..n {
                let (o, d) = *src.pick(&carriers);
                let (t, u) = (src.range(0, r), src.range(0, r));
                out.push(s(p(o.x + d.0 * t, o.y + d.1 * t), p(o.x + d.0 * u, o.y + d.1 * u)));
            }
        }
        5 => {
            // pencils: many segments through / from / to few hub points
            name = "pencil";
            let k = 1 + src.u(2);
            let hubs: Vec<P> = (0..k).map(|_| p(src.range(0, 4), src.range(0, 4))).collect();
            for _ in 0..n {
                let h = *src.pick(&hubs);
                let d = *src.pick(&DIRS);
                let (t, u) = (src.range(0, 3), src.range(0, 3));
                out.push(s(p(h.x - d.0 * t, h.y - d.1 * t), p(h.x + d.0 * u, h.y + d.1 * u)));
            }
        }
        6 => {
            // polylines / closed rings: consecutive segments share end points
            name = "chain";
            let g = src.range(1, 6 * wide);
            let mut q = p(src.range(0, g), src.range(0, g));
            let first = q;
            for _ in 0..n {
                let r = if src.chance(1, 6) { first } else { p(src.range(0, g), src.range(0, g)) };
                out.push(s(q, r));
                q = r;
            }
        }
        7 => {
            // lattice of full grid lines with points and short pieces on them
            name = "grid";
            let g = src.range(1, 3 + 2 * wide);
            for _ in 0..n {
                let k = src.range(0, g);
                out.push(match src.u(6) {
                    0 | 1 => s(p(0, 2 * k), p(2 * g, 2 * k)),
                    2 | 3 => s(p(2 * k, 0), p(2 * k, 2 * g)),
                    4 => { let q = p(src.range(0, 2 * g), src.range(0, 2 * g)); s(q, q) }
                    _ => { let q = p(src.range(0, 2 * g), src.range(0, 2 * g)); s(q, p(q.x + 1, q.y + src.sym(1))) }
                });
            }
        }
        8 => {
            // nested / staggered overlaps on one line plus stabbing segments
            name = "nested";
            let d = *src.pick(&DIRS[..8]);
            let r = 4 + src.range(0, 12);
            for _ in 0..n {
                if src.chance(1, 4) {
                    let t = src.range(0, r);
                    let c = *src.pick(&DIRS[..8]);
                    let q = p(d.0 * t, d.1 * t);
                    let (u, v) = (src.range(0, 2), src.range(0, 2));
                    out.push(s(p(q.x - c.0 * u, q.y - c.1 * u), p(q.x + c.0 * v, q.y + c.1 * v)));
                } else {
                    let (t, u) = if src.chance(1, 2) { let k = src.range(0, r / 2); (k, r - k) } else { let k = src.range(0, r); (k, (k + src.range(0, 3)).min(r)) };
                    out.push(s(p(d.0 * t, d.1 * t), p(d.0 * u, d.1 * u)));
                }
            }
        }
        _ => {
            // long segments crossed by many short ones (big active sets)
            name = "longshort";
            let g = 4 + src.range(least - 1, 8 * wide);
            for _ in 0..n {
                if src.chance(1, 4) {
                    out.push(s(p(0, src.range(0, g)), p(g, src.range(0, g))));
                } else {
                    let q = p(src.range(0, g), src.range(0, g));
                    out.push(s(q, p(q.x + src.sym(2), q.y + src.sym(2))));
                }
            }
        }
    }
    // cheap variations: duplicates, reversals, points on segments
    let extra = src.weighted(&[5, 2, 1, 1]);
    for _ in 0..extra {
        let base = out[src.u(out.len())];
        let x = match src.u(4) {
            0 => base,
            1 => s(base.b, base.a),
            2 => s(base.a, base.a),
            _ => {
                // a lattice point of the segment, if it has one inside
                let d = p(base.b.x - base.a.x, base.b.y - base.a.y);
                let g = gcd(d.x.abs() as i128, d.y.abs() as i128) as i64;
                if g > 1 {
                    let t = src.range(1, g - 1);
                    let r = p(base.a.x + d.x / g * t, base.a.y + d.y / g * t);
                    s(r, r)
                } else { s(base.b, base.b) }
            }
        };
        let at = src.u(out.len() + 1);
        out.insert(at, x);
    }
    let m = affine(src);
    map_segs(&mut out, |q| apply(m, q));
    let mut out = make_exact(out, cap);
    for sg in out.iter_mut() {
        if src.chance(1, 2) { *sg = s(sg.b, sg.a); }
    }
    (out, name)
}

/// The scalar types the sweeps run on.
pub trait Sc: geo_crossings::Float + Send + Sync + 'static {
    const EXT: i64;
    const NAME: &'static str;
    fn of(v: f64) -> Self;
    fn f(self) -> f64;
    /// The next larger number.
    fn up(self) -> Self;
}
impl Sc for f64 { const EXT: i64 = EXTENT_F64; const NAME: &'static str = "f64"; fn of(v: f64) -> f64 { v } fn f(self) -> f64 { self } fn up(self) -> f64 { self.next_up() } }
impl Sc for f32 { const EXT: i64 = EXTENT_F32; const NAME: &'static str = "f32"; fn of(v: f64) -> f32 { v as f32 } fn f(self) -> f64 { self as f64 } fn up(self) -> f32 { self.next_up() } }

/// Exact embedding of the integer plane into floats: (v + offset) * 2^exp,
/// optionally writing some zeros as -0.0.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Emb { pub ox: i64, pub oy: i64, pub exp: i32, pub neg: bool }
impl Emb {
    pub const ID: Emb = Emb { ox: 0, oy: 0, exp: 0, neg: false };
    pub fn gen<T: Sc>(src: &mut Src) -> Emb {
        let small = T::EXT < 1000;
        let off = |src: &mut Src| match src.weighted(&[4, 3, 2, 1]) {
            0 => 0,
            1 => src.sym(if small { 100 } else { 100_000 }),
            2 => src.sym(if small { 1000 } else { 1 << 30 }),
            _ => src.sym(if small { 1 << 18 } else { 1 << 46 }),
        };
        let (ox, oy) = (off(src), off(src));
        let exp = match src.weighted(&[4, 3, 1]) {
            0 => 0,
            1 => src.sym(if small { 6 } else { 20 }) as i32,
            _ => src.sym(if small { 20 } else { 200 }) as i32,
        };
        Emb { ox, oy, exp, neg: src.chance(1, 8) }
    }
    pub fn to(&self, q: P) -> (f64, f64) {
        let k = 2f64.powi(self.exp);
        ((q.x + self.ox) as f64 * k, (q.y + self.oy) as f64 * k)
    }
    pub fn c<T: Sc>(&self, q: P) -> geo::Coordinate<T> { self.cs(q, 0) }
    /// The salt selects which zeros become -0.0.
    pub fn cs<T: Sc>(&self, q: P, salt: usize) -> geo::Coordinate<T> {
        let (mut x, mut y) = self.to(q);
        if self.neg && x == 0.0 && salt & 1 != 0 { x = -0.0; }
        if self.neg && y == 0.0 && salt & 2 != 0 { y = -0.0; }
        geo::Coordinate { x: T::of(x), y: T::of(y) }
    }
    pub fn back<T: Sc>(&self, c: geo::Coordinate<T>) -> Option<P> {
        let k = 2f64.powi(-self.exp);
        let f = |v: f64, o: i64| {
            let w = v * k;
            if w.fract() == 0.0 && w.abs() < 9e15 { Some(w as i64 - o) } else { None }
        };
        Some(p(f(c.x.f(), self.ox)?, f(c.y.f(), self.oy)?))
    }
}
