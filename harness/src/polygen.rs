//! Generators of *valid* integer polygons (simple rings, holes strictly
//! inside, every vertex of degree two), the domain of `monotone_chains`.
use crate::ex::*;
use crate::gen::affine;
use crate::poly::*;
use crate::tape::Src;

/// Is `rings` a valid polygon: ring 0 the exterior, the rest holes strictly
/// inside it and outside each other, no two edges meeting except consecutive
/// ones at their shared vertex.  (Collinear consecutive edges are fine as long
/// as they do not fold back.)
pub fn is_valid(rings: &Poly) -> bool {
    if rings.is_empty() || rings.iter().any(|r| r.len() < 3) { return false; }
    let mut es: Vec<(usize, usize, S)> = vec![];
    for (ri, r) in rings.iter().enumerate() {
        for i in 0..r.len() {
            let e = s(r[i], r[(i + 1) % r.len()]);
            if e.is_pt() { return false; }
            es.push((ri, i, e));
        }
    }
    for i in 0..es.len() {
        for j in 0..i {
            let (ra, ia, ea) = es[i];
            let (rb, ib, eb) = es[j];
            let n = rings[ra].len();
            match intersect(ea, eb) {
                Ix::None => {}
                Ix::Pt(q, false) => {
                    let ok = ra == rb
                        && (((ia + 1) % n == ib && q == ea.b && q == eb.a)
                            || ((ib + 1) % n == ia && q == eb.b && q == ea.a));
                    if !ok { return false; }
                }
                _ => return false,
            }
        }
    }
    for h in 1..rings.len() {
        if !in_ring(&rings[0], rings[h][0]) { return false; }
        for k in 1..rings.len() {
            if k != h && in_ring(&rings[k], rings[h][0]) { return false; }
        }
    }
    true
}

/// Even-odd point in ring (points on the boundary: unspecified).
pub fn in_ring(r: &Ring, q: P) -> bool {
    let mut c = false;
    for i in 0..r.len() {
        let (a, b) = (r[i], r[(i + 1) % r.len()]);
        if (a.y > q.y) != (b.y > q.y) {
            let (lo, hi) = if a.y < b.y { (a, b) } else { (b, a) };
            if orient(lo, hi, q) > 0 { c = !c; }
        }
    }
    c
}

fn in_tri(a: P, b: P, c: P, q: P) -> bool {
    let (x, y, z) = (orient(a, b, q), orient(b, c, q), orient(c, a, q));
    !((x < 0 || y < 0 || z < 0) && (x > 0 || y > 0 || z > 0))
}

/// Try to insert `q` into edge `i` of ring `ri`, keeping the polygon valid.
pub fn try_insert(rings: &mut Poly, ri: usize, i: usize, q: P) -> bool {
    let n = rings[ri].len();
    let (a, b) = (rings[ri][i], rings[ri][(i + 1) % n]);
    if q == a || q == b { return false; }
    let (e1, e2) = (s(a, q), s(q, b));
    match intersect(e1, e2) { Ix::Pt(x, false) if x == q => {} _ => return false }
    for (rj, r) in rings.iter().enumerate() {
        let m = r.len();
        for j in 0..m {
            if rj == ri && j == i { continue; }
            let e = s(r[j], r[(j + 1) % m]);
            let prev = rj == ri && (j + 1) % m == i;
            let next = rj == ri && (i + 1) % m == j;
            match intersect(e, e1) {
                Ix::None => {}
                Ix::Pt(x, false) if prev && x == a => {}
                _ => return false,
            }
            match intersect(e, e2) {
                Ix::None => {}
                Ix::Pt(x, false) if next && x == b => {}
                _ => return false,
            }
            if rj != ri && in_tri(a, q, b, r[j]) { return false; }
        }
    }
    // a hole must stay inside the exterior: the moved boundary has not passed
    // over another ring (checked above), so only a degenerate sweep is left
    rings[ri].insert(i + 1, q);
    true
}

fn grid_pt(src: &mut Src, g: i64) -> P { p(src.range(0, g), src.range(0, g)) }

/// Random growth of a triangle by edge insertions; holes likewise.
pub fn grown(src: &mut Src, maxv: usize, maxh: usize, g: i64) -> Poly {
    let mut rings: Poly = vec![];
    for _ in 0..8 {
        let t = vec![grid_pt(src, g), grid_pt(src, g), grid_pt(src, g)];
        if orient(t[0], t[1], t[2]) != 0 { rings.push(t); break; }
    }
    if rings.is_empty() { rings.push(vec![p(0, 0), p(g, 0), p(0, g)]); }
    let steps = src.u(maxv + 1);
    let nh = if maxh == 0 { 0 } else { src.u(maxh + 1) };
    let hole_at: Vec<usize> = (0..nh).map(|_| src.u(steps + 1)).collect();
    for st in 0..=steps {
        for &h in &hole_at {
            if h != st { continue; }
            // a small triangle strictly inside
            for _ in 0..6 {
                let c = grid_pt(src, g);
                let k = 1 + g / 8;
                let t = vec![c, p(c.x + src.sym(k), c.y + src.sym(k)), p(c.x + src.sym(k), c.y + src.sym(k))];
                if orient(t[0], t[1], t[2]) == 0 { continue; }
                let mut cand = rings.clone();
                cand.push(t);
                if is_valid(&cand) { rings = cand; break; }
            }
        }
        for _ in 0..3 {
            let ri = if rings.len() > 1 && src.chance(1, 3) { 1 + src.u(rings.len() - 1) } else { 0 };
            let i = src.u(rings[ri].len());
            let n = rings[ri].len();
            let (a, b) = (rings[ri][i], rings[ri][(i + 1) % n]);
            let q = match src.weighted(&[4, 3, 1]) {
                0 => grid_pt(src, g),
                1 => {
                    let k = 1 + g / 6;
                    p((a.x + b.x) / 2 + src.sym(k), (a.y + b.y) / 2 + src.sym(k))
                }
                _ => {
                    let d = gcd((b.x - a.x).abs() as i128, (b.y - a.y).abs() as i128) as i64;
                    if d < 2 { continue; }
                    let t = src.range(1, d - 1);
                    p(a.x + (b.x - a.x) / d * t, a.y + (b.y - a.y) / d * t)
                }
            };
            if try_insert(&mut rings, ri, i, q) { break; }
        }
    }
    rings
}

/// Two x-monotone chains: sawtooth above and below a gap.
fn comb(src: &mut Src, maxv: usize) -> Poly {
    let n = 1 + src.u(maxv / 2 + 1) as i64;
    let amp = 1 + src.range(0, 12);
    let mut top = vec![];
    let mut bot = vec![];
    let step = 1 + src.range(0, 3);
    for i in 0..=n {
        top.push(p(i * step, 1 + src.range(0, amp)));
        bot.push(p(i * step, -1 - src.range(0, amp)));
    }
    top.reverse();
    bot.extend(top);
    vec![bot]
}
/// A serpentine of cells: deep alternating notches giving many splits and merges.
fn teeth(src: &mut Src, maxv: usize) -> Poly {
    let rows = 1 + src.u(maxv / 4 + 1).min(if maxv > 200 { 60 } else { 12 });
    let w = 2 + src.u(5);
    let mut c = vec![vec![false; w]; 2 * rows - 1];
    for y in 0..2 * rows - 1 { for x in 0..w {
        c[y][x] = y % 2 == 0 || x == if y % 4 == 1 { w - 1 } else { 0 };
    } }
    // shorten some free ends
    let mut r = cell_rings(&c);
    r.sort_by_key(|r| -area2(r));
    let mut r: Poly = r.iter().map(simplify_collinear).collect();
    for q in r.iter_mut().flatten() { *q = p(q.x * 6 + src.range(0, 2), q.y * 6 + src.range(0, 2)); }
    r
}
/// A box with many small holes.
fn sieve(src: &mut Src, maxv: usize) -> Poly {
    let (w, h) = (1 + src.u(5) as i64, 1 + src.u(1 + maxv / 12) as i64);
    let sk = src.range(0, 2);
    let mut v = vec![vec![p(0, 0), p(10 * w + sk, 0), p(10 * w + 2 * sk, 10 * h), p(sk, 10 * h + 1)]];
    for x in 0..w { for y in 0..h {
        if src.chance(1, 4) { continue; }
        let mut t: Vec<P> = (0..3 + src.u(2)).map(|i| { let (dx, dy) = [(0, 0), (1, 0), (1, 1), (0, 1)][i]; p(10 * x + 4 + 3 * dx + src.range(0, 1), 10 * y + 1 + 4 * dy + src.range(0, 2)) }).collect();
        t.dedup();
        if t.len() >= 3 && area2(&t) != 0 { v.push(t); }
    } }
    v
}
fn star(src: &mut Src, maxv: usize) -> Poly {
    let n = 3 + src.u(maxv);
    let r = 1000i64;
    let mut v: Vec<P> = vec![];
    for i in 0..n {
        let t = std::f64::consts::TAU * i as f64 / n as f64;
        let q = 100 + src.range(0, r) ;
        v.push(p((q as f64 * t.cos()).round() as i64, (q as f64 * t.sin()).round() as i64));
    }
    v.dedup();
    vec![v]
}
fn spiral(src: &mut Src, maxv: usize) -> Poly {
    let turns = 1 + src.u(maxv / 6 + 1) as i64;
    let mut outer = vec![];
    let mut inner = vec![];
    let d = 10;
    for k in 0..turns {
        let o = k * d;
        let m = 100 * turns;
        outer.extend([p(o, o), p(m - o, o), p(m - o, m - o), p(o, m - o)]);
        let o2 = o + 4;
        inner.extend([p(o2 - if k == 0 { 0 } else { 0 }, o + 4), p(m - o2, o + 4), p(m - o2, m - o2), p(o2, m - o2)]);
        // shift the closing corner down a lane
        let l = outer.len();
        outer[l - 1] = p(o, m - o);
        let l = outer.len();
        let _ = l;
    }
    // build a real spiral out of both polylines: follow outer inwards with the
    // last corner of each turn moved to the next lane, then inner back.
    let mut v = vec![];
    for k in 0..turns {
        let o = k * d;
        let m = 100 * turns;
        if k == 0 { v.push(p(0, 0)); } else { v.push(p(o - d, o)); }
        v.push(p(m - o, o)); v.push(p(m - o, m - o)); v.push(p(o, m - o));
    }
    for k in (0..turns).rev() {
        let o = k * d + 4;
        let m = 100 * turns;
        v.push(p(o, m - o)); v.push(p(m - o, m - o)); v.push(p(m - o, o));
        if k == 0 { v.push(p(0, 4)); } else { v.push(p(o - d, o)); }
    }
    vec![v]
}
/// Boundary of a random set of cells without diagonal contacts.
pub fn polyomino(src: &mut Src, w: usize, h: usize) -> Poly {
    let mut c = vec![vec![false; w]; h];
    let dens = 3 + src.range(0, 5) as u64;
    for row in c.iter_mut() { for v in row.iter_mut() { *v = src.chance(dens, 9); } }
    // keep one 4-connected component
    let (mut bx, mut by, mut best) = (0, 0, 0);
    let mut seen = vec![vec![false; w]; h];
    let flood = |x: usize, y: usize, c: &Vec<Vec<bool>>, seen: &mut Vec<Vec<bool>>| {
        let mut st = vec![(x, y)]; let mut out = vec![]; seen[y][x] = true;
        while let Some((x, y)) = st.pop() {
            out.push((x, y));
            let mut nb = vec![];
            if x > 0 { nb.push((x - 1, y)); } if y > 0 { nb.push((x, y - 1)); }
            if x + 1 < w { nb.push((x + 1, y)); } if y + 1 < h { nb.push((x, y + 1)); }
            for (a, b) in nb { if c[b][a] && !seen[b][a] { seen[b][a] = true; st.push((a, b)); } }
        }
        out
    };
    for y in 0..h { for x in 0..w { if c[y][x] && !seen[y][x] {
        let n = flood(x, y, &c, &mut seen).len();
        if n > best { best = n; bx = x; by = y; }
    } } }
    if best == 0 { c[0][0] = true; bx = 0; by = 0; }
    let mut seen = vec![vec![false; w]; h];
    let comp = flood(bx, by, &c, &mut seen);
    let mut k = vec![vec![false; w]; h];
    for (x, y) in comp { k[y][x] = true; }
    // fill diagonal contacts until there are none
    loop {
        let mut ch = false;
        for y in 0..h - 1 { for x in 0..w - 1 {
            let (a, b, d, e) = (k[y][x], k[y][x + 1], k[y + 1][x], k[y + 1][x + 1]);
            if a && e && !b && !d { k[y][x + 1] = true; ch = true; }
            if b && d && !a && !e { k[y][x] = true; ch = true; }
        } }
        if !ch { break; }
    }
    let mut rings = cell_rings(&k);
    rings.sort_by_key(|r| -area2(r)); // exterior: largest positive
    if src.chance(2, 3) { rings = rings.iter().map(simplify_collinear).collect(); }
    rings
}

/// A valid polygon of a random family.  Returns its family name.
pub fn valid_poly(src: &mut Src, maxv: usize) -> (Poly, &'static str) {
    let (mut rings, name) = match src.weighted(&[10, 4, 4, 4, 4, 6, 2, 4]) {
        0 => { let g = 3 + src.range(0, 9); (grown(src, maxv, 3, g), "grown-small") }
        1 => { let g = 20 + src.range(0, 40); (grown(src, maxv, 4, g), "grown-mid") }
        2 => {
            let g = *src.pick(&[1_000_000i64, 1 << 20, 1 << 30]);
            (grown(src, maxv, 3, g), "grown-large")
        }
        3 => (comb(src, maxv), "comb"),
        4 => if src.chance(1, 2) { (teeth(src, maxv), "teeth") } else { (star(src, maxv), "star") },
        5 => {
            let m = if maxv > 200 { 24 } else { 8 };
            let (w, h) = (1 + src.u(m), 1 + src.u(m));
            (polyomino(src, w.max(2), h.max(2)), "polyomino")
        }
        6 => (spiral(src, maxv), "spiral"),
        _ => (sieve(src, maxv), "sieve"),
    };
    let m = affine(src);
    for q in rings.iter_mut().flatten() { *q = crate::gen::apply(m, *q); }
    if !is_valid(&rings) {
        // families that are not valid by construction fall back to a grown one
        rings = grown(src, maxv, 2, 8);
        debug_assert!(is_valid(&rings));
        return (rings, "fallback");
    }
    // jitter some vertices where that keeps it valid
    let jit = src.weighted(&[3, 2, 1]);
    if jit > 0 && rings.iter().map(|r| r.len()).sum::<usize>() <= 60 {
        let sc = 4;
        for q in rings.iter_mut().flatten() { *q = p(q.x * sc, q.y * sc); }
        for _ in 0..jit * 4 {
            let ri = src.u(rings.len());
            let i = src.u(rings[ri].len());
            let d = p(src.sym(3), src.sym(3));
            let old = rings[ri][i];
            rings[ri][i] = p(old.x + d.x, old.y + d.y);
            if !is_valid(&rings) { rings[ri][i] = old; }
        }
    }
    for r in rings.iter_mut() {
        if src.chance(1, 2) { r.reverse(); }
        let k = src.u(r.len());
        r.rotate_left(k);
    }
    (rings, name)
}
