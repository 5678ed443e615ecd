//! Boolean operations against exact even-odd regions.
use crate::engine::*;
use crate::ex::*;
use crate::gen::*;
use crate::poly::*;
use crate::polygen;
use crate::slab::*;
use crate::tape::Src;
use geo::{LineString, MultiPolygon, Polygon};
use geo_crossings::bops::OpType;
use geo_crossings::BooleanOp;
use std::collections::BTreeSet;

pub const OPS: [OpType; 4] = [OpType::Intersection, OpType::Union, OpType::Difference, OpType::Xor];
pub fn opf(op: OpType, a: bool, b: bool) -> bool {
    match op { OpType::Intersection => a && b, OpType::Union => a || b, OpType::Difference => a && !b, OpType::Xor => a ^ b }
}
pub fn to_geo_poly<T: Sc>(q: &Poly, e: Emb, salt: usize) -> Polygon<T> {
    let rs: Vec<LineString<T>> = q.iter().enumerate().map(|(k, r)| LineString(r.iter().enumerate().map(|(i, c)| e.cs(*c, salt + k + i)).collect())).collect();
    if rs.is_empty() { return Polygon::new(LineString(vec![]), vec![]); }
    Polygon::new(rs[0].clone(), rs[1..].to_vec())
}
pub fn to_geo<T: Sc>(m: &MPoly, e: Emb, salt: usize) -> MultiPolygon<T> {
    MultiPolygon(m.iter().enumerate().map(|(k, q)| to_geo_poly(q, e, salt + k)).collect())
}
pub fn from_geo<T: Sc>(m: &MultiPolygon<T>, e: Emb) -> Result<MPoly, String> {
    let ring = |l: &LineString<T>| -> Result<Ring, String> {
        if l.0.len() < 4 { return Err(format!("output ring with {} coordinates: {l:?}", l.0.len())); }
        if l.0.first() != l.0.last() { return Err(format!("output ring is not closed: {l:?}")); }
        let v: Option<Vec<P>> = l.0.iter().map(|c| e.back(*c)).collect();
        let mut v = v.ok_or_else(|| format!("output ring has a vertex that is no vertex or crossing of the inputs: {l:?}"))?;
        v.pop();
        Ok(v)
    };
    m.0.iter().map(|q| std::iter::once(q.exterior()).chain(q.interiors()).map(|l| ring(l)).collect()).collect()
}
/// Edges that count: rings of at most 3 coordinates (closed) are no area.
pub fn eff_edges(m: &MPoly) -> Vec<S> {
    m.iter().flatten().filter(|r| closed_len(r) > 3).flat_map(|r| ring_edges(r).collect::<Vec<_>>()).collect()
}
fn closed_len(r: &Ring) -> usize { if r.is_empty() { 0 } else { r.len() + (r[0] != r[r.len() - 1]) as usize } }
fn markers(ins: &[S]) -> Vec<E> {
    let mut v = vec![];
    for i in 0..ins.len() { for j in 0..i { match intersect(ins[i], ins[j]) {
        Ix::Pt(q, true) => v.push(E { s: s(q, q), layer: 0 }),
        Ix::Frac => panic!("harness: generator produced an inexact case"),
        _ => {}
    } } }
    v
}
fn show_at(at: (i128, (i128, i128), (i128, i128))) -> String {
    let f = |v: (i128, i128)| v.0 as f64 / v.1.max(1) as f64;
    format!("x={} between y={} and y={}", at.0 as f64 / 2., f(at.1), f(at.2))
}
/// Region of the output against the pointwise combination of the inputs.
fn region(a: &MPoly, b: &MPoly, out: &MPoly, op: OpType) -> Result<usize, String> {
    let (ea, eb) = (eff_edges(a), eff_edges(b));
    let ins: Vec<S> = ea.iter().chain(&eb).copied().collect();
    let mut es: Vec<E> = ea.iter().map(|s| E { s: *s, layer: 0 }).chain(eb.iter().map(|s| E { s: *s, layer: 1 })).collect();
    let mut layer = 2;
    let mut polys: Vec<Vec<u32>> = vec![];
    for q in out { let mut v = vec![]; for r in q { for s in ring_edges(r) { es.push(E { s, layer }); } v.push(layer); layer += 1; } polys.push(v); }
    es.extend(markers(&ins));
    walk(&es, layer as usize, true, |par, at| {
        let want = opf(op, par[0], par[1]);
        let n = polys.iter().filter(|v| v.iter().filter(|&&l| par[l as usize]).count() % 2 == 1).count();
        if (n > 0) != want || n > 1 { return Err(format!("{op:?}: at {} the point is {}in the result, covered by {n} output polygons", show_at(at), if want { "" } else { "not " })); }
        Ok(())
    })
}
/// Well-formedness of the output.
fn validity(a: &MPoly, b: &MPoly, out: &MPoly) -> Result<usize, String> {
    let ins: Vec<S> = eff_edges(a).into_iter().chain(eff_edges(b)).collect();
    let mut verts: BTreeSet<P> = ins.iter().flat_map(|e| [e.a, e.b]).collect();
    for i in 0..ins.len() { for j in 0..i { if let Ix::Pt(q, _) = intersect(ins[i], ins[j]) { verts.insert(q); } } }
    let mut es: Vec<E> = vec![];
    let mut layer = 0;
    let mut polys: Vec<Vec<u32>> = vec![];
    for q in out { let mut v = vec![]; for r in q {
        if area2(r) == 0 { return Err(format!("output ring without area {r:?}")); }
        let mut w = r.clone(); w.sort(); let l = w.len(); w.dedup();
        if w.len() != l { return Err(format!("output ring visits a vertex twice {r:?}")); }
        if let Some(x) = w.iter().find(|x| !verts.contains(x)) { return Err(format!("output vertex {x:?} is no vertex or crossing of the inputs")); }
        for s in ring_edges(r) { es.push(E { s, layer }); }
        v.push(layer); layer += 1;
    } polys.push(v); }
    // rings that touch must not enclose each other in a cycle: the interior
    // of a polygon is connected
    for q in out {
        let mut id: std::collections::BTreeMap<P, usize> = Default::default();
        for v in q.iter().flatten() { let k = id.len() + q.len(); id.entry(*v).or_insert(k); }
        let mut up: Vec<usize> = (0..q.len() + id.len()).collect();
        fn root(up: &mut Vec<usize>, mut i: usize) -> usize { while up[i] != i { up[i] = up[up[i]]; i = up[i]; } i }
        for (i, r) in q.iter().enumerate() { for v in r {
            let (x, y) = (root(&mut up, i), root(&mut up, id[v]));
            if x == y { return Err(format!("the interior of an output polygon is not connected: rings touch around {v:?}")); }
            up[x] = y;
        } }
    }
    let n = es.len();
    for i in 0..n { for j in 0..i {
        let (x, y) = (es[i].s, es[j].s);
        match intersect(x, y) {
            Ix::None => {}
            Ix::Pt(q, false) if (q == x.a || q == x.b) && (q == y.a || q == y.b) => {}
            z => return Err(format!("output edges {x:?} and {y:?} meet in {z:?}")),
        }
    } }
    for o in &es { if !ins.iter().any(|i| on_seg(*i, o.s.a) && on_seg(*i, o.s.b)) { return Err(format!("output edge {:?} is not part of an input edge", o.s)); } }
    walk(&es, layer as usize, true, |par, at| {
        let mut n = 0;
        for v in &polys {
            let ext = par[v[0] as usize];
            let holes = v[1..].iter().filter(|&&h| par[h as usize]).count();
            if holes > 1 { return Err(format!("two holes of one output polygon overlap at {}", show_at(at))); }
            if holes == 1 && !ext { return Err(format!("a hole lies outside the exterior of its output polygon at {}", show_at(at))); }
            if ext && holes == 0 { n += 1; }
        }
        if n > 1 { return Err(format!("{n} output polygons overlap at {}", show_at(at))); }
        Ok(())
    })?;
    Ok(n)
}

fn soup_ring(src: &mut Src, kind: usize, g: i64) -> Ring {
    match kind {
        0 => {
            // octilinear walk
            let k = 2 + src.u(5);
            let mut q = p(src.range(0, g), src.range(0, g));
            let mut r = vec![q];
            for _ in 0..k {
                let d = *src.pick(&[(1, 0), (0, 1), (-1, 0), (0, -1), (1, 1), (-1, 1), (1, -1), (-1, -1)]);
                let l = src.range(1, 4);
                q = p(q.x + d.0 * l, q.y + d.1 * l);
                r.push(q);
            }
            r
        }
        1 => { let k = 3 + src.u(4); (0..k).map(|_| p(src.range(0, g), src.range(0, g))).collect() }
        2 => {
            // axis parallel walk, closed by a corner
            let k = 1 + src.u(4);
            let mut q = p(src.range(0, g), src.range(0, g));
            let mut r = vec![q];
            for _ in 0..k {
                q.x = src.range(0, g); r.push(q);
                q.y = src.range(0, g); r.push(q);
            }
            r.push(p(r[0].x, q.y));
            r
        }
        3 => {
            // petals around a hub: many chains meet at one vertex
            let h = p(src.range(1, g.max(2)), src.range(1, g.max(2)));
            let k = 1 + src.u(3);
            let mut r = vec![];
            for _ in 0..k {
                r.push(h);
                let (d, f) = (*src.pick(&DIRS), *src.pick(&DIRS));
                let (x, y) = (if src.chance(1, 2) { 1 } else { -1 }, if src.chance(1, 2) { 1 } else { -1 });
                let (t, u) = (src.range(1, 3), src.range(1, 3));
                r.push(p(h.x + x * d.0 * t, h.y + x * d.1 * t));
                r.push(p(h.x + y * f.0 * u, h.y + y * f.1 * u));
            }
            r
        }
        7 => {
            // lenses between common hubs: rings that touch at several vertices
            let w = g / 2;
            let hub = |i: i64| p(i * 2 * w, 0);
            let k = 1 + src.u(3);
            let c = src.u(2) as i64;
            let mut r = vec![];
            let (mut lo, mut hi) = (vec![], vec![]);
            for i in 0..k {
                let i = c + i as i64;
                let y = src.sym(4);
                lo.push(hub(i)); lo.push(p(i * 2 * w + w, y));
                let z = y + 1 + src.u(3) as i64;
                hi.push(p(i * 2 * w + w, z)); hi.push(hub(i));
            }
            lo.push(hub(c + k as i64));
            // hi was built per lens from left to right: [mid, hub] pairs
            r.extend(lo);
            for t in hi.chunks(2).rev() { r.push(t[0]); r.push(t[1]); }
            r.pop();
            r
        }
        _ => { let a = p(src.range(0, g), src.range(0, g)); let (w, h) = (src.range(1, g), src.range(1, g)); vec![a, p(a.x + w, a.y), p(a.x + w, a.y + h), p(a.x, a.y + h)] }
    }
}
fn cells_mpoly(src: &mut Src, w: usize, h: usize) -> MPoly {
    let dens = 2 + src.range(0, 6) as u64;
    let c: Vec<Vec<bool>> = (0..h).map(|_| (0..w).map(|_| src.chance(dens, 9)).collect()).collect();
    let mut rings = cell_rings(&c);
    if src.chance(1, 2) { rings = rings.iter().map(simplify_collinear).collect(); }
    // exteriors wind positively; assign holes to the smallest exterior around
    // them or leave every ring a polygon of its own (same even-odd region)
    if src.chance(1, 4) { return rings.into_iter().map(|r| vec![r]).collect(); }
    let (ext, holes): (Vec<Ring>, Vec<Ring>) = rings.into_iter().partition(|r| area2(r) > 0);
    let mut m: MPoly = ext.into_iter().map(|r| vec![r]).collect();
    for h in holes {
        if let Some(q) = m.iter_mut().filter(|q| h.iter().all(|v| polygen::in_ring(&q[0], *v) || ring_edges(&q[0]).any(|e| on_seg(e, *v)))).min_by_key(|q| area2(&q[0])) { q.push(h); } else { m.push(vec![h]); }
    }
    m
}
/// Boxes within boxes, side by side, with and without common boundaries.
fn nested(src: &mut Src, lo: P, hi: P, out: &mut Vec<Ring>) {
    let (w, h) = (hi.x - lo.x, hi.y - lo.y);
    if w < 1 || h < 1 || out.len() >= 40 { return; }
    let c = if w > 3 && h > 3 && src.chance(1, 4) { 1 } else { 0 };
    let mut r = vec![p(lo.x + c, lo.y), p(hi.x, lo.y), p(hi.x, hi.y - c), p(hi.x - c, hi.y), p(lo.x, hi.y), p(lo.x, lo.y + c)];
    r.dedup();
    if r[0] == r[r.len() - 1] { r.pop(); }
    out.push(r);
    let g = src.range(0, 1);
    let (lo, hi) = (p(lo.x + g, lo.y + g), p(hi.x - g, hi.y - src.range(0, 1)));
    match src.weighted(&[1, 2, 2, 2]) {
        0 => {}
        1 => nested(src, lo, hi, out),
        k => {
            let (f, t) = if k == 2 { (lo.x, hi.x) } else { (lo.y, hi.y) };
            if t <= f { return; }
            let (m, d) = (src.range(f, t), src.range(0, 1));
            if k == 2 { nested(src, lo, p(m, hi.y), out); nested(src, p(m + d, lo.y), hi, out); }
            else { nested(src, lo, p(hi.x, m), out); nested(src, p(lo.x, m + d), hi, out); }
        }
    }
}
fn gen_mpoly(src: &mut Src, kind: usize, small: bool) -> MPoly {
    if kind == 5 {
        let m = if !small && src.chance(1, 60) { 20 } else { 6 };
        let (w, h) = (1 + src.u(m), 1 + src.u(m));
        return cells_mpoly(src, w, h);
    }
    if kind == 8 {
        let g = if src.chance(1, 6) { 40 } else { 5 + src.range(0, 12) };
        let mut rings = vec![];
        nested(src, p(0, 0), p(g, g), &mut rings);
        // the even-odd region is the same either way
        if src.chance(1, 2) { return vec![rings]; }
        return rings.into_iter().map(|r| vec![r]).collect();
    }
    if kind == 6 { let n = if small { 6 } else { 14 }; return vec![polygen::valid_poly(src, n).0]; }
    let np = if kind == 7 { 1 + src.u(3) } else { src.weighted(&[1, 7, 3, 1]) };
    let g = if kind == 7 { 4 } else { 2 + src.range(0, 6) };
    (0..np).map(|_| {
        let nr = 1 + src.weighted(&[6, 2, 1]);
        (0..nr).map(|_| soup_ring(src, kind, g)).collect()
    }).collect()
}
/// Keep rings (in order) as long as everything stays exact; scale.
fn exactify(ms: &mut [MPoly], cap: i64) {
    let mut acc: Vec<S> = vec![];
    let mut l: i128 = 1;
    let mut bb: Option<(P, P)> = None;
    for m in ms.iter_mut() { for q in m.iter_mut() {
        q.retain(|r| {
            let es: Vec<S> = ring_edges(r).collect();
            let mut nb = bb;
            for v in r { nb = Some(match nb { None => (*v, *v), Some((lo, hi)) => (p(lo.x.min(v.x), lo.y.min(v.y)), p(hi.x.max(v.x), hi.y.max(v.y))) }); }
            let e = nb.map_or(1, |(lo, hi)| (hi.x - lo.x).max(hi.y - lo.y).max(1)) as i128;
            let mut nl = l;
            if e * nl > cap as i128 { return false; }
            for i in 0..es.len() { for o in acc.iter().chain(&es[..i]) {
                let d = denom(*o, es[i]);
                if nl % d != 0 { nl = lcm(nl, d); if nl * e > cap as i128 { return false; } }
            } }
            l = nl; bb = nb; acc.extend(es);
            true
        });
    } m.retain(|q| !q.is_empty()); }
    let l = l as i64;
    for m in ms.iter_mut() { map_mpoly(m, &|q| p(q.x * l, q.y * l)); }
}
/// Representation noise that leaves the even-odd region as it is.
fn noise(src: &mut Src, m: &mut MPoly) {
    for q in m.iter_mut() {
        for r in q.iter_mut() {
            if src.chance(1, 2) { r.reverse(); }
            let k = src.u(r.len()); r.rotate_left(k);
            match src.weighted(&[8, 1, 1, 1]) {
                1 => { let i = src.u(r.len()); let v = r[i]; r.insert(i, v); }          // repeated vertex
                2 => { let v = r[0]; r.push(v); }                                       // closed explicitly
                3 => { let i = src.u(r.len()); let (v, w) = (r[i], r[(i + 1) % r.len()]); r.insert(i + 1, w); r.insert(i + 2, v); } // spike along an edge
                _ => {}
            }
        }
        // a ring of no area
        match src.weighted(&[12, 1, 1, 1]) {
            1 => { let v = q[0][0]; q.push(vec![v]); }
            2 => { let v = q[0][0]; let w = q[0][q[0].len() - 1]; q.push(vec![v, w]); }
            3 => q.push(vec![]),
            _ => {}
        }
    }
}
pub struct Case { pub a: MPoly, pub b: MPoly, pub e: Emb, pub label: &'static str }
pub fn operands<T: Sc>(src: &mut Src, ctx: &mut Ctx, n: usize) -> (Vec<MPoly>, Emb) {
    let mut kind = src.weighted(&[4, 3, 4, 4, 3, 4, 3, 3, 3]);
    let small = T::EXT < 1000;
    if small && kind == 1 { kind = 2; }
    let label = ["octilinear soup", "free soup", "axis soup", "petals", "rectangles", "cell sets", "valid polygons", "lenses", "nested boxes"][kind];
    let mut v: Vec<MPoly> = vec![];
    for k in 0..n {
        let mut m = if k > 0 && src.chance(1, 10) { v[src.u(k)].clone() } else { gen_mpoly(src, kind, small) };
        if k > 0 {
            let (dx, dy) = if kind == 7 && src.chance(4, 5) { (0, 0) } else { (src.sym(3), src.sym(3)) };
            map_mpoly(&mut m, &|q| p(q.x + dx, q.y + dy));
            // share a ring with an earlier operand
            if src.chance(1, 8) { let o = &v[src.u(k)]; if let Some(q) = o.first() { m.push(vec![q[0].clone()]); } }
        }
        v.push(m);
    }
    let mt = affine(src);
    for m in v.iter_mut() { map_mpoly(m, &|q| apply(mt, q)); }
    exactify(&mut v, T::EXT);
    let mut e = Emb::gen::<T>(src);
    let warp = src.weighted(&[9, 1, 1]);
    if warp > 0 {
        // vertices at all crossings (and contacts), then needles, or every
        // point moved a little: exact at any coordinates
        let all: Vec<S> = v.iter().flatten().flatten().flat_map(|r| ring_edges(r).collect::<Vec<_>>()).collect();
        for r in v.iter_mut().flatten().flatten() {
            *r = (0..r.len()).map(|i| s(r[i], r[(i + 1) % r.len()])).flat_map(|g| {
                let mut c: Vec<P> = all.iter().flat_map(|o| match intersect(*o, g) { Ix::Pt(q, true) => vec![q], Ix::Pt(q, false) if warp == 2 => vec![q], Ix::Seg(x, y) if warp == 2 => vec![x, y], _ => vec![] }).filter(|q| *q != g.a && *q != g.b).collect();
                c.sort_by_key(|q| if g.a <= g.b { *q } else { p(-q.x, -q.y) });
                c.dedup();
                std::iter::once(g.a).chain(c)
            }).collect();
        }
        let m = v.iter().flatten().flatten().flatten().map(|q| q.x.abs().max(q.y.abs())).max().unwrap_or(1);
        let lim = if small { SKEW_F32 } else { SKEW_SLAB };
        if warp == 2 {
            let j = jitter(src, m, lim);
            for o in v.iter_mut() { map_mpoly(o, &|q| j.map(q)); }
            ctx.label("jittered");
        } else {
            let k = skew(src, m, lim);
            for o in v.iter_mut() { map_mpoly(o, &|q| apply(k, q)); }
            ctx.label("needles");
        }
        e.ox = 0; e.oy = 0;
    }
    for m in v.iter_mut() { noise(src, m); }
    ctx.label(label);
    ctx.label(T::NAME);
    (v, e)
}
fn show(m: &MPoly) -> String {
    m.iter().map(|q| format!("[{}]", q.iter().map(|r| format!("({})", r.iter().map(|v| format!("{} {}", v.x, v.y)).collect::<Vec<_>>().join(", "))).collect::<Vec<_>>().join(" "))).collect::<Vec<_>>().join(" + ")
}
fn classify(ctx: &mut Ctx, a: &MPoly, b: &MPoly) {
    let (ea, eb) = (eff_edges(a), eff_edges(b));
    let (mut cr, mut ov, mut selfx) = (0, 0, 0);
    for x in &ea { for y in &eb { match intersect(*x, *y) { Ix::Pt(_, true) => cr += 1, Ix::Seg(..) => ov += 1, _ => {} } } }
    for es in [&ea, &eb] { for i in 0..es.len() { for j in 0..i { if let Ix::Pt(_, true) | Ix::Seg(..) = intersect(es[i], es[j]) { selfx += 1; } } } }
    ctx.nontrivial = ea.len() >= 3 && eb.len() >= 3 && ea.iter().any(|x| eb.iter().any(|y| intersect(*x, *y) != Ix::None));
    ctx.label_if(cr > 0, "boundaries cross");
    ctx.label_if(ov > 0, "boundaries overlap");
    ctx.label_if(selfx > 0, "self-intersecting operand");
    ctx.label_if(a.iter().chain(b).any(|q| q.len() > 1), "operand with holes");
    ctx.label_if(ea.is_empty() || eb.is_empty(), "empty operand");
    ctx.label_if(ea.len() + eb.len() > 60, "60+ edges");
    ctx.label_if(ea.len() + eb.len() > 300, "300+ edges");
}
fn compute<T: Sc>(src: &mut Src, ctx: &mut Ctx, a: &MPoly, b: &MPoly, e: Emb, op: OpType) -> Result<MultiPolygon<T>, String> {
    let entry = src.u(3);
    let method = src.chance(1, 3);
    if a.len() <= 1 && b.len() <= 1 && entry > 0 {
        ctx.label("Polygon entry point");
        let empty = vec![];
        let (ga, gb): (Polygon<T>, Polygon<T>) = (to_geo_poly(a.first().unwrap_or(&empty), e, 1), to_geo_poly(b.first().unwrap_or(&empty), e, 2));
        Ok(if method { match op { OpType::Intersection => ga.intersection(&gb), OpType::Union => ga.union(&gb), OpType::Difference => ga.difference(&gb), OpType::Xor => ga.xor(&gb) } } else { ga.boolean_op(&gb, op) })
    } else {
        let (ga, gb): (MultiPolygon<T>, MultiPolygon<T>) = (to_geo(a, e, 1), to_geo(b, e, 2));
        Ok(if method { match op { OpType::Intersection => ga.intersection(&gb), OpType::Union => ga.union(&gb), OpType::Difference => ga.difference(&gb), OpType::Xor => ga.xor(&gb) } } else { ga.boolean_op(&gb, op) })
    }
}
fn bop<T: Sc>(src: &mut Src, ctx: &mut Ctx, valid: bool) -> R {
    let (v, e) = operands::<T>(src, ctx, 2);
    let (a, b) = (&v[0], &v[1]);
    let op = *src.pick(&OPS);
    ctx.input(&v);
    ctx.input(&(op as u8));
    classify(ctx, a, b);
    ctx.show(|| format!("{} {op:?} {e:?} A = {} B = {}", T::NAME, show(a), show(b)));
    let out = from_geo(&compute::<T>(src, ctx, a, b, e, op)?, e)?;
    ctx.label_if(out.is_empty(), "empty result");
    ctx.label_if(out.iter().any(|q| q.len() > 1), "result with holes");
    ctx.label_if(out.len() > 1, "result of several polygons");
    let n = if valid { validity(a, b, &out) } else { region(a, b, &out, op) }.map_err(|m| format!("{m}; output {}", show(&out)))?;
    ctx.work += n as u64;
    Ok(())
}
pub fn c08(src: &mut Src, ctx: &mut Ctx) -> R { if src.chance(1, 7) { bop::<f32>(src, ctx, false) } else { bop::<f64>(src, ctx, false) } }
pub fn c09(src: &mut Src, ctx: &mut Ctx) -> R { if src.chance(1, 7) { bop::<f32>(src, ctx, true) } else { bop::<f64>(src, ctx, true) } }

/// Histories: results are operands of later operations.
fn history<T: Sc>(src: &mut Src, ctx: &mut Ctx) -> R {
    let nb = 2 + src.u(3);
    let (base, e) = operands::<T>(src, ctx, nb);
    ctx.input(&base);
    let mut pool: Vec<MultiPolygon<T>> = base.iter().enumerate().map(|(k, m)| to_geo(m, e, k)).collect();
    let steps = 2 + src.weighted(&[4, 3, 2, 1, 1, 1, 1]);
    let mut prog: Vec<(usize, usize, OpType)> = vec![];
    for _ in 0..steps {
        // prefer recent results
        let n = pool.len();
        let i = if src.chance(1, 2) { n - 1 - src.u(n.min(2)) } else { src.u(n) };
        let j = src.u(n);
        let (i, j) = if src.chance(1, 2) { (i, j) } else { (j, i) };
        let op = *src.pick(&OPS);
        prog.push((i, j, op));
        ctx.input(&(i, j, op as u8));
        let r = guard(&format!("step {} ({op:?} of #{i} and #{j})", prog.len()), || pool[i].boolean_op(&pool[j], op));
        if r.is_err() { ctx.show(|| format!("{} {e:?} base {} program {prog:?}", T::NAME, base.iter().map(show).collect::<Vec<_>>().join(" | "))); }
        pool.push(r?);
    }
    ctx.show(|| format!("{} {e:?} base {} program {prog:?}", T::NAME, base.iter().map(show).collect::<Vec<_>>().join(" | ")));
    let ins: Vec<S> = base.iter().flat_map(eff_edges).collect();
    let mut es = markers(&ins);
    for (k, m) in base.iter().enumerate() { for s in eff_edges(m) { es.push(E { s, layer: k as u32 }); } }
    let mut some = 0;
    for (k, m) in pool.iter().enumerate().skip(base.len()) {
        let r = from_geo(m, e).map_err(|x| format!("result #{k}: {x}"))?;
        if !r.is_empty() { some += 1; }
        for s in edges(&r) { es.push(E { s, layer: k as u32 }); }
    }
    ctx.nontrivial = some >= 2 && base.iter().filter(|m| !m.is_empty()).count() >= 2;
    let n = walk(&es, pool.len(), true, |par, at| {
        let mut want: Vec<bool> = par[..base.len()].to_vec();
        for (t, &(i, j, op)) in prog.iter().enumerate() {
            let w = opf(op, want[i], want[j]);
            want.push(w);
            let k = base.len() + t;
            if par[k] != w { return Err(format!("result #{k} = {op:?} of #{i} and #{j}: wrong at {} (expected {w})", show_at(at))); }
        }
        Ok(())
    })?;
    ctx.work += n as u64;
    Ok(())
}
pub fn c10(src: &mut Src, ctx: &mut Ctx) -> R { if src.chance(1, 10) { history::<f32>(src, ctx) } else { history::<f64>(src, ctx) } }
