//! Line crossings and boolean operations in general position.
use crate::engine::*;
use crate::ex::*;
use crate::fl::*;
use crate::fuel;
use crate::gen::*;
use crate::props::cross::Cr;
use crate::tape::Src;
use geo::line_intersection::{line_intersection, LineIntersection};
use geo::Line;
use geo_crossings::*;
use std::collections::{BTreeMap, BTreeSet};

/// Sometimes parallel to an axis, or nearly so.
fn axis(src: &mut Src, m: i64, u: P, v: P) -> P { match src.u(14) { 0 => p(u.x, v.y), 1 => p(v.x, u.y), 2 => p((u.x + src.sym(9)).clamp(0, m), v.y), 3 => p(v.x, (u.y + src.sym(9)).clamp(0, m)), _ => v } }
fn scene<T: Sc>(src: &mut Src, ctx: &mut Ctx) -> Arr {
    let pr = par::<T>();
    let mut a = Arr::new(pr);
    let b = pr.bits;
    let m = 1i64 << b;
    let n = size(src, if T::EXT < 1000 { 14 } else { 90 });
    let fam = src.weighted(&[4, 3, 3, 3, 2, 3, 3]);
    ctx.label(["uniform", "short", "rings", "mesh", "fans", "close", "mixed"][fam]);
    let mut tries = 0;
    while a.segs.len() < n && tries < 2 * n + 4 {
        tries += 1;
        let f = if fam == 6 { src.u(6) } else { fam };
        match f {
            0 => { let (u, v) = (rpt(src, b), rpt(src, b)); let v = axis(src, m, u, v); a.add(s(u, v)); }
            1 => { let u = rpt(src, b); let l = m >> (1 + src.u(5)); let v = p((u.x + src.sym(l)).clamp(0, m), (u.y + src.sym(l)).clamp(0, m)); let v = axis(src, m, u, v); a.add(s(u, v)); }
            2 => { let r = ring(src, b, 12); let es: Vec<S> = (0..r.len()).map(|i| s(r[i], r[(i + 1) % r.len()])).collect(); a.add_all(&es); }
            3 => {
                if a.segs.is_empty() {
                    let (w, h) = (1 + src.u(5), 1 + src.u(4));
                    let g = jittered(src, w, h, b, 0.5);
                    let mut es = BTreeSet::new();
                    for t in triangles(src, &g) { for i in 0..3 { let (u, v) = (t[i], t[(i + 1) % 3]); es.insert((u.min(v), u.max(v))); } }
                    for (u, v) in es { if src.chance(7, 8) { a.add(s(u, v)); } }
                } else { let (u, v) = (rpt(src, b), rpt(src, b)); a.add(s(u, v)); }
            }
            5 => {
                // barely separated: ends and crossings close to other features,
                // small angles
                let d = a.delta as i64;
                let mut near = |q: (f64, f64)| { let r = d * src.range(1, 12); let (i, j) = (src.sym(r), src.sym(r)); p((q.0 as i64 + i).clamp(0, m), (q.1 as i64 + j).clamp(0, m)) };
                if a.segs.is_empty() { let (u, v) = (rpt(src, b), rpt(src, b)); a.add(s(u, v)); continue; }
                let fe = |q: P| (q.x as f64, q.y as f64);
                let on = |o: S, t: f64| (o.a.x as f64 + t * (o.b.x - o.a.x) as f64, o.a.y as f64 + t * (o.b.y - o.a.y) as f64);
                let o = a.segs[a.segs.len() / 2];
                let l = *a.segs.last().unwrap();
                let q = a.cross.last().map_or(fe(o.a), |c| (c.2, c.3));
                let (u, w) = (near(q), near(on(l, 0.3)));
                let (x, y) = (near(fe(o.a)), near(fe(o.b)));
                match src.u(5) {
                    0 => a.add(s(u, w)),
                    1 => { let v = rpt(src, b); a.add(s(u, v)) }
                    2 => { let v = rpt(src, b); a.add(s(w, v)) }
                    3 => a.add(s(x, y)),
                    _ => { // a small angle
                        let t = src.range(1, 20) as f64 * a.par.smin;
                        let k = a.par.smin * 3.;
                        let (ox, oy) = (-(o.b.y - o.a.y) as f64 * k, (o.b.x - o.a.x) as f64 * k);
                        let (e, f) = (on(o, t), on(o, 1. - t));
                        a.add(s(clampp((e.0 + ox, e.1 + oy), b), clampp((f.0 - ox, f.1 - oy), b)))
                    }
                };
            }
            _ => {
                // a segment from an end of another one
                let u = if a.segs.is_empty() || src.chance(1, 3) { rpt(src, b) } else { let o = a.segs[src.u(a.segs.len())]; if src.chance(1, 2) { o.a } else { o.b } };
                let v = rpt(src, b);
                a.add(s(u, v));
            }
        }
        if !a.segs.is_empty() {
            match src.u(16) {
                0 => { let o = a.segs[src.u(a.segs.len())]; a.add(s(o.b, o.a)); }
                1 => { let o = a.segs[src.u(a.segs.len())]; a.add(s(o.a, o.a)); }
                2 => { let q = rpt(src, b); a.add(s(q, q)); }
                _ => {}
            }
        }
    }
    a
}
pub fn gemb<T: Sc>(src: &mut Src, bits: u32) -> Emb {
    let e = if src.chance(1, 2) { -(bits as i32) } else if T::EXT < 1000 { src.sym(10) as i32 - bits as i32 } else { src.sym(80) as i32 - bits as i32 };
    let off = if src.chance(1, 2) { 0 } else { -(1i64 << bits >> src.u(3)) };
    Emb { ox: off, oy: if src.chance(1, 2) { off } else { 0 }, exp: e, neg: false }
}
fn crossings<T: Sc>(src: &mut Src, ctx: &mut Ctx) -> R {
    let a = scene::<T>(src, ctx);
    let segs = &a.segs;
    let n = segs.len();
    let e = gemb::<T>(src, a.par.bits);
    ctx.label(T::NAME);
    ctx.input(segs);
    ctx.label(match n { 0..=2 => "n=0-2", 3..=8 => "n=3-8", 9..=24 => "n=9-24", _ => "n>24" });
    ctx.label_if(a.cross.len() >= 50, "50+ crossings");
    ctx.nontrivial = n >= 3 && !a.cross.is_empty();
    ctx.show(|| format!("{} {e:?} segments {}", T::NAME, crate::props::cross::show_segs(segs)));
    let inp: Vec<Cr<T>> = segs.iter().enumerate().map(|(id, g)| Cr { id, l: Line::new(e.c(g.a), e.c(g.b)) }).collect();
    // positions in units of the generator
    let k = 2f64.powi(-e.exp);
    let un = |c: geo::Coordinate<T>| (c.x.f() * k - e.ox as f64, c.y.f() * k - e.oy as f64);
    let tol = a.delta / 16.;
    // expected pairs
    let mut want: BTreeMap<(usize, usize), (u8, f64, f64)> = BTreeMap::new();
    for j in 0..n { for i in 0..j {
        let (u, v) = (segs[i], segs[j]);
        match intersect(u, v) {
            Ix::None => {}
            Ix::Pt(q, false) => { want.insert((i, j), (0, q.x as f64, q.y as f64)); }
            Ix::Pt(_, true) | Ix::Frac => { let q = crossing(u, v); want.insert((i, j), (1, q.0, q.1)); }
            Ix::Seg(q, _) => { want.insert((i, j), (2, q.x as f64, q.y as f64)); }
        }
    } }
    ctx.work += want.len() as u64;
    // the event points: ends, crossings (one per group of equal segments)
    let mut pts: Vec<(f64, f64)> = segs.iter().flat_map(|g| [g.a, g.b]).collect::<BTreeSet<_>>().into_iter().map(|q| (q.x as f64, q.y as f64)).collect();
    let nends = pts.len();
    for w in want.values() { if w.0 == 1 && !pts[nends..].iter().any(|q| (q.0 - w.1).hypot(q.1 - w.2) < a.delta / 2.) { pts.push((w.1, w.2)); } }
    // the sweep
    let mut filt = (BTreeSet::new(), BTreeMap::new());
    let mut seen = vec![false; pts.len()];
    let mut last: Option<geo::Coordinate<T>> = None;
    let mut it: CrossingsIter<&Cr<T>> = inp.iter().collect();
    while let Some(c) = it.next() {
        if let Some(l) = last { if !((l.x, l.y) < (c.x, c.y)) { return Err(format!("{c:?} yielded after {l:?}")); } }
        last = Some(c);
        let q = un(c);
        let Some(i) = (0..pts.len()).find(|&i| (pts[i].0 - q.0).hypot(pts[i].1 - q.1) <= if i < nends { 0. } else { tol }) else { return Err(format!("yielded {c:?} ({q:?}), which is no end point or crossing")) };
        if seen[i] { return Err(format!("point {:?} yielded twice", pts[i])); }
        seen[i] = true;
        let v = it.intersections();
        let ids: BTreeSet<usize> = v.iter().map(|x| x.crossable.id).collect();
        let inc: BTreeSet<usize> = (0..n).filter(|&j| dist(segs[j], pts[i]) <= a.delta / 2.).collect();
        if ids != inc { return Err(format!("at {:?}: reported segments {ids:?}, incident are {inc:?}", pts[i])); }
        for x in v.iter() {
            let g = x.line.line();
            let end = if x.at_left { g.start } else { g.end };
            if end != c { return Err(format!("at {c:?}: piece {x:?} neither starts nor ends here")); }
            for w in [g.start, g.end] { if dist(segs[x.crossable.id], un(w)) > tol { return Err(format!("at {c:?}: piece {x:?} is not part of its input")); } }
        }
        // pairs kept by the flags, and lines cut when their left end is reached
        for i in 0..v.len() {
            let mut ov = v[i].has_overlap;
            for j in i + 1..v.len() {
                let (x, y) = (&v[i], &v[j]);
                let kept = if ov { x.at_left && (x.first_segment || y.first_segment) } else { (!x.at_left || x.first_segment) && (!y.at_left || y.first_segment) };
                if kept { let (i, j) = (x.crossable.id, y.crossable.id); *filt.1.entry((i.min(j), i.max(j))).or_insert(0) += 1; }
                ov = ov && v[j].has_overlap;
            }
            let x = &v[i];
            let id = x.crossable.id;
            if x.at_left && !x.first_segment && e.c::<T>(segs[id].lo()) == c && x.line.line().end != e.c::<T>(segs[id].hi()) { filt.0.insert(id); }
        }
    }
    if let Some(i) = seen.iter().position(|b| !b) { return Err(format!("point {:?} not yielded", pts[i])); }
    // the pairs
    let mut got: BTreeMap<(usize, usize), usize> = BTreeMap::new();
    for (x, y, l) in inp.iter().collect::<Intersections<&Cr<T>>>() {
        let key = (x.id.min(y.id), x.id.max(y.id));
        let Some(&(kind, wx, wy)) = want.get(&key) else { return Err(format!("pair {key:?} reported, but does not intersect")) };
        *got.entry(key).or_insert(0) += 1;
        let ok = match l {
            LineIntersection::SinglePoint { intersection: q, is_proper } => { let q = un(q); kind == is_proper as u8 && (q.0 - wx).hypot(q.1 - wy) <= if kind == 0 { 0. } else { tol } }
            LineIntersection::Collinear { intersection: o } => { let (u, v) = (un(o.start), un(o.end)); let (h, g) = (segs[key.0].hi(), segs[key.0].lo()); kind == 2 && [u, v].contains(&(g.x as f64, g.y as f64)) && [u, v].contains(&(h.x as f64, h.y as f64)) || kind == 0 && u == v && u == (wx, wy) }
        };
        if !ok { return Err(format!("pair {key:?} reported as {l:?}, it is {:?}", want[&key])); }
        if line_intersection(x.l, y.l) != Some(l) { return Err(format!("pair {key:?} reported as {l:?}, line_intersection of the two yields {:?}", line_intersection(x.l, y.l))); }
        fuel::tick();
    }
    for (key, w) in &want {
        match got.get(key) {
            Some(1) => {}
            Some(c) => return Err(format!("pair {key:?} reported {c} times")),
            None => {
                let f = p(w.1 as i64, w.2 as i64);
                let tol = w.0 != 1 && !filt.1.contains_key(key) && [key.0, key.1].iter().any(|m| filt.0.contains(m) && segs[*m].lo() == f);
                if !tol { return Err(format!("intersecting pair {key:?} is missing")); }
                ctx.known("D1", 1);
            }
        }
    }
    Ok(())
}
pub fn c06(src: &mut Src, ctx: &mut Ctx) -> R { if src.chance(1, 6) { crossings::<f32>(src, ctx) } else { crossings::<f64>(src, ctx) } }

// ---- boolean operations -------------------------------------------------
use crate::poly::*;
use crate::props::boolean::{opf, to_geo, to_geo_poly, OPS};
use geo::{LineString, MultiPolygon, Polygon};

fn edges_of(r: &[P]) -> Vec<S> { (0..r.len()).map(|i| s(r[i], r[(i + 1) % r.len()])).collect() }
fn parity(es: &[S], q: P) -> bool {
    let mut c = false;
    for e in es {
        if (e.a.y > q.y) != (e.b.y > q.y) {
            let (l, h) = if e.a.y < e.b.y { (e.a, e.b) } else { (e.b, e.a) };
            if orient(l, h, q) > 0 { c = !c; }
        }
    }
    c
}
fn parity_f(r: &[(f64, f64)], q: P) -> bool {
    let (x, y) = (q.x as f64, q.y as f64);
    let mut c = false;
    for w in r.windows(2) {
        if (w[0].1 > y) != (w[1].1 > y) {
            let (l, h) = if w[0].1 < w[1].1 { (w[0], w[1]) } else { (w[1], w[0]) };
            if (l.0 - x) * (h.1 - y) - (l.1 - y) * (h.0 - x) > 0. { c = !c; }
        }
    }
    c
}
fn bool_scene<T: Sc>(src: &mut Src, ctx: &mut Ctx) -> (Arr, [MPoly; 2]) {
    let pr = par::<T>();
    let mut a = Arr::new(pr);
    let b = pr.bits;
    let small = T::EXT < 1000;
    let fam = src.weighted(&[4, 3, 3, 2]);
    ctx.label(["rings", "rings with holes", "triangle mesh", "mesh and rings"][fam]);
    let mut ops: [MPoly; 2] = [vec![], vec![]];
    if fam >= 2 {
        // triangles of one mesh: equal edges, equal vertices; no crossings
        let (w, h) = if small { (1 + src.u(2), 1 + src.u(2)) } else { (1 + src.u(6), 1 + src.u(6)) };
        let g = jittered(src, w, h, b, 0.6);
        let d = [2 + src.range(0, 6) as u64, 2 + src.range(0, 6) as u64];
        let only_first = fam == 3;
        for t in triangles(src, &g) {
            for k in 0..if only_first { 1 } else { 2 } {
                if src.chance(d[k], 9) && a.add_all(&edges_of(&t)) {
                    let mut t = t.to_vec();
                    if src.chance(1, 2) { t.reverse(); }
                    let r = src.u(3);
                    t.rotate_left(r);
                    // a polygon of its own, or a further ring of an earlier one
                    if !ops[k].is_empty() && src.chance(1, 6) { let i = src.u(ops[k].len()); ops[k][i].push(t); } else { ops[k].push(vec![t]); }
                }
            }
        }
    }
    if fam != 2 {
        let n = if small { 1 + src.u(3) } else { 2 + src.weighted(&[4, 4, 2, 1, 1, 1]) };
        let maxv = if small { 5 } else { *src.pick(&[5usize, 9, 30]) };
        let mut tries = 0;
        let mut got = 0;
        while got < n && tries < 3 * n + 3 {
            tries += 1;
            let r = ring(src, b, maxv);
            if r.len() < 3 || !a.add_all(&edges_of(&r)) { continue; }
            let k = if ops[0].is_empty() { 0 } else if ops[1].is_empty() { 1 } else { src.u(2) };
            if fam == 1 && !ops[k].is_empty() && src.chance(1, 2) { let i = src.u(ops[k].len()); ops[k][i].push(r); } else { ops[k].push(vec![r]); }
            got += 1;
        }
    }
    (a, ops)
}
fn bops<T: Sc>(src: &mut Src, ctx: &mut Ctx) -> R {
    let (a, ops) = bool_scene::<T>(src, ctx);
    let e = gemb::<T>(src, a.par.bits);
    ctx.label(T::NAME);
    ctx.input(&ops);
    let op = *src.pick(&OPS);
    ctx.input(&(op as u8));
    ctx.nontrivial = !ops[0].is_empty() && !ops[1].is_empty() && (a.cross.len() >= 2 || a.segs.len() >= 12);
    ctx.label_if(a.cross.len() >= 20, "20+ crossings");
    ctx.label_if(a.segs.len() >= 60, "60+ edges");
    ctx.show(|| format!("{} {op:?} {e:?} A = {:?} B = {:?}", T::NAME, ops[0], ops[1]));
    let es: Vec<Vec<S>> = ops.iter().map(|m| m.iter().flatten().flat_map(|r| edges_of(r)).collect()).collect();
    let polys = ops.iter().all(|m| m.len() <= 1) && src.chance(1, 2);
    let out: MultiPolygon<T> = if polys {
        let none = vec![];
        let (x, y): (Polygon<T>, Polygon<T>) = (to_geo_poly(ops[0].first().unwrap_or(&none), e, 0), to_geo_poly(ops[1].first().unwrap_or(&none), e, 0));
        x.boolean_op(&y, op)
    } else { to_geo::<T>(&ops[0], e, 0).boolean_op(&to_geo::<T>(&ops[1], e, 0), op) };
    let k = 2f64.powi(-e.exp);
    let tol = a.delta / 64.;
    // exactly these vertices, or near a crossing
    let verts: BTreeSet<(u64, u64)> = a.segs.iter().flat_map(|g| [g.a, g.b]).map(|q| { ((q.x as f64).to_bits(), (q.y as f64).to_bits()) }).collect();
    let mut res: Vec<Vec<Vec<(f64, f64)>>> = vec![];
    for q in &out.0 {
        let mut v = vec![];
        for l in std::iter::once(q.exterior()).chain(q.interiors()) {
            let l: &LineString<T> = l;
            if l.0.len() < 4 || l.0.first() != l.0.last() { return Err(format!("{op:?}: output ring is not closed or has no area: {l:?}")); }
            let r: Vec<(f64, f64)> = l.0.iter().map(|c| (c.x.f() * k - e.ox as f64, c.y.f() * k - e.oy as f64)).collect();
            for (i, q) in r[1..].iter().enumerate() {
                if !verts.contains(&(q.0.to_bits(), q.1.to_bits())) && !a.cross.iter().any(|c| (c.2 - q.0).hypot(c.3 - q.1) <= tol) { return Err(format!("{op:?}: output vertex {q:?} is no vertex or crossing of the operands")); }
                if r[1..][..i].contains(q) { return Err(format!("{op:?}: output ring visits {q:?} twice")); }
                if !a.segs.iter().any(|g| dist(*g, *q) <= tol && dist(*g, r[i]) <= tol) { return Err(format!("{op:?}: output edge {:?} {q:?} is not part of an operand edge", r[i])); }
            }
            v.push(r);
        }
        res.push(v);
    }
    // samples on both sides of every piece of every edge
    for (i, g) in a.segs.iter().enumerate() {
        let (dx, dy) = ((g.b.x - g.a.x) as f64, (g.b.y - g.a.y) as f64);
        let l = dx.hypot(dy);
        let mut ts = vec![0., 1.];
        for c in &a.cross { if c.0 == i || c.1 == i { ts.push(((c.2 - g.a.x as f64) * dx + (c.3 - g.a.y as f64) * dy) / (l * l)); } }
        ts.sort_by(|x, y| x.partial_cmp(y).unwrap());
        for w in ts.windows(2) {
            let t = (w[0] + w[1]) / 2.;
            for side in [-1., 1.] {
                let o = side * a.delta / 4. / l;
                let q = p((g.a.x as f64 + t * dx - o * dy).round() as i64, (g.a.y as f64 + t * dy + o * dx).round() as i64);
                if a.segs.iter().any(|h| dist(*h, (q.x as f64, q.y as f64)) <= tol) { continue; }
                ctx.work += 1;
                let want = opf(op, parity(&es[0], q), parity(&es[1], q));
                let n = res.iter().filter(|v| v.iter().filter(|r| parity_f(r, q)).count() % 2 == 1).count();
                if (n > 0) != want || n > 1 { return Err(format!("{op:?}: at ({},{}) the point is {}in the result, covered by {n} output polygons", q.x, q.y, if want { "" } else { "not " })); }
            }
        }
    }
    Ok(())
}
pub fn c11(src: &mut Src, ctx: &mut Ctx) -> R { if src.chance(1, 6) { bops::<f32>(src, ctx) } else { bops::<f64>(src, ctx) } }
