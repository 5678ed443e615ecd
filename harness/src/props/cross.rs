//! Line crossings: `Intersections` and `CrossingsIter` against the exact model.
use crate::engine::*;
use crate::ex::*;
use crate::fuel;
use crate::gen::*;
use crate::tape::Src;
use geo::line_intersection::{line_intersection, LineIntersection};
use geo::{Coordinate, Line};
use geo_crossings::*;
use std::collections::{BTreeMap, BTreeSet};

/// A user type: an identified line.  Every use ticks the step fuel, so a sweep
/// that never ends is stopped at a deterministic count.
#[derive(Debug)]
pub struct Cr<T: Sc> { pub id: usize, pub l: Line<T> }
impl<T: Sc> Clone for Cr<T> { fn clone(&self) -> Self { fuel::tick(); Cr { id: self.id, l: self.l } } }
impl<T: Sc> Crossable for Cr<T> {
    type Scalar = T;
    fn line(&self) -> Line<T> { fuel::tick(); self.l }
}
pub fn input<T: Sc>(segs: &[S], e: Emb) -> Vec<Cr<T>> {
    segs.iter().enumerate().map(|(id, sg)| Cr { id, l: Line::new(e.cs(sg.a, id), e.cs(sg.b, id / 3)) }).collect()
}
pub fn case<T: Sc>(src: &mut Src, ctx: &mut Ctx) -> (Vec<S>, Emb) {
    let (mut segs, mode) = segments(src, if T::EXT < 1000 { 250 } else { 2000 }, T::EXT);
    let mut e = Emb::gen::<T>(src);
    let lim = if T::EXT < 1000 { SKEW_F32 } else { SKEW_F64 };
    let max = |segs: &[S]| segs.iter().flat_map(|g| [g.a.x, g.a.y, g.b.x, g.b.y]).map(i64::abs).max().unwrap_or(1);
    match src.weighted(&[10, 1, 1, 1]) {
        0 => {}
        1 => {
            segs = unknot(src, &segs, 250.max(segs.len()));
            let k = skew(src, max(&segs), lim);
            map_segs(&mut segs, |q| apply(k, q));
            e.ox = 0; e.oy = 0;
            ctx.label("needles");
        }
        w => {
            segs = shatter(src, &segs, 250.max(2 * segs.len()));
            let l = if w == 2 { lim } else { lim >> (5 + src.u(20)) };
            let j = jitter(src, max(&segs), l);
            map_segs(&mut segs, |q| j.map(q));
            if w == 3 { let k = skew(src, max(&segs), lim); map_segs(&mut segs, |q| apply(k, q)); }
            e.ox = 0; e.oy = 0;
            ctx.label("jittered");
        }
    }
    ctx.label(mode);
    ctx.label(T::NAME);
    ctx.label(match segs.len() { 0 => "n=0", 1..=2 => "n=1-2", 3..=8 => "n=3-8", 9..=24 => "n=9-24", 25..=80 => "n=25-80", 81..=400 => "n=81-400", _ => "n>400" });
    ctx.input(&segs);
    ctx.show(|| format!("{} {mode} {e:?} segments {}", T::NAME, show_segs(&segs)));
    (segs, e)
}
pub fn show_segs(segs: &[S]) -> String {
    segs.iter().map(|q| format!("({},{})-({},{})", q.a.x, q.a.y, q.b.x, q.b.y)).collect::<Vec<_>>().join(" ")
}
/// The exact pairwise model.
pub fn pairs(segs: &[S]) -> BTreeMap<(usize, usize), Ix> {
    let mut m = BTreeMap::new();
    for j in 0..segs.len() { for i in 0..j {
        match intersect(segs[i], segs[j]) {
            Ix::None => {}
            Ix::Frac => panic!("harness: generator produced an inexact case"),
            x => { m.insert((i, j), x); }
        }
    } }
    m
}
pub fn event_points(segs: &[S], pr: &BTreeMap<(usize, usize), Ix>) -> BTreeSet<P> {
    let mut w: BTreeSet<P> = segs.iter().flat_map(|q| [q.a, q.b]).collect();
    for x in pr.values() {
        match *x { Ix::Pt(q, _) => { w.insert(q); } Ix::Seg(a, b) => { w.insert(a); w.insert(b); } _ => {} }
    }
    w
}
pub fn classify(ctx: &mut Ctx, segs: &[S], pr: &BTreeMap<(usize, usize), Ix>) {
    ctx.nontrivial = segs.len() >= 3 && !pr.is_empty();
    ctx.label_if(pr.values().any(|x| matches!(x, Ix::Seg(..))), "has overlap");
    ctx.label_if(pr.values().any(|x| matches!(x, Ix::Pt(_, true))), "has proper crossing");
    ctx.label_if(pr.values().any(|x| matches!(x, Ix::Pt(_, false))), "has touching");
    ctx.label_if(segs.iter().any(|q| q.is_pt()), "has points");
    ctx.label_if(segs.iter().any(|q| !q.is_pt() && q.a.x == q.b.x), "has verticals");
    ctx.label_if(pr.len() >= 100, "100+ intersecting pairs");
    let mut mult: BTreeMap<P, usize> = BTreeMap::new();
    for x in pr.values() { if let Ix::Pt(q, _) = x { *mult.entry(*q).or_default() += 1; } }
    ctx.label_if(mult.values().any(|v| *v >= 3), "3+ segments through a point");
    ctx.work += pr.len() as u64;
}

/// What the sweep's own output lets `Intersections` report.  Findings D1 and D2
/// are consequences of filtering pairs by the `first_segment` flags of the
/// pieces; only a pair that this filter drops (or repeats) is tolerated.
pub struct Filtered { pub d1: BTreeSet<usize>, pub reported: BTreeMap<(usize, usize), usize> }
pub fn filtered<T: Sc>(segs: &[S], e: Emb) -> Filtered {
    let mut d1 = BTreeSet::new();
    let mut reported = BTreeMap::new();
    let mut it: CrossingsIter<Cr<T>> = input::<T>(segs, e).into_iter().collect();
    while let Some(c) = it.next() {
        let v = it.intersections();
        for i in 0..v.len() {
            let mut ov = v[i].has_overlap;
            for j in i + 1..v.len() {
                let (x, y) = (&v[i], &v[j]);
                let kept = if ov { x.at_left && (x.first_segment || y.first_segment) }
                    else { (!x.at_left || x.first_segment) && (!y.at_left || y.first_segment) };
                if kept { *reported.entry((x.crossable.id.min(y.crossable.id), x.crossable.id.max(y.crossable.id))).or_insert(0) += 1; }
                ov = ov && v[j].has_overlap;
            }
        }
        // lines whose first piece, when the sweep reaches their left end, is
        // shorter than the line and not flagged as the first one
        let Some(q) = e.back(c) else { continue };
        for x in v {
            let id = x.crossable.id;
            if x.at_left && !x.first_segment && segs[id].lo() == q {
                if let LineOrPoint::Line(_, r) = x.line {
                    if e.back(r.coord()).map_or(false, |r| r < segs[id].hi()) { d1.insert(id); }
                }
            }
        }
    }
    Filtered { d1, reported }
}
fn first_common(x: Ix) -> P { match x { Ix::Pt(q, _) => q, Ix::Seg(a, _) => a, _ => unreachable!() } }

fn isect<T: Sc>(src: &mut Src, ctx: &mut Ctx, payload: bool) -> R {
    let (segs, e) = case::<T>(src, ctx);
    let pr = pairs(&segs);
    classify(ctx, &segs, &pr);
    let inp = input::<T>(&segs, e);
    let it: Intersections<&Cr<T>> = inp.iter().collect();
    let mut seen: BTreeMap<(usize, usize), usize> = BTreeMap::new();
    for (a, b, got) in it {
        let k = (a.id.min(b.id), a.id.max(b.id));
        *seen.entry(k).or_default() += 1;
        if payload {
            let Some(want) = pr.get(&k) else { return Err(format!("reported pair {k:?} does not intersect (reported {got:?})")) };
            let back = |c: Coordinate<T>| e.back(c);
            let ok = match (got, *want) {
                (LineIntersection::SinglePoint { intersection, is_proper }, Ix::Pt(q, proper)) => back(intersection) == Some(q) && is_proper == proper,
                (LineIntersection::Collinear { intersection: l }, Ix::Seg(u, v)) => {
                    let (s0, t0) = (back(l.start), back(l.end));
                    (s0 == Some(u) && t0 == Some(v)) || (s0 == Some(v) && t0 == Some(u))
                }
                // line_intersection reports touching collinear inputs as a zero length overlap
                (LineIntersection::Collinear { intersection: l }, Ix::Pt(q, false)) => back(l.start) == Some(q) && back(l.end) == Some(q),
                _ => false,
            };
            if !ok { return Err(format!("pair {k:?}: reported {got:?}, exact intersection is {want:?} (before embedding)")); }
            // the documented contract: a drop-in replacement for line_intersection
            let direct = line_intersection(a.l, b.l);
            if direct != Some(got) { return Err(format!("pair {k:?}: reported {got:?}, line_intersection of the two yields {direct:?}")); }
        }
    }
    if payload { return Ok(()); }
    let notol = |id: &str| std::env::var("GX_NOTOL").map_or(false, |v| v == id);
    let mut filt: Option<Filtered> = None;
    for (k, x) in &pr {
        let f = first_common(*x);
        if !seen.contains_key(k) {
            let fl = filt.get_or_insert_with(|| filtered::<T>(&segs, e));
            let tol = !fl.reported.contains_key(k) && [k.0, k.1].iter().any(|m| fl.d1.contains(m) && segs[*m].lo() == f);
            if !tol || notol("D1") { return Err(format!("intersecting pair {k:?} ({x:?}) is missing")); }
            ctx.known("D1", 1);
        }
    }
    for (k, n) in &seen {
        let Some(x) = pr.get(k) else { return Err(format!("pair {k:?} reported, but does not intersect")) };
        if *n > 1 {
            let fl = filt.get_or_insert_with(|| filtered::<T>(&segs, e));
            let f = first_common(*x);
            let inner = |m: usize, o: usize| segs[m].lo() == f && segs[o].lo() < f;
            let tol = *n == 2 && fl.reported.get(k) == Some(&2) && matches!(x, Ix::Seg(..)) && (inner(k.0, k.1) || inner(k.1, k.0));
            if !tol || notol("D2") { return Err(format!("pair {k:?} ({x:?}) reported {n} times")); }
            ctx.known("D2", 1);
        }
    }
    Ok(())
}
pub fn c01(src: &mut Src, ctx: &mut Ctx) -> R { if src.chance(1, 6) { isect::<f32>(src, ctx, false) } else { isect::<f64>(src, ctx, false) } }
pub fn c02(src: &mut Src, ctx: &mut Ctx) -> R { if src.chance(1, 6) { isect::<f32>(src, ctx, true) } else { isect::<f64>(src, ctx, true) } }

fn concrete(v: &[((f64, f64), (f64, f64))]) -> Vec<(usize, usize)> {
    let inp: Vec<Cr<f64>> = v.iter().enumerate().map(|(id, (a, b))| Cr { id, l: Line::new(*a, *b) }).collect();
    inp.iter().collect::<Intersections<_>>().map(|(a, b, _)| (a.id.min(b.id), a.id.max(b.id))).collect()
}
pub fn c01_findings() -> Vec<(&'static str, String, bool)> {
    let d1 = concrete(&[((0., 0.), (1., 0.)), ((0., 0.), (4., 0.))]);
    // the crate's own `overlap_intersect` input: 11 pairs intersect, and the
    // test asserts that 9 are reported
    let t = concrete(&[((0., 0.), (1., 1.)), ((1., 0.), (0., 1.)), ((0., 0.5), (1., 0.5)), ((-1., 0.5), (0.5, 0.5)), ((0.5, 0.5), (0.5, 0.5)), ((0., 0.), (0., 0.))]);
    let d2 = concrete(&[((1., 0.), (2., 0.)), ((0., 0.), (2., 0.))]);
    vec![
        ("D1", format!("Intersections does not report the overlap of (0,0)-(1,0) with (0,0)-(4,0) ({} of 1 pairs; {} of 11 pairs for the input of the test overlap_intersect): a pair first meeting at the left end of a line that is cut when its left end is reached", d1.len(), t.len()), d1.is_empty() || t.len() < 11),
        ("D2", format!("Intersections reports the overlap of (1,0)-(2,0) with (0,0)-(2,0) {} times", d2.len()), d2.len() > 1),
    ]
}

/// General position has no overlaps other than copies: only D1 applies.
pub fn c06_findings() -> Vec<(&'static str, String, bool)> { c01_findings().into_iter().filter(|f| f.0 == "D1").collect() }

#[derive(Clone, Debug)]
pub struct Piece { pub id: usize, pub a: P, pub b: P, pub left: bool, pub first: bool, pub ovl: bool, pub is_line: bool }
pub fn pieces_of<T: Sc, C: Crossable<Scalar = T> + Clone>(v: &[Crossing<C>], e: Emb, id: impl Fn(&C) -> usize) -> Result<Vec<Piece>, String> {
    v.iter().map(|x| {
        let (a, b, is_line) = match x.line { LineOrPoint::Line(a, b) => (a, b, true), LineOrPoint::Point(a) => (a, a, false) };
        let f = |c: Coordinate<T>| e.back(c).ok_or_else(|| format!("piece of {} has the inexact end {c:?}", id(&x.crossable)));
        Ok(Piece { id: id(&x.crossable), a: f(a.coord())?, b: f(b.coord())?, left: x.at_left, first: x.first_segment, ovl: x.has_overlap, is_line })
    }).collect()
}
fn sweep<T: Sc>(segs: &[S], e: Emb) -> Result<Vec<(P, Vec<Piece>)>, String> {
    let inp = input::<T>(segs, e);
    let mut it: CrossingsIter<&Cr<T>> = inp.iter().collect();
    let mut out = vec![];
    while let Some(c) = it.next() {
        let q = e.back(c).ok_or_else(|| format!("yielded the point {c:?}, which is no end point or intersection"))?;
        out.push((q, pieces_of(it.intersections(), e, |c| c.id)?));
    }
    Ok(out)
}
fn points<T: Sc>(src: &mut Src, ctx: &mut Ctx) -> R {
    let (segs, e) = case::<T>(src, ctx);
    let pr = pairs(&segs);
    classify(ctx, &segs, &pr);
    let want = event_points(&segs, &pr);
    ctx.work += want.len() as u64;
    let inp = input::<T>(&segs, e);
    let mut got: Vec<P> = vec![];
    for c in inp.into_iter().collect::<CrossingsIter<Cr<T>>>() {
        let q = e.back(c).ok_or_else(|| format!("yielded the point {c:?}, which is no end point or intersection"))?;
        if let Some(l) = got.last() { if *l >= q { return Err(format!("{q:?} yielded after {l:?}")); } }
        got.push(q);
    }
    let g: BTreeSet<P> = got.into_iter().collect();
    if let Some(q) = want.difference(&g).next() { return Err(format!("point {q:?} not yielded")); }
    if let Some(q) = g.difference(&want).next() { return Err(format!("yielded {q:?}, which is no end point or intersection")); }
    Ok(())
}
pub fn c03(src: &mut Src, ctx: &mut Ctx) -> R { if src.chance(1, 6) { points::<f32>(src, ctx) } else { points::<f64>(src, ctx) } }

fn incidence<T: Sc>(src: &mut Src, ctx: &mut Ctx) -> R {
    let (segs, e) = case::<T>(src, ctx);
    let pr = pairs(&segs);
    classify(ctx, &segs, &pr);
    for (q, ps) in sweep::<T>(&segs, e)? {
        let ids: BTreeSet<usize> = ps.iter().map(|x| x.id).collect();
        let want: BTreeSet<usize> = (0..segs.len()).filter(|&i| on_seg(segs[i], q)).collect();
        ctx.work += ids.len() as u64;
        if ids != want { return Err(format!("at {q:?}: reported segments {ids:?}, incident are {want:?}")); }
        for x in &ps {
            let sg = segs[x.id];
            // a piece is part of its input, and starts or ends here as flagged
            if !on_seg(sg, x.a) || !on_seg(sg, x.b) { return Err(format!("at {q:?}: piece {x:?} is not part of its input {sg:?}")); }
            if x.is_line && x.a >= x.b { return Err(format!("at {q:?}: piece {x:?} not ordered")); }
            if x.is_line == sg.is_pt() { return Err(format!("at {q:?}: piece {x:?} of {sg:?}: wrong kind")); }
            let end = if x.left { x.a } else { x.b };
            if end != q { return Err(format!("at {q:?}: piece {x:?} neither starts nor ends here")); }
        }
    }
    Ok(())
}
pub fn c04(src: &mut Src, ctx: &mut Ctx) -> R { if src.chance(1, 6) { incidence::<f32>(src, ctx) } else { incidence::<f64>(src, ctx) } }

fn tiling<T: Sc>(src: &mut Src, ctx: &mut Ctx) -> R {
    let (segs, e) = case::<T>(src, ctx);
    let pr = pairs(&segs);
    classify(ctx, &segs, &pr);
    // last end of the tiling of every input
    let mut reached: Vec<Option<P>> = vec![None; segs.len()];
    let mut open = vec![false; segs.len()];
    for (q, ps) in sweep::<T>(&segs, e)? {
        let mut ends = BTreeMap::new();
        let mut starts = BTreeMap::new();
        for (i, x) in ps.iter().enumerate() {
            let sg = segs[x.id];
            if sg.is_pt() {
                if x.left || x.ovl { return Err(format!("point input {sg:?} reported as {x:?}")); }
                *ends.entry(x.id).or_insert(0) += 1;
                continue;
            }
            let from_start = x.a == sg.lo();
            if x.first && !from_start { return Err(format!("at {q:?}: piece {x:?} of {sg:?} flagged as the first one")); }
            if !x.first && from_start && x.b == sg.hi() { return Err(format!("at {q:?}: whole segment {x:?} of {sg:?} not flagged as the first one")); }
            if x.ovl {
                let Some(y) = ps.get(i + 1) else { return Err(format!("at {q:?}: piece {x:?} flagged as overlapping the next, but is the last")) };
                let ov = y.is_line && x.left == y.left && matches!(intersect(s(x.a, x.b), s(y.a, y.b)), Ix::Seg(..));
                if !ov { return Err(format!("at {q:?}: piece {x:?} flagged as overlapping {y:?}")); }
            }
            if x.left { *starts.entry(x.id).or_insert(0) += 1; } else {
                *ends.entry(x.id).or_insert(0) += 1;
                // ended pieces continue where the input was last cut
                if reached[x.id] != Some(x.a) { return Err(format!("at {q:?}: ended piece {x:?} of {sg:?} does not continue from the last cut {:?}", reached[x.id])); }
            }
        }
        for (&id, n) in starts.iter().chain(&ends) { if *n != 1 { return Err(format!("at {q:?}: input {id} has {n} pieces of one kind")); } }
        for id in 0..segs.len() {
            let sg = segs[id];
            if !on_seg(sg, q) { continue; }
            ctx.work += 1;
            let (st, en) = (starts.contains_key(&id), ends.contains_key(&id));
            if sg.is_pt() { if !en || st { return Err(format!("at {q:?}: point input {id} not reported once")); } continue; }
            if en != (q > sg.lo()) { return Err(format!("at {q:?}: input {id} {sg:?} has {} piece ending here", en as u32)); }
            if st != (q < sg.hi()) { return Err(format!("at {q:?}: input {id} {sg:?} has {} piece starting here", st as u32)); }
            reached[id] = Some(q);
            open[id] = st;
        }
    }
    if let Some(i) = (0..segs.len()).find(|&i| open[i] || reached[i].map_or(!segs[i].is_pt(), |r| r != segs[i].hi())) {
        return Err(format!("input {i} {:?} is not covered to its right end (reached {:?})", segs[i], reached[i]));
    }
    Ok(())
}
pub fn c05(src: &mut Src, ctx: &mut Ctx) -> R { if src.chance(1, 6) { tiling::<f32>(src, ctx) } else { tiling::<f64>(src, ctx) } }
