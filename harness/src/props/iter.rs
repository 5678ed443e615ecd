//! Iteration protocol: the same results however the inputs are wrapped, the
//! iterators moved, and the items consumed.
use crate::engine::*;
use crate::fuel;
use crate::gen::*;
use crate::props::cross::{case, input, Cr};
use crate::tape::Src;
use geo::line_intersection::LineIntersection;
use geo::Line;
use geo_crossings::*;
use std::rc::Rc;
use std::sync::Arc;

/// An iterator with a legal, but loose size hint.
struct Hint<I> { it: I, left: usize, lo: usize, hi: Option<usize> }
impl<I: Iterator> Iterator for Hint<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { let r = self.it.next(); self.left = self.left.saturating_sub(1); r }
    fn size_hint(&self) -> (usize, Option<usize>) { (self.lo.min(self.left), self.hi) }
}
fn hint<I: ExactSizeIterator>(src: &mut Src, it: I) -> Hint<I> {
    let n = it.len();
    let hi = match src.u(4) { 0 => None, 1 => Some(n), 2 => Some(n + src.u(100)), _ => Some(usize::MAX) };
    let lo = match src.u(3) { 0 => 0, 1 => n, _ => src.u(n + 1) };
    Hint { it, left: n, lo, hi }
}
/// What is observable of one piece: the input's line, its kind, its flags.
type Obs<T> = (Line<T>, Line<T>, bool, bool, bool, bool);
fn obs<T: Sc, C: Crossable<Scalar = T> + Clone>(c: &Crossing<C>) -> Obs<T> { (c.crossable.line(), c.line.line(), c.line.is_line(), c.first_segment, c.has_overlap, c.at_left) }
type Trace<T> = Vec<(geo::Coordinate<T>, Vec<Obs<T>>)>;

/// Consume `it` in some way, recording what it yields.
fn consume<T: Sc, C: Crossable<Scalar = T> + Clone>(src: &mut Src, mut it: CrossingsIter<C>, limit: usize, clobber: bool) -> Result<Trace<T>, String> {
    let style = src.u(4);
    if !it.intersections().is_empty() || !it.intersections_mut().is_empty() { return Err("segments are listed before the first point".into()); }
    let mut out = vec![];
    
    while out.len() < limit {
        fuel::tick();
        let nx = match style {
            0 => it.next(),
            // moved between any two steps
            1 => { let mut b = Box::new(it); let r = b.next(); it = *b; r }
            2 => { let mut v = vec![it]; let r = v[0].next(); v.reserve(3); it = v.pop().unwrap(); r }
            _ => {
                let e: CrossingsIter<C> = std::iter::empty().collect();
                let mut moved = std::mem::replace(&mut it, e);
                if it.next().is_some() { return Err("a sweep of no inputs yields a point".into()); }
                let r = moved.next();
                
                it = *Box::new(moved);
                r
            }
        };
        let Some(c) = nx else {
            for _ in 0..3 {
                if !it.intersections().is_empty() { return Err("segments are listed after the last point".into()); }
                if it.next().is_some() { return Err("a point is yielded after the end".into()); }
            }
            return Ok(out);
        };
        if it.intersections().is_empty() { return Err(format!("no segments are listed at {c:?}")); }
        out.push((c, it.intersections().iter().map(obs).collect()));
        if clobber {
            let v = it.intersections_mut();
            match src.u(3) { 0 => v.reverse(), 1 => { let k = src.u(v.len()); v.rotate_left(k) } _ => { let f = v[0].clone(); for x in v.iter_mut() { *x = f.clone(); x.at_left = !x.at_left; x.first_segment = true; x.has_overlap = !x.has_overlap; } } }
        }
    }
    Ok(out)
}
fn cmp_traces<T: Sc>(what: &str, a: &Trace<T>, b: &Trace<T>, prefix: bool) -> R {
    let n = if prefix { b.len().min(a.len()) } else { a.len().max(b.len()) };
    for i in 0..n { if a.get(i) != b.get(i) { return Err(format!("{what}: item {i} is {:?} instead of {:?}", b.get(i), a.get(i))); } }
    Ok(())
}
type Pairs<T> = Vec<(Line<T>, Line<T>, LineIntersection<T>)>;
fn isect<T: Sc, C: Crossable<Scalar = T> + Clone>(src: &mut Src, mut it: Intersections<C>, limit: usize) -> Result<Pairs<T>, String> {
    let moved = src.chance(1, 2);
    let mut out = vec![];
    while out.len() < limit {
        fuel::tick();
        let r = if moved { let mut b = Box::new(it); let r = b.next(); it = *b; r } else { it.next() };
        let Some((a, b, x)) = r else {
            for _ in 0..3 { if it.next().is_some() { return Err("a pair is yielded after the end".into()); } }
            return Ok(out);
        };
        out.push((a.line(), b.line(), x));
    }
    Ok(out)
}
/// A borrowed wrapper of the user's own, not Copy, with interior data.
#[derive(Debug, Clone)]
struct Own<T: Sc> { l: Line<T>, _name: String }
impl<T: Sc> Crossable for Own<T> { type Scalar = T; fn line(&self) -> Line<T> { self.l } }

fn run<T: Sc>(src: &mut Src, ctx: &mut Ctx) -> R {
    let (segs, e) = case::<T>(src, ctx);
    ctx.nontrivial = segs.len() >= 3;
    let inp = input::<T>(&segs, e);
    let lines: Vec<Line<T>> = inp.iter().map(|c| c.l).collect();
    // reference: plain lines, consumed in one go
    let mut base: Trace<T> = vec![];
    let mut it: CrossingsIter<Line<T>> = lines.iter().copied().collect();
    while let Some(c) = it.next() { fuel::tick(); base.push((c, it.intersections().iter().map(obs).collect())); }
    let bp: Pairs<T> = lines.iter().copied().collect::<Intersections<_>>().collect();
    ctx.work += base.len() as u64;
    let rounds = 1 + src.u(2);
    for _ in 0..rounds {
        let w = src.u(9);
        let part = src.chance(1, 4);
        let limit = if part { src.u(base.len() + 1) } else { usize::MAX };
        let plim = if part { src.u(bp.len() + 1) } else { usize::MAX };
        let clobber = src.chance(1, 2);
        ctx.label_if(part, "dropped midway");
        ctx.label_if(clobber, "list changed by the caller");
        macro_rules! both { ($name:expr, $mk:expr) => {{
            ctx.label($name);
            let it = { let i = $mk; hint(src, i) };
            let t = consume(src, it.collect::<CrossingsIter<_>>(), limit, clobber).map_err(|m| format!("{}: {m}", $name))?;
            cmp_traces($name, &base, &t, part)?;
            let it = { let i = $mk; hint(src, i) };
            let p = isect(src, it.collect::<Intersections<_>>(), plim).map_err(|m| format!("{}: {m}", $name))?;
            let n = if part { p.len() } else { p.len().max(bp.len()) };
            for i in 0..n { if p.get(i) != bp.get(i) { return Err(format!("{}: pair {i} is {:?} instead of {:?}", $name, p.get(i), bp.get(i))); } }
        }} }
        match w {
            0 => both!("owned lines", lines.clone().into_iter()),
            1 => both!("references", inp.iter()),
            2 => { let refs: Vec<&Cr<T>> = inp.iter().collect(); both!("references to references", refs.iter()) }
            3 => both!("boxed", lines.iter().map(|l| Box::new(*l)).collect::<Vec<_>>().into_iter()),
            4 => {
                let rcs: Vec<Rc<Cr<T>>> = input::<T>(&segs, e).into_iter().map(Rc::new).collect();
                both!("Rc", rcs.iter().cloned());
                if let Some(i) = rcs.iter().position(|r| Rc::strong_count(r) != 1) { return Err(format!("after the iterators are gone, input {i} is still held {} times", Rc::strong_count(&rcs[i]) - 1)); }
            }
            5 => {
                let rcs: Vec<Arc<Line<T>>> = lines.iter().map(|l| Arc::new(*l)).collect();
                both!("Arc", rcs.iter().cloned());
                if let Some(i) = rcs.iter().position(|r| Arc::strong_count(r) != 1) { return Err(format!("after the iterators are gone, input {i} is still held {} times", Arc::strong_count(&rcs[i]) - 1)); }
            }
            6 => both!("own type", lines.iter().map(|l| Own { l: *l, _name: format!("{l:?}") }).collect::<Vec<_>>().into_iter()),
            7 => both!("nested wrappers", lines.iter().map(|l| Box::new(Rc::new(l))).collect::<Vec<_>>().into_iter()),
            _ => {
                // ends swapped: the pieces are the same, the inputs print differently
                ctx.label("ends swapped");
                let rev: Vec<Line<T>> = lines.iter().map(|l| Line::new(l.end, l.start)).collect();
                let mut it: CrossingsIter<&Line<T>> = rev.iter().collect();
                let mut i = 0;
                while let Some(c) = it.next() {
                    fuel::tick();
                    let got: Vec<_> = it.intersections().iter().map(|x| { let mut o = obs(x); o.0 = Line::new(o.0.end, o.0.start); o }).collect();
                    if base.get(i) != Some(&(c, got)) { return Err(format!("with all ends swapped, item {i} at {c:?} differs")); }
                    i += 1;
                }
                if i != base.len() { return Err("with all ends swapped, points are missing".into()); }
            }
        }
    }
    // repeatable: the same input gives the same output again
    let t: CrossingsIter<&Line<T>> = lines.iter().collect();
    let pts: Vec<_> = t.collect();
    if pts != base.iter().map(|b| b.0).collect::<Vec<_>>() { return Err("a second run yields other points".into()); }
    Ok(())
}
pub fn c07(src: &mut Src, ctx: &mut Ctx) -> R { if src.chance(1, 5) { run::<f32>(src, ctx) } else { run::<f64>(src, ctx) } }
