//! `LineOrPoint` and `SweepPoint`: construction, ordering, intersection.
use crate::engine::*;
use crate::ex::*;
use crate::gen::*;
use crate::props::mono::Num;
use crate::tape::Src;
use geo::{Coordinate, GeoNum, Line};
use geo_crossings::{LineOrPoint, SweepPoint};
use std::cmp::Ordering;

fn pt(src: &mut Src, g: i64) -> P { p(src.sym(g), src.sym(g)) }
/// y at lexicographic position `at` of a segment (lo < hi), exact: shear the
/// plane so that the lexicographic order is the order of abscissae.
const M: i128 = 1 << 40;
fn sx(q: P) -> i128 { q.x as i128 * M + q.y as i128 }
fn y_sheared(l: S, at: i128) -> (i128, i128) {
    let (a, b) = (l.lo(), l.hi());
    let d = sx(b) - sx(a);
    // y = ya + (yb - ya) (at - xa) / d
    (a.y as i128 * d + (b.y - a.y) as i128 * (at - sx(a)), d)
}
fn cmp_big(a: (i128, i128), b: (i128, i128)) -> Ordering {
    // values have up to ~2^88: compare by integer part, then remainders
    let (qa, qb) = (a.0.div_euclid(a.1), b.0.div_euclid(b.1));
    qa.cmp(&qb).then_with(|| {
        let (mut n1, mut d1, mut n2, mut d2) = (a.0.rem_euclid(a.1), a.1, b.0.rem_euclid(b.1), b.1);
        // continued fractions
        let mut flip = false;
        loop {
            let o = match (n1 == 0, n2 == 0) { (true, true) => Some(Ordering::Equal), (true, false) => Some(Ordering::Less), (false, true) => Some(Ordering::Greater), _ => None };
            if let Some(o) = o { return if flip { o.reverse() } else { o }; }
            // compare n1/d1 with n2/d2 via d1/n1, d2/n2 reversed
            let (q1, q2) = (d1 / n1, d2 / n2);
            let o = q2.cmp(&q1);
            if o != Ordering::Equal { return if flip { o.reverse() } else { o }; }
            let (r1, r2) = (d1 % n1, d2 % n2);
            d1 = n1; n1 = r1; d2 = n2; n2 = r2;
            flip = !flip;
        }
    })
}
/// Expected order of two items, None outside of the preconditions.
fn order(a: S, b: S) -> Option<Ordering> {
    match (a.is_pt(), b.is_pt()) {
        (true, true) => if a.a == b.a { Some(Ordering::Equal) } else { None },
        (true, false) => order(b, a).map(Ordering::reverse),
        (false, true) => {
            if b.a < a.lo() || b.a > a.hi() { return None; }
            // a point on the line counts as above it... the line is Greater
            let y = y_sheared(a, sx(b.a));
            Some(cmp_big(y, (b.a.y as i128, 1)).then(Ordering::Greater))
        }
        (false, false) => {
            let (l, h) = (a.lo().max(b.lo()), a.hi().min(b.hi()));
            if l >= h { return None; }
            let o = cmp_big(y_sheared(a, sx(l)), y_sheared(b, sx(l)));
            Some(o.then_with(|| cmp_big(y_sheared(a, sx(h)), y_sheared(b, sx(h)))))
        }
    }
}
/// The same through orientations: exact at any coordinates.
fn order_turn(a: S, b: S) -> Option<Ordering> {
    match (a.is_pt(), b.is_pt()) {
        (true, true) => if a.a == b.a { Some(Ordering::Equal) } else { None },
        (true, false) => order_turn(b, a).map(Ordering::reverse),
        (false, true) => if b.a < a.lo() || b.a > a.hi() { None } else { Some(0.cmp(&orient(a.lo(), a.hi(), b.a)).then(Ordering::Greater)) },
        (false, false) => {
            let (l, h) = (a.lo().max(b.lo()), a.hi().min(b.hi()));
            if l >= h { return None; }
            // the end of one line seen from the other
            let at = |q: P, of_a: bool| if of_a { orient(b.lo(), b.hi(), q).cmp(&0) } else { 0.cmp(&orient(a.lo(), a.hi(), q)) };
            Some(at(l, l == a.lo()).then_with(|| at(h, h == a.hi())))
        }
    }
}
fn lop<T: Num>(sg: S, e: Emb, salt: usize) -> LineOrPoint<T> { Line::new(T::c(sg.a, e, salt), T::c(sg.b, e, salt + 1)).into() }

fn ordering<T: Num>(src: &mut Src, ctx: &mut Ctx, e: Emb, gmax: i64, lim: i64) -> R {
    ctx.label(T::NAME);
    let g = (*src.pick(&[2i64, 4, 10, 100, 1000, 1 << 18])).min(gmax);
    let n = 2 + src.u(4);
    let mut v: Vec<S> = vec![];
    let c = pt(src, g);
    for i in 0..n {
        let a = pt(src, g);
        let sg = match src.weighted(&[3, 2, 2, 1, 2]) {
            0 => s(a, pt(src, g)),
            1 => s(c, a),
            2 => { let d = p(src.sym(3), src.sym(3)); let (k, l) = (src.sym(3), src.sym(3)); s(p(c.x + k * d.x, c.y + k * d.y), p(c.x + l * d.x, c.y + l * d.y)) }
            3 => s(a, a),
            _ => if i > 0 { let b = v[src.u(i)]; match src.u(4) { 0 => s(b.a, b.a), 1 => s(b.b, b.a), 2 => s(b.a, pt(src, g)), _ => { let d = p(b.b.x - b.a.x, b.b.y - b.a.y); let gg = gcd(d.x.abs() as i128, d.y.abs() as i128).max(1) as i64; let q = p(b.a.x + d.x / gg, b.a.y + d.y / gg); s(q, if src.chance(1, 2) { q } else { pt(src, g) }) } } } else { s(a, c) },
        };
        v.push(sg);
    }
    let mut e = e;
    let needles = src.chance(1, 4);
    if needles {
        let m = v.iter().flat_map(|g| [g.a.x, g.a.y, g.b.x, g.b.y]).map(i64::abs).max().unwrap();
        let k = skew(src, m, lim);
        map_segs(&mut v, |q| apply(k, q));
        e.ox = 0; e.oy = 0;
        ctx.label("needles");
    }
    ctx.input(&v);
    ctx.show(|| format!("{} {e:?} {v:?}", T::NAME));
    let l: Vec<LineOrPoint<T>> = v.iter().enumerate().map(|(i, sg)| lop::<T>(*sg, e, i)).collect();
    for i in 0..n { for j in 0..n {
        let want = order_turn(v[i], v[j]);
        assert!(needles || want == order(v[i], v[j]), "harness: the two models disagree on {:?} {:?}", v[i], v[j]);
        let Some(w) = want else {
            if v[i].is_pt() && v[j].is_pt() && l[i].partial_cmp(&l[j]).is_some() { return Err(format!("different points {:?} {:?} are ordered", v[i], v[j])); }
            continue;
        };
        ctx.work += 1;
        ctx.nontrivial |= i != j;
        let got = l[i].partial_cmp(&l[j]);
        if got != Some(w) { return Err(format!("{:?} compared with {:?} is {got:?} instead of {w:?}", v[i], v[j])); }
        if (l[i] == l[j]) != (w == Ordering::Equal) { return Err(format!("== of {:?} and {:?} disagrees with their order", v[i], v[j])); }
        if i != j { ctx.label(match (v[i].is_pt(), v[j].is_pt()) { (false, false) => match w { Ordering::Equal => "lines, equal", _ => "lines" }, (true, true) => "points", _ => "line and point" }); }
    } }
    Ok(())
}
pub fn c21(src: &mut Src, ctx: &mut Ctx) -> R {
    match src.weighted(&[4, 2, 1, 1]) {
        0 => { let e = Emb::gen::<f64>(src); ordering::<f64>(src, ctx, e, 1 << 18, SKEW_F64) }
        1 => { let e = Emb::gen::<f32>(src); ordering::<f32>(src, ctx, e, 1000, SKEW_F32) }
        2 => ordering::<i64>(src, ctx, Emb::ID, 1 << 18, 1 << 29),
        _ => ordering::<i32>(src, ctx, Emb::ID, 1000, 1 << 13),
    }
}

fn near(a: f64, b: f64, tol: f64) -> bool { (a - b).abs() <= tol }
fn meet<T: Sc + Num>(src: &mut Src, ctx: &mut Ctx) -> R {
    let f32_ = T::EXT < 1000;
    ctx.label(<T as Sc>::NAME);
    let g = *src.pick(if f32_ { &[3i64, 10, 100, 4000, 1 << 20] } else { &[3i64, 10, 1000, 1 << 20, 1 << 30] });
    let e = { let mut e = if src.chance(1, 2) { Emb::ID } else { Emb::gen::<T>(src) }; let m = if f32_ { 1 << 22 } else { 1i64 << 50 }; e.ox = e.ox.clamp(-m, m); e.oy = e.oy.clamp(-m, m); if f32_ { e.exp = e.exp.clamp(-10, 10) } else { e.exp = e.exp.clamp(-100, 100) } e };
    let (a, b) = (pt(src, g), pt(src, g));
    let u0 = s(a, b);
    // a second segment in some relation to the first
    let d = p(b.x - a.x, b.y - a.y);
    let k = gcd(d.x.abs() as i128, d.y.abs() as i128).max(1) as i64;
    let st = p(d.x / k, d.y / k);
    let on = |src: &mut Src, spread: i64| { let t = src.range(-spread, k + spread); p(a.x + st.x * t, a.y + st.y * t) };
    let lim = |q: P| p(q.x.clamp(-2 * g, 2 * g), q.y.clamp(-2 * g, 2 * g));
    let rel = src.weighted(&[5, 2, 2, 2, 2, 3]);
    let v0 = match rel {
        0 => s(pt(src, g), pt(src, g)),
        1 => s(on(src, 0), pt(src, g)),
        2 => s(on(src, 2), on(src, 2)),
        3 => { let q = on(src, 1); let r = on(src, 1); s(p(q.x + src.sym(1), q.y + src.sym(1)), p(r.x + src.sym(1), r.y + src.sym(1))) }
        4 => s(if src.chance(1, 2) { a } else { b }, pt(src, g)),
        _ => { let q = pt(src, g); s(q, p(2 * a.x - q.x + src.sym(1), 2 * a.y - q.y + src.sym(1))) }
    };
    let v0 = s(lim(v0.a), lim(v0.b));
    let (u, v) = if src.chance(1, 4) { (s(v0.a, v0.a), u0) } else { (u0, v0) };
    let (u, v) = if src.chance(1, 2) { (s(u.b, u.a), v) } else { (u, s(v.b, v.a)) };
    ctx.input(&(u, v));
    ctx.show(|| format!("{} {e:?} {u:?} with {v:?}", <T as Sc>::NAME));
    let (lu, lv) = (lop::<T>(u, e, 0), lop::<T>(v, e, 2));
    if v.is_pt() {
        ctx.label("other is a point");
        if guard("intersect_line", || lu.intersect_line(&lv)).is_ok() { return Err("intersect_line with a point does not panic".into()); }
        if guard("intersect_line_ordered", || lu.intersect_line_ordered(&lv)).is_ok() { return Err("intersect_line_ordered with a point does not panic".into()); }
        return Ok(());
    }
    let got = lu.intersect_line(&lv);
    ctx.work += 1;
    let back = |q: SweepPoint<T>| Sc::f(q.coord().x).is_finite().then(|| e.back::<T>(q.coord())).flatten();
    let want = intersect(u, v);
    ctx.label(match want { Ix::None => "apart", Ix::Pt(_, false) => "touching", Ix::Seg(..) => "overlapping", _ => "crossing" });
    ctx.nontrivial = want != Ix::None;
    let bad = || Err(format!("{u:?} with {v:?} gives {got:?} instead of {want:?}"));
    match (&got, want) {
        (None, Ix::None) => {}
        (Some(LineOrPoint::Point(q)), Ix::Pt(w, false)) => if back(*q) != Some(w) { return bad(); },
        (Some(LineOrPoint::Line(q, r)), Ix::Seg(w, x)) => if (back(*q), back(*r)) != (Some(w), Some(x)) { return bad(); },
        (Some(LineOrPoint::Point(q)), Ix::Pt(_, true) | Ix::Frac) => {
            // a computed point: inside both boxes (up to the end points), and
            // close to the exact one where the lines are not nearly parallel
            let (du, dv) = ((u.b.x - u.a.x) as f64, (v.b.x - v.a.x) as f64);
            let (eu, ev) = ((u.b.y - u.a.y) as f64, (v.b.y - v.a.y) as f64);
            let den = du * ev - eu * dv;
            let t = ((v.a.x - u.a.x) as f64 * ev - (v.a.y - u.a.y) as f64 * dv) / den;
            let kk = 2f64.powi(e.exp);
            let (wx, wy) = ((u.a.x as f64 + t * du + e.ox as f64) * kk, (u.a.y as f64 + t * eu + e.oy as f64) * kk);
            let sin = den.abs() / (du.hypot(eu) * dv.hypot(ev));
            let size = (3 * g + e.ox.abs().max(e.oy.abs())) as f64;
            let tol = size * kk * if f32_ { 4e-7 } else { 1e-15 } * 16. / (sin * sin).max(1e-30);
            let (gx, gy) = (Sc::f(q.coord().x), Sc::f(q.coord().y));
            if sin > 1e-2 && !(near(gx, wx, tol) && near(gy, wy, tol)) { return Err(format!("{u:?} with {v:?} gives {gx} {gy} instead of {wx} {wy}")); }
            let fits = |w: S| { let c = |q: P| { let c: Coordinate<T> = e.c(q); (Sc::f(c.x), Sc::f(c.y)) }; let ((ax, ay), (bx, by)) = (c(w.a), c(w.b)); gx >= ax.min(bx) && gx <= ax.max(bx) && gy >= ay.min(by) && gy <= ay.max(by) };
            let is_end = [u.a, u.b, v.a, v.b].iter().any(|w| back(*q) == Some(*w));
            if !is_end && !(fits(u) && fits(v)) { return Err(format!("{u:?} with {v:?} gives {gx} {gy} outside of the segments")); }
        }
        _ => return bad(),
    }
    // the ordered variant only moves a point that would precede the first line
    let want = match got {
        Some(LineOrPoint::Point(q)) => {
            let (mut x, y) = q.coord().x_y();
            let c = lu.line().start;
            if x == c.x && y < c.y { x = x.up(); ctx.label("moved past the start"); }
            let r = SweepPoint::from((x, y));
            if r < SweepPoint::from(c) || r < SweepPoint::from(lv.line().start) { ctx.label("not orderable"); return Ok(()); }
            Some(LineOrPoint::Point(r))
        }
        o => o,
    };
    let g2 = lu.intersect_line_ordered(&lv);
    if format!("{g2:?}") != format!("{want:?}") { return Err(format!("{u:?} with {v:?}: intersect_line_ordered gives {g2:?} instead of {want:?}")); }
    Ok(())
}
/// Steep lines a few ulps wide, where the computed point can precede the start.
fn steep(src: &mut Src, ctx: &mut Ctx) -> R {
    let base = *src.pick(&[1.0f64, -1.0, 3.0, 1e6]);
    let mut up = |x: f64| { let mut x = x; for _ in 0..src.u(4) { x = x.next_up(); } x };
    let (x1, x2) = (up(base), up(base));
    let (x1, x2) = (x1.min(x2), x1.max(x2));
    let (y1, y2) = (src.sym(5) as f64, src.sym(5) as f64);
    let a = Line::from([(x1, y1), (x2, y2)]);
    let h = src.sym(4) as f64;
    let b = Line::from([(base - src.range(0, 4) as f64, h + src.sym(2) as f64 / 2.), (base + src.range(0, 4) as f64, h)]);
    ctx.input(&[a.start.x.to_bits(), a.start.y.to_bits(), a.end.x.to_bits(), a.end.y.to_bits(), b.start.x.to_bits(), b.start.y.to_bits(), b.end.x.to_bits(), b.end.y.to_bits()]);
    ctx.show(|| format!("{a:?} with {b:?}"));
    ctx.label("steep");
    let (la, lb): (LineOrPoint<f64>, LineOrPoint<f64>) = (a.into(), b.into());
    let (lu, lv) = if src.chance(1, 2) { (la, lb) } else { (lb, la) };
    if !lv.is_line() { return Ok(()); }
    let got = lu.intersect_line(&lv);
    ctx.nontrivial = got.is_some();
    let want = match got {
        Some(LineOrPoint::Point(q)) => {
            let (mut x, y) = q.coord().x_y();
            let c = lu.line().start;
            if x == c.x && y < c.y { x = x.next_up(); ctx.label("moved past the start"); }
            let r = SweepPoint::from((x, y));
            if r < SweepPoint::from(c) || r < SweepPoint::from(lv.line().start) { ctx.label("not orderable"); return Ok(()); }
            Some(LineOrPoint::Point(r))
        }
        o => o,
    };
    let g2 = lu.intersect_line_ordered(&lv);
    if format!("{g2:?}") != format!("{want:?}") { return Err(format!("{a:?} with {b:?}: intersect_line_ordered gives {g2:?} instead of {want:?}")); }
    Ok(())
}
pub fn c22(src: &mut Src, ctx: &mut Ctx) -> R {
    match src.weighted(&[6, 2, 1]) { 0 => meet::<f64>(src, ctx), 1 => meet::<f32>(src, ctx), _ => steep(src, ctx) }
}

fn points<T: Num>(src: &mut Src, ctx: &mut Ctx, e: Emb) -> R {
    ctx.label(T::NAME);
    let g = *src.pick(&[1i64, 3, 20, 1000]);
    let n = 2 + src.u(6);
    let v: Vec<P> = (0..n).map(|_| pt(src, g)).collect();
    ctx.input(&v);
    ctx.show(|| format!("{} {e:?} {v:?}", T::NAME));
    ctx.nontrivial = n >= 3;
    let mut q: Vec<SweepPoint<T>> = v.iter().enumerate().map(|(i, c)| { let c = T::c(*c, e, i); if i % 2 == 0 { c.into() } else { (c.x, c.y).into() } }).collect();
    for i in 0..n { for j in 0..n {
        ctx.work += 1;
        let w = v[i].cmp(&v[j]);
        if q[i].cmp(&q[j]) != w || q[i].partial_cmp(&q[j]) != Some(w) || (q[i] == q[j]) != (w == Ordering::Equal) || (q[i] < q[j]) != (w == Ordering::Less) { return Err(format!("{:?} compared with {:?} is {:?} instead of {w:?}", v[i], v[j], q[i].cmp(&q[j]))); }
        operators(&q[i], &q[j], w)?;
        let k = (i + j) % n;
        let b = |c: SweepPoint<T>| T::back(c.coord(), e);
        let (lo, hi) = (v[i].min(v[j]), v[i].max(v[j]));
        let (m, x, c) = (b(q[i].min(q[j])), b(q[i].max(q[j])), b(q[k].clamp(q[i].min(q[j]), q[i].max(q[j]))));
        if m != Some(lo) || x != Some(hi) || c != Some(v[k].clamp(lo, hi)) { return Err(format!("{:?} and {:?}: min {m:?} max {x:?}, {:?} clamped to them {c:?}", v[i], v[j], v[k])); }
        // construction of lines
        let l: LineOrPoint<T> = Line::new(T::c(v[i], e, i), T::c(v[j], e, j)).into();
        let (lo, hi) = (v[i].min(v[j]), v[i].max(v[j]));
        let b = |c: Coordinate<T>| T::back(c, e);
        match &l {
            LineOrPoint::Point(x) => if lo != hi || b(x.coord()) != Some(lo) { return Err(format!("line {lo:?} {hi:?} becomes {l:?}")); },
            LineOrPoint::Line(x, y) => if lo == hi || b(x.coord()) != Some(lo) || b(y.coord()) != Some(hi) { return Err(format!("line {:?} {:?} becomes {l:?}", v[i], v[j])); },
        }
        if l.is_line() != (lo != hi) || b(l.line().start) != Some(lo) || b(l.line().end) != Some(hi) || b(l.second().coord()) != Some(hi) { return Err(format!("{l:?}: accessors disagree with {lo:?} {hi:?}")); }
        let c: LineOrPoint<T> = T::c(v[i], e, i).into();
        if c.is_line() || b(c.line().start) != Some(v[i]) || b(c.line().end) != Some(v[i]) { return Err(format!("coordinate {:?} becomes {c:?}", v[i])); }
    } }
    q.sort();
    let mut w = v.clone();
    w.sort();
    let got: Vec<_> = q.iter().map(|c| T::back(c.coord(), e)).collect();
    if got != w.iter().map(|c| Some(*c)).collect::<Vec<_>>() { return Err(format!("sorted points: {got:?}")); }
    Ok(())
}
fn operators<T: GeoNum>(a: &SweepPoint<T>, b: &SweepPoint<T>, w: Ordering) -> R {
    let got = [a < b, a <= b, a > b, a >= b, a == b, a != b];
    let want = [w.is_lt(), w.is_le(), w.is_gt(), w.is_ge(), w.is_eq(), w.is_ne()];
    if got != want { return Err(format!("{a:?} with {b:?}: < <= > >= == != give {got:?} instead of {want:?}")); }
    Ok(())
}
/// Any representable finite coordinates: subnormal, huge, extreme integers. Nothing is computed with them.
fn wild<T: GeoNum + std::fmt::Debug>(src: &mut Src, ctx: &mut Ctx, name: &'static str, f: &dyn Fn(&mut Src) -> T) -> R {
    let pool: Vec<T> = (0..3 + src.u(3)).map(|_| f(src)).collect();
    let n = 2 + src.u(5);
    let v: Vec<(T, T)> = (0..n).map(|_| (*src.pick(&pool), *src.pick(&pool))).collect();
    ctx.input(&format!("{v:?}"));
    ctx.show(|| format!("{name} {v:?}"));
    ctx.label("any representable");
    ctx.nontrivial = n >= 3;
    let cmp = |a: &(T, T), b: &(T, T)| a.0.partial_cmp(&b.0).unwrap().then(a.1.partial_cmp(&b.1).unwrap());
    let same = |a: SweepPoint<T>, b: (T, T)| a.coord().x == b.0 && a.coord().y == b.1;
    let mut q: Vec<SweepPoint<T>> = v.iter().enumerate().map(|(i, c)| if i % 2 == 0 { Coordinate { x: c.0, y: c.1 }.into() } else { (*c).into() }).collect();
    for i in 0..n { for j in 0..n {
        ctx.work += 1;
        let w = cmp(&v[i], &v[j]);
        if q[i].cmp(&q[j]) != w || q[i].partial_cmp(&q[j]) != Some(w) { return Err(format!("{:?} compared with {:?} is {:?} instead of {w:?}", v[i], v[j], q[i].cmp(&q[j]))); }
        operators(&q[i], &q[j], w)?;
        let (lo, hi) = if w.is_le() { (v[i], v[j]) } else { (v[j], v[i]) };
        if !same(q[i].min(q[j]), lo) || !same(q[i].max(q[j]), hi) { return Err(format!("min or max of {:?} and {:?}", v[i], v[j])); }
        let l: LineOrPoint<T> = Line::new(Coordinate { x: v[i].0, y: v[i].1 }, Coordinate { x: v[j].0, y: v[j].1 }).into();
        let ok = match &l { LineOrPoint::Point(x) => w.is_eq() && same(*x, lo), LineOrPoint::Line(x, y) => w.is_ne() && same(*x, lo) && same(*y, hi) };
        if !ok || l.is_line() != w.is_ne() { return Err(format!("line {:?} {:?} becomes {l:?}", v[i], v[j])); }
    } }
    q.sort();
    let mut w = v.clone();
    w.sort_by(cmp);
    if q.iter().zip(&w).any(|(a, b)| !same(*a, *b)) { return Err(format!("sorted points: {q:?}")); }
    Ok(())
}
pub fn c23(src: &mut Src, ctx: &mut Ctx) -> R {
    if src.chance(1, 6) {
        return match src.u(4) {
            0 => wild::<f64>(src, ctx, "f64", &|s| { let d = s.range(0, 3) as u64; let b = *s.pick(&[0, 0x8000_0000_0000_0000, f64::MIN_POSITIVE.to_bits(), f64::MAX.to_bits() - 2, f64::MIN.to_bits() - 2, 1f64.to_bits(), (-1f64).to_bits(), 9007199254740992f64.to_bits(), 1e-200f64.to_bits()]); f64::from_bits(if d == 3 { b } else { b + d }) }),
            1 => wild::<f32>(src, ctx, "f32", &|s| { let d = s.range(0, 3) as u32; let b = *s.pick(&[0, 0x8000_0000, f32::MIN_POSITIVE.to_bits(), f32::MAX.to_bits() - 2, f32::MIN.to_bits() - 2, 1f32.to_bits(), (-1f32).to_bits(), 16777216f32.to_bits()]); f32::from_bits(if d == 3 { b } else { b + d }) }),
            2 => wild::<i64>(src, ctx, "i64", &|s| { let d = s.range(0, 2); *s.pick(&[i64::MIN, i64::MAX - 2, -1, 1 << 53, -(1 << 53) - 2]) + d }),
            _ => wild::<i32>(src, ctx, "i32", &|s| { let d = s.range(0, 2) as i32; *s.pick(&[i32::MIN, i32::MAX - 2, -1, 1 << 24, -(1 << 24) - 2]) + d }),
        };
    }
    match src.weighted(&[4, 2, 1, 1, 1]) {
        0 => { let e = Emb::gen::<f64>(src); points::<f64>(src, ctx, e) }
        1 => { let e = Emb::gen::<f32>(src); points::<f32>(src, ctx, e) }
        2 => points::<i64>(src, ctx, Emb::ID),
        3 => points::<i32>(src, ctx, Emb::ID),
        _ => points::<i16>(src, ctx, Emb::ID),
    }
}
