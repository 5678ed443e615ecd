//! Integer polygons (rings of points, not closed) and generators.
use crate::ex::*;
use crate::gen::*;
use crate::tape::Src;
pub type Ring = Vec<P>;
pub type Poly = Vec<Ring>; // [0] exterior, rest holes
pub type MPoly = Vec<Poly>;

pub fn ring_edges(r: &Ring) -> impl Iterator<Item = S> + '_ {
    (0..r.len()).map(move |i| s(r[i], r[(i + 1) % r.len()])).filter(|e| !e.is_pt())
}
pub fn edges(m: &MPoly) -> Vec<S> {
    m.iter().flatten().flat_map(|r| ring_edges(r).collect::<Vec<_>>()).collect()
}
pub fn map_mpoly(m: &mut MPoly, f: &dyn Fn(P) -> P) {
    for q in m.iter_mut().flatten().flatten() { *q = f(*q); }
}

/// Boundary rings of a set of unit cells; 2-coloured so that at a corner where
/// two diagonal cells touch, rings turn to stay with their own cell.
pub fn cell_rings(cells: &[Vec<bool>]) -> Vec<Ring> {
    let h = cells.len() as i64;
    let w = if h > 0 { cells[0].len() as i64 } else { 0 };
    let at = |x: i64, y: i64| x >= 0 && y >= 0 && x < w && y < h && cells[y as usize][x as usize];
    use std::collections::BTreeMap;
    // directed edges, interior on the left
    let mut next: BTreeMap<P, Vec<P>> = BTreeMap::new();
    for y in 0..h { for x in 0..w {
        if !at(x, y) { continue; }
        if !at(x, y - 1) { next.entry(p(x, y)).or_default().push(p(x + 1, y)); }
        if !at(x + 1, y) { next.entry(p(x + 1, y)).or_default().push(p(x + 1, y + 1)); }
        if !at(x, y + 1) { next.entry(p(x + 1, y + 1)).or_default().push(p(x, y + 1)); }
        if !at(x - 1, y) { next.entry(p(x, y + 1)).or_default().push(p(x, y)); }
    } }
    let mut rings = vec![];
    while let Some((&st, _)) = next.iter().next() {
        let mut r = vec![st];
        let mut prev = st;
        let mut cur = { let v = next.get_mut(&st).unwrap(); let c = v.remove(0); if v.is_empty() { next.remove(&st); } c };
        loop {
            if cur == st { break; }
            r.push(cur);
            let v = next.get_mut(&cur).unwrap();
            // prefer the left turn (keeps diagonal cells separate)
            let k = (0..v.len()).max_by_key(|&k| orient(prev, cur, v[k])).unwrap();
            let n = v.remove(k);
            if v.is_empty() { next.remove(&cur); }
            prev = cur; cur = n;
        }
        rings.push(r);
    }
    rings
}
pub fn simplify_collinear(r: &Ring) -> Ring {
    let n = r.len();
    (0..n).filter(|&i| orient(r[(i + n - 1) % n], r[i], r[(i + 1) % n]) != 0).map(|i| r[i]).collect()
}
