//! Exact vertical-slab decomposition: classifies one sample point in every
//! trapezoid between two consecutive vertices, so two regions made of integer
//! segments are compared face by face, with no tolerance.
use crate::ex::*;

/// An edge with the layer it belongs to.
#[derive(Clone, Copy, Debug)]
pub struct E { pub s: S, pub layer: u32 }

/// Walk every trapezoid of every slab.  `visit(parity)` gets the crossing
/// parity of each layer (bit set) at an interior sample; layers < 64.
/// Returns the first Err.  `xs2` are doubled sample abscissae.
pub fn walk<F>(edges: &[E], nlayers: usize, closed: bool, mut visit: F) -> Result<usize, String>
where F: FnMut(&[bool], (i128, (i128, i128), (i128, i128))) -> Result<(), String> {
    let mut xs: Vec<i64> = edges.iter().flat_map(|e| [e.s.a.x, e.s.b.x]).collect();
    // break at proper crossings too (floor and ceil of fractional ones)
    xs.sort(); xs.dedup();
    let mut cells = 0;
    let mut par = vec![false; nlayers];
    for w in xs.windows(2) {
        let xn = w[0] as i128 + w[1] as i128; // doubled midpoint
        let mut act: Vec<((i128, i128), u32)> = edges.iter()
            .filter(|e| e.s.lo().x <= w[0] && e.s.hi().x >= w[1] && e.s.lo().x < e.s.hi().x)
            .map(|e| (y_at2(e.s, xn), e.layer)).collect();
        act.sort_by(|a, b| cmp_frac(a.0, b.0));
        for b in par.iter_mut() { *b = false; }
        let mut i = 0;
        while i < act.len() {
            let y = act[i].0;
            while i < act.len() && cmp_frac(act[i].0, y).is_eq() {
                par[act[i].1 as usize] ^= true;
                i += 1;
            }
            let ny = if i < act.len() { act[i].0 } else { y };
            cells += 1;
            visit(&par, (xn, y, ny))?;
        }
        if closed { if let Some(k) = par.iter().position(|b| *b) { return Err(format!("layer {k} not closed at x={}", xn as f64 / 2.)); } }
    }
    Ok(cells)
}
