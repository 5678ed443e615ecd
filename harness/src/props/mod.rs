use crate::engine::Prop;
pub mod boolean;
pub mod cross;
pub mod general;
pub mod iter;
pub mod lop;
pub mod mono;
pub mod scale;
pub mod splay;
pub mod state;
pub mod tilt;
pub mod wild;

const EXACT: &str = "inputs are integer arrangements whose pairwise intersections are all integral, within an extent for which every computed intersection is exact; embedded by an exact offset and power of two";
const RULE_B: &str = "random operand pairs of nine families (self-intersecting rings, petals around a vertex, rectangles, cell sets sharing edges, valid polygons with holes, lenses, nested boxes; bundles of needles at coordinates up to 2^40, and cut at all contacts with every vertex moved a little; reversed, rotated, repeated vertices, spikes, degenerate rings; f64 and f32); non-trivial: both operands have edges and their boundaries touch";
const RULE_X: &str = "random segment/point arrangements of ten families (1..250 items, heavy tail up to 2000, f64 and f32, random affine map and embedding; bundles of needles at coordinates up to 2^51, and cut at all contacts with every end moved a little); non-trivial: at least 3 items and at least one intersecting pair";
const RULE_M: &str = "random valid polygons of several families (stars, cell sets with holes, grown rings, teeth, grids of holes; 3..200 vertices, rarely more, five scalar types, repeated vertices, needles at coordinates up to 2^51, vertices moved a little off the lattice); non-trivial: at least 5 vertices";
const VALID: &str = "polygons are valid: simple rings, disjoint holes inside the exterior, no repeated points other than consecutive ones";
const RULE_S: &str = "random monotone polygons (vertical steps, touching chains, thin ones on slopes, shear, scale, long mantissas), slice positions at vertices, between them and outside; non-trivial: at least 6 chain vertices";
const DYAD: &str = "vertices and slice positions are small dyadic numbers or (one third) integers of up to 40 bits; interpolated values are compared within rounding";
pub fn all() -> Vec<Prop> {
    vec![
        Prop { id: "C01", rule: RULE_X, quick: (400_000, 150_000), thorough: (10_000_000, 3_750_000), f: cross::c01, findings: Some(cross::c01_findings), assumptions: &[EXACT] },
        Prop { id: "C02", rule: RULE_X, quick: (400_000, 150_000), thorough: (10_000_000, 3_750_000), f: cross::c02, findings: None, assumptions: &[EXACT] },
        Prop { id: "C03", rule: RULE_X, quick: (400_000, 150_000), thorough: (10_000_000, 3_750_000), f: cross::c03, findings: None, assumptions: &[EXACT] },
        Prop { id: "C04", rule: RULE_X, quick: (400_000, 150_000), thorough: (10_000_000, 3_750_000), f: cross::c04, findings: None, assumptions: &[EXACT] },
        Prop { id: "C05", rule: RULE_X, quick: (400_000, 150_000), thorough: (10_000_000, 3_750_000), f: cross::c05, findings: None, assumptions: &[EXACT] },
        Prop { id: "C06", rule: "random well-separated arrangements with full-mantissa coordinates (uniform, short, rings, meshes, fans, duplicates, points; f64 and f32); non-trivial: at least 3 items and one crossing", quick: (200_000, 100_000), thorough: (5_000_000, 2_500_000), f: general::c06, findings: Some(cross::c06_findings), assumptions: &["features are separated by 2^-30 (f64) or 2^-9 (f32) of the extent, crossing angles at least 0.0001 (0.02) in sine"] },
        Prop { id: "C07", rule: "random arrangements as for C03, wrapped in nine ways, consumed whole or in part, moved between steps in four ways, with loose size hints; non-trivial: at least 3 items", quick: (225_000, 120_000), thorough: (5_625_000, 3_000_000), f: iter::c07, findings: None, assumptions: &[EXACT] },
        Prop { id: "C08", rule: RULE_B, quick: (300_000, 150_000), thorough: (7_500_000, 3_750_000), f: boolean::c08, findings: None, assumptions: &[EXACT] },
        Prop { id: "C09", rule: RULE_B, quick: (200_000, 100_000), thorough: (5_000_000, 2_500_000), f: boolean::c09, findings: None, assumptions: &[EXACT] },
        Prop { id: "C10", rule: "random programs of 2..8 boolean operations over a pool of 2..4 base operands and earlier results; non-trivial: at least two non-empty results over at least two non-empty base operands", quick: (120_000, 60_000), thorough: (3_000_000, 1_500_000), f: boolean::c10, findings: None, assumptions: &[EXACT] },
        Prop { id: "C11", rule: "random well-separated operand pairs with full-mantissa coordinates (stars, steps, convex rings, self-intersecting rings, triangle meshes; f64 and f32); non-trivial: both operands non-empty and two crossings or 12 edges", quick: (180_000, 90_000), thorough: (4_500_000, 2_250_000), f: general::c11, findings: None, assumptions: &["features are separated by 2^-30 (f64) or 2^-9 (f32) of the extent, crossing angles at least 0.0001 (0.02) in sine"] },
        Prop { id: "C12", rule: RULE_M, quick: (900_000, 300_000), thorough: (22_500_000, 7_500_000), f: mono::c12, findings: None, assumptions: &[VALID] },
        Prop { id: "C13", rule: RULE_M, quick: (800_000, 400_000), thorough: (20_000_000, 10_000_000), f: mono::c13, findings: None, assumptions: &[VALID] },
        Prop { id: "C14", rule: RULE_M, quick: (800_000, 400_000), thorough: (20_000_000, 10_000_000), f: mono::c14, findings: None, assumptions: &[VALID] },
        Prop { id: "C15", rule: "random chains, valid or with one defect (vertex moved, swapped, repeated, end removed, reversed, ...); non-trivial: more than 4 vertices", quick: (2_000_000, 1_000_000), thorough: (50_000_000, 25_000_000), f: mono::c15, findings: None, assumptions: &[] },
        Prop { id: "C16", rule: RULE_S, quick: (12_000_000, 5_600_000), thorough: (68_182_000, 31_818_000), f: mono::c16, findings: None, assumptions: &[DYAD] },
        Prop { id: "C17", rule: RULE_S, quick: (7_500_000, 3_500_000), thorough: (68_182_000, 31_818_000), f: mono::c17, findings: None, assumptions: &[DYAD] },
        Prop { id: "C18", rule: RULE_S, quick: (7_500_000, 3_500_000), thorough: (68_182_000, 31_818_000), f: mono::c18, findings: None, assumptions: &[DYAD] },
        Prop { id: "C19", rule: "random programs of 1..3500 map/set operations over key sequences of five kinds and four comparators (reversed, classes of equal keys, scrambled); non-trivial: at least 8 operations, at least 2 on a key present", quick: (3_000_000, 1_500_000), thorough: (66_667_000, 33_333_000), f: splay::c19, findings: None, assumptions: &["comparators are total preorders"] },
        Prop { id: "C20", rule: "random trees (paths of up to 150000 nodes, mixed shapes), consumed from both ends, cleared or dropped half-way, on a 2 MiB stack; non-trivial: at least 6 insertions", quick: (1_400_000, 700_000), thorough: (35_000_000, 17_500_000), f: splay::c20, findings: None, assumptions: &[] },
        Prop { id: "C21", rule: "random sets of 2..5 segments and points, bundled through a common point, collinear, sharing ends or random, on grids of six sizes, a quarter of them as needles at coordinates up to 2^51, four scalar types; non-trivial: at least one pair within the preconditions", quick: (10_000_000, 5_000_000), thorough: (66_667_000, 33_333_000), f: lop::c21, findings: None, assumptions: &["pairs within the documented preconditions"] },
        Prop { id: "C22", rule: "random pairs in six relations (crossing, T-contact, collinear, near-collinear, shared end) on grids up to 2^30; non-trivial: the two meet", quick: (8_000_000, 4_000_000), thorough: (66_667_000, 33_333_000), f: lop::c22, findings: None, assumptions: &["computed crossing points are compared within rounding where the angle exceeds 0.01"] },
        Prop { id: "C23", rule: "random sets of 2..7 points on grids of four sizes, five scalar types, signed zeros, or with any representable coordinates (subnormal, huge, extreme integers); non-trivial: at least 3 points", quick: (2_000_000, 800_000), thorough: (50_000_000, 20_000_000), f: lop::c23, findings: None, assumptions: &[] },
        Prop { id: "C24", rule: "random programs of 4..500 operations under comparators that panic, answer at random, are mostly right, not transitive or change their order; non-trivial: at least 10 operations and a comparator that misbehaves", quick: (2_000_000, 1_000_000), thorough: (50_000_000, 25_000_000), f: splay::c24, findings: None, assumptions: &["comparators do not call back into the collection"] },
        Prop { id: "C25", rule: "random trees of 64..8000 keys built in four orders, accessed in eight patterns for 1..4 rounds, with one kind of operation or a mix, map or set; every case is non-trivial", quick: (120_000, 40_000), thorough: (3_000_000, 1_000_000), f: splay::c25, findings: None, assumptions: &["only the operations that splay (insert, get, get_mut, find_key, find, contains, index, remove) are claimed"] },
        Prop { id: "C26", rule: "random arrangements as for C03 and 13 structured families of up to 131072 items (grids, stars, fans, parallel lines, intervals, rings, probes, ...), with a counting scalar; non-trivial: at least 10 items", quick: (8_000, 4_000), thorough: (200_000, 100_000), f: scale::c26, findings: None, assumptions: &[EXACT] },
        Prop { id: "C27", rule: "random valid polygons as for C12, f64 and f32, on grids of up to 20x20 cells over the bounding box or a window, columns at arbitrary positions; non-trivial: at least 5 vertices, more than one cell, and the polygon meets the grid", quick: (600_000, 300_000), thorough: (15_000_000, 7_500_000), f: mono::c27, findings: None, assumptions: &[VALID] },
        Prop { id: "C28", rule: "seven structured families of operand pairs of up to 130000, rarely 500000 edges (bars, annuli, sieves, teeth, rows, copies, nested boxes), with a counting scalar; non-trivial: at least 10 edges", quick: (4_000, 2_000), thorough: (100_000, 50_000), f: scale::c28, findings: None, assumptions: &[EXACT] },
        Prop { id: "C29", rule: "random valid polygons as for C12 and eight structured families of up to 16000 vertices (saws, zigzags, stairs, holes, combs, arcs, battlements, spirals), with a counting scalar; non-trivial: at least 10 vertices", quick: (4_500, 2_250), thorough: (112_000, 56_000), f: scale::c29, findings: None, assumptions: &[VALID] },
        Prop { id: "C30", rule: "random computations (crossings, pairs, boolean operations, decompositions, monotone sweeps) over inputs as for C03, C08 and C12, run again, with every log message formatted, alternating with another one, and on another thread; non-trivial: at least 3 items or a long result", quick: (60_000, 30_000), thorough: (1_500_000, 750_000), f: state::c30, findings: None, assumptions: &[EXACT] },
        Prop { id: "C31", rule: "random cases of the other properties and wild input (arrangements, wrappings and moves, boolean programs, decompositions, scans, map histories, unruly comparators) under AddressSanitizer with the standard library's unsafe-precondition checks; non-trivial as stated there", quick: (120_000, 0), thorough: (1_500_000, 0), f: state::c31, findings: None, assumptions: &[] },
        Prop { id: "C32", rule: "random segments and cell sets on grids of up to 20x20 lines, sheared and scaled, every node moved by up to 10000 units in the last place (f64; 6 for f32); non-trivial: at least one crossing, or operands that overlap", quick: (200_000, 100_000), thorough: (5_000_000, 2_500_000), f: tilt::c32, findings: None, assumptions: &["apart from the tilt, ends and crossings are separated by 1/50 of the extent"] },
    ]
}
pub fn find(id: &str) -> Prop { all().into_iter().find(|p| p.id == id).unwrap_or_else(|| { eprintln!("unknown property {id}"); std::process::exit(2) }) }
