//! Results depend on the input alone: not on logging, on earlier calls, on
//! other iterators in progress, or on the thread.
use crate::engine::*;
use crate::gen::*;
use crate::props::boolean::{operands, to_geo};
use crate::props::cross::{case, input, Cr};
use crate::props::mono::big_case;
use crate::tape::Src;
use geo::{MultiPolygon, Polygon};
use geo_crossings::bops::OpType;
use geo_crossings::*;
use std::cell::{Cell, RefCell};
use std::fmt::Write as _;
use std::sync::Once;

struct Log;
thread_local! { static ON: Cell<bool> = const { Cell::new(false) }; static LINES: Cell<u64> = const { Cell::new(0) }; static BUF: RefCell<String> = const { RefCell::new(String::new()) }; }
impl log::Log for Log {
    fn enabled(&self, _: &log::Metadata) -> bool { ON.with(|o| o.get()) }
    fn log(&self, r: &log::Record) {
        if !ON.with(|o| o.get()) { return; }
        LINES.with(|l| l.set(l.get() + 1));
        BUF.with(|b| { let mut b = b.borrow_mut(); b.clear(); let _ = write!(b, "{}", r.args()); });
    }
    fn flush(&self) {}
}
static LOG: Log = Log;
static INIT: Once = Once::new();

/// One computation, and its result in full.
enum Job<T: Sc> { Points(Vec<Cr<T>>), Pairs(Vec<Cr<T>>), Bool(MultiPolygon<T>, MultiPolygon<T>, OpType), Chains(Polygon<f64>), Sweep(Polygon<f64>) }
enum Run<T: Sc> { Points(CrossingsIter<Cr<T>>), Pairs(Intersections<Cr<T>>), Sweep(std::pin::Pin<Box<MonotoneSweep<f64>>>), Done(Option<String>) }
impl<T: Sc> Job<T> {
    fn start(&self) -> Run<T> {
        match self {
            Job::Points(v) => Run::Points(v.iter().cloned().collect()),
            Job::Pairs(v) => Run::Pairs(v.iter().cloned().collect()),
            Job::Sweep(p) => Run::Sweep(Box::pin(MonotoneSweep::from_polygon(p))),
            Job::Bool(a, b, op) => Run::Done(Some(format!("{:?}", a.boolean_op(b, *op)))),
            Job::Chains(p) => Run::Done(Some(format!("{:?}", monotone_chains(p)))),
        }
    }
    fn all(&self) -> Vec<String> { let mut r = self.start(); let mut v = vec![]; while let Some(s) = r.step() { v.push(s); } v }
    fn kind(&self) -> &'static str { match self { Job::Points(_) => "points", Job::Pairs(_) => "pairs", Job::Bool(..) => "boolean", Job::Chains(_) => "chains", Job::Sweep(_) => "monotone sweep" } }
}
impl<T: Sc> Run<T> {
    fn step(&mut self) -> Option<String> {
        match self {
            Run::Points(it) => { let c = it.next()?; Some(format!("{c:?} {:?}", it.intersections().iter().map(|s| (s.crossable.id, s.line, s.first_segment, s.has_overlap, s.at_left)).collect::<Vec<_>>())) }
            Run::Pairs(it) => { let (a, b, x) = it.next()?; Some(format!("{} {} {x:?}", a.id, b.id)) }
            Run::Sweep(it) => it.next().map(|e| format!("{:?} {:?} {:?}", e.pt, e.ty, e.links)),
            Run::Done(s) => s.take(),
        }
    }
}
fn job<T: Sc>(src: &mut Src, ctx: &mut Ctx) -> Job<T> {
    match src.weighted(&[3, 3, 3, 2, 2]) {
        0 => { let (s, e) = case::<T>(src, ctx); Job::Points(input(&s, e)) }
        1 => { let (s, e) = case::<T>(src, ctx); Job::Pairs(input(&s, e)) }
        2 => { let (m, e) = operands::<T>(src, ctx, 2); let op = [OpType::Intersection, OpType::Union, OpType::Difference, OpType::Xor][src.u(4)]; Job::Bool(to_geo(&m[0], e, 0), to_geo(&m[1], e, 1), op) }
        3 => Job::Chains(big_case(src, ctx)),
        _ => Job::Sweep(big_case(src, ctx)),
    }
}
fn same(what: &str, a: &[String], b: &[String]) -> R {
    for (i, (x, y)) in a.iter().zip(b).enumerate() { if x != y { return Err(format!("{what}: item {i} is {y} instead of {x}")); } }
    if a.len() != b.len() { return Err(format!("{what}: {} items instead of {}", b.len(), a.len())); }
    Ok(())
}
fn run<T: Sc>(src: &mut Src, ctx: &mut Ctx) -> R {
    INIT.call_once(|| { let _ = log::set_logger(&LOG); });
    log::set_max_level(log::LevelFilter::Off);
    let j = job::<T>(src, ctx);
    ctx.label(j.kind());
    let want = j.all();
    ctx.nontrivial = want.len() >= 3 || want.iter().any(|s| s.len() > 200);
    same("a second run", &want, &j.all())?;
    // with every message formatted
    log::set_max_level(log::LevelFilter::Trace);
    ON.with(|o| o.set(true)); LINES.with(|l| l.set(0));
    let got = guard("a run with logging on", || j.all());
    ON.with(|o| o.set(false));
    log::set_max_level(log::LevelFilter::Off);
    ctx.work += LINES.with(|l| l.get());
    same("a run with logging on", &want, &got?)?;
    // together with another computation
    let k = job::<T>(src, ctx);
    let wk = k.all();
    let (mut a, mut b) = (j.start(), k.start());
    let (mut ga, mut gb) = (vec![], vec![]);
    let pace = 1 + src.u(3);
    let (mut da, mut db) = (false, false);
    while !(da && db) {
        for _ in 0..pace { if !da { match a.step() { Some(s) => ga.push(s), None => da = true } } }
        if !db { match b.step() { Some(s) => gb.push(s), None => db = true } }
    }
    same("a run alternating with another", &want, &ga)?;
    same("a run alternating with another", &wk, &gb)?;
    if src.chance(1, 10) {
        ctx.label("other thread");
        let got = std::thread::scope(|s| s.spawn(|| { crate::fuel::reset(); guard("a run on another thread", || j.all()) }).join().unwrap())?;
        same("a run on another thread", &want, &got)?;
    }
    Ok(())
}
pub fn c30(src: &mut Src, ctx: &mut Ctx) -> R { if src.chance(1, 6) { run::<f32>(src, ctx) } else { run::<f64>(src, ctx) } }

/// The cases of all other properties, for their memory accesses only: what
/// they compute is decided elsewhere.
pub fn c31(src: &mut Src, ctx: &mut Ctx) -> R {
    use crate::props::*;
    const ALL: [(&str, u64, fn(&mut Src, &mut Ctx) -> R); 19] = [
        ("pairs", 2, cross::c01), ("points", 2, cross::c03), ("incidence", 2, cross::c04), ("tiling", 2, cross::c05),
        ("general position", 2, general::c06), ("wrapping and moving", 6, iter::c07), ("boolean", 3, boolean::c08), ("operation programs", 3, boolean::c10),
        ("boolean, general position", 1, general::c11), ("tilted edges", 2, tilt::c32), ("decomposition", 3, mono::c12), ("monotone sweep", 2, mono::c14), ("chains", 1, mono::c15), ("scan", 2, mono::c16), ("raster", 2, mono::c27),
        ("map and set", 5, splay::c19), ("item life", 4, splay::c20), ("unruly comparators", 6, splay::c24), ("wild", 1, wild::wild),
    ];
    let ws: Vec<u64> = ALL.iter().map(|a| a.1).collect();
    let k = src.weighted(&ws);
    ctx.label(ALL[k].0);
    ctx.input(&k);
    let mut c = Ctx { describe: ctx.describe, ..Default::default() };
    let r = guard("", || (ALL[k].2)(src, &mut c));
    ctx.input(&c.fp);
    ctx.nontrivial = c.nontrivial;
    ctx.work += c.work;
    if ALL[k].0 == "wild" { if let Ok(r) = r { r?; } for l in c.labels.clone() { ctx.label(l); } }
    ctx.show(|| format!("{}: {}", ALL[k].0, c.desc));
    Ok(())
}
