//! The splay tree and set against ordered-map models.
use crate::engine::*;
use crate::tape::Src;
use geo_crossings::{SplaySet, SplayTree};
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;
use std::collections::BTreeMap;
use std::rc::Rc;

/// A key: ordered by `k` through one of several comparators; `tag` tells
/// equal keys apart.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
struct K { k: i64, tag: u32 }
#[derive(Clone, Copy, Debug)]
enum Cmp { Nat, Rev, Class(i64), Mix }
impl Cmp {
    fn gen(src: &mut Src) -> Cmp { match src.weighted(&[4, 2, 2, 2]) { 0 => Cmp::Nat, 1 => Cmp::Rev, 2 => Cmp::Class(2 + src.range(0, 3)), _ => Cmp::Mix } }
    /// The rank by which keys are ordered.
    fn rank(self, k: i64) -> i64 {
        match self { Cmp::Nat => k, Cmp::Rev => -k, Cmp::Class(m) => k.div_euclid(m), Cmp::Mix => (k as u64).wrapping_mul(0x9e3779b97f4a7c15) as i64 }
    }
    fn cmp(self, a: i64, b: i64) -> Ordering { self.rank(a).cmp(&self.rank(b)) }
}
/// Key sequences: small ranges, sequential, wide, alternating ends.
struct Keys { mode: usize, m: i64, at: i64 }
impl Keys {
    fn gen(src: &mut Src) -> Keys { Keys { mode: src.weighted(&[4, 3, 3, 2, 2]), m: *src.pick(&[4i64, 12, 40, 300]), at: 0 } }
    fn next(&mut self, src: &mut Src) -> i64 {
        self.at += 1;
        match self.mode {
            0 => src.range(0, self.m),
            1 => if src.chance(1, 4) { src.range(0, self.at + 1) } else { self.at },
            2 => src.sym(1 << 40),
            3 => if self.at % 2 == 0 { self.at } else { -self.at },
            _ => (self.at * 7) % self.m + src.range(0, 2),
        }
    }
}
fn len(src: &mut Src) -> usize { match src.weighted(&[30, 20, 8, 1]) { 0 => 1 + src.u(12), 1 => 10 + src.u(60), 2 => 50 + src.u(400), _ => 500 + src.u(3000) } }

type Tree<'a, V> = SplayTree<K, V, Box<dyn Fn(&K, &K) -> Ordering + 'a>>;
type Set<'a> = SplaySet<K, Box<dyn Fn(&K, &K) -> Ordering + 'a>>;

pub fn c19(src: &mut Src, ctx: &mut Ctx) -> R {
    let n = len(src);
    let cmp = Cmp::gen(src);
    ctx.label(match cmp { Cmp::Nat => "natural order", Cmp::Rev => "reversed order", Cmp::Class(_) => "classes of equal keys", Cmp::Mix => "scrambled order" });
    ctx.label(match n { 0..=12 => "n<=12", 13..=70 => "n<=70", 71..=450 => "n<=450", _ => "n>450" });
    let set = src.chance(1, 4);
    ctx.label(if set { "set" } else { "map" });
    if set { set_model(src, ctx, n, cmp) } else { map_model(src, ctx, n, cmp) }
}
fn map_model(src: &mut Src, ctx: &mut Ctx, n: usize, cmp: Cmp) -> R {
    let mut keys = Keys::gen(src);
    let mut t: Tree<u64> = SplayTree::new(Box::new(move |a: &K, b: &K| cmp.cmp(a.k, b.k)));
    // rank -> (key held, value)
    let mut m: BTreeMap<i64, (K, u64)> = BTreeMap::new();
    let mut log: Vec<String> = vec![];
    let mut fp = vec![];
    let (mut hits, mut rems) = (0, 0);
    for i in 0..n {
        let key = K { k: keys.next(src), tag: i as u32 };
        let r = cmp.rank(key.k);
        let v = i as u64 * 10;
        let op = src.weighted(&[10, 5, 4, 3, 3, 3, 4, 4, 2, 2, 1, 1, 1, 2]);
        fp.push((op as u8, key.k));
        if ctx.describe && log.len() < 200 { log.push(format!("{}({})", ["insert", "remove", "get", "get_mut", "contains", "find_key", "next", "prev", "min", "max", "index", "extend", "clear", "several refs"][op], key.k)); }
        let nx = m.range((std::ops::Bound::Excluded(r), std::ops::Bound::Unbounded)).next().map(|(_, e)| *e);
        let pv = m.range(..r).next_back().map(|(_, e)| *e);
        let cur = m.get(&r).copied();
        hits += (cur.is_some() && op >= 1) as usize;
        macro_rules! eq { ($got:expr, $want:expr, $what:expr) => {{ let (g, w) = ($got, $want); if g != w { ctx.show(|| format!("{cmp:?} {}", log.join(" "))); return Err(format!("{}: after {} operations, {} with key {} gives {g:?} instead of {w:?}", $what, i, $what, key.k)); } }} }
        match op {
            0 => {
                let want = cur.map(|c| c.1);
                eq!(t.insert(key, v), want, "insert");
                match m.get_mut(&r) { Some(e) => e.1 = v, None => { m.insert(r, (key, v)); } }
            }
            1 => { eq!(t.remove(&key), cur.map(|c| c.1), "remove"); rems += m.remove(&r).is_some() as usize; }
            2 => eq!(t.get(&key).copied(), cur.map(|c| c.1), "get"),
            3 => {
                let g = t.get_mut(&key);
                let some = g.is_some();
                if let Some(g) = g { *g += 3; m.get_mut(&r).map(|e| e.1 += 3); }
                eq!(some, cur.is_some(), "get_mut");
            }
            4 => eq!(t.contains(&key), cur.is_some(), "contains"),
            5 => eq!(t.find_key(&key).copied(), cur.map(|c| c.0), "find_key"),
            6 => eq!(t.next(&key).map(|(k, v)| (*k, *v)), nx, "next"),
            7 => eq!(t.prev(&key).map(|(k, v)| (*k, *v)), pv, "prev"),
            8 => eq!(t.min().copied(), m.values().next().map(|e| e.0), "min"),
            9 => eq!(t.max().copied(), m.values().next_back().map(|e| e.0), "max"),
            10 => if cur.is_some() {
                t[&key] += 1;
                m.get_mut(&r).unwrap().1 += 1;
                eq!(Some(t[&key]), m.get(&r).map(|e| e.1), "index");
            } else if guard("index", || t[&key]).is_ok() { return Err(format!("indexing with the missing key {} does not panic", key.k)); },
            11 => {
                let k = src.u(6);
                let items: Vec<(K, u64)> = (0..k).map(|j| (K { k: keys.next(src), tag: (i * 100 + j) as u32 }, v + j as u64)).collect();
                for (k2, v2) in &items { let r = cmp.rank(k2.k); match m.get_mut(&r) { Some(e) => e.1 = *v2, None => { m.insert(r, (*k2, *v2)); } } }
                t.extend(items);
            }
            12 => if src.chance(1, 8) { t.clear(); m.clear(); },
            _ => {
                // references stay good while the tree is queried on
                let k2 = K { k: keys.next(src), tag: 0 };
                let a = t.get(&key);
                let b = t.next(&k2);
                let c = t.find_key(&key);
                let d = t.min();
                let e = t.prev(&k2);
                let f = t.get(&k2);
                t.contains(&key);
                let r2 = cmp.rank(k2.k);
                eq!(a.copied(), cur.map(|c| c.1), "get (held)");
                eq!(c.copied(), cur.map(|c| c.0), "find_key (held)");
                eq!(d.copied(), m.values().next().map(|e| e.0), "min (held)");
                eq!(b.map(|(k, v)| (*k, *v)), m.range((std::ops::Bound::Excluded(r2), std::ops::Bound::Unbounded)).next().map(|(_, e)| *e), "next (held)");
                eq!(e.map(|(k, v)| (*k, *v)), m.range(..r2).next_back().map(|(_, e)| *e), "prev (held)");
                eq!(f.copied(), m.get(&r2).map(|e| e.1), "get (held)");
            }
        }
        eq!((t.len(), t.is_empty()), (m.len(), m.is_empty()), "len");
        ctx.work += 1;
    }
    ctx.show(|| format!("{cmp:?} {}", log.join(" ")));
    ctx.input(&fp);
    ctx.nontrivial = n >= 8 && hits >= 2;
    ctx.label_if(rems > 0, "removals");
    // contents in order
    let want: Vec<(K, u64)> = m.values().copied().collect();
    let got: Vec<(K, u64)> = if src.chance(1, 2) { t.into_iter().collect() } else { let mut v: Vec<_> = t.into_iter().rev().collect(); v.reverse(); v };
    if got != want { return Err(format!("contents: {got:?} instead of {want:?}")); }
    Ok(())
}
fn set_model(src: &mut Src, ctx: &mut Ctx, n: usize, cmp: Cmp) -> R {
    let mut keys = Keys::gen(src);
    let mut t: Set = SplaySet::new(Box::new(move |a: &K, b: &K| cmp.cmp(a.k, b.k)));
    let mut m: BTreeMap<i64, K> = BTreeMap::new();
    let mut log: Vec<String> = vec![];
    let mut fp = vec![];
    let mut hits = 0;
    for i in 0..n {
        let key = K { k: keys.next(src), tag: i as u32 };
        let r = cmp.rank(key.k);
        let op = src.weighted(&[10, 5, 4, 3, 4, 4, 2, 2, 1, 1]);
        fp.push((op as u8, key.k));
        if ctx.describe && log.len() < 200 { log.push(format!("{}({})", ["insert", "remove", "contains", "find", "next", "prev", "min", "max", "extend", "clear"][op], key.k)); }
        let cur = m.get(&r).copied();
        hits += (cur.is_some() && op >= 1) as usize;
        macro_rules! eq { ($got:expr, $want:expr, $what:expr) => {{ let (g, w) = ($got, $want); if g != w { ctx.show(|| format!("set {cmp:?} {}", log.join(" "))); return Err(format!("{}: after {} operations, {} with key {} gives {g:?} instead of {w:?}", $what, i, $what, key.k)); } }} }
        match op {
            0 => { eq!(t.insert(key), cur.is_none(), "insert"); m.entry(r).or_insert(key); }
            1 => { eq!(t.remove(&key), cur.is_some(), "remove"); m.remove(&r); }
            2 => eq!(t.contains(&key), cur.is_some(), "contains"),
            3 => eq!(t.find(&key).copied(), cur, "find"),
            4 => eq!(t.next(&key).copied(), m.range((std::ops::Bound::Excluded(r), std::ops::Bound::Unbounded)).next().map(|e| *e.1), "next"),
            5 => eq!(t.prev(&key).copied(), m.range(..r).next_back().map(|e| *e.1), "prev"),
            6 => eq!(t.min().copied(), m.values().next().copied(), "min"),
            7 => eq!(t.max().copied(), m.values().next_back().copied(), "max"),
            8 => {
                let k = src.u(6);
                let items: Vec<K> = (0..k).map(|j| K { k: keys.next(src), tag: (i * 100 + j) as u32 }).collect();
                for k2 in &items { m.entry(cmp.rank(k2.k)).or_insert(*k2); }
                t.extend(items);
            }
            _ => if src.chance(1, 8) { t.clear(); m.clear(); },
        }
        eq!((t.len(), t.is_empty()), (m.len(), m.is_empty()), "len");
        ctx.work += 1;
    }
    ctx.show(|| format!("set {cmp:?} {}", log.join(" ")));
    ctx.input(&fp);
    ctx.nontrivial = n >= 8 && hits >= 2;
    let want: Vec<K> = m.values().copied().collect();
    let got: Vec<K> = if src.chance(1, 2) { t.into_iter().collect() } else { let mut v: Vec<_> = t.into_iter().rev().collect(); v.reverse(); v };
    if got != want { return Err(format!("contents: {got:?} instead of {want:?}")); }
    Ok(())
}

// ---- iterators, sizes, drops ------------------------------------------

/// Counts live values; every drop of a given serial is recorded.
struct Live { drops: RefCell<Vec<u8>> }
struct D { k: i64, id: usize, live: Rc<Live> }
impl D { fn new(k: i64, live: &Rc<Live>) -> D { let id = { let mut d = live.drops.borrow_mut(); d.push(0); d.len() - 1 }; D { k, id, live: live.clone() } } }
impl Drop for D { fn drop(&mut self) { let mut d = self.live.drops.borrow_mut(); d[self.id] = d[self.id].saturating_add(1); } }

pub fn c20(src: &mut Src, ctx: &mut Ctx) -> R {
    let deep = src.chance(1, 400);
    let n = if deep { 30_000 + src.u(120_000) } else { len(src) };
    let set = src.chance(1, 4);
    let live = Rc::new(Live { drops: RefCell::new(vec![]) });
    // tree shape: sequential insertion is a path, others mixed, then some queries
    let shape = if deep { src.u(2) } else { src.u(5) };
    ctx.label(["ascending", "descending", "random", "alternating", "ascending + removals"][shape]);
    ctx.label_if(deep, "deep tree");
    ctx.label(if set { "set" } else { "map" });
    let mut ks: Vec<i64> = vec![];
    for i in 0..n as i64 { ks.push(match shape { 0 | 4 => i, 1 => -i, 2 => src.range(0, 4 * n as i64), _ => if i % 2 == 0 { i } else { -i } }); }
    let q = if deep { src.u(3) } else { src.u(8) };
    let touch: Vec<i64> = (0..q).map(|_| *src.pick(&ks)).collect();
    let rem: Vec<i64> = if shape == 4 { (0..n / 2).map(|_| *src.pick(&ks)).collect() } else { vec![] };
    let plan = src.weighted(&[5, 2, 2, 1]);
    ctx.label(["iterate", "drop tree", "clear", "drop untouched iterator"][plan]);
    let mut want: Vec<i64> = ks.clone();
    want.sort(); want.dedup();
    want.retain(|k| !rem.contains(k));
    let steps: Vec<u8> = (0..if deep { 20 } else { 3 + src.u(want.len() + 4) }).map(|_| src.weighted(&[4, 4, 1, 1, 1]) as u8).collect();
    let front = src.u(3);
    ctx.input(&(&ks[..n.min(100)], &steps, plan, &touch));
    ctx.nontrivial = n >= 6;
    ctx.show(|| format!("{} {} keys {:?}..., queried {touch:?}, removed {rem:?}, plan {plan}, steps {:?}", if set { "set" } else { "map" }, n, &ks[..n.min(20)], &steps[..steps.len().min(40)]));
    let cmp = |a: &D, b: &D| a.k.cmp(&b.k);
    let mut total = 0;
    let probe = |k: i64| D::new(k, &live);
    macro_rules! drive { ($t:expr, $ins:expr, $mk:expr, $back:expr, $exact:expr) => {{
        let mut t = $t;
        for k in &ks { $ins(&mut t, *k); }
        for k in &touch { let d = probe(*k); t.contains(&d); }
        for k in &rem { let d = probe(*k); t.remove(&d); }
        if t.len() != want.len() { return Err(format!("len is {} instead of {}", t.len(), want.len())); }
        match plan {
            1 => drop(t),
            2 => { t.clear(); if !t.is_empty() || t.min().is_some() { return Err("not empty after clear".into()); } if src.chance(1, 2) { $ins(&mut t, 5); if t.len() != 1 { return Err("len after clear and insert".into()); } } drop(t) }
            3 => drop(t.into_iter()),
            _ => {
                let mut it = t.into_iter();
                let (mut lo, mut hi) = (0, want.len());
                let size = |it: &_, lo: usize, hi: usize| -> R { let h = Iterator::size_hint(it); if h != (hi - lo, Some(hi - lo)) { Err(format!("size_hint is {h:?} with {} items left", hi - lo)) } else { Ok(()) } };
                let mut held = vec![];
                for st in &steps {
                    size(&it, lo, hi)?;
                    total += 1;
                    let (got, w) = match *st {
                        0 if front != 1 => (it.next(), if lo < hi { lo += 1; Some(want[lo - 1]) } else { None }),
                        0 | 1 if front != 0 => (it.next_back(), if lo < hi { hi -= 1; Some(want[hi]) } else { None }),
                        2 if !deep => { let k = 1; (it.nth(k), { lo = (lo + k + 1).min(hi + 1); if lo <= hi { Some(want[lo - 1]) } else { lo = hi; None } }) }
                        3 if lo < hi && !deep => { let v = it.next(); lo += 1; (v, Some(want[lo - 1])) }
                        _ => continue,
                    };
                    let g = got.as_ref().map(|x| $mk(x));
                    if g != w { return Err(format!("the iterator yields {g:?} instead of {w:?}")); }
                    if let Some(x) = got { if held.len() % 2 == 0 { held.push(Some(x)); } else { held.push(None); } }
                }
                size(&it, lo, hi)?;
                $exact(&it, hi - lo)?;
                match src.u(3) {
                    0 => drop(it),
                    1 => { let rest: Vec<i64> = it.map(|x| $mk(&x)).collect(); if rest != want[lo..hi] { return Err(format!("the rest is {rest:?} instead of {:?}", &want[lo..hi])); } }
                    _ => { let mut rest: Vec<i64> = it.rev().map(|x| $mk(&x)).collect(); rest.reverse(); if rest != want[lo..hi] { return Err(format!("the rest (reversed) is {rest:?} instead of {:?}", &want[lo..hi])); } }
                }
                drop(held);
            }
        }
    }} }
    if set {
        drive!(SplaySet::new(cmp), |t: &mut SplaySet<D, _>, k: i64| { let d = D::new(k, &live); t.insert(d); }, |x: &D| x.k, |_: &D| (), |_: &_, _n: usize| -> R { Ok(()) });
    } else {
        drive!(SplayTree::new(cmp), |t: &mut SplayTree<D, D, _>, k: i64| { let (d, v) = (D::new(k, &live), D::new(k, &live)); t.insert(d, v); }, |x: &(D, D)| { if x.0.k != x.1.k { return i64::MIN; } x.0.k }, |_: &D| (), |it: &_, n: usize| -> R { let l = ExactSizeIterator::len(it); if l != n { Err(format!("len of the iterator is {l} instead of {n}")) } else { Ok(()) } });
    }
    ctx.work += total + n as u64;
    let d = live.drops.borrow();
    if let Some(i) = d.iter().position(|c| *c != 1) { return Err(format!("{} of {} keys and values: number {i} is dropped {} times", d.iter().filter(|c| **c != 1).count(), d.len(), d[i])); }
    Ok(())
}

// ---- amortised cost ----------------------------------------------------

pub fn c25(src: &mut Src, ctx: &mut Ctx) -> R {
    let n = match src.weighted(&[4, 4, 1]) { 0 => 64 + src.u(200), 1 => 500 + src.u(1500), _ => 2000 + src.u(6000) };
    let build = src.u(4);
    let access = src.u(8);
    ctx.label(["built ascending", "built descending", "built alternating", "built at random"][build]);
    ctx.label(["ascending sweep", "descending sweep", "alternating ends", "random", "missing keys", "bit reversal", "local", "stride"][access]);
        ctx.nontrivial = true;
    let count = Cell::new(0u64);
    // one operation only (others would repair the shape of the tree), or a mix
    let only = if src.chance(1, 2) { Some(src.u(7)) } else { None };
    let set = src.chance(1, 3);
    ctx.label(match only { None => "mix", Some(k) => ["only get", "only contains", "only remove and insert", "only insert", "only get_mut", "only find_key", "only index"][k] });
    ctx.label_if(set, "set");
    ctx.input(&(n, build, access, only, set));
    let cmp = |a: &i64, b: &i64| { count.set(count.get() + 1); a.cmp(b) };
    let mut t = SplayTree::new(cmp);
    let mut st = SplaySet::new(cmp);
    let nn = n as i64;
    let mut ops = 0u64;
    let mut present = std::collections::HashSet::new();
    for i in 0..nn {
        let k = match build { 0 => i, 1 => nn - i, 2 => if i % 2 == 0 { i } else { -i }, _ => src.range(0, 2 * nn) };
        if set { st.insert(2 * k); } else { t.insert(2 * k, ()); }
        present.insert(2 * k);
        ops += 1;
    }
    let mut ks: Vec<i64> = present.iter().copied().collect();
    ks.sort();
    let len = ks.len();
    let rounds = 1 + src.u(4);
    let stride = 1 + src.u(len);
    let mut mix = vec![];
    for r in 0..rounds {
        for i in 0..len {
            let j = match access {
                0 => i,
                1 => len - 1 - i,
                2 => if i % 2 == 0 { i / 2 } else { len - 1 - i / 2 },
                3 | 4 => src.u(len),
                5 => ((i as u32).reverse_bits() >> 16) as usize % len,
                6 => (i / 8 + src.u(8)) % len,
                _ => (i * stride + r) % len,
            };
            let k = ks[j] + (access == 4) as i64;
            let op = match only { Some(k) => k, None => if r == 0 { 0 } else { src.weighted(&[6, 2, 1, 2, 2, 2, 2]) } };
            mix.push(op);
            ops += 1;
            if set { match op {
                0 | 1 | 6 => { st.contains(&k); }
                2 => { st.remove(&k); if only.is_some() { st.insert(k); ops += 1; } }
                3 => { st.insert(k); }
                _ => { st.find(&k); }
            } continue }
            match op {
                0 => { t.get(&k); }
                1 => { t.contains(&k); }
                2 => { t.remove(&k); if only.is_some() { t.insert(k, ()); ops += 1; } }
                3 => { t.insert(k, ()); }
                4 => { t.get_mut(&k); }
                5 => { t.find_key(&k); }
                _ => { if access == 4 { t.contains(&k); } else if only.is_some() { let _: () = t[&k]; } else { t.get(&k); } }
            }
        }
    }
    let lg = (t.len().max(st.len()).max(len) as f64 + 2.).log2();
    let bound = BOUND * (ops as f64 * lg + len as f64 * lg);
    let ratio = count.get() as f64 / (ops as f64 * lg + len as f64 * lg);
    ctx.label(match (ratio * 10.) as u64 { 0..=4 => "ratio<0.5", 5..=9 => "ratio<1", 10..=14 => "ratio<1.5", 15..=19 => "ratio<2", _ => "ratio>=2" });
    ctx.work += count.get();
    ctx.show(|| format!("{n} keys, {ops} operations, {} comparisons, {:.2} per operation and bit", count.get(), ratio));
    if count.get() as f64 > bound { return Err(format!("{} comparisons for {ops} operations on {len} keys, more than {bound:.0}", count.get())); }
    Ok(())
}
const BOUND: f64 = 4.;

// ---- comparators without manners ---------------------------------------

/// An item that knows whether it is alive, wherever it is looked at.
struct Z { k: i64, id: usize, reg: Rc<Reg>, body: Box<usize> }
struct Reg { state: RefCell<Vec<u8>>, bad: RefCell<Option<String>> }
impl Reg {
    fn new_item(self: &Rc<Self>, k: i64) -> Z { let mut s = self.state.borrow_mut(); let id = s.len(); s.push(1); Z { k, id, reg: self.clone(), body: Box::new(id) } }
    fn note(&self, m: String) { let mut b = self.bad.borrow_mut(); if b.is_none() { *b = Some(m); } }
    fn look(&self, z: &Z, what: &str) {
        let st = self.state.borrow().get(z.id).copied();
        if st != Some(1) || *z.body != z.id { self.note(format!("{what} an item that was dropped (number {})", z.id)); }
    }
}
impl Drop for Z {
    fn drop(&mut self) {
        let mut s = self.reg.state.borrow_mut();
        if s[self.id] != 1 || *self.body != self.id { drop(s); let r = self.reg.clone(); r.note(format!("item number {} is dropped twice", self.id)); return; }
        s[self.id] = 2;
    }
}
struct Boom;
/// Queries of the tree and the set, as the items they give.
trait Ask { fn find_any(&self, z: &Z) -> Vec<&Z>; fn succ(&self, z: &Z) -> Vec<&Z>; fn pred(&self, z: &Z) -> Vec<&Z>; }
impl<C: Fn(&Z, &Z) -> Ordering> Ask for SplayTree<Z, Z, C> {
    fn find_any(&self, z: &Z) -> Vec<&Z> { self.get(z).into_iter().chain(self.find_key(z)).collect() }
    fn succ(&self, z: &Z) -> Vec<&Z> { self.next(z).map_or(vec![], |(a, b)| vec![a, b]) }
    fn pred(&self, z: &Z) -> Vec<&Z> { self.prev(z).map_or(vec![], |(a, b)| vec![a, b]) }
}
impl<C: Fn(&Z, &Z) -> Ordering> Ask for SplaySet<Z, C> {
    fn find_any(&self, z: &Z) -> Vec<&Z> { self.find(z).into_iter().collect() }
    fn succ(&self, z: &Z) -> Vec<&Z> { self.next(z).into_iter().collect() }
    fn pred(&self, z: &Z) -> Vec<&Z> { self.prev(z).into_iter().collect() }
}
pub fn c24(src: &mut Src, ctx: &mut Ctx) -> R {
    let n = match src.weighted(&[4, 4, 1]) { 0 => 4 + src.u(20), 1 => 20 + src.u(80), _ => 100 + src.u(400) };
    // how the comparator misbehaves
    let mode = src.weighted(&[3, 3, 3, 2, 2]);
    ctx.label(["panics now and then", "random answers", "mostly right answers", "not transitive", "changes its order"][mode]);
    let panics = mode == 0 || src.chance(1, 4);
    let rate = *src.pick(&[3u64, 10, 40, 200]);
    let seed = src.bits();
    let set = src.chance(1, 4);
    ctx.label(if set { "set" } else { "map" });
    let reg = Rc::new(Reg { state: RefCell::new(vec![]), bad: RefCell::new(None) });
    let rng = RefCell::new(crate::tape::Rng::new(seed));
    let armed = Cell::new(false);
    let calls = Cell::new(0u64);
    let era = Cell::new(0i64);
    let cmp = |a: &Z, b: &Z| -> Ordering {
        reg.look(a, "the comparator is given"); reg.look(b, "the comparator is given");
        calls.set(calls.get() + 1);
        crate::fuel::tick();
        let r = rng.borrow_mut().next();
        if panics && armed.get() && (r >> 32) % rate == 0 { std::panic::resume_unwind(Box::new(Boom)); }
        let right = a.k.cmp(&b.k);
        match mode {
            1 => [Ordering::Less, Ordering::Equal, Ordering::Greater][(r % 3) as usize],
            2 if r % rate == 0 => [Ordering::Less, Ordering::Equal, Ordering::Greater][(r >> 8) as usize % 3],
            // rock, paper, scissors
            3 => { let d = (a.k - b.k).rem_euclid(7); if d == 0 { Ordering::Equal } else if d < 4 { Ordering::Less } else { Ordering::Greater } }
            4 => ((a.k ^ era.get()) & 63).cmp(&((b.k ^ era.get()) & 63)),
            _ => right,
        }
    };
    let range = *src.pick(&[4i64, 20, 100, 100_000]);
    let ops: Vec<(u8, i64)> = (0..n).map(|_| (src.weighted(&[10, 5, 3, 2, 3, 2, 2, 2, 1, 1, 1]) as u8, src.range(0, range))).collect();
    ctx.input(&(&ops, seed, mode));
    let fin = src.u(4);
    let mut boomed = 0u64;
    let mut log: Vec<String> = vec![];
    // what may be in the collection: each item inserted, in at most once
    let r: R = (|| {
        macro_rules! attempt { ($e:expr) => {{
            armed.set(true);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| $e));
            armed.set(false);
            match r { Ok(v) => Some(v), Err(p) if p.is::<Boom>() => { boomed += 1; None } Err(p) => std::panic::resume_unwind(p) }
        }} }
        macro_rules! drive { ($t:expr, $ins:expr, $look:expr, $rem:expr) => {{
            let mut t = $t;
            for (op, k) in &ops {
                if ctx.describe { log.push(format!("{}({k})", ["insert", "remove", "get", "contains", "next", "prev", "min", "max", "clear", "change order", "get twice"][*op as usize])); }
                match op {
                    0 => { let i = attempt!($ins(&mut t, *k)); let _ = i; }
                    1 => { let d = reg.new_item(*k); let r = attempt!($rem(&mut t, &d)); let _ = r; }
                    2 | 3 | 10 => { let d = reg.new_item(*k); attempt!({ t.contains(&d); for x in t.find_any(&d) { reg.look(x, "a query gives"); } if *op == 10 { let e = reg.new_item(*k + 1); let a = t.find_any(&d); let b = t.find_any(&e); for x in a.into_iter().chain(b) { reg.look(x, "a query gives"); } } }); }
                    4 => { let d = reg.new_item(*k); attempt!(for x in t.succ(&d) { reg.look(x, "next gives"); }); }
                    5 => { let d = reg.new_item(*k); attempt!(for x in t.pred(&d) { reg.look(x, "prev gives"); }); }
                    6 => { if let Some(x) = t.min() { reg.look(x, "min gives"); } }
                    7 => { if let Some(x) = t.max() { reg.look(x, "max gives"); } }
                    8 => { if *k % 4 == 0 { t.clear(); if !t.is_empty() || t.min().is_some() { return Err("not empty after clear".into()); } } }
                    _ => era.set(*k),
                }
                ctx.work += 1;
                if reg.bad.borrow().is_some() { return Ok(()); }
            }
            match fin {
                0 => drop(t),
                1 => { let mut t = t; t.clear(); }
                _ => {
                    let mut it = t.into_iter();
                    let mut seen = BTreeMap::new();
                    loop {
                        let x = if fin == 2 { it.next() } else { it.next_back() };
                        let Some(x) = x else { break };
                        let k = $look(&x);
                        if seen.insert(k, ()).is_some() { return Err(format!("iteration yields item number {k} twice")); }
                    }
                }
            }
        }} }
        if set {
            drive!(SplaySet::new(cmp), |t: &mut SplaySet<Z, _>, k: i64| { let d = reg.new_item(k); t.insert(d) }, |x: &Z| { reg.look(x, "a query gives"); x.id }, |t: &mut SplaySet<Z, _>, d: &Z| t.remove(d));
        } else {
            drive!(SplayTree::new(cmp), |t: &mut SplayTree<Z, Z, _>, k: i64| { let (d, v) = (reg.new_item(k), reg.new_item(k)); let o = t.insert(d, v); if let Some(o) = &o { reg.look(o, "insert gives"); } o.is_none() }, |x: &(Z, Z)| { reg.look(&x.0, "iteration gives"); reg.look(&x.1, "iteration gives"); x.0.id }, |t: &mut SplayTree<Z, Z, _>, d: &Z| { let o = t.remove(d); if let Some(o) = &o { reg.look(o, "remove gives"); } o.is_some() });
        }
        Ok(())
    })();
    ctx.show(|| format!("{} items, rate {rate}: {} ({boomed} panics)", n, log.join(" ")));
    ctx.label_if(boomed > 0, "comparator panicked");
    ctx.nontrivial = n >= 10 && (boomed > 0 || mode != 0);
    r?;
    if let Some(m) = reg.bad.borrow().clone() { return Err(m); }
    let st = reg.state.borrow();
    if let Some(i) = st.iter().position(|c| *c != 2) { return Err(format!("item number {i} of {} is never dropped", st.len())); }
    Ok(())
}
