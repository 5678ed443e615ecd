#![allow(deprecated)]
#![allow(dead_code)]
mod alloc; mod engine; mod ex; mod fl; mod fuel; mod gen; mod poly; mod polygen; mod props; mod slab; mod tape; mod w;
use std::path::{Path, PathBuf};

#[global_allocator]
static A: alloc::Fuel = alloc::Fuel;

fn main() {
    engine::install_hook();
    let a: Vec<String> = std::env::args().collect();
    let n = |i: usize| a[i].parse::<u64>().expect("number");
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("run") => {
            let seed = std::env::var("VERIF_SEED").ok().and_then(|v| v.parse().ok()).unwrap_or(1);
            let tier = std::env::var("VERIF_TIER").unwrap_or("quick".into());
            let root = std::env::var("GX_ROOT").unwrap_or("/verif".into());
            let root = Path::new(&root);
            let bins: Vec<(String, PathBuf)> = a[3..].chunks(2).map(|c| (c[0].clone(), PathBuf::from(&c[1]))).collect();
            engine::parent(&props::find(&a[2]), seed, &tier, root, &bins)
        }
        Some("child") => engine::child(&props::find(&a[2]), n(3), n(4), n(5), Path::new(&a[7]), &a[6]),
        Some("one") => { let p = props::find(&a[2]); engine::child_one(&p, engine::src_for(&p, n(3), n(4), n(5)), Path::new(&a[6])) }
        Some("onetape") => { let (_, t) = engine::read_tape(Path::new(&a[3])); engine::child_one(&props::find(&a[2]), tape::Src::replay(t), Path::new(&a[4])) }
        Some("replay") => {
            let (id, t) = engine::read_tape(Path::new(&a[2]));
            let p = props::find(&id);
            let h = std::thread::Builder::new().stack_size(2 << 20).spawn(move || engine::replay(&p, t)).unwrap();
            let (ctx, r) = h.join().unwrap();
            println!("input: {}", ctx.desc);
            match r { Ok(()) => { println!("holds"); 0 } Err(m) => { println!("fails: {m}"); 1 } }
        }
        Some("wild") => props::wild::child(&(2..a.len()).map(n).collect::<Vec<_>>()),
        Some("list") => { for p in props::all() { println!("{}", p.id); } 0 }
        _ => { eprintln!("usage: gxcheck run|child|one|onetape|replay|list"); 2 }
    };
    std::process::exit(code);
}
