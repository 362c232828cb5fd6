//! vh: runtime monitors for rphonetic. `vh run ID TIER SEED`, `vh replay FILE`.
mod alloc;
mod bm;
mod core;
mod cov;
mod dm;
mod dmeta;
mod enc;
mod gen;
mod interpose;
mod models;
mod props;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

fn find(id: &str) -> Box<dyn core::Prop> {
    match props::get(id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {id}");
            std::process::exit(2)
        }
    }
}

fn load(file: &str) -> core::Replay {
    let b = std::fs::read(file).unwrap_or_else(|e| {
        eprintln!("{file}: {e}");
        std::process::exit(2)
    });
    serde_json::from_slice(&b).unwrap_or_else(|e| {
        eprintln!("{file}: {e}");
        std::process::exit(2)
    })
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    core::install_panic_hook();
    core::own_dirs();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("run") => core::parent(&*find(&a[2]), a[3] == "thorough", a[4].parse().unwrap_or(1)),
        Some("worker") => {
            let p = find(&a[2]);
            core::worker(&*p, a[3] == "thorough", a[4].parse().unwrap(), a[5].parse().unwrap(), a[6].parse().unwrap(), std::path::Path::new(&a[7]))
        }
        Some("replay1") => {
            let r = load(&a[2]);
            let code = core::replay_here(&*find(&r.property), &r.case);
            props::bmp::clean_scratch();
            code
        }
        Some("replay") => {
            let r = load(&a[2]);
            match core::replay_fresh(std::path::Path::new(&a[2])) {
                Some(w) => {
                    println!("{w}\nVIOLATION property={} replay={}", r.property, a[2]);
                    1
                }
                None => {
                    println!("{}: the recorded case holds", r.property);
                    0
                }
            }
        }
        Some("child") => props::child(&a[2..]),
        Some("tokens") => {
            let mut m = std::collections::BTreeMap::new();
            for f in &a[3..] {
                let (mut t, mut i) = (vec![], vec![]);
                gen::harvest(&std::path::Path::new(&a[2]).join(f), &mut t, &mut i);
                t.sort();
                t.dedup();
                i.sort();
                i.dedup();
                m.insert(f.clone(), (t, i));
            }
            println!("{}", serde_json::to_string(&m).unwrap());
            0
        }
        Some("list") => {
            props::ids().iter().for_each(|i| println!("{i}"));
            0
        }
        _ => {
            eprintln!("vh run ID quick|thorough SEED | vh replay FILE | vh list");
            2
        }
    };
    std::process::exit(code);
}
