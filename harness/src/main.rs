#![allow(dead_code)]
mod alloc;
mod decoy;
mod enc;
mod gen;
mod hostile;
mod monbuf;
mod p_decode;
mod p_detect;
mod p_memory;
mod p_multi;
mod p_system;
mod props;
mod refdec;
mod render;
mod rng;
mod rs;
mod run;
mod spec;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut c = run::Cfg::from_env();
    let find = |id: &str| {
        props::all()
            .into_iter()
            .find(|p| p.id == id)
            .unwrap_or_else(|| panic!("no property {id}"))
    };
    let one = |c: &run::Cfg, id: &str, st: &str, idx: u64| -> i32 {
        run::install_hook();
        let p = find(id);
        let s = p.streams.iter().find(|s| s.name == st).expect("stream");
        let mut o = run::Obs {
            thorough: c.thorough,
            ..Default::default()
        };
        match run::run_case(&p, s, c.seed, idx, &mut o) {
            Ok(Ok(())) => {
                println!("held: {id} {st}/{idx}");
                0
            }
            Ok(Err(m)) => {
                println!("violated: {id} {st}/{idx}: {m}");
                1
            }
            Err(m) => {
                println!("harness error: {m}");
                3
            }
        }
    };
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => run::supervise(&find(&a[2]), &c),
        Some("worker") => run::run(&find(&a[2]), &c),
        Some("case") => one(&c, &a[2], &a[3], a[4].parse().unwrap()),
        Some("replay") => {
            let kv = run::read_kv(std::path::Path::new(&a[2]));
            c.seed = kv["seed"].parse().unwrap();
            c.thorough = kv["tier"] == "thorough";
            let p = find(&kv["property"]);
            if p.streams.iter().any(|s| s.name == kv["stream"]) {
                one(&c, p.id, &kv["stream"], kv["idx"].parse().unwrap())
            } else {
                // a share of many cases: all of them again
                run::supervise(&p, &c)
            }
        }
        Some("read") => {
            run::install_hook();
            p_system::read_stdin()
        }
        Some("list") => {
            for p in props::all() {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: vh check|worker|case|replay|list");
            2
        }
    };
    std::process::exit(code);
}
