mod alloc;
mod cov;
mod engine;
mod gen;
mod model;
mod obs;
mod p_build;
mod p_cost;
#[cfg(feature = "debug_tools")]
mod p_debug;
mod p_hash;
mod p_map;
mod p_nib;
mod p_ser;
mod p_share;
mod supervise;

use std::{rc::Rc, time::Duration};

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

fn props() -> Vec<engine::Prop> {
    vec![
        p_map::prop_c01(),
        p_hash::prop_c02(),
        p_map::prop_c03(),
        p_map::prop_c04(),
        p_hash::prop_c05(),
        p_hash::prop_c06(),
        p_hash::prop_c07(),
        p_share::prop_c08(),
        p_share::prop_c09(),
        p_share::prop_c10(),
        p_map::prop_c11(),
        p_nib::prop_c12(),
        p_nib::prop_c13(),
        p_nib::prop_c14(),
        p_nib::prop_c15(),
        p_nib::prop_c16(),
        p_ser::prop_c17(),
        #[cfg(feature = "debug_tools")]
        p_debug::prop_c18(),
        #[cfg(feature = "debug_tools")]
        p_debug::prop_c19(),
        #[cfg(feature = "debug_tools")]
        p_debug::prop_c20(),
        p_build::prop_c21(),
        p_cost::prop_c22(),
    ]
}

fn prop(id: &str) -> engine::Prop {
    match props().into_iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("no such property: {id}");
            std::process::exit(2);
        }
    }
}

/// Deep tries need a deep stack in the unoptimised build, and the same one
/// everywhere.
fn with_stack(f: impl FnOnce() + Send + 'static) {
    let t = std::thread::Builder::new()
        .name("case".into())
        .stack_size(8 << 20)
        .spawn(f)
        .expect("cannot start a thread");
    if t.join().is_err() {
        eprintln!("harness error: the case thread panicked");
        std::process::exit(2);
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let cmd = a.get(1).map_or("", |s| s.as_str());
    match cmd {
        "worker" => {
            let cfg = engine::Cfg {
                seed: a[3].parse().unwrap(),
                worker: a[4].parse().unwrap(),
                of: a[5].parse().unwrap(),
                budget: Duration::from_millis(a[6].parse().unwrap()),
                thorough: a[7] == "thorough",
                out: a[8].clone(),
                profile: a[9].clone(),
                logging: a[10] == "1",
                src: a[11].clone(),
            };
            let id = a[2].clone();
            obs::install_hook();
            with_stack(move || engine::worker(&prop(&id), &cfg));
        }
        "digest" | "digest-trace" => {
            obs::install_hook();
            let cmd = cmd.to_string();
            with_stack(move || {
                std::process::exit(if cmd == "digest" {
                    p_build::digests(&a[2..])
                } else {
                    p_build::digest_trace(&a[2..])
                })
            });
        }
        "supervise" => std::process::exit(supervise::run(&a[2..])),
        "replay" => {
            let b = std::fs::read(&a[2]).expect("cannot read the replay file");
            let rp: engine::Replay = serde_json::from_slice(&b).expect("not a replay file");
            let src = a.get(3).cloned().unwrap_or("/repo/src".into());
            obs::install_hook();
            engine::set_logging(rp.logging);
            with_stack(move || {
                let dict = Rc::new(gen::Dict::load(&src));
                let p = prop(&rp.property);
                if rp.kind == "threads" {
                    println!("{}\n{}", rp.history.join("\n"), rp.message);
                    return;
                }
                if rp.kind == "builds" {
                    for l in &rp.history {
                        println!("  {l}");
                    }
                    println!("in this build:");
                    for l in p_build::observed(&rp.tape, &dict) {
                        println!("  {l}");
                    }
                    println!("{}", rp.message);
                    return;
                }
                let mut o = obs::Obs {
                    trace: Some(vec![]),
                    ..Default::default()
                };
                let r = engine::rerun(&p, &rp, &dict, &mut o);
                for l in o.trace.unwrap_or_default() {
                    println!("  {l}");
                }
                match r {
                    Some(m) => {
                        println!("VIOLATION property={} {m}", rp.property);
                        std::process::exit(1)
                    }
                    None => println!("no violation"),
                }
            });
        }
        _ => {
            eprintln!("usage: verif worker|supervise|replay ...");
            std::process::exit(2);
        }
    }
}
