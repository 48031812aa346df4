mod cov;
mod engine;
mod gen;
mod mem;
mod model;
mod props;
mod sql;
mod world;

/// The shared reference type of the crates in this build.
#[cfg(not(feature = "sync"))]
pub use std::rc::Rc;
#[cfg(feature = "sync")]
pub use std::sync::Arc as Rc;

use std::path::{Path, PathBuf};

fn find(id: &str) -> &'static engine::Prop {
    match props::all().iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {id}");
            std::process::exit(2);
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let a: Vec<&str> = args.iter().skip(1).map(|s| s.as_str()).collect();
    let verif = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".to_string()));
    let code = match a.as_slice() {
        ["check", id] => engine::check(find(id), &verif),
        ["worker", id, seed, index, cases, out] => {
            engine::worker(
                find(id),
                seed.parse().unwrap(),
                index.parse().unwrap(),
                cases.parse().unwrap(),
                Path::new(out),
            );
            0
        }
        ["one", id, file, scratch] => engine::one(find(id), Path::new(file), Path::new(scratch)),
        ["replay", file] => {
            let v: serde_json::Value =
                serde_json::from_str(&std::fs::read_to_string(file).expect("replay file"))
                    .expect("json");
            engine::replay(find(v["property"].as_str().unwrap()), &v)
        }
        ["list"] => {
            for p in props::all() {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: vh check ID | replay FILE | list");
            2
        }
    };
    std::process::exit(code);
}
