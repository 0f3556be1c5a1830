//! Mechanical extraction of the real functions of /repo into Verus units.
//!
//! usage: extract --repo DIR --unit FILE.tpl --out GEN.rs --map MAP.json
//!                [--expanded FILE] [--stub id,id] [--vacuity]
//!
//! A template is Verus text in which lines starting with `//@` ask for items of the real source.
//! Everything the tool changes on the way is one of the rules listed in DESIGN.md; each use is
//! counted per function in MAP.json.
mod print;
mod source;
mod template;
mod transform;

use std::{env, fs, process::exit};

fn main() {
    let mut repo = String::from("/repo");
    let mut unit = String::new();
    let mut out = String::new();
    let mut map = String::new();
    let mut expanded: Option<String> = None;
    let mut stubs: Vec<String> = vec![];
    let mut vacuity = false;
    let mut inventory: Option<String> = None;
    let mut a = env::args().skip(1);
    while let Some(x) = a.next() {
        let mut v = || a.next().unwrap_or_default();
        match x.as_str() {
            "--repo" => repo = v(),
            "--unit" => unit = v(),
            "--out" => out = v(),
            "--map" => map = v(),
            "--expanded" => expanded = Some(v()),
            "--stub" => stubs = v().split(";;").filter(|s| !s.is_empty()).map(|s| s.to_string()).collect(),
            "--vacuity" => vacuity = true,
            "--inventory" => inventory = Some(v()),
            _ => {
                eprintln!("unknown argument {x}");
                exit(2);
            }
        }
    }
    if let Some(files) = inventory {
        // one line per function: file, impl, name, line
        let mut sources = source::Sources::new(repo, expanded);
        for f in files.split(',') {
            for (k, n, l) in sources.inventory(f) {
                println!("{f}\t{k}\t{n}\t{l}");
            }
        }
        return;
    }
    let text = match template::load(&unit) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("cannot read {unit}: {e}");
            exit(2);
        }
    };
    let mut sources = source::Sources::new(repo, expanded);
    let g = template::generate(&text, &mut sources, &stubs, vacuity);
    fs::write(&out, g.text).unwrap();
    fs::write(&map, g.map).unwrap();
}
