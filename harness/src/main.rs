#![allow(dead_code)]
#[macro_use]
extern crate htrpc;
#[macro_use]
mod engine;
mod dynproc;
mod gen;
mod http;
mod props;
mod refmodel;
mod sim;
mod world;

use engine::{Options, Tier};
use std::path::{Path, PathBuf};

macro_rules! with_property {
    ($id:expr, $f:ident, $($args:expr),*) => {
        match $id {
            "C01" => engine::$f(props::c01::C01, $($args),*),
            "C02" => engine::$f(props::c02::C02, $($args),*),
            "C03" => engine::$f(props::c03::C03, $($args),*),
            "C04" => engine::$f(props::c04::C04, $($args),*),
            "C05" => engine::$f(props::c04::C05, $($args),*),
            "C06" => engine::$f(props::c06::C06, $($args),*),
            "C07" => engine::$f(props::c07::C07, $($args),*),
            "C08" => engine::$f(props::c08::C08, $($args),*),
            "C09" => engine::$f(props::c09::C09, $($args),*),
            "C10" => engine::$f(props::c10::C10, $($args),*),
            "C11" => engine::$f(props::pool::C11, $($args),*),
            "C12" => engine::$f(props::pool::C12, $($args),*),
            "C14" => engine::$f(props::pool::C14, $($args),*),
            "C13" => engine::$f(props::c13::C13, $($args),*),
            "C15" => engine::$f(props::c15::C15, $($args),*),
            "C16" => engine::$f(props::c16::C16, $($args),*),
            "C17" => engine::$f(props::c17::C17, $($args),*),
            "C18" => engine::$f(props::c18::C18, $($args),*),
            "C19" => engine::$f(props::c19::C19, $($args),*),
            "C20" => engine::$f(props::c20::C20, $($args),*),
            other => {
                eprintln!("unknown property {:?}", other);
                2
            }
        }
    };
}

fn main() {
    engine::install_panic_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let root = PathBuf::from(std::env::var("PBT_ROOT").unwrap_or_else(|_| "/verif".into()));
    let env_num = |n: &str| std::env::var(n).ok().and_then(|v| v.parse::<u64>().ok());
    let mut opt = Options {
        tier: match std::env::var("VERIF_TIER").as_deref() {
            Ok("thorough") => Tier::Thorough,
            _ => Tier::Quick,
        },
        seed: env_num("VERIF_SEED").unwrap_or(1),
        root,
        cases: None,
        budget: None,
    };
    let mut index = 0;
    let mut i = 2;
    while i + 1 < args.len() {
        let v = &args[i + 1];
        match args[i].as_str() {
            "--tier" => {
                opt.tier = if v == "thorough" { Tier::Thorough } else { Tier::Quick }
            }
            "--seed" => opt.seed = v.parse().expect("seed"),
            "--cases" => opt.cases = Some(v.parse().expect("cases")),
            "--budget" => opt.budget = Some(v.parse().expect("budget")),
            "--index" => index = v.parse().expect("index"),
            o => panic!("unknown option {}", o),
        }
        i += 2;
    }
    let code = match (args.get(0).map(|s| s.as_str()), args.get(1)) {
        (Some("run"), Some(id)) => with_property!(id.as_str(), supervise, &opt, &args),
        (Some("run-inner"), Some(id)) => with_property!(id.as_str(), run_property, &opt),
        (Some("run-one"), Some(id)) => with_property!(id.as_str(), run_one, &opt, index),
        (Some("flood-server"), Some(limit)) => props::flood::server_main(
            limit.parse().expect("limit"),
            args[2].parse().expect("address"),
        ),
        (Some("replay"), Some(file)) => {
            let doc: serde_json::Value = std::fs::read_to_string(file)
                .ok()
                .and_then(|t| serde_json::from_str(&t).ok())
                .expect("replay file");
            let id = doc["property"].as_str().expect("property").to_string();
            with_property!(id.as_str(), replay_property, Path::new(file))
        }
        _ => {
            eprintln!("usage: pbt run ID [--tier T] [--seed N] [--cases N] [--budget S] | pbt replay FILE");
            2
        }
    };
    // Threads of abandoned cases must not keep the process.
    std::process::exit(code);
}
