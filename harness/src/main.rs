#![allow(dead_code)]
mod cx;
mod p_elem;
mod p_red;
mod p_type;
mod p_view;
mod p_grad;
mod p_graph;
mod p_index;
mod p_cast;
mod p_conv;
mod p_mat;
mod p_mem;
mod p_opt;
mod mem;
mod p_data;
mod p_file;
mod p_nn;
mod p_err;
mod p_cap;
mod p_cli;
mod p_life;
mod p_conc;
mod p_plug;
mod p_reg;
mod p_sdk;
mod p_kern;
mod rng;
mod rt;

use cx::*;

#[global_allocator]
static ALLOC: mem::Counting = mem::Counting;

fn families(p: &str) -> Option<&'static [Family]> {
    Some(match p {
        "elementwise" => p_elem::ARITH,
        "boolean" => p_elem::BOOL,
        "reduce" => p_red::RED,
        "index" => p_index::INDEX,
        "views" => p_view::VIEW,
        "matrix" => p_mat::MAT,
        "conv" => p_conv::CONV,
        "cast" => p_cast::CAST,
        "grad" => p_grad::GRAD,
        "graph" => p_graph::GRAPH,
        "mem" => p_mem::MEM,
        "types" => p_type::GROUPS,
        "nn" => p_nn::GROUPS,
        "data" => p_data::GROUPS,
        "files" => p_file::FILES,
        "malformed" => p_file::MALFORMED,
        "optim" => p_opt::GROUPS,
        "reject" => p_err::GROUPS,
        "life" => p_life::GROUPS,
        "conc" => p_conc::GROUPS,
        "split" => p_conc::SPLIT,
        "capture" => p_cap::GROUPS,
        "plugin" => p_plug::GROUPS,
        "cli" => p_cli::GROUPS,
        "kernels" => p_kern::GROUPS,
        "registry" => p_reg::GROUPS,
        "server" => p_plug::SERVER,
        "sdk" => p_sdk::GROUPS,
        _ => return None,
    })
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("fakeplugin") => p_plug::fake_main(&a[2], &a[3]),
        Some("runserver") => p_plug::run_server(&a[2]),
        Some("cliplugin") => p_cli::plugin_main(&a[2], &a[3]),
        Some("regsave") => p_reg::save_main(&a[2..]),
        Some("sdkserver") => p_plug::sdk_server(),
        _ => {}
    }
    install_panic_hook();
    let get = |k: &str| -> Option<String> { a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned()) };
    match a.get(1).map(|s| s.as_str()) {
        Some("run") => {
            let prop = a[2].clone();
            let fams = families(&prop).unwrap_or_else(|| panic!("unknown property group {}", prop));
            let (sh, shs) = get("--shard").map(|s| { let mut p = s.split('/').map(|x| x.parse().unwrap()); (p.next().unwrap(), p.next().unwrap()) }).unwrap_or((0, 1));
            let o = Opts {
                prop,
                seed: get("--seed").map(|s| s.parse().unwrap()).unwrap_or(1),
                thorough: get("--tier").map(|s| s == "thorough").unwrap_or(false),
                shard: sh,
                shards: shs,
                casefile: get("--casefile"),
                max_secs: get("--max-secs").map(|s| s.parse().unwrap()).unwrap_or(600.0),
                only_family: get("--family"),
                scale: get("--scale").map(|s| s.parse().unwrap()).unwrap_or(1.0),
            };
            let out = run_families(fams, &o);
            if let Some(p) = get("--out") {
                write_outcome(&out, &p);
            } else {
                println!("evals {} skipped {} distinct {} truncated {}", out.evals, out.skipped, out.hashes.len(), out.truncated);
                for (k, v) in &out.per_family { println!("  {} {}", k, v); }
                for (k, v) in &out.counters { println!("  {} = {}", k, v); }
                let mut seen = std::collections::HashSet::new();
                for (f, s, m, c) in &out.violations { if seen.insert(s.clone()) { println!("BAD [{}] {} | {} (case {} {})", s, trunc(m, 600), "", f, c); } }
            }
        }
        Some("replay") => {
            let fams = families(&a[2]).expect("group");
            let f = fams.iter().find(|f| f.name == a[3]).expect("family");
            let cs: u64 = a[4].parse().unwrap();
            let (cx, r) = run_one(f, cs, get("--tier").map(|s| s == "thorough").unwrap_or(false));
            println!("case: {}", cx.desc);
            match r {
                Ok(()) => println!("held"),
                Err(Fail::Skip) => println!("skipped"),
                Err(Fail::Bad(s, m)) => {
                    println!("VIOLATED [{}] {}", s, m);
                    std::process::exit(1);
                }
            }
        }
        _ => {
            eprintln!("usage: hv run GROUP [--seed N --tier quick|thorough --shard i/n --out F --casefile F] | hv replay GROUP FAMILY CASE");
            std::process::exit(2);
        }
    }
}
