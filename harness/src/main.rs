mod engine;
mod gens;
mod la;
mod p_app;
mod p_drv;
mod p_ell;
mod p_mat;
mod p_num;
mod p_solve;
mod spaces;

use engine::*;
use std::path::PathBuf;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 2 {
        eprintln!("usage: ellverif ID [--replay FILE] [--sub NAME]");
        std::process::exit(2);
    }
    let id = args[1].clone();
    let mut replay = None;
    let mut only = None;
    let mut i = 2;
    while i + 1 < args.len() {
        match args[i].as_str() {
            "--replay" => {
                let v: serde_json::Value = match std::fs::read_to_string(&args[i + 1]).ok().and_then(|s| serde_json::from_str(&s).ok()) {
                    Some(v) => v,
                    None => {
                        eprintln!("cannot read replay file");
                        std::process::exit(2);
                    }
                };
                replay = Some((v["sub"].as_str().unwrap_or("").to_string(), v["input"].clone()));
            }
            "--sub" => only = Some(args[i + 1].clone()),
            _ => {}
        }
        i += 2;
    }
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let root = std::env::var("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from(env!("CARGO_MANIFEST_DIR")).join(".."));
    install_panic_hook();
    let mut ctx = Ctx::new(&id, tier, seed, replay, root, only);
    match id.as_str() {
        "C01" => p_ell::c01(&mut ctx),
        "C02" => p_ell::c02(&mut ctx),
        "C03" => p_ell::c03(&mut ctx),
        "C04" => p_ell::c04(&mut ctx),
        "C05" => p_ell::c05(&mut ctx),
        "C06" => p_ell::c06(&mut ctx),
        "C07" => p_ell::c07(&mut ctx),
        "C08" => p_drv::c08(&mut ctx),
        "C09" => p_drv::c09(&mut ctx),
        "C10" => p_drv::c10(&mut ctx),
        "C11" => p_drv::c11(&mut ctx),
        "C12" => p_solve::c12(&mut ctx),
        "C13" => p_solve::c13(&mut ctx),
        "C14" => p_mat::c14(&mut ctx),
        "C15" => p_mat::c15(&mut ctx),
        "C16" => p_mat::c16(&mut ctx),
        "C17" => p_app::c17(&mut ctx),
        "C18" => p_app::c18(&mut ctx),
        "C19" => p_app::c19(&mut ctx),
        "C20" => p_app::c20(&mut ctx),
        "C21" => p_app::c21(&mut ctx),
        "C22" => p_num::c22(&mut ctx),
        "C23" => p_num::c23(&mut ctx),
        "C24" => p_num::c24(&mut ctx),
        "C28" => p_num::c28(&mut ctx),
        _ => {
            eprintln!("unknown property {id}");
            std::process::exit(2);
        }
    }
    std::process::exit(ctx.finish());
}
