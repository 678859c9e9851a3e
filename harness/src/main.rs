mod c_dkg;
mod c_dss;
mod c_form;
mod c_enc;
mod c_group;
mod c_host;
mod c_save;
mod c_draw;
mod c_print;
mod c_int;
mod c_poly;
mod c_pure;
mod c_rand;
mod c_scalar;
mod c_sig;
mod c_vss;
mod core;
mod oracle;
mod sim_ped;
mod sim_rab;
mod suite;
mod vss;

use crate::core::*;

type Runner = fn(&Ctx);
const PROPS: &[(&str, Runner)] = &[("C01", c_scalar::run),
    ("C02", c_group::run_c02),
    ("C03", c_group::run_c03),
    ("C04", c_group::run_c04),
    ("C05", c_group::run_c05),
    ("C06", c_int::run),
    ("C07", c_rand::run_c07),
    ("C08", c_rand::run_c08),
    ("C09", c_rand::run_c09),
    ("C10", c_sig::run_c10),
    ("C11", c_sig::run_c11),
    ("C12", c_sig::run_c12),
    ("C13", c_enc::run_c13),
    ("C14", c_enc::run_c14),
    ("C15", c_poly::run_c15),
    ("C16", c_poly::run_c16),
    ("C17", c_vss::run_c17),
    ("C18", c_vss::run_c18),
    ("C19", c_vss::run_c19),
    ("C20", c_dkg::run_c20),
    ("C21", c_dkg::run_c21),
    ("C22", c_dkg::run_c22),
    ("C23", c_dss::run_c23),
    ("C24", c_host::run_c24),
    ("C25", c_save::run_c25),
    ("C26", c_pure::run_c26),
    ("C27", c_draw::run_c27),
    ("C28", c_print::run_c28),
    ("C29", c_form::run),
];

fn load_known(prop: &str) -> Vec<(String, String)> {
    let p = verif_dir().join("known_findings.json");
    let Ok(s) = std::fs::read_to_string(&p) else { return vec![] };
    let Ok(j) = serde_json::from_str::<serde_json::Value>(&s) else { return vec![] };
    let mut out = vec![];
    if let Some(a) = j["known"].as_array() {
        for k in a {
            if k["property"] == prop {
                out.push((
                    k["key"].as_str().unwrap_or("").to_string(),
                    k["what"].as_str().unwrap_or("").to_string(),
                ));
            }
        }
    }
    out
}

fn run_prop(prop: &str, seed: u64, tier: Tier, only: Option<(String, usize)>) -> i32 {
    let Some((name, f)) = PROPS.iter().find(|(n, _)| *n == prop) else {
        println!("unknown property {}", prop);
        return 4;
    };
    install_panic_hook();
    let mut ctx = Ctx::new(name, seed, tier, load_known(prop));
    ctx.only = only;
    f(&ctx);
    ctx.finish()
}

/// Parent: runs the worker, turns a death by signal of the code under test into a verdict.
fn supervise(args: &[String], prop: &str, seed: u64, tier: &str) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let exe = std::env::current_exe().unwrap();
    let jp = std::env::temp_dir().join(format!("kvmon-journal-{}-{}", prop, std::process::id()));
    let st = std::process::Command::new(exe)
        .args(args)
        .env("KVMON_WORKER", "1")
        .env("KVMON_JOURNAL", &jp)
        .status();
    let j = std::fs::read_to_string(&jp).unwrap_or_default();
    let _ = std::fs::remove_file(&jp);
    let st = match st {
        Ok(s) => s,
        Err(e) => {
            println!("INCONCLUSIVE property={} cannot start worker: {}", prop, e);
            return 3;
        }
    };
    if let Some(c) = st.code() {
        return c;
    }
    let sig = st.signal().unwrap_or(0);
    let inflight: Vec<String> = j.lines().map(|l| l.trim().to_string()).filter(|l| !l.is_empty()).collect();
    let crash = [libc::SIGSEGV, libc::SIGABRT, libc::SIGBUS, libc::SIGILL, libc::SIGFPE].contains(&sig);
    if crash && !inflight.is_empty() {
        let dir = verif_dir().join("evidence").join("replay");
        let _ = std::fs::create_dir_all(&dir);
        let p = dir.join(format!("{}-crash.json", prop));
        let mut it = inflight[0].split(' ');
        let fam = it.next().unwrap_or("").to_string();
        let idx: usize = it.next().and_then(|x| x.parse().ok()).unwrap_or(0);
        let v = serde_json::json!({"property": prop, "seed": seed, "tier": tier, "family": fam, "case": idx,
            "key": "crash", "message": format!("process died of signal {} while running {:?}", sig, inflight)});
        let _ = std::fs::write(&p, serde_json::to_string_pretty(&v).unwrap());
        println!("process died of signal {} in {:?}", sig, inflight);
        println!("VIOLATION property={} replay={}", prop, p.display());
        return 1;
    }
    println!("INCONCLUSIVE property={} worker died of signal {}", prop, sig);
    3
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let cmd = args.first().map(|s| s.as_str()).unwrap_or("");
    let env_seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let worker = std::env::var("KVMON_WORKER").is_ok();
    let code = match cmd {
        "run" => {
            let prop = args.get(1).cloned().unwrap_or_default();
            let t = args.get(2).cloned().unwrap_or_else(|| "quick".into());
            let tier = if t == "thorough" { Tier::Thorough } else { Tier::Quick };
            if worker {
                run_prop(&prop, env_seed, tier, None)
            } else {
                supervise(&args, &prop, env_seed, &t)
            }
        }
        "replay" => {
            let s = std::fs::read_to_string(args.get(1).expect("path")).expect("read");
            let j: serde_json::Value = serde_json::from_str(&s).expect("json");
            let tier = if j["tier"] == "thorough" { Tier::Thorough } else { Tier::Quick };
            let prop = j["property"].as_str().unwrap().to_string();
            let seed = j["seed"].as_u64().unwrap();
            let only = Some((j["family"].as_str().unwrap().to_string(), j["case"].as_u64().unwrap() as usize));
            run_prop(&prop, seed, tier, only)
        }
        "list" => {
            for (p, _) in PROPS {
                println!("{}", p);
            }
            0
        }
        _ => {
            eprintln!("usage: kvmon run <ID> [quick|thorough] | replay <file> | list");
            4
        }
    };
    std::process::exit(code);
}
