mod campaign;
mod fs;
mod golden;
mod judge;
mod proc;
mod rng;
mod rt;
mod store;
mod world;
use campaign::{Opts, Scenario};
use store::{Kind, Store};

#[global_allocator]
static ALLOC: rt::SimAlloc = rt::SimAlloc;
static LOGGER: rt::SimLog = rt::SimLog;

macro_rules! with {
    ($id:expr, $sc:ident => $e:expr) => {
        match $id {
            "C01" => { let $sc = Store(Kind::C01); $e }
            "C02" => { let $sc = Store(Kind::C02); $e }
            "C03" => { let $sc = Store(Kind::C03); $e }
            "C04" => { let $sc = Store(Kind::C04); $e }
            "C05" => { let $sc = Store(Kind::C05); $e }
            "C06" => { let $sc = Store(Kind::C06); $e }
            "C07" => { let $sc = Store(Kind::C07); $e }
            "C14" => { let $sc = Store(Kind::C14); $e }
            "C16" => { let $sc = Store(Kind::C16); $e }
            "C08" => { let $sc = judge::Prog(judge::Kind::C08); $e }
            "C09" => { let $sc = judge::Prog(judge::Kind::C09); $e }
            "C10" => { let $sc = judge::Prog(judge::Kind::C10); $e }
            "C11" => { let $sc = judge::Prog(judge::Kind::C11); $e }
            "C12" => { let $sc = judge::Prog(judge::Kind::C12); $e }
            "C13" => { let $sc = judge::Prog(judge::Kind::C13); $e }
            "C15" => { let $sc = judge::Prog(judge::Kind::C15); $e }
            x => { eprintln!("unknown property {x}"); 2 }
        }
    };
}

fn main() {
    // one address-space layout for every run
    unsafe {
        let p = libc::personality(0xffff_ffff);
        if p & libc::ADDR_NO_RANDOMIZE == 0 && std::env::var_os("SIM_REEXEC").is_none() {
            libc::personality((p | libc::ADDR_NO_RANDOMIZE) as u64);
            use std::os::unix::process::CommandExt;
            let e = std::process::Command::new("/proc/self/exe").args(std::env::args_os().skip(1)).env("SIM_REEXEC", "1").exec();
            eprintln!("re-exec: {e}");
            std::process::exit(2);
        }
    }
    // std remembers in a static whether statx works: settle that before any fork
    let _ = std::fs::metadata("/");
    unsafe { rt::TRACE_TEXT = std::env::var_os("SIM_TEXT").is_some() };
    std::panic::set_hook(Box::new(|i| {
        if !rt::in_sim() {
            eprintln!("harness: {i}");
        } else if std::env::var_os("SIM_DEBUG").is_some() {
            let _h = rt::Host::enter();
            if let Ok(mut f) = std::fs::OpenOptions::new().append(true).create(true).open("/tmp/sim_debug.log") {
                use std::io::Write;
                let _ = writeln!(f, "{i}");
            }
        }
    }));
    log::set_logger(&LOGGER).unwrap();
    let a: Vec<String> = std::env::args().collect();
    let verif = std::env::var("SIM_VERIF").unwrap_or_else(|_| "/verif".into());
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
    let num = |k: &str| std::env::var(k).ok().and_then(|s| s.parse::<u64>().ok());
    let o = Opts { seed, thorough, workers: num("SIM_WORKERS").unwrap_or(8), runs: num("SIM_RUNS"), wall: num("SIM_WALL").unwrap_or(if thorough { 600 } else { 150 }) as f64, verif, quiet: false, build: std::env::var("SIM_BUILD").unwrap_or_default() };
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => with!(a[2].as_str(), sc => campaign::check(&sc, &o)),
        Some("replay") => {
            let doc: serde_json::Value = serde_json::from_slice(&std::fs::read(&a[2]).expect("replay file")).expect("json");
            let id = doc["property"].as_str().unwrap().to_string();
            with!(id.as_str(), sc => campaign::replay(&sc, &doc))
        }
        Some("traces") => {
            let (f, t) = (a[3].parse().unwrap(), a[4].parse().unwrap());
            with!(a[2].as_str(), sc => { campaign::traces(&sc, seed, f, t); 0 })
        }
        _ => {
            eprintln!("usage: sim check <property> | replay <file> | traces <property> <from> <to>");
            2
        }
    };
    std::process::exit(code);
}
#[allow(unused)]
fn _t<S: Scenario>(_: S) {}
