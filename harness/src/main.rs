mod bee;
mod exec;
mod gen;
mod hex;
mod model;
mod props;
mod runner;
mod wire;

use runner::{Property, Tier};

#[global_allocator]
static ALLOC: props::ffi::Checking = props::ffi::Checking;

/// Run this check in a child process. When it dies of a signal, find the case that
/// kills it: a crash is a violation too, a kill from outside is not.
fn supervise(id: &str) -> ! {
    use std::os::unix::process::ExitStatusExt;
    let exe = std::env::current_exe().expect("own path");
    let journal = tempfile::Builder::new().prefix("hbcheck").tempdir().expect("scratch");
    let child = |args: &[std::ffi::OsString]| {
        std::process::Command::new(&exe).args(args).env("HB_JOURNAL", journal.path()).status().expect("child")
    };
    let quiet = |args: &[std::ffi::OsString]| {
        use std::process::Stdio;
        std::process::Command::new(&exe).args(args).env("HB_JOURNAL", journal.path()).stdout(Stdio::null()).stderr(Stdio::null()).status().expect("child")
    };
    let crashed = |s: &std::process::ExitStatus| matches!(s.signal(), Some(4 | 6 | 7 | 8 | 11));
    let args: Vec<_> = std::env::args_os().skip(1).collect();
    let st = child(&args);
    if let Some(c) = st.code() {
        drop(journal);
        std::process::exit(c);
    }
    let mut found = None;
    if crashed(&st) {
        let mut files: Vec<_> = std::fs::read_dir(journal.path()).expect("scratch").flatten().map(|e| e.path()).collect();
        files.sort();
        if let Some(i) = args.iter().position(|a| a == "--replay") {
            files.extend(args.get(i + 1).map(std::path::PathBuf::from));
        }
        for f in files {
            let keep = journal.path().join("replaying");
            if std::fs::copy(&f, &keep).is_err() {
                continue;
            }
            let args = [id.into(), "--replay".into(), keep.clone().into_os_string()];
            if crashed(&quiet(&args)) {
                found = std::fs::read_to_string(&keep).ok().map(|case| {
                    let t = std::time::Instant::now();
                    runner::shrink_json(&case, &mut |smaller| {
                        t.elapsed().as_secs() < 60 && std::fs::write(&keep, smaller).is_ok() && crashed(&quiet(&args))
                    })
                });
                break;
            }
        }
    }
    drop(journal);
    match found {
        Some(case) => {
            println!("{id}: the process crashes or does not end ({st})");
            println!("case: {}", runner::trunc(&case, 1500));
            println!("VIOLATION property={id} replay={}", runner::keep_crash(id, &case).display());
            std::process::exit(1)
        }
        None => {
            println!("ERROR: the check was ended ({st}); no verdict");
            std::process::exit(2)
        }
    }
}

fn property(id: &str) -> Option<Property> {
    use props::*;
    Some(match id {
        "C01" => maps::c01_prop(),
        "C03" => maps::c03_prop(),
        "C04" => maps::c04_prop(),
        "C05" => maps::c05_prop(),
        "C06" => maps::c06_prop(),
        "C02" => reads::c02_prop(),
        "C07" => writes::c07_prop(),
        "C08" => writes::c08_prop(),
        "C09" => writes::c09_prop(),
        "C10" => conc::c10_prop(),
        "C11" => conc::c11_prop(),
        "C13" => hostile::c13_prop(),
        "C14" => ffi::c14_prop(),
        "C22" => foreign::c22_prop(),
        "C12" => repl::c12_prop(),
        "C19" => writes::c19_prop(),
        "C16" => reads::c16_prop(),
        "C17" => reads::c17_prop(),
        "C18" => reads::c18_prop(),
        "C20" => reads::c20_prop(),
        "C21" => reads::c21_prop(),
        "C23" => reads::c23_prop(),
        "C25" => drops::c25_prop(),
        "C24" => obs::c24_prop(),
        _ => return None,
    })
}

fn main() {
    runner::install_panic_hook();
    let mut args = std::env::args().skip(1);
    let id = args.next().unwrap_or_default();
    let (mut replay, mut scale) = (None, 1.0f64);
    let mut tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let mut seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    while let Some(a) = args.next() {
        match a.as_str() {
            "--replay" => replay = args.next(),
            "--tier" => tier = if args.next().as_deref() == Some("thorough") { Tier::Thorough } else { Tier::Quick },
            "--seed" => seed = args.next().and_then(|s| s.parse().ok()).expect("seed"),
            "--scale" => scale = args.next().and_then(|s| s.parse().ok()).expect("scale"),
            a => {
                println!("ERROR: unknown argument {a}");
                std::process::exit(2);
            }
        }
    }
    if tier == Tier::Thorough || std::env::var_os("HB_SLOW").is_some() {
        runner::CASE_CPU.store(400, std::sync::atomic::Ordering::Relaxed);
        // for replays too
        std::env::set_var("HB_SLOW", "1");
    }
    if std::env::var_os("HB_JOURNAL").is_none() {
        supervise(&id);
    }
    let Some(p) = property(&id) else {
        println!("ERROR: unknown property {id:?}");
        std::process::exit(2);
    };
    let code = match replay {
        Some(f) => runner::replay(&p, &f),
        None => runner::run(&p, tier, seed, scale),
    };
    std::process::exit(code);
}
