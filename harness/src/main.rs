mod chars;
mod dicts;
mod gen;
mod model;
mod props;
mod runner;
mod toks;

use runner::*;
use serde_json::Value;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::Path;
use std::process::{Command, Stdio};

const CHILD_LIMIT_S: u64 = 820;

fn wait_limited(mut ch: std::process::Child, secs: u64) -> Option<std::process::ExitStatus> {
    let t0 = std::time::Instant::now();
    loop {
        if let Some(s) = ch.try_wait().expect("wait") {
            return Some(s);
        }
        if t0.elapsed().as_secs() > secs {
            let _ = ch.kill();
            let _ = ch.wait();
            return None;
        }
        std::thread::sleep(std::time::Duration::from_millis(20));
    }
}

fn ctx(id: &str) -> Ctx {
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    Ctx { seed, tier, property: id.to_string() }
}

fn limit() -> u64 {
    std::env::var("PBT_LIMIT_S").ok().and_then(|s| s.parse().ok()).unwrap_or(
        match std::env::var("VERIF_TIER").as_deref() {
            Ok("thorough") => 6 * 3600,
            _ => CHILD_LIMIT_S,
        },
    )
}

fn replay_file(path: &Path) -> Result<CheckResult, String> {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).map_err(|e| e.to_string())?)
        .map_err(|e| e.to_string())?;
    let id = v["property"].as_str().ok_or("no property")?;
    let p = props::get(id).ok_or("unknown property")?;
    if let Some(k) = v["case"]["known"].as_str() {
        let k = p.known.iter().find(|x| x.sig == k).ok_or("unknown finding")?;
        return Ok(match catch(k.probe).unwrap_or_else(Err) {
            Ok(false) => Ok(()),
            Ok(true) => Err(k.what.to_string()),
            Err(m) => Err(m),
        });
    }
    let s = v["suite"].as_str().ok_or("no suite")?;
    let s = p.suites.iter().find(|x| x.name == s).ok_or("unknown suite")?;
    (s.replay)(&v["case"])
}

/// The child died on a signal: run again recording each case before it is executed, then find the
/// recorded case that kills a fresh process.
fn crash_report(id: &str, seed: u64, sig: i32) -> i32 {
    let dir = dicts::scratch_root().join(format!("pbt-trace-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let exe = std::env::current_exe().unwrap();
    let ch = Command::new(&exe).args(["child", id]).env("PBT_TRACE", &dir).stdout(Stdio::null()).stderr(Stdio::null()).spawn().unwrap();
    let _ = wait_limited(ch, limit());
    let mut code = 2;
    let mut names: Vec<_> =
        std::fs::read_dir(&dir).unwrap().map(|e| e.unwrap().path()).collect();
    names.sort();
    for f in names {
        let Some(stem) = f.file_name().and_then(|s| s.to_str()) else { continue };
        let suite = stem.split('.').next().unwrap().to_string();
        let Ok(case) = std::fs::read_to_string(&f) else { continue };
        let Ok(case) = serde_json::from_str::<Value>(&case) else { continue };
        let fail = Failure { case, message: format!("process killed by signal {sig}") };
        let path = write_replay(id, &suite, seed, &fail);
        let ch = Command::new(&exe).args(["replay-child"]).arg(&path).stdout(Stdio::null()).spawn().unwrap();
        match wait_limited(ch, 120) {
            Some(s) if matches!(s.signal(), Some(4 | 6 | 7 | 8 | 11)) => {
                println!("process crashes (signal {}) on the recorded case", s.signal().unwrap());
                println!("VIOLATION property={} replay={}", id, path.display());
                code = 1;
                break;
            }
            _ => {
                let _ = std::fs::remove_file(&path);
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    code
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let id = &args[2];
            let exe = std::env::current_exe().unwrap();
            let mut c = Command::new(exe);
            c.args(["child", id]).process_group(0);
            let ch = c.spawn().expect("spawn");
            let code = match wait_limited(ch, limit()) {
                None => {
                    eprintln!("check {id}: time limit reached, no answer");
                    2
                }
                Some(s) => match (s.code(), s.signal()) {
                    (Some(c), _) => c,
                    (_, Some(sig @ (4 | 6 | 7 | 8 | 11))) => {
                        crash_report(id, ctx(id).seed, sig)
                    }
                    _ => 2,
                },
            };
            dicts::cleanup_scratch();
            std::process::exit(code);
        }
        Some("child") => {
            install_panic_hook();
            let id = &args[2];
            let Some(p) = props::get(id) else {
                eprintln!("unknown property {id}");
                std::process::exit(2)
            };
            let c = run_property(&p, &ctx(id));
            dicts::cleanup_scratch();
            std::process::exit(c);
        }
        Some("replay-child") => {
            install_panic_hook();
            let path = args[2].clone();
            // the stack a case has in a check
            let r = std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || replay_file(Path::new(&path)))
                .unwrap()
                .join()
                .unwrap_or_else(|_| Err("panic".into()));
            dicts::cleanup_scratch();
            match r {
                Ok(Ok(())) => println!("replay: property holds on this case"),
                Ok(Err(m)) => {
                    println!("replay: {m}");
                    std::process::exit(1);
                }
                Err(e) => {
                    eprintln!("replay error: {e}");
                    std::process::exit(2);
                }
            }
        }
        Some("replay") => {
            let exe = std::env::current_exe().unwrap();
            let ch = Command::new(exe).args(["replay-child", &args[2]]).spawn().unwrap();
            let code = match wait_limited(ch, 300) {
                Some(s) => s.code().unwrap_or(1),
                None => {
                    println!("replay: the case does not finish");
                    1
                }
            };
            std::process::exit(code);
        }
        Some("list") => {
            for id in props::IDS {
                println!("{id}");
            }
        }
        _ => {
            eprintln!("usage: pbt check|replay|list ...");
            std::process::exit(2);
        }
    }
}
