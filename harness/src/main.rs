mod engine;
mod gen;
mod model;
mod props;
mod util;

use engine::*;
use std::path::PathBuf;
use std::process::{Command, Stdio};

struct Args { pid: String, tier: Tier, seed: u64, replay: Option<PathBuf>, worker: Option<PathBuf>, trace: Option<PathBuf>, only: Option<String>, scale: f64 }

fn parse_args() -> Args {
    let mut a = Args { pid: String::new(), tier: Tier::Quick, seed: 1, replay: None, worker: None, trace: None, only: None, scale: 1.0 };
    if let Ok(s) = std::env::var("VERIF_SEED") { if let Ok(n) = s.trim().parse::<u64>() { a.seed = n } }
    if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") { a.tier = Tier::Thorough }
    let mut it = std::env::args().skip(1);
    while let Some(x) = it.next() {
        let mut val = || it.next().expect("missing value");
        match x.as_str() {
            "--tier" => a.tier = if val() == "thorough" { Tier::Thorough } else { Tier::Quick },
            "quick" => a.tier = Tier::Quick,
            "thorough" => a.tier = Tier::Thorough,
            "--seed" => a.seed = val().parse().unwrap(),
            "--scale" => a.scale = val().parse().unwrap(),
            "--replay" => a.replay = Some(val().into()),
            "--worker" => a.worker = Some(val().into()),
            "--trace" => a.trace = Some(val().into()),
            "--only" => a.only = Some(val()),
            _ => a.pid = x,
        }
    }
    a
}

fn root() -> PathBuf {
    std::env::var("VERIF_ROOT").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from(env!("CARGO_MANIFEST_DIR")).parent().unwrap().into())
}

fn worker(a: &Args, out_path: &PathBuf) -> ! {
    // The code under test prints to stdout and stderr; keep the check's own output clean.
    unsafe {
        let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        libc::dup2(null, 1);
        if std::env::var("OCACHECK_STDERR").is_err() { libc::dup2(null, 2); }
    }
    install_hook();
    // a runaway allocation must end this process, not the sandbox
    unsafe { let l = libc::rlimit { rlim_cur: 20 << 30, rlim_max: 20 << 30 }; libc::setrlimit(libc::RLIMIT_AS, &l); }
    let mut ctx = Ctx::new(&a.pid, a.tier, a.seed, &root());
    ctx.trace = a.trace.clone();
    ctx.outcome_path = Some(out_path.to_path_buf());
    ctx.only = a.only.clone();
    ctx.scale = a.scale;
    if let Some(p) = &a.replay { ctx.replay = Some(serde_json::from_str(&std::fs::read_to_string(p).unwrap()).unwrap()); }
    // run on a big stack: generators are recursive
    let out = std::thread::Builder::new().stack_size(STACK).spawn(move || { props::run(&ctx); ctx.into_outcome() }).unwrap().join();
    match out {
        Ok(o) => { std::fs::write(out_path, serde_json::to_string(&o).unwrap()).unwrap(); std::process::exit(0) }
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            std::fs::write(out_path.with_extension("err"), m).ok();
            std::process::exit(3)
        }
    }
}

enum End { Done(Outcome), Crashed(String), Hung, Broken(String) }

fn spawn(a: &Args, extra: &[String], limit_s: u64) -> End {
    let dir = tempfile::tempdir().unwrap();
    let out = dir.path().join("out.json");
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.arg(&a.pid).arg("--tier").arg(if a.tier == Tier::Quick { "quick" } else { "thorough" }).arg("--seed").arg(a.seed.to_string()).arg("--scale").arg(a.scale.to_string()).arg("--worker").arg(&out).args(extra);
    if let Some(o) = &a.only { c.arg("--only").arg(o); }
    let mut child = c.stdin(Stdio::null()).spawn().unwrap();
    let t0 = std::time::Instant::now();
    loop {
        if let Some(st) = child.try_wait().unwrap() {
            if st.success() { return End::Done(serde_json::from_str(&std::fs::read_to_string(&out).unwrap()).unwrap()); }
            use std::os::unix::process::ExitStatusExt;
            return match st.signal() { Some(sig) if sig != libc::SIGKILL && sig != libc::SIGTERM => End::Crashed(format!("signal {sig}")), other => End::Broken(format!("exit {:?} signal {:?} {}", st.code(), other, std::fs::read_to_string(out.with_extension("err")).unwrap_or_default())) };
        }
        if t0.elapsed().as_secs() > limit_s { let _ = child.kill(); let _ = child.wait(); return End::Hung; }
        std::thread::sleep(std::time::Duration::from_millis(20));
    }
}

fn main() {
    let a = parse_args();
    if a.pid == "child" { props::child(&a.only.clone().unwrap()); return; }
    if let Some(w) = a.worker.clone() { worker(&a, &w); }
    if !props::ALL.iter().any(|p| p.0 == a.pid) { eprintln!("unknown property {}", a.pid); std::process::exit(2) }
    let limit = if a.tier == Tier::Quick { 780 } else { 6 * 3600 };
    if let Some(p) = &a.replay {
        match spawn(&a, &["--replay".into(), p.display().to_string()], limit) {
            End::Done(o) if !o.replay_found => { eprintln!("replay names no campaign of {}", a.pid); std::process::exit(2) }
            End::Done(o) => match o.replay_failed {
                Some(m) => { println!("{m}\nVIOLATION property={} replay={}", a.pid, p.display()); std::process::exit(1) }
                None => { println!("replay passes"); std::process::exit(0) }
            },
            End::Crashed(s) => { println!("process died: {s}\nVIOLATION property={} replay={}", a.pid, p.display()); std::process::exit(1) }
            End::Hung | End::Broken(_) => { eprintln!("no answer"); std::process::exit(2) }
        }
    }
    let t0 = std::time::Instant::now();
    let o = match spawn(&a, &[], limit) {
        End::Done(o) => o,
        End::Crashed(sig) => {
            // The process died (stack overflow or abort). Re-run the same cases, writing each before it runs, then
            // confirm in separate processes which of the cases in flight is responsible.
            let dir = tempfile::tempdir().unwrap();
            match spawn(&a, &["--trace".into(), dir.path().display().to_string()], limit) {
                End::Crashed(_) => {}
                _ => { eprintln!("worker died ({sig}) but the traced run did not"); std::process::exit(2) }
            }
            let mut confirmed = None;
            for e in std::fs::read_dir(dir.path()).unwrap().flatten() {
                if let End::Crashed(_) = spawn(&a, &["--replay".into(), e.path().display().to_string()], 120) { confirmed = Some(e.path()); break; }
            }
            match confirmed {
                Some(p) => {
                    let rd = root().join("replays");
                    let _ = std::fs::create_dir_all(&rd);
                    let to = rd.join(format!("{}-crash.json", a.pid));
                    std::fs::copy(p, &to).unwrap();
                    println!("the process died ({sig})\nVIOLATION property={} replay={}", a.pid, to.display());
                    std::process::exit(1)
                }
                None => { eprintln!("worker died ({sig}); no single case reproduces it"); std::process::exit(2) }
            }
        }
        End::Hung => { eprintln!("time limit reached: no answer"); std::process::exit(2) }
        End::Broken(s) => { eprintln!("worker failed: {s}"); std::process::exit(2) }
    };
    let (_, rule) = props::ALL.iter().find(|p| p.0 == a.pid).map(|p| (p.0, p.1)).unwrap();
    let ev = serde_json::json!({
        "property": a.pid, "tier": if a.tier == Tier::Quick { "quick" } else { "thorough" }, "seed": a.seed, "level": "exploration",
        "coverage": { "evaluations": o.evaluations, "distinct_nontrivial": o.nontrivial, "rule": rule, "samples": o.samples, "campaigns": o.campaigns, "known_findings_seen": o.known },
        "assumptions": props::ASSUMPTIONS, "wall_s": t0.elapsed().as_millis() as f64 / 1000.0, "violations": o.violations.len(),
    });
    if a.only.is_none() && a.scale == 1.0 {
        let d = root().join("evidence");
        let _ = std::fs::create_dir_all(&d);
        std::fs::write(d.join(format!("{}.json", a.pid)), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    } else { println!("{}", serde_json::to_string_pretty(&ev["coverage"]["campaigns"]).unwrap()); }
    for k in &o.known { println!("{k}"); }
    for (p, m) in &o.violations { println!("{m}\nVIOLATION property={} replay={}", a.pid, p); }
    println!("{} {}: {} cases, {} distinct non-trivial, {:.1}s, {} violation(s)", a.pid, if a.tier == Tier::Quick { "quick" } else { "thorough" }, o.evaluations, o.nontrivial, t0.elapsed().as_secs_f64(), o.violations.len());
    std::process::exit(if o.violations.is_empty() { 0 } else { 1 });
}
