#![allow(dead_code)]
#[path = "../../probe/src/calls.rs"]
mod calls;
mod framework;
mod model;
mod props;
mod server;
mod spaces;
mod util;
use framework::*;
use std::collections::HashSet;
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};

fn arg(args: &[String], name: &str, default: &str) -> String {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned().unwrap_or(default.to_string())
}
fn limit_memory(gib: u64) {
    unsafe {
        let l = libc::rlimit { rlim_cur: gib << 30, rlim_max: gib << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &l);
        let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &z);
    }
}

struct Paths {
    id: String,
    tier: String,
    seed: i64,
    bins: PathBuf,
    shim: PathBuf,
    evidence: PathBuf,
    known: PathBuf,
    replays: PathBuf,
    threads: usize,
    cap_s: u64,
}
impl Paths {
    fn parse(args: &[String], id: String) -> Paths {
        let tier = arg(args, "--tier", "quick");
        Paths {
            cap_s: arg(args, "--cap", if tier == "quick" { "300" } else { "780" }).parse().unwrap(),
            id,
            seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
            tier,
            bins: arg(args, "--bins", "/verif/target/repo/debug").into(),
            shim: arg(args, "--shim", "/verif/target/shim.so").into(),
            evidence: arg(args, "--evidence", "/verif/evidence").into(),
            known: arg(args, "--known", "/verif/known_findings.txt").into(),
            replays: arg(args, "--replays", "/verif/replays").into(),
            threads: arg(args, "--threads", "0").parse().unwrap(),
        }
    }
}

/// lines `known: property=<id> case=<case line> :: <what fails>`
fn known_findings(path: &Path, id: &str) -> Vec<(String, String)> {
    let mut v = vec![];
    for l in std::fs::read_to_string(path).unwrap_or_default().lines() {
        if let Some(rest) = l.strip_prefix(&format!("known: property={} case=", id)) {
            if let Some((case, what)) = rest.split_once(" :: ") {
                v.push((case.trim().to_string(), what.trim().to_string()));
            }
        }
    }
    v
}

fn write_replay(p: &Paths, v: &Violation) -> PathBuf {
    std::fs::create_dir_all(&p.replays).unwrap();
    let f = p.replays.join(format!("{}-{:016x}.case", p.id, hash64(&v.case)));
    std::fs::write(
        &f,
        format!(
            "# {}\n# replay with: ./check.sh --replay {}\nproperty={}\ncase={}\n",
            v.msg.replace('\n', " "),
            f.display(),
            p.id,
            v.case.line()
        ),
    )
    .unwrap();
    f
}

fn evidence(p: &Paths, prop: &Prop, r: &Report, wall: f64, threads: usize) {
    std::fs::create_dir_all(&p.evidence).unwrap();
    let per: Vec<String> = r.per_space.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect();
    let samples: Vec<String> = r.samples.iter().map(|s| json_str(s)).collect();
    let complete = !r.capped && r.violation.is_none() && r.infra.is_none();
    let counts = if prop.fault {
        format!(
            "\"evaluations\": {}, \"distinct_nontrivial\": {}, \"rule\": {},",
            r.steps,
            r.states,
            json_str("a case is one program, input, channel and one choice of deviating environment answers; cases are distinct by construction (hash-deduplicated) and non-trivial in that at least one deviation or failing device is actually met by the program")
        )
    } else {
        format!("\"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {},", r.states, r.steps, r.validated)
    };
    let s = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},\n \"coverage\": {{\n  {}\n  \"distinct_outcomes\": {},\n  \"exhaustive\": {},\n  \"capped_by_wall_clock\": {},\n  \"states_per_space\": {{{}}},\n  \"bounds\": {},\n  \"oracle\": {},\n  \"threads\": {},\n  \"counting\": {},\n  \"samples\": [\n   {}\n  ]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        json_str(&p.id),
        json_str(&p.tier),
        p.seed,
        json_str(if prop.fault { "fault_enumeration" } else { "model_checking" }),
        counts,
        r.outcomes,
        complete,
        r.capped,
        per.join(", "),
        json_str(prop.bounds),
        json_str(prop.oracle),
        threads,
        json_str("states: distinct cases enumerated and judged; transitions: operations executed on the real code (library calls and whole program executions); traces validated: observed results of the real code compared with the reference model"),
        samples.join(",\n   "),
        json_str("texts, options and environments outside the stated bounds are not covered; the reference models in mc/src/model.rs, the fork-server shim and the compiler are trusted"),
        wall,
        r.violation.is_some() as i32
    );
    std::fs::write(p.evidence.join(format!("{}.json", p.id)), s).unwrap();
}

fn find(id: &str) -> &'static Prop {
    props::all().into_iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {}", id);
        std::process::exit(2)
    })
}

fn scratch_root() -> PathBuf {
    for d in ["/dev/shm", "/tmp"] {
        let p = Path::new(d).join(format!("mc-{}", std::process::id()));
        if std::fs::create_dir_all(&p).is_ok() && std::fs::write(p.join("x"), b"x").is_ok() {
            return p;
        }
    }
    panic!("no scratch directory");
}

fn worker(args: &[String]) -> i32 {
    let p = Paths::parse(args, args[0].clone());
    let prop = find(&p.id);
    let scratch: PathBuf = arg(args, "--scratch", "").into();
    limit_memory(24);
    install_panic_hook();
    let slots = Slots::map(&scratch.join("slots"), p.threads);
    let known = known_findings(&p.known, &p.id);
    let cfg = Config {
        bins: p.bins.clone(),
        shim: p.shim.clone(),
        scratch: scratch.clone(),
        threads: p.threads,
        thorough: p.tier == "thorough",
        cap_s: p.cap_s,
        known: known.iter().map(|k| k.0.clone()).collect::<HashSet<_>>(),
    };
    let t = Instant::now();
    if let Err(e) = props::selfcheck() {
        eprintln!("self-check of the reference models failed: {}", e);
        return 3;
    }
    let r = explore_all(prop, &cfg, &slots);
    evidence(&p, prop, &r, t.elapsed().as_secs_f64(), p.threads);
    println!(
        "{} {}: states={} transitions={} validated={} outcomes={} capped={} wall={:.1}s",
        p.id,
        p.tier,
        r.states,
        r.steps,
        r.validated,
        r.outcomes,
        r.capped,
        t.elapsed().as_secs_f64()
    );
    for (k, v) in &r.per_space {
        println!("  space {}: {}", k, v);
    }
    for (case, what) in &known {
        println!("KNOWN-FINDING: property={} {} [{}]", p.id, what, case);
    }
    if let Some(v) = &r.violation {
        let f = write_replay(&p, v);
        println!("  case: {}", v.case.show());
        println!("  why:  {}", v.msg);
        println!("VIOLATION property={} replay={}", p.id, f.display());
        return 1;
    }
    if let Some(e) = &r.infra {
        eprintln!("ERROR: {}", e);
        return 3;
    }
    0
}

/// judges the single case in a replay file
fn replay(args: &[String]) -> i32 {
    let text = std::fs::read_to_string(&args[0]).expect("replay file");
    let get = |k: &str| text.lines().find_map(|l| l.strip_prefix(k)).expect("field").to_string();
    let p = Paths::parse(args, get("property="));
    let prop = find(&p.id);
    limit_memory(24);
    install_panic_hook();
    let root = scratch_root();
    let case = Case::parse(&get("case=")).expect("case");
    let mut env = Env::new(&p.bins, &p.shim, &root.join("t0"), p.tier == "thorough");
    println!("case: {}", case.show());
    let beat = arg(args, "--beat", "");
    let r = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            if !beat.is_empty() {
                crate::util::set_beat(Slots::map(Path::new(&beat), 1).beat(0));
            }
            match judge_caught(prop, &mut env, &case) {
            Ok(()) => {
                println!("holds {}", env.note.unwrap_or_default());
                0
            }
            Err(Fail::Bad(m)) => {
                println!("violated: {}", m);
                1
            }
            Err(Fail::Infra(m)) => {
                println!("error: {}", m);
                3
            }
            }
        })
        .unwrap()
        .join()
        .unwrap();
    let _ = std::fs::remove_dir_all(&root);
    if r == 1 {
        println!("VIOLATION property={} replay={}", p.id, args[0]);
    }
    r
}

/// waits for the replay of a case; `Ok(None)` if it stands still for the given time, `Err` if it goes on for too long
fn wait_timeout(c: &mut std::process::Child, slots: &Slots, limit: Duration) -> Result<Option<std::process::ExitStatus>, ()> {
    let start = Instant::now();
    let mut t = start;
    let mut last = slots.progress();
    loop {
        if let Ok(Some(s)) = c.try_wait() {
            return Ok(Some(s));
        }
        let now = slots.progress();
        if now != last {
            last = now;
            t = Instant::now();
        }
        if t.elapsed() > limit || start.elapsed() > 4 * limit {
            let _ = c.kill();
            let _ = c.wait();
            return if t.elapsed() > limit { Ok(None) } else { Err(()) };
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

fn supervise(args: &[String]) -> i32 {
    let id = args[0].clone();
    let mut p = Paths::parse(args, id.clone());
    let prop = find(&id);
    if p.threads == 0 {
        p.threads = std::thread::available_parallelism().map(|n| n.get() + n.get() / 2).unwrap_or(4).clamp(2, 24);
    }
    let root = scratch_root();
    let slots = Slots::map(&root.join("slots"), p.threads);
    let me = std::env::current_exe().unwrap();
    let mut cmd = std::process::Command::new(&me);
    cmd.arg("worker").args(args).args(["--threads", &p.threads.to_string(), "--scratch", root.to_str().unwrap()]);
    let start = Instant::now();
    let mut child = cmd.spawn().unwrap();
    let stall = Duration::from_secs(60);
    let mut last = slots.progress();
    let mut changed: Vec<Instant> = vec![Instant::now(); p.threads];
    let mut reason = String::new();
    let status = loop {
        if let Ok(Some(s)) = child.try_wait() {
            break Some(s);
        }
        std::thread::sleep(Duration::from_millis(20));
        let now = slots.progress();
        for i in 0..p.threads {
            if now[i] != last[i] {
                last[i] = now[i];
                changed[i] = Instant::now();
            }
        }
        if (0..p.threads).any(|i| slots.get(i).is_some() && changed[i].elapsed() > stall) {
            reason = "no progress for 60 s".into();
            // keep only the stalled cases as candidates
            for i in 0..p.threads {
                if changed[i].elapsed() <= stall {
                    slots.clear(i);
                }
            }
            let _ = child.kill();
            let _ = child.wait();
            break None;
        }
        if start.elapsed() > Duration::from_secs(p.cap_s + 100) {
            reason = "overall time limit".into();
            let _ = child.kill();
            let _ = child.wait();
            break None;
        }
    };
    let code = match status {
        Some(s) if matches!(s.code(), Some(0) | Some(1)) => s.code().unwrap(),
        Some(s) if s.code() == Some(3) => 2,
        other => {
            if reason.is_empty() {
                reason = format!("explorer process ended with {:?}", other);
            }
            // the code under test took the process down (abort, memory, stack, endless loop): find the case
            let mut code = 2;
            for i in 0..p.threads {
                let case = match slots.get(i) {
                    Some(c) => c,
                    None => continue,
                };
                let v = Violation { case, msg: format!("the code under test crashes or does not terminate ({})", reason) };
                let f = write_replay(&p, &v);
                let watch = root.join("beat");
                let rs = Slots::map(&watch, 1);
                let mut c = std::process::Command::new(&me)
                    .arg("replay")
                    .arg(&f)
                    .args(&args[1..])
                    .args(["--beat", watch.to_str().unwrap()])
                    .spawn()
                    .unwrap();
                let broken = match wait_timeout(&mut c, &rs, stall) {
                    Err(()) => false,
                    Ok(None) => true,
                    Ok(Some(s)) => !matches!(s.code(), Some(0) | Some(3)),
                };
                if broken {
                    println!("  case: {}", v.case.show());
                    println!("  why:  {}", v.msg);
                    let r = Report {
                        states: 1,
                        steps: 1,
                        validated: 1,
                        outcomes: 1,
                        per_space: Default::default(),
                        samples: vec![v.case.show()],
                        capped: true,
                        violation: Some(Violation { case: v.case.clone(), msg: v.msg.clone() }),
                        infra: None,
                    };
                    evidence(&p, prop, &r, start.elapsed().as_secs_f64(), p.threads);
                    println!("VIOLATION property={} replay={}", id, f.display());
                    code = 1;
                    break;
                }
                let _ = std::fs::remove_file(&f);
            }
            if code == 2 {
                eprintln!("ERROR: {} (not reproducible on a single case)", reason);
            }
            code
        }
    };
    let _ = std::fs::remove_dir_all(&root);
    code
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let code = match args.first().map(|s| s.as_str()) {
        Some("run") => supervise(&args[1..]),
        Some("worker") => worker(&args[1..]),
        Some("replay") => replay(&args[1..]),
        Some("iso") => props::history::iso(&args[1..]),
        Some("progs") => {
            println!("{}", find(&args[1]).progs.join(" "));
            0
        }
        Some("info") => {
            let p = find(&args[1]);
            println!(
                "{{\"fault\": {}, \"what\": {}, \"bounds\": {}, \"oracle\": {}}}",
                p.fault,
                json_str(p.what),
                json_str(p.bounds),
                json_str(p.oracle)
            );
            0
        }
        Some("list") => {
            for p in props::all() {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: mc run ID [--tier quick|thorough] | mc replay FILE | mc progs ID | mc list");
            2
        }
    };
    std::process::exit(code);
}
