//! Runtime monitoring of ext4-view. See DESIGN.md.
#![allow(clippy::type_complexity)]

mod cov;
mod ctx;
mod disk;
mod eofnames;
mod gen;
mod img;
mod mkfs;
mod model;
mod mon;
mod ops;
mod props;
mod rng;
mod sums;
mod verify;

use ctx::{clean, Ctx};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::io::{BufRead, BufReader, Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{Command, Stdio};
use std::sync::mpsc;
use std::time::{Duration, Instant};

#[global_allocator]
static A: mon::Alloc = mon::Alloc;

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub quick: u64,
    pub thorough: u64,
    /// CPU seconds that one case may take.
    pub cpu: u64,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub run: fn(&mut Ctx),
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut prop = String::new();
    let mut seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let mut worker = false;
    let mut single: Option<u64> = None;
    let mut cases: Option<u64> = None;
    let mut budget: Option<u64> = std::env::var("VERIF_BUDGET").ok().and_then(|s| s.parse().ok());
    if args.get(1).map(|x| x == "img").unwrap_or(false) {
        img::main(&args[2], args[3].parse().expect("seed"), &args[4]);
        return;
    }
    let mut i = 1;
    while i < args.len() {
        let val = |i: usize| args.get(i + 1).cloned().unwrap_or_default();
        match args[i].as_str() {
            "--seed" => {
                seed = val(i).parse().expect("seed");
                i += 1;
            }
            "--tier" => {
                thorough = val(i) == "thorough";
                i += 1;
            }
            "--case" => {
                single = Some(val(i).parse().expect("case"));
                i += 1;
            }
            "--cases" => {
                cases = Some(val(i).parse().expect("cases"));
                i += 1;
            }
            "--budget" => {
                budget = Some(val(i).parse().expect("budget"));
                i += 1;
            }
            "--replay" => {
                // A replay file names property, tier, seed and case.
                let s = std::fs::read_to_string(val(i)).expect("replay file");
                for l in s.lines() {
                    let (k, v) = l.split_once('=').unwrap_or((l, ""));
                    match k {
                        "property" => prop = v.to_string(),
                        "tier" => thorough = v == "thorough",
                        "seed" => seed = v.parse().expect("seed"),
                        "case" => single = v.parse().ok(),
                        _ => {}
                    }
                }
                i += 1;
            }
            "--worker" => {
                worker = true;
            }
            "--list" => {
                for p in props::all() {
                    println!("{} quick={} thorough={}", p.id, p.quick, p.thorough);
                }
                return;
            }
            x => prop = x.to_string(),
        }
        i += 1;
    }
    let Some(p) = props::all().into_iter().find(|p| p.id == prop) else {
        eprintln!("unknown property {:?}", prop);
        std::process::exit(2);
    };
    let total = cases.unwrap_or(if thorough { p.thorough } else { p.quick });
    let budget = budget.unwrap_or(if thorough { 4 * 3600 } else { 420 });
    if worker {
        run_worker(&p, thorough, seed, None, budget);
        return;
    }
    if let Some(c) = single {
        let v = run_worker(&p, thorough, seed, Some(c), budget);
        std::process::exit(if v > 0 { 1 } else { 0 });
    }
    std::process::exit(parent(&p, thorough, seed, total, budget));
}

#[allow(clippy::too_many_arguments)]
fn run_worker(p: &Prop, thorough: bool, seed: u64, single: Option<u64>, budget: u64) -> u64 {
    mon::no_core();
    let t0 = Instant::now();
    let mut ctx = Ctx::new(p.id, thorough, seed);
    ctx.verbose = single.is_some();
    let mut bad = 0;
    std::panic::set_hook(Box::new(|info| {
        let mut msg = format!("{}", info);
        if std::env::var_os("HARNESS_BACKTRACE").is_some() {
            msg.push_str(&format!("\n{}", std::backtrace::Backtrace::force_capture()));
        }
        PANIC.with(|x| *x.borrow_mut() = msg);
    }));
    // (Not std's stdin: that one reads ahead.)
    let mut queue = unsafe { <std::fs::File as std::os::fd::FromRawFd>::from_raw_fd(0) };
    loop {
        if t0.elapsed().as_secs() > budget {
            break;
        }
        // The cases come through a pipe shared by the workers.
        let c = match single {
            Some(c) => c,
            None => {
                let mut b = [0; 8];
                if queue.read_exact(&mut b).is_err() {
                    break;
                }
                u64::from_le_bytes(b)
            }
        };
        let tc = Instant::now();
        ctx.start(c);
        mon::cpu_limit(p.cpu);
        cov::set_limit(u64::MAX);
        let s0 = cov::steps();
        let r = catch_unwind(AssertUnwindSafe(|| (p.run)(&mut ctx)));
        mon::cpu_limit(0);
        if r.is_err() {
            let msg = PANIC.with(|x| x.borrow().clone());
            if msg.contains("/verif/harness") || msg.contains("at src/") && !msg.contains("/repo") || msg.contains("mkfs:") {
                // A fault of the harness itself, not of the library.
                println!("H {}", clean(&format!("{} [{}]", msg, ctx.what)));
            } else {
                ctx.fail("panic", format!("panicked: {}", msg));
            }
        }
        bad += ctx.failed as u64;
        ctx.count("library_edges_executed", cov::steps() - s0);
        ctx.count("cases", 1);
        cov::merge();
        ctx.flush();
        if tc.elapsed().as_millis() > 3000 {
            println!("W {} {}", c, tc.elapsed().as_millis());
        }
        if single.is_some() {
            break;
        }
    }
    let e = cov::covered();
    let s: Vec<String> = e.iter().map(|x| x.to_string()).collect();
    println!("E {} {}", cov::guards(), s.join(","));
    println!("Q");
    bad
}

thread_local! {
    pub static PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

struct Viol {
    case: u64,
    sig: String,
    msg: String,
}

enum Ev {
    Line(usize, String),
    Eof(usize),
}

fn spawn(id: &str, thorough: bool, seed: u64, w: usize, queue: &std::io::PipeReader, budget: u64, tx: &mpsc::Sender<Ev>) -> std::process::Child {
    let exe = std::env::current_exe().unwrap();
    let errf = std::env::temp_dir().join(format!("ext4v.{}.{}.err", std::process::id(), w));
    let mut ch = Command::new(exe)
        .arg(id)
        .args(["--tier", if thorough { "thorough" } else { "quick" }])
        .args(["--seed", &seed.to_string()])
        .arg("--worker")
        .args(["--budget", &budget.to_string()])
        .stdin(queue.try_clone().map(Stdio::from).unwrap_or(Stdio::null()))
        .stdout(Stdio::piped())
        .stderr(std::fs::File::create(errf).map(Stdio::from).unwrap_or(Stdio::null()))
        .spawn()
        .expect("spawn worker");
    let out = ch.stdout.take().unwrap();
    let tx = tx.clone();
    std::thread::spawn(move || {
        for l in BufReader::new(out).split(b'\n') {
            let Ok(l) = l else { break };
            if tx.send(Ev::Line(w, String::from_utf8_lossy(&l).into_owned())).is_err() {
                return;
            }
        }
        let _ = tx.send(Ev::Eof(w));
    });
    ch
}

fn errtext(w: usize) -> String {
    let errf = std::env::temp_dir().join(format!("ext4v.{}.{}.err", std::process::id(), w));
    let s = std::fs::read(&errf).unwrap_or_default();
    let s = String::from_utf8_lossy(&s).into_owned();
    s.lines().rev().take(4).collect::<Vec<_>>().into_iter().rev().collect::<Vec<_>>().join(" | ")
}

fn parent(p: &Prop, thorough: bool, seed: u64, total: u64, budget: u64) -> i32 {
    let t0 = Instant::now();
    let n = match std::env::var("HARNESS_WORKERS").ok().and_then(|v| v.parse().ok()) {
        Some(n) => n,
        None => std::thread::available_parallelism().map(|x| x.get()).unwrap_or(8).clamp(2, 16) as u64,
    };
    let n = n.min(total.max(1));
    let (tx, rx) = mpsc::channel();
    let (queue, mut feed) = std::io::pipe().expect("pipe");
    std::thread::spawn(move || {
        for c in 0..total {
            // (Written and read in one piece each.)
            if feed.write_all(&c.to_le_bytes()).is_err() {
                return;
            }
        }
    });
    let mut slow: Vec<(u64, u64)> = Vec::new();
    let mut kids: Vec<Option<std::process::Child>> = Vec::new();
    let mut last: Vec<Option<u64>> = vec![None; n as usize];
    let mut ann: Vec<String> = vec![String::new(); n as usize];
    let mut finished = vec![false; n as usize];
    for w in 0..n as usize {
        kids.push(Some(spawn(p.id, thorough, seed, w, &queue, budget, &tx)));
    }
    let mut stats: BTreeMap<String, u64> = BTreeMap::new();
    let mut maxs: BTreeMap<String, u64> = BTreeMap::new();
    let mut distinct: BTreeMap<String, HashSet<String>> = BTreeMap::new();
    let mut samples: Vec<String> = Vec::new();
    let mut viols: Vec<Viol> = Vec::new();
    let mut edges: BTreeSet<u32> = BTreeSet::new();
    let mut guards = 0u32;
    let mut harness_faults: Vec<String> = Vec::new();
    let mut alive = n;
    let mut lost = 0u64;
    let hard = Duration::from_secs(budget + 240);
    while alive > 0 {
        let ev = match rx.recv_timeout(Duration::from_secs(5)) {
            Ok(e) => e,
            Err(_) => {
                if t0.elapsed() > hard {
                    eprintln!("harness: overall time limit");
                    for k in kids.iter_mut().flatten() {
                        let _ = k.kill();
                    }
                    harness_faults.push("overall time limit".into());
                    break;
                }
                continue;
            }
        };
        match ev {
            Ev::Line(w, l) => {
                let (k, v) = l.split_at(l.len().min(2));
                match k {
                    "C " => last[w] = v.parse().ok(),
                    "A " => ann[w] = v.to_string(),
                    "V " => {
                        let (sig, msg) = v.split_once('\t').unwrap_or((v, ""));
                        viols.push(Viol { case: last[w].unwrap_or(0), sig: sig.into(), msg: msg.into() });
                    }
                    "H " => harness_faults.push(format!("case {:?}: {}", last[w], v)),
                    "S " => {
                        if let Some((a, b)) = v.rsplit_once(' ') {
                            *stats.entry(a.into()).or_insert(0) += b.parse::<u64>().unwrap_or(0);
                        }
                    }
                    "M " => {
                        if let Some((a, b)) = v.rsplit_once(' ') {
                            let e = maxs.entry(a.into()).or_insert(0);
                            *e = (*e).max(b.parse().unwrap_or(0));
                        }
                    }
                    "D " => {
                        if let Some((a, b)) = v.rsplit_once(' ') {
                            let s = distinct.entry(a.into()).or_default();
                            if s.len() < 4_000_000 {
                                s.insert(b.into());
                            }
                        }
                    }
                    "X " => {
                        if samples.len() < 6 {
                            samples.push(v.to_string());
                        }
                    }
                    "E " => {
                        if let Some((g, l)) = v.split_once(' ') {
                            guards = g.parse().unwrap_or(0);
                            edges.extend(l.split(',').filter_map(|x| x.parse::<u32>().ok()));
                        }
                    }
                    "W " => {
                        let mut x = v.split(' ').filter_map(|x| x.parse().ok());
                        if let (Some(c), Some(t)) = (x.next(), x.next()) {
                            slow.push((t, c));
                        }
                    }
                    _ if l == "Q" => finished[w] = true,
                    _ => {}
                }
                // Enough evidence of a violation: stop early.
                let vc: BTreeSet<u64> = viols.iter().map(|v| v.case).collect();
                if vc.len() >= 6 {
                    for k in kids.iter_mut().flatten() {
                        let _ = k.kill();
                    }
                    break;
                }
            }
            Ev::Eof(w) => {
                let st = kids[w].take().map(|mut k| k.wait());
                if finished[w] {
                    alive -= 1;
                    continue;
                }
                // The worker died inside a case.
                let why = match &st {
                    Some(Ok(s)) => format!("{}", s),
                    _ => "unknown".into(),
                };
                let text = errtext(w);
                let Some(c) = last[w] else {
                    harness_faults.push(format!("worker died before its first case: {} {}", why, text));
                    alive -= 1;
                    continue;
                };
                eprintln!("worker died in case {}: {} {}", c, why, text);
                // Confirm on its own.
                let exe = std::env::current_exe().unwrap();
                let mut confirmed = 0;
                for _ in 0..2 {
                    let o = Command::new(&exe)
                        .arg(p.id)
                        .args(["--tier", if thorough { "thorough" } else { "quick" }])
                        .args(["--seed", &seed.to_string()])
                        .args(["--case", &c.to_string()])
                        .stdin(Stdio::null())
                        .output();
                    let ok = match &o {
                        Ok(o) => matches!(o.status.code(), Some(0)),
                        Err(_) => true,
                    };
                    if !ok {
                        confirmed += 1;
                    } else {
                        break;
                    }
                }
                if confirmed == 2 {
                    let sig = if why.contains("97") || why.contains("98") { "runaway" } else { "abort" };
                    viols.push(Viol { case: c, sig: sig.into(), msg: format!("process ended: {}: {} [{}]", why, text, ann[w]) });
                } else {
                    lost += 1;
                }
                if lost < 20 {
                    last[w] = None;
                    let left = budget.saturating_sub(t0.elapsed().as_secs());
                    kids[w] = Some(spawn(p.id, thorough, seed, w, &queue, left, &tx));
                } else {
                    alive -= 1;
                }
                let vc: BTreeSet<u64> = viols.iter().map(|v| v.case).collect();
                if vc.len() >= 6 {
                    for k in kids.iter_mut().flatten() {
                        let _ = k.kill();
                    }
                    break;
                }
            }
        }
    }
    for k in kids.iter_mut().flatten() {
        let _ = k.wait();
    }
    for w in 0..n as usize {
        let _ = std::fs::remove_file(std::env::temp_dir().join(format!("ext4v.{}.{}.err", std::process::id(), w)));
    }
    let truncated = total.saturating_sub(*stats.get("cases").unwrap_or(&0) + lost);
    slow.sort_unstable_by(|a, b| b.cmp(a));
    if std::env::var_os("HARNESS_SLOW").is_some() {
        eprintln!("slow cases (ms, case): {:?}", &slow[..slow.len().min(10)]);
    }
    // Report.
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    let known = read_known(&root, p.id);
    let mut open = Vec::new();
    let mut matched: BTreeSet<String> = BTreeSet::new();
    viols.sort_by(|a, b| (a.case, &a.sig).cmp(&(b.case, &b.sig)));
    for v in &viols {
        if let Some(k) = known.iter().find(|k| v.sig == **k) {
            matched.insert(k.clone());
        } else {
            open.push(v);
        }
    }
    let dir = format!("{}/evidence/replay", root);
    let _ = std::fs::create_dir_all(&dir);
    let tier = if thorough { "thorough" } else { "quick" };
    for k in &matched {
        println!("KNOWN-FINDING: property={} {}", p.id, k);
    }
    let mut shown = BTreeSet::new();
    for v in &open {
        if shown.len() >= 3 || !shown.insert(v.case) {
            continue;
        }
        let path = format!("{}/{}-{}-{}-{}.replay", dir, p.id, tier, seed, v.case);
        let body = format!("property={}\ntier={}\nseed={}\ncase={}\nsig={}\nmessage={}\n", p.id, tier, seed, v.case, v.sig, v.msg);
        let _ = std::fs::write(&path, body);
        println!("VIOLATION property={} replay={}", p.id, path);
        println!("  case {} {}: {}", v.case, v.sig, v.msg);
    }
    for h in &harness_faults {
        eprintln!("HARNESS FAULT: {}", h);
    }
    let ev = *stats.get("evaluations").unwrap_or(&0);
    let nt = distinct.get("nontrivial").map(|s| s.len()).unwrap_or(0);
    let mut j = String::new();
    j.push_str("{\n");
    j.push_str(&format!(" \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},\n", js(p.id), js(tier), seed, js(p.level)));
    j.push_str(" \"coverage\": {\n");
    j.push_str(&format!("  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n", ev, nt, js(p.rule)));
    j.push_str(&format!(
        "  \"samples\": [{}],\n",
        samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(", ")
    ));
    j.push_str("  \"observed\": {");
    let obs: Vec<String> = stats
        .iter()
        .filter(|(k, _)| *k != "evaluations")
        .map(|(k, v)| format!("{}: {}", js(k), v))
        .chain(maxs.iter().map(|(k, v)| format!("{}: {}", js(&format!("max_{}", k)), v)))
        .chain(
            distinct
                .iter()
                .filter(|(k, _)| *k != "nontrivial")
                .map(|(k, v)| format!("{}: {}", js(&format!("distinct_{}", k)), v.len())),
        )
        .collect();
    j.push_str(&obs.join(", "));
    j.push_str("},\n");
    j.push_str(&format!(
        "  \"library_edges_covered\": {},\n  \"library_edges_instrumented\": {},\n  \"cases_not_run_for_lack_of_time\": {},\n  \"worker_deaths_not_reproduced\": {},\n  \"exhaustive\": false\n }},\n",
        edges.len(), guards, truncated, lost
    ));
    j.push_str(&format!(
        " \"assumptions\": [{}],\n",
        p.assumptions.iter().map(|s| js(s)).collect::<Vec<_>>().join(", ")
    ));
    j.push_str(&format!(" \"wall_s\": {:.1},\n \"violations\": {}\n}}\n", t0.elapsed().as_secs_f64(), open.len()));
    let _ = std::fs::create_dir_all(format!("{}/evidence", root));
    std::fs::write(format!("{}/evidence/{}.json", root, p.id), j).expect("write evidence");
    println!(
        "{}: {} evaluations, {} distinct non-trivial, {} edges of {}, {:.1}s, violations {}",
        p.id, ev, nt, edges.len(), guards, t0.elapsed().as_secs_f64(), open.len()
    );
    if !open.is_empty() {
        return 1;
    }
    if !harness_faults.is_empty() || ev == 0 || guards == 0 {
        eprintln!("harness fault or nothing evaluated");
        return 2;
    }
    0
}

/// Signatures listed as findings for a property ("finding: property=X sig=Y ...").
fn read_known(root: &str, id: &str) -> Vec<String> {
    let s = std::fs::read_to_string(format!("{}/known_findings.txt", root)).unwrap_or_default();
    s.lines()
        .filter_map(|l| l.strip_prefix("finding: "))
        .filter_map(|l| {
            let mut p = None;
            let mut g = None;
            for w in l.split_whitespace() {
                if let Some(x) = w.strip_prefix("property=") {
                    p = Some(x);
                }
                if let Some(x) = w.strip_prefix("sig=") {
                    g = Some(x);
                }
            }
            (p == Some(id)).then(|| g.unwrap_or("").to_string())
        })
        .collect()
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
