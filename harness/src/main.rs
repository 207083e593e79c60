//! Runtime monitors for rustwasm/twiggy: drives generated workloads through the
//! real code and judges every execution with an independent oracle.
#![feature(alloc_error_hook)]
mod ctx;
mod dwarfgen;
mod graphgen;
mod json;
mod meter;
mod names;
mod proc;
mod props;
mod query;
mod rng;
mod sut;
mod syms;
mod tab;
mod views;
mod wasmgen;
mod wasmread;

use ctx::Ctx;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::Write as _;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub struct Prop {
    pub id: &'static str,
    /// How cases are made and what makes one non-trivial.
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub run: fn(&mut Ctx),
    /// fault_enumeration or exploration
    pub level: &'static str,
    /// CPU seconds one case may take when run on its own.
    pub cpu: u64,
    /// Coverage that a run must have reached, or it is inconclusive.
    pub must: &'static [&'static str],
    /// Address-space limit of a worker in GiB; 0: under the sanitizer.
    pub mem: u64,
}

pub fn root() -> PathBuf {
    std::env::var_os("VHARNESS_ROOT").map_or_else(|| PathBuf::from("/verif"), PathBuf::from)
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let code = match args.first().map(|s| s.as_str()) {
        Some("check") => check(&args[1..]),
        Some("worker") => worker(&args[1..]),
        Some("replay") => replay(&args[1..]),
        Some("pack") => props::fuzz::pack(&args[1..]),
        Some("seeds") => props::fuzz::seeds(&args[1..]),
        Some("list") => {
            for p in props::all() {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: vharness check ID [--tier T] [--seed N] [--cases N] | replay FILE | list");
            2
        }
    };
    std::process::exit(code);
}

fn find(id: &str) -> &'static Prop {
    props::all().iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("no such property {}", id);
        std::process::exit(2)
    })
}

fn opt(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned()
}

/// Runs one case, turning a panic of the code under test into a failure.
fn one(p: &Prop, c: &mut Ctx) {
    DESCRIBING.with(|d| d.set(false));
    if let Ok(mut x) = RESERVE.lock() {
        if x.capacity() == 0 {
            let _ = x.try_reserve(48 << 20);
        }
    }
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.run)(c)));
    if let Err(e) = r {
        let m = if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else {
            "?".into()
        };
        let at = LAST_PANIC.with(|l| l.borrow().clone());
        c.fail(format!("panic: {} ({})", m, at));
    }
}

thread_local! {
    static DESCRIBING: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    pub static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

/// Memory to be used once there is none.
static RESERVE: std::sync::Mutex<Vec<u8>> = std::sync::Mutex::new(vec![]);

fn quiet_panics() {
    // A request for memory that cannot be met ends the case, not the worker.
    std::alloc::set_alloc_error_hook(|l| {
        // Describing it takes memory, too.
        if let Ok(mut x) = RESERVE.try_lock() {
            *x = vec![];
        }
        if DESCRIBING.with(|d| d.replace(true)) {
            std::process::abort();
        }
        let bt = std::backtrace::Backtrace::force_capture().to_string();
        let lib = props::fuzz::library_frame(&bt);
        DESCRIBING.with(|d| d.set(false));
        panic!("memory allocation of {} bytes failed{}", l.size(), lib.map_or(String::new(), |f| format!(" in {}", f)));
    });
    std::panic::set_hook(Box::new(|i| {
        let mut at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if at.starts_with("library/") || at.starts_with("/rustc/") {
            let bt = std::backtrace::Backtrace::force_capture().to_string();
            if let Some(f) = props::fuzz::library_frame(&bt) {
                at = f;
            }
        }
        LAST_PANIC.with(|l| *l.borrow_mut() = at);
    }));
}

/// worker ID SEED TIER SHARD NSHARDS CASES DEADLINE_MS DIR [only=CASE] [skip=A,B]
fn worker(a: &[String]) -> i32 {
    quiet_panics();
    let p = find(&a[0]);
    let seed: u64 = a[1].parse().unwrap();
    let thorough = a[2] == "thorough";
    let shard: u64 = a[3].parse().unwrap();
    let n: u64 = a[4].parse().unwrap();
    let cases: u64 = a[5].parse().unwrap();
    let deadline = Duration::from_millis(a[6].parse().unwrap());
    let dir = PathBuf::from(&a[7]);
    let only: Option<u64> = a.iter().find_map(|x| x.strip_prefix("only=")).map(|x| x.parse().unwrap());
    let from: u64 = a.iter().find_map(|x| x.strip_prefix("from=")).map_or(0, |x| x.parse().unwrap());
    let tag = a.iter().find_map(|x| x.strip_prefix("tag=")).unwrap_or("w");
    let journal = std::fs::File::create(dir.join(format!("{}{}.journal", tag, shard))).unwrap();
    let scratch = dir.join(format!("{}{}.scratch", tag, shard));
    std::fs::create_dir_all(&scratch).unwrap();
    let mut c = Ctx {
        seed,
        thorough,
        case: 0,
        evaluations: 0,
        distinct: HashSet::new(),
        counters: BTreeMap::new(),
        samples: vec![],
        failures: vec![],
        scratch,
    };
    let start = Instant::now();
    let out = dir.join(format!("{}{}.json", tag, shard));
    let (stop, listed, all) = (dir.join("stop"), listed(), std::env::var("VH_ALL").is_ok());
    let mut done = 0u64;
    if let Some(k) = only {
        c.case = k;
        one(p, &mut c);
        done = 1;
    } else {
        let mut k = shard;
        while k < cases {
            if k >= from {
                if start.elapsed() > deadline {
                    c.count("workers stopped by the deadline");
                    break;
                }
                journal.write_at(&k.to_le_bytes(), 0).unwrap();
                c.case = k;
                let t = Instant::now();
                one(p, &mut c);
                done += 1;
                // What is violated need not be explored to the end.
                if !all && start.elapsed() > Duration::from_secs(10) {
                    if c.failures.iter().any(|f| !listed.contains(&(p.id.to_string(), f.sig.clone()))) {
                        let _ = std::fs::write(&stop, "");
                    }
                    if (k / n) % 4 == 0 && stop.exists() {
                        c.count("workers stopped by a violation");
                        break;
                    }
                }
                let ms = t.elapsed().as_millis() as u64;
                if let (true, Ok(f)) = (ms > 3000, std::env::var("VH_SLOW")) {
                    let _ = std::fs::write(format!("{}-{}-{}", f, p.id, k), ms.to_string());
                }
                let e = c.counters.entry("max case ms".into()).or_insert(0);
                *e = (*e).max(ms);
            }
            k += n;
        }
    }
    c.add("cases", done);
    let _ = std::fs::remove_dir_all(&c.scratch);
    save(&c, &out);
    0
}

fn save(c: &Ctx, out: &Path) {
    let mut s = String::new();
    let _ = write!(s, "{{\"evaluations\":{},\"counters\":{{", c.evaluations);
    for (i, (k, v)) in c.counters.iter().enumerate() {
        let _ = write!(s, "{}{}:{}", if i > 0 { "," } else { "" }, json::quote(k), v);
    }
    s.push_str("},\"samples\":[");
    for (i, x) in c.samples.iter().enumerate() {
        let _ = write!(s, "{}{}", if i > 0 { "," } else { "" }, json::quote(x));
    }
    s.push_str("],\"failures\":[");
    for (i, f) in c.failures.iter().enumerate() {
        let _ = write!(s, "{}{{\"case\":{},\"sig\":{},\"msg\":{}}}", if i > 0 { "," } else { "" }, f.case, json::quote(&f.sig), json::quote(&f.msg));
    }
    s.push_str("]}");
    let mut d = Vec::with_capacity(c.distinct.len() * 8);
    for h in &c.distinct {
        d.extend_from_slice(&h.to_le_bytes());
    }
    std::fs::write(out.with_extension("distinct"), d).unwrap();
    std::fs::write(out, s).unwrap();
}

#[derive(Default)]
struct Merged {
    evaluations: u64,
    distinct: HashSet<u64>,
    counters: BTreeMap<String, u64>,
    samples: Vec<String>,
    failures: Vec<(u64, String, String)>,
}

fn merge(m: &mut Merged, f: &Path) -> Result<(), String> {
    let j = json::parse(&std::fs::read_to_string(f).map_err(|e| e.to_string())?)?;
    m.evaluations += j.get("evaluations").and_then(|x| x.num()).ok_or("?")? as u64;
    if let Some(json::J::Obj(v)) = j.get("counters") {
        for (k, x) in v {
            let x = x.num().unwrap_or(0.0) as u64;
            let e = m.counters.entry(k.clone()).or_insert(0);
            if k.starts_with("max ") {
                *e = (*e).max(x)
            } else {
                *e += x
            }
        }
    }
    for s in j.get("samples").and_then(|x| x.arr()).unwrap_or(&[]) {
        m.samples.push(s.str().unwrap_or("").to_string());
    }
    for f in j.get("failures").and_then(|x| x.arr()).unwrap_or(&[]) {
        m.failures.push((
            f.get("case").and_then(|x| x.num()).unwrap_or(0.0) as u64,
            f.get("sig").and_then(|x| x.str()).unwrap_or("").to_string(),
            f.get("msg").and_then(|x| x.str()).unwrap_or("").to_string(),
        ));
    }
    let d = std::fs::read(f.with_extension("distinct")).map_err(|e| e.to_string())?;
    for c in d.chunks_exact(8) {
        m.distinct.insert(u64::from_le_bytes(c.try_into().unwrap()));
    }
    Ok(())
}

fn spawn(p: &Prop, args: &[String], cpu: Option<u64>, log: &Path) -> std::process::Child {
    let exe = std::env::current_exe().unwrap();
    let mut sh = String::from("ulimit -c 0; ");
    if p.mem > 0 {
        let _ = write!(sh, "ulimit -v {}; ", p.mem * 1024 * 1024);
    } else {
        // frames are larger under the sanitizer
        sh.push_str("ulimit -s 200000 2>/dev/null; ");
    }
    if let Some(c) = cpu {
        let _ = write!(sh, "ulimit -t {}; ", c);
    }
    sh.push_str("exec \"$0\" \"$@\"");
    Command::new("sh")
        .arg("-c")
        .arg(sh)
        .arg(exe)
        .arg("worker")
        .args(args)
        .env("ASAN_OPTIONS", "detect_leaks=0:allocator_may_return_null=1:hard_rss_limit_mb=3500:detect_stack_use_after_return=1:strict_string_checks=1")
        .stdin(Stdio::null())
        .stdout(Stdio::from(std::fs::File::create(log).unwrap()))
        .stderr(Stdio::from(std::fs::File::create(log.with_extension("err")).unwrap()))
        .spawn()
        .unwrap()
}

fn describe(st: std::process::ExitStatus, err: &Path) -> String {
    let tail = std::fs::read(err).map(|b| String::from_utf8_lossy(&b).lines().rev().take(3).collect::<Vec<_>>().join(" | ")).unwrap_or_default();
    if let Some(m) = std::fs::read(err).ok().and_then(|b| props::memory::report(&b)) {
        return m;
    }
    match st.signal() {
        Some(24) => format!("CPU time limit exceeded ({})", tail),
        Some(s) => format!("killed by signal {} ({})", s, tail),
        None => format!("exited with {:?} ({})", st.code(), tail),
    }
}

/// The findings that are known: property and signature.
fn listed() -> HashSet<(String, String)> {
    let known = std::fs::read_to_string(root().join("known_findings.txt")).unwrap_or_default();
    known
        .lines()
        .filter_map(|l| l.strip_prefix("finding: property="))
        .filter_map(|l| {
            let mut it = l.splitn(3, ' ');
            let p = it.next()?.to_string();
            let s = it.next()?.strip_prefix("sig=")?.to_string();
            Some((p, s))
        })
        .collect()
}

fn check(a: &[String]) -> i32 {
    let t0 = Instant::now();
    let p = find(&a[0]);
    let tier = opt(a, "--tier").unwrap_or_else(|| "quick".into());
    let thorough = tier == "thorough";
    let seed: u64 = opt(a, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let cases = opt(a, "--cases").and_then(|s| s.parse().ok()).unwrap_or(if thorough { p.thorough } else { p.quick });
    let n: u64 = std::env::var("VH_SHARDS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let run = root().join("run").join(format!("{}-{}", p.id, std::process::id()));
    std::fs::create_dir_all(&run).unwrap();
    let budget: u64 = if thorough { 3000 } else { 240 };
    let mut m = Merged::default();
    let mut broken: Vec<String> = vec![];
    let mut live = vec![];
    let mk = |shard: u64, from: u64, tag: &str| -> Vec<String> {
        vec![p.id.into(), seed.to_string(), tier.clone(), shard.to_string(), n.to_string(), cases.to_string(), (budget * 1000).to_string(), run.display().to_string(), format!("from={}", from), format!("tag={}", tag)]
    };
    for shard in 0..n {
        let tag = "w0-".to_string();
        let ch = spawn(p, &mk(shard, 0, &tag), None, &run.join(format!("{}{}.log", tag, shard)));
        live.push((shard, 0u32, ch, tag, Instant::now(), u64::MAX, Instant::now()));
    }
    let mut crashes: Vec<(u64, String)> = vec![];
    while !live.is_empty() {
        std::thread::sleep(Duration::from_millis(25));
        let mut next = vec![];
        for (shard, gen, mut ch, tag, started, mut last, mut since) in live {
            let jf = run.join(format!("{}{}.journal", tag, shard));
            let cur = std::fs::read(&jf).ok().and_then(|b| b.try_into().ok()).map(u64::from_le_bytes);
            match ch.try_wait().unwrap() {
                None => {
                    if let Some(c) = cur {
                        if c != last {
                            last = c;
                            since = Instant::now();
                        }
                    }
                    if since.elapsed() > Duration::from_secs(5) && run.join("stop").exists() {
                        let _ = ch.kill();
                        let _ = ch.wait();
                        continue;
                    }
                    // A case that does not end is stopped and re-run alone under a CPU limit.
                    if since.elapsed() > Duration::from_secs(p.cpu * 2 + 20) {
                        let _ = ch.kill();
                        let _ = ch.wait();
                        if p.mem > 0 {
                            crashes.push((last, "did not end".into()));
                        }
                        let tag2 = format!("w{}-", gen + 1);
                        if crashes.len() < 8 {
                            let ch = spawn(p, &mk(shard, last + 1, &tag2), None, &run.join(format!("{}{}.log", tag2, shard)));
                            next.push((shard, gen + 1, ch, tag2, started, u64::MAX, Instant::now()));
                        }
                    } else {
                        next.push((shard, gen, ch, tag, started, last, since));
                    }
                }
                Some(st) if st.success() => {
                    if let Err(e) = merge(&mut m, &run.join(format!("{}{}.json", tag, shard))) {
                        broken.push(format!("worker {} left no result: {}", shard, e));
                    }
                }
                Some(st) => {
                    let why = describe(st, &run.join(format!("{}{}.err", tag, shard)));
                    match cur {
                        Some(c) => {
                            if p.mem == 0 && !why.starts_with("ERROR") {
                                // under the sanitizer only its reports are judged
                                *m.counters.entry("cases ended otherwise, judged elsewhere".into()).or_insert(0) += 1;
                            } else {
                                crashes.push((c, why));
                            }
                            let tag2 = format!("w{}-", gen + 1);
                            if crashes.len() < 24 {
                                let ch = spawn(p, &mk(shard, c + 1, &tag2), None, &run.join(format!("{}{}.log", tag2, shard)));
                                next.push((shard, gen + 1, ch, tag2, started, u64::MAX, Instant::now()));
                            }
                        }
                        None => broken.push(format!("worker {} {}", shard, why)),
                    }
                }
            }
        }
        live = next;
    }
    // Confirm what stopped a worker by running that case alone.
    crashes.sort();
    for (k, why) in crashes.iter().take(3) {
        let tag = format!("solo{}-", k);
        if p.mem == 0 {
            // the sanitizer's reports need no confirmation
            m.failures.push((*k, String::new(), why.clone()));
            continue;
        }
        let mut args = mk(0, 0, &tag);
        args.push(format!("only={}", k));
        let mut ch = spawn(p, &args, Some(p.cpu), &run.join(format!("{}0.log", tag)));
        let s0 = Instant::now();
        let st = loop {
            if let Some(st) = ch.try_wait().unwrap() {
                break Some(st);
            }
            if s0.elapsed() > Duration::from_secs(p.cpu * 4 + 60) {
                let _ = ch.kill();
                let _ = ch.wait();
                break None;
            }
            std::thread::sleep(Duration::from_millis(20));
        };
        match st {
            Some(st) if st.success() => {
                if merge(&mut m, &run.join(format!("{}0.json", tag))).is_err() {
                    broken.push(format!("case {} {}; alone it left no result", k, why));
                } else {
                    *m.counters.entry("cases repeated alone after a worker stopped".into()).or_insert(0) += 1;
                }
            }
            Some(st) => {
                m.failures.push((*k, String::new(), format!("the process {} (and in the workload: {})", describe(st, &run.join(format!("{}0.err", tag))), why)));
                break;
            }
            None => broken.push(format!("case {} {}; alone it did not end in the watchdog's time", k, why)),
        }
    }
    m.failures.sort();
    m.failures.dedup();
    let known = listed();
    let mut shown = HashSet::new();
    let mut bad: Vec<(u64, String, String)> = vec![];
    for (k, sig, msg) in &m.failures {
        if !sig.is_empty() && known.contains(&(p.id.to_string(), sig.clone())) {
            if shown.insert(sig.clone()) {
                println!("KNOWN-FINDING: property={} {}: {}", p.id, sig, msg.lines().next().unwrap_or(""));
            }
        } else {
            bad.push((*k, sig.clone(), msg.clone()));
        }
    }
    let missing: Vec<&str> = p.must.iter().copied().filter(|k| m.counters.get(*k).copied().unwrap_or(0) == 0).collect();
    // evidence
    let mut s = String::new();
    let _ = write!(s, "{{\n \"property\":{},\n \"tier\":{},\n \"seed\":{},\n \"level\":{},\n \"coverage\":{{\n", json::quote(p.id), json::quote(&tier), seed, json::quote(p.level));
    let _ = write!(s, "  \"evaluations\":{},\n  \"distinct_nontrivial\":{},\n  \"rule\":{},\n  \"samples\":[", m.evaluations, m.distinct.len(), json::quote(p.rule));
    m.samples.sort();
    m.samples.dedup();
    for (i, x) in m.samples.iter().take(6).enumerate() {
        let _ = write!(s, "{}{}", if i > 0 { ",\n   " } else { "\n   " }, json::quote(x));
    }
    s.push_str("\n  ],\n  \"observed\":{");
    for (i, (k, v)) in m.counters.iter().enumerate() {
        let _ = write!(s, "{}{}:{}", if i > 0 { ",\n   " } else { "\n   " }, json::quote(k), v);
    }
    let _ = write!(s, "\n  }},\n  \"known_findings_seen\":{},\n  \"inconclusive\":[", shown.len());
    for (i, b) in broken.iter().enumerate() {
        let _ = write!(s, "{}{}", if i > 0 { "," } else { "" }, json::quote(b));
    }
    let _ = write!(s, "]\n }},\n \"wall_s\":{:.1},\n \"violations\":{}\n}}\n", t0.elapsed().as_secs_f64(), bad.len());
    let ev = root().join("evidence");
    let _ = std::fs::create_dir_all(&ev);
    std::fs::write(ev.join(format!("{}.json", p.id)), s).unwrap();
    let _ = std::fs::remove_dir_all(&run);
    println!("{}: {} evaluations, {} distinct non-trivial, {:.1}s", p.id, m.evaluations, m.distinct.len(), t0.elapsed().as_secs_f64());
    if !bad.is_empty() {
        let rd = root().join("replays");
        let _ = std::fs::create_dir_all(&rd);
        for (k, sig, msg) in bad.iter().take(if std::env::var_os("VH_ALL").is_some() { 1000 } else { 5 }) {
            let f = rd.join(format!("{}-{}-{}.json", p.id, seed, k));
            let _ = std::fs::write(&f, format!("{{\"property\":{},\"seed\":{},\"tier\":{},\"case\":{},\"sig\":{},\"msg\":{}}}\n", json::quote(p.id), seed, json::quote(&tier), k, json::quote(sig), json::quote(msg)));
            println!("  case {}: {}{}", k, if sig.is_empty() { String::new() } else { format!("[{}] ", sig) }, msg);
        }
        let f = rd.join(format!("{}-{}-{}.json", p.id, seed, bad[0].0));
        println!("VIOLATION property={} replay={}", p.id, f.display());
        return 1;
    }
    if !broken.is_empty() {
        for b in broken {
            eprintln!("inconclusive: {}", b);
        }
        return 2;
    }
    if !missing.is_empty() || m.distinct.is_empty() {
        eprintln!("inconclusive: the workload never reached {:?}", missing);
        return 2;
    }
    0
}

fn replay(a: &[String]) -> i32 {
    let j = json::parse(&std::fs::read_to_string(&a[0]).unwrap()).unwrap();
    let g = |k: &str| j.get(k).unwrap().clone();
    let p = find(g("property").str().unwrap());
    let dir = root().join("run").join(format!("replay-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let args: Vec<String> = vec![
        p.id.into(),
        (g("seed").num().unwrap() as u64).to_string(),
        g("tier").str().unwrap().into(),
        "0".into(),
        "1".into(),
        "0".into(),
        "600000".into(),
        dir.display().to_string(),
        "tag=r".into(),
        format!("only={}", g("case").num().unwrap() as u64),
    ];
    let st = spawn(p, &args, Some(p.cpu), &dir.join("r.log")).wait().unwrap();
    let mut bad = 0;
    if st.success() {
        let mut m = Merged::default();
        merge(&mut m, &dir.join("r0.json")).unwrap();
        for (_, sig, msg) in &m.failures {
            println!("[{}] {}", sig, msg);
            bad += 1;
        }
    } else {
        println!("{}", describe(st, &dir.join("r.err")));
        bad = 1;
    }
    let _ = std::fs::remove_dir_all(&dir);
    std::io::stdout().flush().unwrap();
    i32::from(bad > 0)
}
