//! C24: memory is used safely (under AddressSanitizer). C25: memory and files
//! taken are given back.
use super::{cli, fuzz, history};
use crate::ctx::Ctx;
use crate::proc;
use crate::query::{self, Query};
use crate::rng::Rng;
use crate::sut::*;
use crate::wasmgen;
use crate::{meter, Prop};

pub const C24: Prop = Prop {
    id: "C24",
    rule: "The code of the repository and of the libraries it is built from, compiled with AddressSanitizer, under the workloads of the other monitors (arbitrary and damaged bytes, generated and real modules and native binaries, item graphs of every shape, histories of queries, filters, the command as a process of its own); evaluation = one evaluation of such a workload ended without a report of the sanitizer. Non-trivial and distinct: as in that workload.",
    quick: 60_000,
    thorough: 3_000_000,
    run: c24,
    level: "exploration",
    cpu: 300,
    must: &["sanitized", "wasm accepted", "wasm refused", "native accepted", "native refused", "workload C12", "workload C13", "workload C18", "workload C09", "workload C08", "workload C23", "workload C06", "workload C17", "workload C21", "workload C03", "processes"],
    // the sanitizer's own map of memory
    mem: 0,
};

fn c24(c: &mut Ctx) {
    if !cfg!(vh_asan) {
        return c.fail("this property needs the sanitized build".to_string());
    }
    c.count("sanitized");
    let mut r = c.rng(24);
    if r.chance(1, 60) {
        let (b, wasm) = cli::binary(&mut r, true);
        let b = if r.bool() {
            let mut b = b;
            fuzz::damage_bytes(&mut r, &mut b);
            b
        } else {
            b
        };
        let p = c.scratch.join(if wasm { "c24.wasm" } else { "c24" });
        std::fs::write(&p, &b).unwrap();
        let sub = *r.pick(&query::SUBS);
        let q = cli::any_query(&mut r, sub, &[]);
        if sub == "paths" && !q.flags.iter().any(|f| f == "-d") {
            return;
        }
        let a = cli::cmdline(&q, cli::fmt(&mut r), &[], &p, if sub == "diff" { Some(&p) } else { None });
        let d = proc::run(&a);
        c.count("processes");
        c.eval(format!("{:?} {:x}", q, crate::rng::hash_bytes(&b)).as_bytes());
        if let Some(m) = report(&d.err) {
            c.fail(format!("twiggy {:?}: {}", a, m));
        }
        return;
    }
    let id = match r.below(40) {
        0..=19 => "C12",
        20..=23 => "C13",
        24 => "C23",
        25 => "C08",
        26 => "C09",
        27 => "C10",
        28 => "C16",
        29 => "C17",
        30 => "C04",
        31 => "C06",
        32 => "C07",
        33 => "C05",
        34 => "C21",
        35 => "C22",
        36..=37 => "C18",
        38 => "C02",
        _ => "C03",
    };
    c.count(&format!("workload {}", id));
    let p = super::all().iter().find(|p| p.id == id).unwrap();
    // what they judge is judged there; only the sanitizer is listened to here
    let k = c.failures.len();
    crate::one(p, c);
    let utf8: Vec<_> = c.failures.split_off(k).into_iter().filter(|f| f.msg.contains("not UTF-8")).collect();
    c.failures.extend(utf8);
}

/// What the sanitizer said, if it was about memory.
pub fn report(err: &[u8]) -> Option<String> {
    let s = String::from_utf8_lossy(err);
    let k = s.find("ERROR: AddressSanitizer: ")?;
    let l = s[k..].lines().next().unwrap_or("");
    // using much memory or stack is another property's business
    if ["stack-overflow", "out-of-memory", "allocation-size-too-big", "requested allocation size", "hard rss limit", "failed to allocate"].iter().any(|x| l.contains(x)) {
        return None;
    }
    let at = s[k..].lines().filter(|l| l.trim_start().starts_with('#')).map(|l| l.trim().to_string()).find(|l| l.contains("/repo/")).unwrap_or_default();
    Some(format!("{} {}", l, at))
}

pub const C25: Prop = Prop {
    id: "C25",
    rule: "Item graphs, modules, damaged and refused ones, native and real binaries; rounds of reading, random queries of all analyses and formats, and dropping everything, four times over (of some small ones two thousand times), and the same queries four times over on one item set; and rounds of parsing, querying and freeing on one instance of the wasm32 library; evaluation = one such set of rounds with the bytes the process holds (counted by its allocator), the open files, and the size of the library's memory compared between rounds. Non-trivial: every evaluation; distinct by subject and queries.",
    quick: 60_000,
    thorough: 1_500_000,
    run: c25,
    level: "exploration",
    cpu: 120,
    must: &["whole rounds", "repeated queries", "rounds in the library", "graphs", "modules", "native binaries", "real binaries", "refused input", "thousands of rounds", "top", "dominators", "paths", "monos", "garbage", "diff", "refused query"],
    mem: 400,
};

fn queries(r: &mut Rng, names: &[String], dense: bool) -> Vec<(Query, Fmt)> {
    let n = r.range(1, 4);
    (0..n)
        .map(|_| {
            let sub = *r.pick(&query::SUBS);
            let mut q = cli::any_query(r, sub, names);
            if sub == "paths" {
                q.flags = q.flags.iter().filter(|x| x.starts_with("--")).cloned().collect();
                q.flags.extend(["-d".to_string(), r.below(if dense { 4 } else { 6 }).to_string(), "-r".to_string(), r.below(12).to_string()]);
            }
            if q.regex && r.chance(1, 4) {
                q.names.push("(".into());
            }
            (q, cli::fmt(r))
        })
        .collect()
}
fn files() -> usize {
    std::fs::read_dir("/proc/self/fd").map_or(0, |d| d.count())
}

fn c25(c: &mut Ctx) {
    if !meter::ON {
        return c.fail("this property needs the instrumented build".to_string());
    }
    let mut rr = c.rng(25);
    let r = &mut rr;
    if c.case < 4 || r.chance(1, 250) {
        return library(c, r);
    }
    let (sa, sb) = (history::source(c, r, "a"), history::source(c, r, "b"));
    if r.chance(1, 8) {
        return refused(c, r);
    }
    let (names, dense) = match sa.read() {
        Ok(i) => {
            let g = match Graph::of(&i) {
                Ok(g) => g,
                Err(e) => return c.fail(e),
            };
            (g.name.iter().filter(|n| !n.contains('\0')).take(100).cloned().collect::<Vec<_>>(), g.succ.iter().map(|s| s.len()).sum::<usize>() > g.n() * 2)
        }
        Err(e) => return c.fail(format!("refused: {}", e)),
    };
    let qs = queries(r, &names, dense);
    let os: Vec<(Options, Fmt)> = qs.iter().map(|(q, f)| (q.options(), *f)).collect();
    for (q, _) in &qs {
        c.count(q.sub);
    }
    let me = format!("{:?} {:x} {:x}", qs, sa.tag(), sb.tag());
    c.eval(me.as_bytes());
    c.sample(|| format!("{:?}", qs.iter().map(|(q, f)| (q.sub, q.args(), f.name())).collect::<Vec<_>>()));
    let bad = std::cell::Cell::new(0u64);
    let ask = |a: &mut Items, b: &mut Items| {
        for (o, f) in &os {
            if run_fmt(a, Some(b), o, *f).is_err() {
                bad.set(bad.get() + 1);
            }
        }
    };
    let round = |n: &mut [u64; 4]| {
        for x in n.iter_mut() {
            {
                if let (Ok(mut a), Ok(mut b)) = (sa.read(), sb.read()) {
                    ask(&mut a, &mut b);
                }
            }
            *x = meter::live();
        }
    };
    let mut n = [0u64; 4];
    let f0 = files();
    round(&mut n);
    let f1 = files();
    c.count("whole rounds");
    if f1 != f0 {
        return c.fail(format!("{} files open before reading and {} after; {}", f0, f1, me));
    }
    if n.windows(2).all(|w| w[1] > w[0]) {
        return c.fail(format!("each round of reading, asking {:?} and dropping everything leaves more memory in use: {:?}; on {}", qs, n, sa.what()));
    }
    // the same again on one item set
    let (Ok(mut a), Ok(mut b)) = (sa.read(), sb.read()) else { return };
    let mut n = [0u64; 4];
    for x in n.iter_mut() {
        ask(&mut a, &mut b);
        *x = meter::live();
    }
    c.count("repeated queries");
    if bad.get() > 0 {
        c.count("refused query");
    }
    if n.windows(2).all(|w| w[1] > w[0]) {
        c.fail(format!("each repetition of {:?} on one item set leaves more memory in use: {:?}; on {}", qs, n, sa.what()));
    }
    // what is kept little by little shows after many rounds only
    let small = a.iter().count() + b.iter().count() < 60 && !dense;
    if small && r.chance(1, 60) {
        drop((a, b));
        let mut n = [0u64; 5];
        let t = std::time::Instant::now();
        let mut done = 0u64;
        for (k, x) in n.iter_mut().enumerate() {
            while done < 8 << (2 * k) {
                if let (Ok(mut a), Ok(mut b)) = (sa.read(), sb.read()) {
                    ask(&mut a, &mut b);
                }
                done += 1;
                if t.elapsed().as_secs() > 4 {
                    return;
                }
            }
            *x = meter::live();
        }
        c.count("thousands of rounds");
        if n.windows(2).all(|w| w[1] > w[0]) {
            c.fail(format!("8, 32, 128, 512 and 2048 rounds of reading, asking {:?} and dropping leave ever more memory in use: {:?}; on {}", qs, n, sa.what()));
        }
    }
}

/// Input that cannot be read leaves nothing behind either.
fn refused(c: &mut Ctx, r: &mut Rng) {
    let a = wasmgen::gen(r, &wasmgen::Cfg { max_funcs: 8, max_other: 3, stmts: 3, ..Default::default() }).bytes;
    let b = match r.below(3) {
        0 => {
            let k = r.below(a.len());
            a[..k].to_vec()
        }
        1 => {
            let mut b = a.clone();
            fuzz::damage_bytes(r, &mut b);
            b
        }
        _ => {
            let mut b = cli::binary(r, false).0;
            fuzz::damage_bytes(r, &mut b);
            b
        }
    };
    let p = c.scratch.join("c25");
    std::fs::write(&p, &b).unwrap();
    let mode = if b.starts_with(b"\0asm") { twiggy_traits::ParseMode::Wasm } else { twiggy_traits::ParseMode::Dwarf };
    let mut n = [0u64; 4];
    let f0 = files();
    let mut no = false;
    for x in n.iter_mut() {
        match std::panic::catch_unwind(|| twiggy_parser::read_and_parse(&p, mode).is_err()) {
            Ok(e) => no |= e,
            // that it panics is another property's business
            Err(_) => return,
        }
        *x = meter::live();
    }
    let f1 = files();
    c.eval(&b);
    if no {
        c.count("refused input");
    }
    if f1 != f0 {
        return c.fail(format!("{} files open before reading and {} after", f0, f1));
    }
    if n.windows(2).all(|w| w[1] > w[0]) {
        c.fail(format!("each reading of {} bytes (refused: {}) leaves more memory in use: {:?}", b.len(), no, n));
    }
}

/// The library for JavaScript: rounds of parsing, asking and freeing.
fn library(c: &mut Ctx, r: &mut Rng) {
    let b = loop {
        let b = wasmgen::gen(r, &wasmgen::Cfg { max_funcs: 14, max_other: 6, stmts: 4, ..Default::default() }).bytes;
        if (300..20_000).contains(&b.len()) {
            break b;
        }
    };
    let b2 = wasmgen::gen(r, &wasmgen::Cfg { max_funcs: 8, max_other: 4, stmts: 4, ..Default::default() }).bytes;
    let Ok(it) = twiggy_parser::parse(&b) else { return };
    let name = it.iter().map(|i| i.name().to_string()).find(|n| !n.is_empty() && n.is_ascii()).unwrap_or_else(|| "x".into());
    let mut calls = vec![format!("[\"parse\",\"{}\"]", super::api::hex(&b)), format!("[\"parse\",\"{}\"]", super::api::hex(&b2))];
    let mut n = 2;
    for k in ["top", "dominators", "paths", "monos", "diff"] {
        if !r.chance(2, 3) {
            continue;
        }
        calls.push(format!("[\"new\",\"{}\"]", k));
        match k {
            "top" if r.bool() => calls.push(format!("[\"set\",{},\"top_set_retained\",1]", n)),
            "paths" => {
                calls.push(format!("[\"set\",{},\"paths_set_max_depth\",3]", n));
                calls.push(format!("[\"set\",{},\"paths_set_max_paths\",2]", n));
                calls.push(format!("[\"str\",{},\"paths_add_function\",\"{}\"]", n, super::api::hex(name.as_bytes())));
            }
            _ => {}
        }
        for _ in 0..r.range(1, 2) {
            calls.push(format!("[\"run\",0,\"{}\",{}{}]", k, if k == "diff" { "1," } else { "" }, n));
        }
        calls.push(format!("[\"free\",{},\"{}\"]", n, k));
        n += 1;
    }
    calls.push("[\"free\",0,\"items\"]".into());
    calls.push("[\"free\",1,\"items\"]".into());
    let body = format!("[{}]", calls.join(","));
    let turns = 4096 * 60 / b.len().max(2000) as u32 + 30;
    let line = format!("[[\"start\"]{}]", format!(",[\"rounds\",{},{}]", turns, body).repeat(4));
    c.count("rounds in the library");
    c.eval(line.as_bytes());
    let got = match super::api::ask(&line) {
        Ok(g) => g,
        Err(e) => return c.fail(format!("the library's host: {}", e)),
    };
    let sizes: Vec<u64> = got.iter().skip(1).filter_map(|g| g.num()).map(|x| x as u64).collect();
    if sizes.len() < 4 {
        // a trap: another property's business
        return c.count("rounds that trapped");
    }
    c.sample(|| format!("library: {} bytes of memory after {} rounds, {:?} later", sizes[0], turns, &sizes[1..]));
    if sizes.windows(2).all(|w| w[1] > w[0]) {
        c.fail(format!("the library's memory grows with every {} rounds of parsing, asking and freeing: {:?} bytes; module of {} bytes, calls {:?}", turns, sizes, b.len(), &calls[2..]));
    }
}
