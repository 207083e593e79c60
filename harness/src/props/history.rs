//! C13: results depend on the inputs alone.
use super::{cli, fuzz, modes};
use crate::ctx::Ctx;
use crate::dwarfgen;
use crate::graphgen::{self, GCfg};
use crate::proc;
use crate::query::{self, Query};
use crate::rng::Rng;
use crate::sut::*;
use crate::wasmgen;
use crate::Prop;
use std::ffi::OsString;
use std::path::PathBuf;
use twiggy_traits::ParseMode;

pub const C13: Prop = Prop {
    id: "C13",
    rule: "Random item graphs with many equal sizes and names, modules (also damaged but accepted ones), native and real compiled binaries; random sequences of up to twelve queries of all analyses, formats, limits and filters (also ones that are refused, repeated ones, diffs from either side, and the lazy computations called directly) on one item set; evaluation = one result compared with that of the same query on a freshly read set, or with the output of a process of its own under another environment, or of one of up to six threads that do the same at the same time; after every query the item set is compared with what it was. Non-trivial: not the first query of its sequence, or a process; distinct by subject, history and query.",
    quick: 160_000,
    thorough: 3_000_000,
    run: c13,
    level: "exploration",
    cpu: 60,
    must: &["graphs", "modules", "damaged but accepted modules", "native binaries", "real binaries", "top", "dominators", "paths", "monos", "garbage", "diff", "repeated query", "refused query in between", "diff from the new side", "direct computations in between", "processes", "threads", "read again equal"],
    mem: 6,
};

pub enum Src {
    Graph(u64, Graph),
    Bytes(Vec<u8>, ParseMode, PathBuf),
}
impl Src {
    pub fn read(&self) -> Result<Items, String> {
        match self {
            Src::Graph(seed, g) => Ok(graphgen::build(&mut Rng::new(*seed), g)),
            Src::Bytes(_, m, p) => twiggy_parser::read_and_parse(p, *m).map_err(|e| e.to_string()),
        }
    }
    pub fn what(&self) -> String {
        match self {
            Src::Graph(_, g) => format!("{} named {:?}", graphgen::describe(g), g.name),
            Src::Bytes(b, m, _) => format!("{} bytes read as {:?}", b.len(), m),
        }
    }
    pub fn tag(&self) -> u64 {
        match self {
            Src::Graph(_, g) => crate::rng::hash_bytes(graphgen::describe(g).as_bytes()),
            Src::Bytes(b, _, _) => crate::rng::hash_bytes(b),
        }
    }
}
pub fn source(c: &mut Ctx, r: &mut Rng, tag: &str) -> Src {
    let file = |c: &Ctx, b: &[u8]| {
        let p = c.scratch.join(format!("c13{}", tag));
        std::fs::write(&p, b).unwrap();
        p
    };
    match r.below(10) {
        0..=4 => {
            c.count("graphs");
            let dup = if r.bool() { 40 } else { 0 };
            let (odd, generics) = (r.chance(1, 4), r.bool());
            let mut g = graphgen::gen(r, &GCfg { max_n: 18, dup, odd, generics, big: false, large: false, ..Default::default() });
            if r.bool() {
                // few sizes: ties everywhere
                for z in g.size.iter_mut() {
                    *z %= 3;
                }
            }
            Src::Graph(r.u64(), g)
        }
        5 | 6 => {
            c.count("modules");
            let b = wasmgen::gen(r, &wasmgen::Cfg { max_funcs: 10, max_other: 4, stmts: 4, ..Default::default() }).bytes;
            let p = file(c, &b);
            Src::Bytes(b, ParseMode::Wasm, p)
        }
        7 => {
            let w = wasmgen::Cfg { max_funcs: 6, max_other: 3, stmts: 3, ..Default::default() };
            for _ in 0..30 {
                let a = wasmgen::gen(r, &w).bytes;
                let b = if r.bool() {
                    let o = wasmgen::gen(r, &w).bytes;
                    fuzz::damage_wasm(r, &a, &o)
                } else {
                    let mut a = a;
                    for _ in 0..3 {
                        let k = r.below(a.len());
                        a[k] = r.u32() as u8;
                    }
                    a
                };
                // whether reading may panic is another property's business
                let ok = std::panic::catch_unwind(|| twiggy_parser::parse(&b).is_ok()).unwrap_or(false);
                if ok {
                    c.count("damaged but accepted modules");
                    let p = file(c, &b);
                    return Src::Bytes(b, ParseMode::Wasm, p);
                }
            }
            source(c, r, tag)
        }
        8 => {
            c.count("native binaries");
            let b = dwarfgen::gen(r, &dwarfgen::Cfg { max_units: 3, max_dies: 10, ..Default::default() }).bytes;
            let p = file(c, &b);
            Src::Bytes(b, ParseMode::Dwarf, p)
        }
        _ => {
            let s = cli::samples();
            if s.is_empty() || !r.chance(1, 4) {
                return source(c, r, tag);
            }
            c.count("real binaries");
            let b = std::fs::read(r.pick(&s)).unwrap();
            let p = file(c, &b);
            Src::Bytes(b, ParseMode::Auto, p)
        }
    }
}

fn lazily(r: &mut Rng, it: &mut Items) {
    for _ in 0..r.range(1, 3) {
        match r.below(4) {
            0 => it.compute_predecessors(),
            1 => it.compute_dominators(),
            2 => it.compute_dominator_tree(),
            _ => it.compute_retained_sizes(),
        }
    }
}

/// Several threads that read and ask at the same time, each for itself.
fn threads(c: &mut Ctx, r: &mut Rng, sa: &Src, sb: &Src, asked: &[(Query, Fmt, bool, Result<String, String>)], id: &[u8]) -> bool {
    let n = r.range(2, 6);
    let gate = std::sync::Barrier::new(n);
    let seeds: Vec<u64> = (0..n).map(|_| r.u64()).collect();
    let rounds = if matches!(sa, Src::Bytes(_, ParseMode::Auto, _)) { 1 } else { 4 };
    let wrong: Vec<Option<String>> = std::thread::scope(|s| {
        let t: Vec<_> = seeds
            .iter()
            .map(|seed| {
                let gate = &gate;
                std::thread::Builder::new()
                    .stack_size(8 << 20)
                    .spawn_scoped(s, move || {
                        let mut r = Rng::new(*seed);
                        let r = &mut r;
                        gate.wait();
                        for _ in 0..rounds {
                            let (Ok(mut a), Ok(mut b)) = (sa.read(), sb.read()) else { return Some("refused".to_string()) };
                            let mut k: Vec<usize> = (0..asked.len()).collect();
                            r.shuffle(&mut k);
                            for i in k {
                                let (q, f, swap, want) = &asked[i];
                                let o = q.options();
                                let got = if *swap { run_fmt(&mut b, Some(&mut a), &o, *f) } else { run_fmt(&mut a, Some(&mut b), &o, *f) };
                                if got != *want {
                                    return Some(format!("{} {:?} as {} gives {:?}, and {:?} alone", q.sub, q.args(), f.name(), got, want));
                                }
                            }
                        }
                        None
                    })
                    .expect("a thread starts")
            })
            .collect();
        t.into_iter().map(|t| t.join().unwrap_or_else(|_| Some("it panics".to_string()))).collect()
    });
    c.add("threads", n as u64);
    let mut key = id.to_vec();
    key.extend(format!("threads {} {:?}", n, seeds).bytes());
    c.eval(&key);
    if let Some(w) = wrong.into_iter().flatten().next() {
        c.fail(format!("one of {} threads that read and ask at the same time: {}; on {}", n, w, sa.what()));
        return false;
    }
    true
}

fn pool(it: &Items) -> Vec<String> {
    let mut p: Vec<String> = it.iter().map(|i| i.name().to_string()).filter(|n| !n.contains('\0')).collect();
    p.truncate(300);
    p
}

fn c13(c: &mut Ctx) {
    let mut r = c.rng(13);
    let r = &mut r;
    let (sa, sb) = (source(c, r, "a"), source(c, r, "b"));
    let (mut a, mut b) = match (sa.read(), sb.read()) {
        (Ok(a), Ok(b)) => (a, b),
        (a, b) => return c.fail(format!("refused: {:?} {:?}", a.err(), b.err())),
    };
    let id = match &sa {
        Src::Graph(_, g) => graphgen::describe(g).into_bytes(),
        Src::Bytes(b, _, _) => b.clone(),
    };
    let (da, db) = (modes::dump_of(&a), modes::dump_of(&b));
    for (s, d) in [(&sa, &da), (&sb, &db)] {
        match s.read() {
            Ok(x) if modes::dump_of(&x) == *d => c.count("read again equal"),
            Ok(_) => return c.fail("reading the same bytes again gives other items".to_string()),
            Err(e) => return c.fail(format!("reading the same bytes again is refused: {}", e)),
        }
    }
    let dense = da.len() < 40 && da.iter().map(|l| l.matches("Id").count()).sum::<usize>() > da.len() * 3;
    let names = pool(&a);
    let mut history: Vec<String> = vec![];
    let mut last: Option<(Query, Fmt, bool)> = None;
    let mut asked: Vec<(Query, Fmt, bool, Result<String, String>)> = vec![];
    for step in 0..r.range(2, 12) {
        if r.chance(1, 8) {
            lazily(r, &mut a);
            c.count("direct computations in between");
            history.push("computations".into());
        }
        let (q, f, swap) = match &last {
            Some(x) if r.chance(1, 6) => {
                c.count("repeated query");
                x.clone()
            }
            _ => {
                let sub = *r.pick(&query::SUBS);
                let mut q = cli::any_query(r, sub, &names);
                if sub == "paths" {
                    q.flags = q.flags.iter().filter(|x| x.starts_with("--")).cloned().collect();
                    q.flags.extend(["-d".to_string(), r.below(if dense { 4 } else { 7 }).to_string(), "-r".to_string(), r.below(12).to_string()]);
                }
                if q.regex && r.chance(1, 4) {
                    q.names.push("(".into());
                }
                (q, cli::fmt(r), sub == "diff" && r.bool())
            }
        };
        last = Some((q.clone(), f, swap));
        c.count(q.sub);
        if swap {
            c.count("diff from the new side");
        }
        let o = q.options();
        let fresh = |s: &Src| s.read().map_err(|e| format!("read again: {}", e));
        let want = match (fresh(&sa), fresh(&sb)) {
            (Ok(mut x), Ok(mut y)) => {
                if swap {
                    run_fmt(&mut y, Some(&mut x), &o, f)
                } else {
                    run_fmt(&mut x, Some(&mut y), &o, f)
                }
            }
            (x, y) => return c.fail(format!("{:?} {:?}", x.err(), y.err())),
        };
        let got = if swap { run_fmt(&mut b, Some(&mut a), &o, f) } else { run_fmt(&mut a, Some(&mut b), &o, f) };
        if got.is_err() {
            c.count("refused query in between");
        }
        let mut key = id.clone();
        key.extend(format!("{:?} {:?} {} {}", history, q, f.name(), swap).bytes());
        if step > 0 {
            c.eval(&key);
        } else {
            c.eval_trivial();
        }
        let me = format!("{}{} {:?} as {}", q.sub, if swap { " (sides exchanged)" } else { "" }, q.args(), f.name());
        let on = || sa.what();
        if got != want {
            return c.fail(format!("{} after {:?} gives {:?}, on a fresh set {:?}; on {}", me, history, got, want, on()));
        }
        history.push(me);
        asked.push((q, f, swap, want));
        if modes::dump_of(&a) != da || modes::dump_of(&b) != db {
            return c.fail(format!("the item set is changed by {:?}; on {}", history.last(), on()));
        }
    }
    c.sample(|| format!("{:?}", history));
    if r.chance(1, 25) && !threads(c, r, &sa, &sb, &asked, &id) {
        return;
    }
    // processes of their own
    if !r.chance(1, 8) {
        return;
    }
    let (pa, pb) = match (&sa, &sb) {
        (Src::Bytes(_, ma, pa), Src::Bytes(_, mb, pb)) if matches!((ma, mb), (ParseMode::Dwarf, ParseMode::Dwarf) | (ParseMode::Wasm, ParseMode::Wasm) | (ParseMode::Auto, ParseMode::Auto)) => (pa, pb),
        (Src::Bytes(_, _, pa), _) => (pa, pa),
        _ => return,
    };
    let (q, f, _) = last.unwrap();
    let mode = match &sa {
        Src::Bytes(_, ParseMode::Wasm, _) => "wasm",
        Src::Bytes(_, ParseMode::Dwarf, _) => "dwarf",
        _ => "auto",
    };
    let want = {
        let mut y = if pa == pb { sa.read() } else { sb.read() }.unwrap();
        run_fmt(&mut a, Some(&mut y), &q.options(), f)
    };
    for _ in 0..3 {
        let args = cli::cmdline(&q, f, &["--mode".into(), mode.into()], pa, if q.sub == "diff" { Some(pb) } else { None });
        let mut env: Vec<(&'static str, OsString)> = vec![];
        for (k, v) in [("COLUMNS", "20"), ("LANG", "de_DE.UTF-8"), ("LC_ALL", "C"), ("TERM", "dumb"), ("NO_COLOR", "1"), ("RUST_BACKTRACE", "full"), ("TZ", "Asia/Tokyo"), ("HOME", "/nowhere"), ("RUST_LOG", "trace"), ("TWIGGY", "x"), ("CLICOLOR_FORCE", "1")] {
            if r.chance(1, 4) {
                env.push((k, v.into()));
            }
        }
        let dir = std::env::temp_dir();
        let d = proc::go(proc::Run { args, out: proc::Out::Pipe, cwd: if r.bool() { Some(&dir) } else { None }, fsize: None, env: env.clone() });
        c.count("processes");
        let mut key = id.clone();
        key.extend(format!("process {:?} {} {:?}", q, f.name(), env).bytes());
        c.eval(&key);
        let same = match &want {
            Ok(w) => d.ok() && d.out == w.as_bytes(),
            Err(_) => !d.ok(),
        };
        if !same {
            return c.fail(format!("a process of its own ({} {:?} as {}, environment {:?}): {}; in this process after {:?}: {:?}", q.sub, q.args(), f.name(), env, d.brief(), history, want));
        }
    }
}
