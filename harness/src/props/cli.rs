//! C14: exit status and delivered bytes of the command, under ordinary
//! conditions and with faults at the destination and at the input.
use crate::ctx::Ctx;
use crate::dwarfgen;
use crate::proc::{self, Done, Out, Run};
use crate::query::{self, Query};
use crate::rng::Rng;
use crate::sut::*;
use crate::wasmgen;
use crate::Prop;
use std::ffi::OsString;
use std::path::{Path, PathBuf};
use twiggy_traits::ParseMode;

pub const C14: Prop = Prop {
    id: "C14",
    rule: "Generated and real modules and native binaries, random queries, formats and destinations of the real command; evaluation = one process whose exit status, standard output, standard error and output file are judged: without faults, with a write or read failing at a chosen byte or call (size limit at every position of small outputs, full device, closed and leaving readers, failing, short and interrupted calls by a preloaded library), or with unusable inputs, destinations and options. Non-trivial: every evaluation; distinct by arguments, input and fault.",
    quick: 10_000,
    thorough: 300_000,
    run: c14,
    level: "fault_enumeration",
    cpu: 120,
    must: &[
        "top", "dominators", "paths", "monos", "garbage", "diff", "text", "json", "csv", "delivered to a pipe", "delivered to a new file", "delivered over a longer file", "size limit below the output", "size limit at or above the output",
        "every byte position of an output", "full device", "closed reader", "reader left early and the command noticed", "failing write injected", "short writes injected", "interrupted write injected", "failing read injected", "short reads injected", "unusable destination", "unusable input", "invalid option", "outputs beyond 8 KiB",
    ],
    mem: 6,
};

pub const SAMPLES: &str = "/verif/target/samples";
pub fn samples() -> Vec<PathBuf> {
    let mut v: Vec<PathBuf> = std::fs::read_dir(SAMPLES).map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).filter(|p| p.extension().is_some()).collect()).unwrap_or_default();
    v.sort();
    v
}
/// A binary and whether it is WebAssembly.
pub fn binary(r: &mut Rng, big: bool) -> (Vec<u8>, bool) {
    match r.below(6) {
        0 => (dwarfgen::gen(r, &dwarfgen::Cfg { max_units: 2, max_dies: 8, ..Default::default() }).bytes, false),
        1 if big => {
            let s = samples();
            if s.is_empty() {
                return (wasmgen::gen(r, &Default::default()).bytes, true);
            }
            let p = r.pick(&s).clone();
            let b = std::fs::read(&p).unwrap();
            let w = b.starts_with(b"\0asm");
            (b, w)
        }
        _ => {
            let w = wasmgen::Cfg { max_funcs: if big && r.chance(1, 5) { 400 } else { 10 }, max_other: 4, stmts: 4, hostile_names: r.chance(1, 4), ..Default::default() };
            (wasmgen::gen(r, &w).bytes, true)
        }
    }
}

/// Limits and filters on a query over a binary, so that no output explodes.
pub fn any_query(r: &mut Rng, sub: &'static str, pool: &[String]) -> Query {
    let filter = r.chance(1, 3);
    let mut q = query::gen(r, sub, pool, filter);
    let keys: &[&str] = match sub {
        "dominators" => &["-d", "-r"],
        "paths" => &["-d", "-r"],
        "monos" => &["-m", "-n"],
        _ => &["-n"],
    };
    for k in keys {
        if r.chance(1, 3) {
            let v = if sub == "paths" { r.below(9) } else { r.below(30) };
            q.flags.extend([k.to_string(), v.to_string()]);
        }
    }
    if r.chance(1, 6) {
        if sub == "monos" {
            q.flags.push(r.pick(&["-a", "-g", "--all-monos", "--all-generics"]).to_string());
        } else if sub == "garbage" || sub == "diff" {
            q.flags.push("-a".into());
        }
    }
    q
}
pub fn fmt(r: &mut Rng) -> Fmt {
    *r.pick(&FMTS)
}

/// The whole command line of a query.
pub fn cmdline(q: &Query, f: Fmt, extra: &[OsString], input: &Path, new: Option<&Path>) -> Vec<OsString> {
    let mut v: Vec<OsString> = vec![q.sub.into()];
    v.extend(q.flags.iter().map(OsString::from));
    if q.regex {
        v.push("--regex".into());
    }
    v.push("-f".into());
    v.push(f.name().into());
    v.extend(extra.iter().cloned());
    v.push("--".into());
    v.push(input.into());
    if let Some(n) = new {
        v.push(n.into());
    }
    v.extend(q.names.iter().map(OsString::from));
    v
}

struct Case {
    q: Query,
    f: Fmt,
    input: PathBuf,
    new: Option<PathBuf>,
    dir: PathBuf,
    want: String,
}
impl Case {
    fn args(&self, extra: &[OsString]) -> Vec<OsString> {
        cmdline(&self.q, self.f, extra, &self.input, self.new.as_deref())
    }
}

fn refused(d: &Done) -> Result<(), String> {
    if d.code == Some(0) {
        return Err("exits with status zero".into());
    }
    if d.code.is_none() {
        return Err("does not exit by itself".into());
    }
    if d.err.is_empty() {
        return Err("says nothing on standard error".into());
    }
    Ok(())
}
fn delivered(d: &Done, got: &[u8], want: &str) -> Result<(), String> {
    if !d.ok() {
        return Err("does not exit with status zero".into());
    }
    if got != want.as_bytes() {
        let k = got.iter().zip(want.as_bytes()).take_while(|(a, b)| a == b).count();
        return Err(format!("exits with status zero having delivered {} bytes of {} (equal up to {})", got.len(), want.len(), k));
    }
    Ok(())
}

fn fresh(p: &Path) {
    let _ = std::fs::remove_file(p);
}

fn c14(c: &mut Ctx) {
    let mut r = c.rng(14);
    let dir = std::fs::canonicalize(&c.scratch).unwrap().join("c14");
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    run14(c, &mut r, &dir);
    let _ = std::fs::remove_dir_all(&dir);
}

fn run14(c: &mut Ctx, r: &mut Rng, dir: &Path) {
    let sub = *r.pick(&query::SUBS);
    let f = fmt(r);
    let (bytes, _) = binary(r, true);
    let input = dir.join(*r.pick(&["in", "in.bin", "a b", "-in"]));
    std::fs::write(&input, &bytes).unwrap();
    let mut items = match twiggy_parser::read_and_parse(&input, ParseMode::Auto) {
        Ok(i) => i,
        Err(e) => return c.fail(format!("valid binary refused: {}", e)),
    };
    let mut new_items = None;
    let mut new = None;
    let mut key = bytes.clone();
    if sub == "diff" {
        let (b, _) = binary(r, true);
        let p = dir.join("new");
        std::fs::write(&p, &b).unwrap();
        new_items = Some(match twiggy_parser::read_and_parse(&p, ParseMode::Auto) {
            Ok(i) => i,
            Err(e) => return c.fail(format!("valid binary refused: {}", e)),
        });
        key.extend(&b);
        new = Some(p);
    }
    let mut pool: Vec<String> = items.iter().map(|i| i.name().to_string()).filter(|n| !n.contains('\0')).collect();
    pool.truncate(400);
    let q = any_query(r, sub, &pool);
    let want = match run_fmt(&mut items, new_items.as_mut(), &q.options(), f) {
        Ok(s) => s,
        Err(e) => return c.fail(format!("{:?} refused: {}", q, e)),
    };
    if want.len() > 8192 {
        c.count("outputs beyond 8 KiB");
    }
    c.max("output bytes", want.len() as u64);
    c.count(sub);
    c.count(f.name());
    key.extend(format!("{:?}{}", q, f.name()).bytes());
    let k = Case { q, f, input, new, dir: dir.to_path_buf(), want };
    let say = |what: &str, d: &Done, m: String| format!("{} ({}): the command {}; {}; expected output {:?}", what, k.args(&[]).iter().map(|s| s.to_string_lossy().into_owned()).collect::<Vec<_>>().join(" "), m, d.brief(), k.want.chars().take(120).collect::<String>());
    let mut fails: Vec<String> = vec![];
    let mut ev = |c: &mut Ctx, what: &str, d: &Done, res: Result<(), String>| {
        let mut kk = key.clone();
        kk.extend(what.bytes());
        c.eval(&kk);
        c.sample(|| format!("{} {}: {}", what, k.q.sub, d.brief()));
        if let Err(m) = res {
            fails.push(say(what, d, m));
        }
    };
    let len = k.want.len();
    let o = k.dir.join(*r.pick(&["out", "out.json", "out put", "in.wasm"]));
    let oarg = |r: &mut Rng, p: &Path| -> Vec<OsString> {
        if r.bool() {
            vec!["-o".into(), p.into()]
        } else {
            let mut s = OsString::from("-o");
            s.push(p);
            vec![s]
        }
    };
    for _ in 0..4 {
        match r.below(14) {
            0 => {
                let extra: Vec<OsString> = if r.bool() { vec![] } else { vec!["-o".into(), "-".into()] };
                let d = proc::run(&k.args(&extra));
                c.count("delivered to a pipe");
                let res = delivered(&d, &d.out, &k.want);
                ev(c, "plain", &d, res);
            }
            1 | 2 => {
                // a file, new or replacing something
                fresh(&o);
                let what = match r.below(6) {
                    5 => {
                        // the input itself
                        let keep = k.input.clone();
                        let d = proc::run(&k.args(&["-o".into(), keep.clone().into()]));
                        let got = std::fs::read(&keep).unwrap_or_default();
                        let res = delivered(&d, &got, &k.want);
                        std::fs::write(&keep, &bytes).unwrap();
                        ev(c, "over the input itself", &d, res);
                        continue;
                    }
                    0 => {
                        c.count("delivered to a new file");
                        "new file"
                    }
                    1 | 2 => {
                        std::fs::write(&o, vec![b'#'; len + 1 + r.below(5000)]).unwrap();
                        c.count("delivered over a longer file");
                        "longer file"
                    }
                    3 => {
                        std::fs::write(&o, vec![b'#'; len / 2]).unwrap();
                        "shorter file"
                    }
                    _ => {
                        let t = k.dir.join("target of a link");
                        std::fs::write(&t, vec![b'#'; len + 10]).unwrap();
                        std::os::unix::fs::symlink(&t, &o).unwrap();
                        "link to a file"
                    }
                };
                let names = |d: &Path| {
                    let mut v: Vec<_> = std::fs::read_dir(d).unwrap().map(|e| e.unwrap().file_name()).collect();
                    v.retain(|n| Some(n.as_os_str()) != o.file_name());
                    v.sort();
                    v
                };
                let before = names(&k.dir);
                let rel = r.chance(1, 3);
                let p = if rel { PathBuf::from(o.file_name().unwrap()) } else { o.clone() };
                let d = proc::go(Run { args: k.args(&oarg(r, &p)), out: Out::Pipe, cwd: Some(&k.dir), fsize: None, env: vec![] });
                let got = std::fs::read(&o).unwrap_or_default();
                let mut res = delivered(&d, &got, &k.want);
                if res.is_ok() && !d.out.is_empty() {
                    res = Err("writes to standard output as well".into());
                }
                if res.is_ok() && names(&k.dir) != before {
                    res = Err("leaves other files behind".into());
                }
                ev(c, what, &d, res);
                fresh(&o);
            }
            3 | 4 => {
                // a size limit on the file
                let all = len <= 300 && r.chance(1, 4);
                let pos: Vec<usize> = if all {
                    (0..=len + 1).collect()
                } else {
                    let mut v = vec![0, 1, len.saturating_sub(1), len, len + 1];
                    for _ in 0..4 {
                        v.push(r.below(len + 2));
                    }
                    v.extend([1024, 4096, 8191, 8192, 8193].iter().filter(|x| **x <= len));
                    r.shuffle(&mut v);
                    v.truncate(5);
                    v
                };
                let to_stdout = r.bool();
                for p in pos {
                    fresh(&o);
                    let (args, out) = if to_stdout { (k.args(&[]), Out::File(&o)) } else { (k.args(&["-o".into(), o.clone().into()]), Out::Pipe) };
                    let d = proc::go(Run { args, out, cwd: None, fsize: Some(p as u64), env: vec![] });
                    let got = std::fs::read(&o).unwrap_or_default();
                    let res = if p < len {
                        c.count("size limit below the output");
                        refused(&d)
                    } else {
                        c.count("size limit at or above the output");
                        delivered(&d, &got, &k.want)
                    };
                    ev(c, &format!("file size limit {} of {} ({})", p, len, if to_stdout { "standard output" } else { "-o" }), &d, res);
                }
                if all {
                    c.count("every byte position of an output");
                }
                fresh(&o);
            }
            5 => {
                let full = Path::new("/dev/full");
                let to_stdout = r.bool();
                let (args, out) = if to_stdout { (k.args(&[]), Out::File(full)) } else { (k.args(&["-o".into(), full.into()]), Out::Pipe) };
                let d = proc::go(Run { args, out, cwd: None, fsize: None, env: vec![] });
                if len > 0 {
                    c.count("full device");
                    let res = refused(&d);
                    ev(c, if to_stdout { "full device as standard output" } else { "full device with -o" }, &d, res);
                }
            }
            6 => {
                let d = proc::go(Run { args: k.args(&[]), out: Out::Closed, cwd: None, fsize: None, env: vec![] });
                if len > 0 {
                    c.count("closed reader");
                    let res = refused(&d);
                    ev(c, "pipe without a reader", &d, res);
                }
            }
            7 => {
                let n = r.below(len + 1);
                let d = proc::go(Run { args: k.args(&[]), out: Out::Reader(n), cwd: None, fsize: None, env: vec![] });
                let res = if d.ok() {
                    // all of it must have fitted into what was read and the pipe itself
                    if len > n + 2 * 4096 {
                        Err(format!("exits with status zero though the reader left after {} bytes", n))
                    } else {
                        Ok(())
                    }
                } else {
                    c.count("reader left early and the command noticed");
                    refused(&d)
                };
                let res = if d.out != k.want.as_bytes()[..d.out.len().min(len)] { Err("delivers other bytes".into()) } else { res };
                ev(c, &format!("reader leaving after {} bytes", n), &d, res);
            }
            8 | 9 | 10 => {
                // faults at single calls
                let log = k.dir.join("log");
                fresh(&log);
                fresh(&o);
                let wr = r.chance(2, 3);
                let err = match r.below(6) {
                    0 | 1 => 28,
                    2 => 5,
                    3 => 4,
                    4 => -1,
                    _ => -2,
                };
                let most = if r.bool() { 3 } else { 12 };
                let nth = 1 + r.below(most);
                let persist = err != 4 && r.bool();
                let to_stdout = r.bool();
                let target: OsString = if !wr {
                    let p: &Path = match &k.new {
                        Some(n) if r.bool() => n,
                        _ => &k.input,
                    };
                    p.into()
                } else if to_stdout {
                    "stdout".into()
                } else {
                    o.clone().into()
                };
                let args = k.args(&if to_stdout { vec![] } else { vec!["-o".into(), o.clone().into()] });
                let env = vec![
                    ("LD_PRELOAD", OsString::from("/verif/target/shim.so")),
                    ("VH_FAULT", format!("{} {} {} {}", if wr { 'w' } else { 'r' }, nth, err, persist as u8).into()),
                    ("VH_FAULT_PATH", target),
                    ("VH_FAULT_LOG", log.clone().into()),
                ];
                let d = proc::go(Run { args, out: Out::Pipe, cwd: None, fsize: None, env });
                let hits = std::fs::read(&log).unwrap_or_default();
                let got = if to_stdout { d.out.clone() } else { std::fs::read(&o).unwrap_or_default() };
                let res = if hits.contains(&b'f') {
                    c.count(if wr { "failing write injected" } else { "failing read injected" });
                    refused(&d)
                } else {
                    if hits.contains(&b's') {
                        c.count(if wr { "short writes injected" } else { "short reads injected" });
                    }
                    if hits.contains(&b'i') {
                        c.count(if wr { "interrupted write injected" } else { "interrupted read injected" });
                    }
                    delivered(&d, &got, &k.want)
                };
                ev(c, &format!("{} call {} gives {}{} ({})", if wr { "write" } else { "read" }, nth, err, if persist { " from there on" } else { "" }, if to_stdout { "standard output" } else { "-o" }), &d, res);
                fresh(&o);
                fresh(&log);
            }
            11 => {
                // destinations that cannot be opened
                let bad: OsString = match r.below(3) {
                    0 => k.dir.join("nowhere/out").into(),
                    1 => k.dir.clone().into(),
                    _ => {
                        let mut s = OsString::from(&k.input);
                        s.push("/x");
                        s
                    }
                };
                let d = proc::run(&k.args(&["-o".into(), bad.clone()]));
                let mut res = refused(&d);
                if res.is_ok() && !d.out.is_empty() {
                    res = Err("writes to standard output as well".into());
                }
                c.count("unusable destination");
                ev(c, &format!("destination {:?}", bad), &d, res);
            }
            12 => {
                // inputs that cannot be read
                let bad: PathBuf = match r.below(5) {
                    0 => k.dir.join("missing.wasm"),
                    1 => k.dir.clone(),
                    2 => {
                        let p = k.dir.join("empty.wasm");
                        std::fs::write(&p, b"").unwrap();
                        p
                    }
                    3 => {
                        let p = k.dir.join("text.txt");
                        std::fs::write(&p, b"hello, this is no binary").unwrap();
                        p
                    }
                    _ => {
                        // a module that ends in the middle of its last section
                        let p = k.dir.join("cut.wasm");
                        std::fs::write(&p, b"\0asm\x01\0\0\0\x01\x05\x01\x60").unwrap();
                        p
                    }
                };
                let side = k.new.is_some() && r.bool();
                let args = if side { cmdline(&k.q, k.f, &[], &k.input, Some(&bad)) } else { cmdline(&k.q, k.f, &[], &bad, k.new.as_deref()) };
                let d = proc::run(&args);
                let mut res = refused(&d);
                if res.is_ok() && !d.out.is_empty() {
                    res = Err("prints a result nevertheless".into());
                }
                c.count("unusable input");
                ev(c, &format!("input {:?} {}", bad.file_name(), side), &d, res);
            }
            _ => {
                let mut args = k.args(&[]);
                let at = 1;
                let what: Vec<OsString> = match r.below(6) {
                    0 => vec!["--mode".into(), r.pick(&["WASM", "elf", "", "wasm ", "auto,wasm"]).to_string().into()],
                    1 => vec!["-f".into(), r.pick(&["xml", "JSON", "", "text "]).to_string().into()],
                    2 => vec!["--no-such-option".into()],
                    3 => {
                        let opt = match k.q.sub {
                            "paths" | "dominators" => "-d",
                            _ => "-n",
                        };
                        vec![opt.into(), r.pick(&["-1", "x", "1.5", "4294967296", "", "0x10"]).to_string().into()]
                    }
                    4 => {
                        if matches!(k.q.sub, "top" | "garbage") {
                            continue;
                        }
                        args.push(r.pick(&["(", "[z-a]", "\\", "x{2,1}"]).to_string().into());
                        vec!["--regex".into()]
                    }
                    _ => {
                        if k.q.sub != "top" {
                            continue;
                        }
                        vec!["-r".into()]
                    }
                };
                if args.iter().any(|a| *a == what[0]) && what[0] != *"--regex" {
                    continue; // given twice is another error
                }
                if what[0] == *"--regex" && k.q.regex {
                    // already there
                } else {
                    for (n, w) in what.iter().enumerate() {
                        args.insert(at + n, w.clone());
                    }
                }
                let d = proc::run(&args);
                let mut res = refused(&d);
                if res.is_ok() && !d.out.is_empty() {
                    res = Err("prints a result nevertheless".into());
                }
                c.count("invalid option");
                ev(c, &format!("{:?}", what), &d, res);
            }
        }
    }
    for m in fails {
        c.fail(m);
    }
}
