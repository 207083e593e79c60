//! C19: the WebAssembly library, called the way its JavaScript bindings do,
//! against the command.
use super::{cli, fuzz};
use crate::ctx::Ctx;
use crate::json::{self, J};
use crate::proc;
use crate::rng::Rng;
use crate::sut::*;
use crate::wasmgen;
use crate::Prop;
use std::cell::RefCell;
use std::ffi::OsString;
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Write};
use std::path::PathBuf;
use std::process::{Child, ChildStdout, Command, Stdio};
use twiggy_traits::ParseMode;

pub const C19: Prop = Prop {
    id: "C19",
    rule: "Histories of up to sixteen calls on one instance of the wasm32 library under Node: random modules (generated, damaged but accepted, real ones) parsed, options constructed and set in any order and set again between calls, read back, and top, dominators, paths, monos and diff called on any of the parsed modules; evaluation = one call's string compared byte for byte with the JSON output of the command line's analysis of freshly read modules under the options set (part of them by the real command), or one option read back. Non-trivial: every call, and every option read back; distinct by module, history and options.",
    quick: 48_000,
    thorough: 2_000_000,
    run: c19,
    level: "exploration",
    cpu: 100,
    must: &["top", "dominators", "paths", "monos", "diff", "option read back", "option at its default", "options set again after a call", "items used again", "generated modules", "damaged but accepted modules", "real modules", "compared with the command", "refused in both", "two modules in one instance", "object freed"],
    // Node reserves address space it never touches
    mem: 400,
};

struct Node {
    ch: Child,
    out: BufReader<ChildStdout>,
}
thread_local! {
    static NODE: RefCell<Option<Node>> = const { RefCell::new(None) };
}
fn library() -> PathBuf {
    crate::root().join("target/api/wasm32-unknown-unknown/debug/twiggy_wasm_api.wasm")
}
pub fn ask(line: &str) -> Result<Vec<J>, String> {
    NODE.with(|n| {
        let mut n = n.borrow_mut();
        if n.is_none() {
            let mut ch = Command::new("node").arg(crate::root().join("harness/api.js")).arg(library()).stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().expect("node starts");
            let out = BufReader::new(ch.stdout.take().unwrap());
            *n = Some(Node { ch, out });
        }
        let k = n.as_mut().unwrap();
        let w = k.ch.stdin.as_mut().unwrap();
        w.write_all(line.as_bytes()).and_then(|_| w.write_all(b"\n")).and_then(|_| w.flush()).map_err(|e| e.to_string())?;
        let mut a = String::new();
        k.out.read_line(&mut a).map_err(|e| e.to_string())?;
        if a.is_empty() {
            let st = k.ch.wait();
            *n = None;
            return Err(format!("node ended: {:?}", st));
        }
        match json::parse(a.trim())? {
            J::Arr(v) => Ok(v),
            _ => Err(format!("unexpected answer {}", a)),
        }
    })
}

/// Number settings and switches of an options object: (setter and getter, flag, default).
struct Kind {
    name: &'static str,
    nums: &'static [(&'static str, &'static str, u32)],
    flags: &'static [(&'static str, &'static str)],
}
const KINDS: [Kind; 5] = [
    Kind { name: "top", nums: &[("max_items", "-n", u32::MAX)], flags: &[("retaining_paths", "-r"), ("retained", "--retained")] },
    Kind { name: "dominators", nums: &[("max_depth", "-d", u32::MAX), ("max_rows", "-r", u32::MAX)], flags: &[("using_regexps", "--regex")] },
    Kind { name: "paths", nums: &[("max_depth", "-d", 10), ("max_paths", "-r", 10)], flags: &[("descending", "--descending"), ("using_regexps", "--regex")] },
    Kind { name: "monos", nums: &[("max_generics", "-m", 10), ("max_monos", "-n", 10)], flags: &[("only_generics", "-g")] },
    Kind { name: "diff", nums: &[("max_items", "-n", 20)], flags: &[("using_regexps", "--regex")] },
];

#[derive(Clone)]
struct Opts {
    kind: usize,
    nums: Vec<Option<u32>>,
    flags: Vec<bool>,
    names: Vec<String>,
    used: bool,
}
impl Opts {
    fn args(&self) -> Vec<String> {
        let k = &KINDS[self.kind];
        let mut a = vec![];
        for (v, (_, f, _)) in self.nums.iter().zip(k.nums) {
            if let Some(v) = v {
                a.extend([f.to_string(), v.to_string()]);
            }
        }
        for (v, (_, f)) in self.flags.iter().zip(k.flags) {
            if *v {
                a.push(f.to_string());
            }
        }
        if !self.names.is_empty() {
            a.push("--".into());
            a.extend(self.names.iter().cloned());
        }
        a
    }
}
struct Module {
    path: PathBuf,
    names: Vec<String>,
    big: bool,
    uses: usize,
}
fn cut(s: &str) -> String {
    s.chars().take(300).collect()
}
pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b {
        let _ = write!(s, "{:02x}", x);
    }
    s
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap_or(0)).collect()
}

fn bytes(c: &mut Ctx, r: &mut Rng) -> Vec<u8> {
    let w = wasmgen::Cfg { max_funcs: 10, max_other: 4, stmts: 4, hostile_names: r.chance(1, 3), ..Default::default() };
    match r.below(12) {
        0..=7 => {
            c.count("generated modules");
            wasmgen::gen(r, &w).bytes
        }
        8 | 9 => {
            for _ in 0..40 {
                let (a, o) = (wasmgen::gen(r, &w).bytes, wasmgen::gen(r, &w).bytes);
                let b = fuzz::damage_wasm(r, &a, &o);
                if std::panic::catch_unwind(|| twiggy_parser::parse(&b).is_ok()).unwrap_or(false) {
                    c.count("damaged but accepted modules");
                    return b;
                }
            }
            bytes(c, r)
        }
        _ => {
            let s: Vec<PathBuf> = cli::samples().into_iter().filter(|p| p.extension().map_or(false, |e| e == "wasm") && p.metadata().map_or(false, |m| m.len() < 300_000)).collect();
            if s.is_empty() || !r.chance(1, 3) {
                return bytes(c, r);
            }
            c.count("real modules");
            std::fs::read(r.pick(&s)).unwrap()
        }
    }
}

/// What a call of the history must give.
enum Want {
    Nothing,
    Index,
    Num(u32, String),
    Text(Result<String, String>, String),
}

fn c19(c: &mut Ctx) {
    let mut rr = c.rng(19);
    let r = &mut rr;
    let mut calls: Vec<String> = vec!["[\"start\"]".into()];
    let mut wants = vec![Want::Nothing];
    let mut mods: Vec<(usize, Module)> = vec![];
    let mut opts: Vec<(usize, Opts)> = vec![];
    let mut next = 0;
    let mut tag = String::new();
    for i in 0..r.range(1, 3) {
        let b = if c.case == 0 && i == 0 { b"\0asm\x01\0\0\0\x01\x04\x01\x60\0\0\x03\x02\x01\0\x0a\x04\x01\x02\0\x0b\0\x0c\x04name\x01\xff\xff\xff\xff\x0f\x01".to_vec() } else { bytes(c, r) };
        let p = c.scratch.join(format!("c19-{}.wasm", i));
        std::fs::write(&p, &b).unwrap();
        let it = match twiggy_parser::read_and_parse(&p, ParseMode::Auto) {
            Ok(i) => i,
            Err(_) => {
                // the library has no way to say no but to trap
                if !mods.is_empty() {
                    continue;
                }
                calls.push(format!("[\"parse\",\"{}\"]", hex(&b)));
                wants.push(Want::Text(Err("refused".into()), "parse".into()));
                break;
            }
        };
        let mut names: Vec<String> = it.iter().map(|i| i.name().to_string()).filter(|n| !n.contains('\0')).collect();
        let big = names.len() > 7;
        names.truncate(200);
        calls.push(format!("[\"parse\",\"{}\"]", hex(&b)));
        wants.push(Want::Index);
        let _ = write!(tag, "{:x} ", crate::rng::hash_bytes(&b));
        mods.push((next, Module { path: p, names, big, uses: 0 }));
        next += 1;
    }
    if mods.len() > 1 {
        c.count("two modules in one instance");
    }
    let steps = if mods.is_empty() { 0 } else { r.range(4, 24) };
    for _ in 0..steps {
        // an options object, new or used
        if opts.is_empty() || r.chance(1, 4) {
            let kind = r.below(KINDS.len());
            let k = &KINDS[kind];
            calls.push(format!("[\"new\",\"{}\"]", k.name));
            wants.push(Want::Index);
            opts.push((next, Opts { kind, nums: vec![None; k.nums.len()], flags: vec![false; k.flags.len()], names: vec![], used: false }));
            next += 1;
        }
        let at = r.below(opts.len());
        let (oi, mut o) = opts[at].clone();
        let k = &KINDS[o.kind];
        if r.bool() {
            if o.used {
                c.count("options set again after a call");
            }
            for _ in 0..r.range(1, 3) {
                match r.below(3) {
                    0 => {
                        let j = r.below(k.nums.len());
                        let v = match r.below(6) {
                            0 => 0,
                            1 if k.name != "paths" => *r.pick(&[u32::MAX, u32::MAX - 1, 1 << 31]),
                            _ => r.below(7) as u32,
                        };
                        o.nums[j] = Some(v);
                        calls.push(format!("[\"set\",{},\"{}_set_{}\",{}]", oi, k.name, k.nums[j].0, v));
                        wants.push(Want::Nothing);
                    }
                    1 => {
                        let j = r.below(k.flags.len());
                        let v = r.bool();
                        o.flags[j] = v;
                        calls.push(format!("[\"set\",{},\"{}_set_{}\",{}]", oi, k.name, k.flags[j].0, v as u32));
                        wants.push(Want::Nothing);
                    }
                    _ if k.name == "paths" => {
                        let m = r.below(mods.len());
                        let n = match r.below(12) {
                            0 => "no such item".to_string(),
                            1 => "(".to_string(),
                            2 => ".".to_string(),
                            3 => String::new(),
                            _ if mods[m].1.names.is_empty() => "x".to_string(),
                            _ => r.pick(&mods[m].1.names).clone(),
                        };
                        calls.push(format!("[\"str\",{},\"paths_add_function\",\"{}\"]", oi, hex(n.as_bytes())));
                        wants.push(Want::Nothing);
                        o.names.push(n);
                    }
                    _ => {}
                }
            }
        }
        if r.chance(1, 3) {
            // every getter gives what was set last
            for (j, (g, _, d)) in k.nums.iter().enumerate() {
                calls.push(format!("[\"get\",{},\"{}_{}\"]", oi, k.name, g));
                if o.nums[j].is_none() {
                    c.count("option at its default");
                }
                wants.push(Want::Num(o.nums[j].unwrap_or(*d), format!("{} of {}", g, k.name)));
            }
            for (j, (g, _)) in k.flags.iter().enumerate() {
                calls.push(format!("[\"get\",{},\"{}_{}\"]", oi, k.name, g));
                wants.push(Want::Num(o.flags[j] as u32, format!("{} of {}", g, k.name)));
            }
        }
        let m = r.below(mods.len());
        let mut new = None;
        let mut ok = true;
        if k.name == "diff" {
            // a module cannot be compared with itself: both are borrowed mutably
            let b = r.below(mods.len());
            ok = b != m;
            new = Some(b);
        }
        if k.name == "paths" {
            // keep what is printed small
            let d = o.nums[0].unwrap_or(10);
            let n = o.nums[1].unwrap_or(10);
            ok = !mods[m].1.big || n <= 1 && d <= 10 || d <= 3;
        }
        if ok && r.chance(4, 5) {
            let a = o.args();
            let native = options(k.name, &a).unwrap_or_else(|e| panic!("{} {:?}: {}", k.name, a, e));
            let mut it = twiggy_parser::read_and_parse(&mods[m].1.path, ParseMode::Auto).unwrap();
            let mut other = new.map(|b| twiggy_parser::read_and_parse(&mods[b].1.path, ParseMode::Auto).unwrap());
            let want = run_fmt(&mut it, other.as_mut(), &native, Fmt::Json);
            if let (Ok(w), true) = (&want, r.chance(1, 40)) {
                c.count("compared with the command");
                let mut v: Vec<OsString> = vec![k.name.into(), "-f".into(), "json".into()];
                let cut = a.iter().position(|x| x == "--").unwrap_or(a.len());
                v.extend(a[..cut].iter().map(OsString::from));
                v.push("--".into());
                v.push(mods[m].1.path.clone().into());
                if let Some(b) = new {
                    v.push(mods[b].1.path.clone().into());
                }
                v.extend(o.names.iter().map(OsString::from));
                let d = proc::run(&v);
                if !d.ok() || d.out != w.as_bytes() {
                    c.fail(format!("{:?} prints another text than the analysis gives: {}", v, d.brief()));
                }
            }
            let refused = want.is_err();
            c.count(if refused { "refused in both" } else { k.name });
            if mods[m].1.uses > 0 {
                c.count("items used again");
            }
            mods[m].1.uses += 1;
            let mut call = format!("[\"run\",{},\"{}\"", mods[m].0, k.name);
            if let Some(b) = new {
                let _ = write!(call, ",{}", mods[b].0);
                mods[b].1.uses += 1;
            }
            let _ = write!(call, ",{}]", oi);
            let _ = write!(tag, "{} {} {:?} {:?};", k.name, m, new, a);
            wants.push(Want::Text(want, format!("{} {:?} (call {} of the history)", k.name, a, calls.len())));
            calls.push(call);
            o.used = true;
            if refused {
                break;
            }
        }
        opts[at].1 = o;
        if r.chance(1, 10) {
            c.count("object freed");
            let (i, o) = opts.swap_remove(at);
            calls.push(format!("[\"free\",{},\"{}\"]", i, KINDS[o.kind].name));
            wants.push(Want::Nothing);
        }
    }
    let line = format!("[{}]", calls.join(","));
    if let Some(f) = std::env::var_os("VH_LINE") {
        let _ = std::fs::write(f, format!("{}\n", line));
    }
    let got = match ask(&line) {
        Ok(g) => g,
        Err(e) => return c.fail(format!("the library's host: {}", e)),
    };
    for (i, w) in wants.iter().enumerate() {
        let show = || calls.iter().take(i + 1).map(|x| x.chars().take(120).collect::<String>()).collect::<Vec<_>>().join(" ");
        let Some(g) = got.get(i) else { return c.fail(format!("no answer to call {}: {}", i, show())) };
        let trap = g.get("trap").and_then(|x| x.str());
        if let (Some(t), false) = (trap, matches!(w, Want::Text(Err(_), _))) {
            let at = g.get("at").and_then(|x| x.str()).unwrap_or("");
            return c.fail_sig(&format!("wasm32:{}", at), format!("call {} trapped ({} in {}): {}", i, t, at, show()));
        }
        match w {
            Want::Nothing | Want::Index => {}
            Want::Num(n, what) => {
                c.count("option read back");
                c.eval(format!("{} {} {}", what, n, tag).as_bytes());
                if g.num() != Some(f64::from(*n)) {
                    return c.fail(format!("{} reads {:?} instead of {}: {}", what, g.num(), n, show()));
                }
            }
            Want::Text(Ok(t), what) => {
                c.eval(format!("{} {} {}", what, i, tag).as_bytes());
                let s = unhex(g.str().unwrap_or(""));
                c.sample(|| format!("{}: {} bytes equal", what, t.len()));
                if s != t.as_bytes() {
                    return c.fail(format!("{} gives {:?} where the command gives {:?}: {}", what, cut(&String::from_utf8_lossy(&s)), cut(t), show()));
                }
            }
            Want::Text(Err(e), what) => {
                c.eval(format!("{} {} {}", what, i, tag).as_bytes());
                if trap.is_none() {
                    return c.fail(format!("{} is refused by the command ({}) but not by the library: {}", what, e, show()));
                }
            }
        }
    }
}
